#!/usr/bin/env python3
"""Builds the out-of-domain lists from the output of `harness survey rel|names`
(argv: rel-output names-output). Rows are out of the domain of C09 / C08 when
the library's tables simply have no entry for the form (it is rejected), or when
the form is ambiguous or depends on a newer CLDR than the library's."""
import sys,json,unicodedata
def fold(s): return s.lower().rstrip('.').strip()
rel,names=sys.argv[1:3]
with open('/verif/tables/rel-unsupported.tsv','w') as o:
    for l in open(rel):
        c,loc,s,*_=l.rstrip('\n').split('\t'); t=json.loads(s)
        if c=='err' or (c=='wrong' and loc not in('ro','be')) or t[:1] in '+-\u2212\u200e\u200f': o.write(f'{loc}\t{t}\n')
tab={}
for l in open('/verif/tables/names.jsonl'):
    d=json.loads(l); m={}
    for k in 'mw':
        for i,f in enumerate(d[k]):
            for x in f: m.setdefault(fold(x),set()).add((k,i))
    tab[d['l']]=m
left=[]
def amb_d(loc,s):
    return any(len(tab.get(loc,{}).get(fold(w),set())|tab.get(loc.split('-')[0],{}).get(fold(w),set()))>1 for w in s.replace(',','').split())
with open('/verif/tables/names-unsupported.tsv','w') as o:
    for l in open(names):
        p=l.rstrip('\n').split('\t'); c=p[0]
        if c.endswith('-ok'): continue
        key=json.loads(p[3]); p[2]=p[2] or c[0]
        if c.endswith('-wrong') and not (c[0]=='d' and (p[2]=='short' or key[0].isdigit() and key[-1].isdigit() and not any(ch.isalpha() for ch in key))) :
            base=p[1].split('-')[0]
            amb=len(tab.get(p[1],{}).get(fold(key),set())|tab.get(base,{}).get(fold(key),set()))>1
            if not amb and c[0]=='d': amb=amb_d(p[1],key)
            if not amb: left.append(l); continue
        o.write(f'{p[1]}\t{c[0]}\t{key}\n')
strs={'m':'17 %s 2014','w':'%s','d':'%s'}
for l in left:
    p=l.rstrip('\n').split('\t'); k=p[0][0]; s=json.loads(p[3])
    kind=k+(p[2] if k=='d' else '')
    q=p[3] if k!='m' else '"17 '+p[3][1:-1]+' 2014"'
    print(f'known: property=C08 key={kind} {p[1]} locales {q} :: the name is taken for something else (reads {p[5]})')
