#!/usr/bin/env python3
"""plant.py SPEC.py [id...]: writes seeded/<id>/ from bug specs and validates each one
(patch applies, builds, passes the stable tests, demo passes without and fails with it)
and reports whether the property's own check catches it. Development tool; no check uses it."""
import json, os, subprocess, sys, textwrap
V="/verif"; R=os.environ.get("PLANT_REPO","/tmp/prepo") # a scratch copy of /repo
HEAD='''package dateparser_test

import (
	"testing"
	"time"
%s
	dps "github.com/markusmobius/go-dateparser"
	"github.com/markusmobius/go-dateparser/date"
)

var _ = time.UTC
var _ date.Date

type cfgT = dps.Configuration

func at(y, m, d, h, mi, s int) time.Time {
	return time.Date(y, time.Month(m), d, h, mi, s, 0, time.UTC)
}

func want(t *testing.T, cfg *dps.Configuration, str string, w time.Time) {
	t.Helper()
	dt, err := dps.Parse(cfg, str)
	if err != nil || !dt.Time.Equal(w) {
		t.Errorf("%%q: got %%v (%%v), want %%v", str, dt.Time, err, w)
	}
}

func TestZZDemo(t *testing.T) {
%s
}
%s
'''
SH='''#!/bin/bash
# Runs demo_test.go as an in-package test of the tree in the current directory.
D=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
R=$PWD
T=$(mktemp -d)
cp "$D/demo_test.go.txt" "$T/zz_demo_test.go"
echo "{\\"Replace\\":{\\"$R/zz_demo_test.go\\":\\"$T/zz_demo_test.go\\"}}" > "$T/o.json"
go test %s-overlay "$T/o.json" -vet=off -count=%s -run TestZZDemo . ; rc=$?
rm -r -- "$T"
exit $rc
'''
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
def restore(): sh(f"git -C {R} checkout -- .")
def main():
    ns={}; exec(open(sys.argv[1]).read(),ns)
    only=sys.argv[2:]
    if R!="/repo" and sh(f"git -C {R} rev-parse HEAD").stdout!=sh("git -C /repo rev-parse HEAD").stdout:
        sh(f"rm -rf {R}; cp -a /repo {R}")
    for b in ns["BUGS"]:
        if only and b["id"] not in only: continue
        assert not sh(f"git -C {R} status --porcelain").stdout, "repo dirty"
        d=f"{os.environ.get('PLANT_OUT',V+'/seeded')}/{b['id']}"; os.makedirs(d,exist_ok=True)
        try:
            for f,o,n in b["edits"]:
                s=open(f"{R}/{f}").read()
                assert s.count(o)==1,(b["id"],f,s.count(o),o)
                open(f"{R}/{f}","w").write(s.replace(o,n))
            p=sh(f"cd {R} && gofmt -l $(git diff --name-only); git diff"); 
            open(d+"/patch.diff","w").write(subprocess.run(f"git -C {R} diff",shell=True,capture_output=True,text=True).stdout)
            imps="".join(f'\t"{i}"\n' for i in b.get("imports",[]))
            open(d+"/demo_test.go.txt","w").write(HEAD%(imps,textwrap.indent(textwrap.dedent(b["demo"]).strip(),"\t"),b.get("extra","")))
            open(d+"/demo.sh","w").write(SH%(b.get("flags",""),b.get("count","1"))); os.chmod(d+"/demo.sh",0o755)
            json.dump(dict(property=b["prop"],needs=b["needs"],what_it_breaks=b["breaks"]),open(d+"/meta.json","w"),indent=1)
            env=". /opt/vp/env.sh; cd "+R+"; "
            bt=sh(env+"go build ./... && go build -tags re2_wasm ./...",executable="/bin/bash")
            if bt.returncode: print(b["id"],"BUILD FAILS",bt.stdout[-500:]); continue
            ts=sh(env+"go test -vet=off -count=1 ./... && go test -tags re2_wasm -vet=off -count=1 . ./internal/...",executable="/bin/bash")
            miss=[l for l in ts.stdout.splitlines() if "--- FAIL" in l] if ts.returncode else []
            dm=sh(f"bash {d}/demo.sh",cwd=R)
            ck=sh('true' if os.environ.get('PLANT_NOCHECK') else f"VERIF_REPO={R} ./check {b['prop']}",cwd=os.environ.get("PLANT_VERIF",V))
            restore()
            dc=sh(f"bash {d}/demo.sh",cwd=R)
            v=[l for l in ck.stdout.splitlines() if l.startswith("VIOLATION")]
            print(b["id"],"tests","FAIL "+str(sorted(miss)[:3]) if miss else "ok","| demo with",dm.returncode,"without",dc.returncode,"| check rc",ck.returncode,"viol",len(v),flush=True)
            if dm.returncode==0 : print("   DEMO DOES NOT FAIL")
            if dc.returncode: print("   DEMO FAILS CLEAN:",dc.stdout[-600:])
            if ck.returncode not in (0,1): print(ck.stdout[-400:])
        finally:
            restore()
main()
