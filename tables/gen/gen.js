// Generates the CLDR tables used as independent oracles from Node's ICU.
//   node gen.js rel > rel.jsonl ; node gen.js names > names.jsonl
const fs=require('fs');
const langs=fs.readdirSync('/repo/internal/data').filter(f=>!/^\d/.test(f)).map(f=>f.replace('.go','').replace(/-(\w)(\w{3})$/,(_,a,b)=>'-'+a.toUpperCase()+b)).filter(l=>Intl.DateTimeFormat.supportedLocalesOf([l]).length);
const mode=process.argv[2];
// regional locales: only what differs from the language's own table
const regional=[...fs.readFileSync('/repo/internal/data/04-locale-order.go','utf8').matchAll(/"([^"]+)":/g)].map(x=>x[1]).filter(l=>!langs.includes(l)&&Intl.DateTimeFormat.supportedLocalesOf([l]).length);
const parent=l=>{const p=langs.filter(x=>l.startsWith(x+'-')).sort((a,b)=>b.length-a.length)[0];return p};
const memo={};

if(mode=='rel'){
  const units=['year','month','week','day','hour','minute','second'];
  for(const l of [...langs,...regional]){
    const base=langs.includes(l)?null:memo[parent(l)]; if(base===undefined) continue;
    const out={l,ref:`${process.versions.icu}`,e:[]}; const seen=new Set();
    for(const numeric of ['always','auto']) for(const style of ['long','short']){
      const f=new Intl.RelativeTimeFormat(l,{numeric,style,numberingSystem:'latn'});
      for(const u of units) for(const n of (numeric=='auto'?[-2,-1,0,1,2]:[-1,-2,-3,-5,-10,-21,1,2,3,5,10,21])){
        const s=f.format(n,u); const k=s+'|'+n+'|'+u;
        if(seen.has(k)) continue; seen.add(k); out.e.push([s,n,u]);
      }
    }
    memo[l]=new Set(out.e.map(x=>x.join('|')));
    if(base){out.e=out.e.filter(x=>!base.has(x.join('|'))); if(!out.e.length) continue;}
    console.log(JSON.stringify(out));
  }
}
if(mode=='names'){
  for(const l of [...langs,...regional]){
    const base=langs.includes(l)?null:memo[parent(l)]; if(base===undefined) continue;
    const o={l,m:[],w:[]};
    for(let m=0;m<12;m++){
      const d=new Date(Date.UTC(2014,m,15)); const set=new Set();
      for(const month of ['long','short']){
        set.add(new Intl.DateTimeFormat(l,{month,calendar:'gregory',timeZone:'UTC',numberingSystem:'latn'}).format(d));
        for(const opts of [{day:'numeric',month,year:'numeric'},{day:'numeric',month}]){
        const p=new Intl.DateTimeFormat(l,{...opts,calendar:'gregory',timeZone:'UTC',numberingSystem:'latn'}).formatToParts(d);
        for(const x of p) if(x.type=='month') set.add(x.value);}
      }
      o.m.push([...set]);
    }
    for(let w=0;w<7;w++){
      const d=new Date(Date.UTC(2014,5,1+w)); const set=new Set();
      for(const weekday of ['long','short']){
        set.add(new Intl.DateTimeFormat(l,{weekday,timeZone:'UTC'}).format(d));
        const p=new Intl.DateTimeFormat(l,{weekday,day:'numeric',month:'long',year:'numeric',calendar:'gregory',timeZone:'UTC'}).formatToParts(d);
        for(const x of p) if(x.type=='weekday') set.add(x.value);
      }
      o.w.push([...set]);
    }
    // whole dates as the locale formats them
    o.d=[];
    for(let m=0;m<12;m++) for(const day of [3,15,28]) { const d=new Date(Date.UTC(2014,m,day));
      for(const dateStyle of ['full','long','medium','short']) o.d.push([m+1,day,dateStyle,new Intl.DateTimeFormat(l,{dateStyle,calendar:'gregory',timeZone:'UTC',numberingSystem:'latn'}).format(d)]); }
    memo[l]=JSON.parse(JSON.stringify(o));
    if(base){
      o.m=o.m.map((x,i)=>x.filter(y=>!base.m[i].includes(y))); o.w=o.w.map((x,i)=>x.filter(y=>!base.w[i].includes(y)));
      const ds=new Set(base.d.map(x=>x.join('|'))); o.d=o.d.filter(x=>!ds.has(x.join('|')));
    }
    console.log(JSON.stringify(o));
  }
}
