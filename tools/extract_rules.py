#!/usr/bin/env python3
"""One-off: derives sim/rules.json (length and pattern rules per field) from the pinned sources.
It is NOT run by any check: the committed snapshot is the oracle."""
import re, json, sys
loose="--loose" in sys.argv; args=[a for a in sys.argv[1:] if a!="--loose"]
repo=args[0] if args else "/repo"
at="/verif/sim/loose/" if loose else "/verif/sim/"
schema=json.load(open(at+"schema.json"))
mods=sorted({k.split("::")[0] for k in schema["types"]}-{"none"})
pats=[]; out={}
path=lambda m: f"{repo}/src/header/bah_pacs_008_001_08.rs" if m=="bah" else f"{repo}/src/header/{m}.rs" if m.startswith("bah_") else f"{repo}/src/document/{m}.rs"
CALL=re.compile(r'helpers::validate_(length|pattern)\(\s*(&self\.(?:r#)?(\w+)|val|item),\s*"([^"]*)",\s*(?:(Some\(\d+\)|None),\s*(Some\(\d+\)|None)|("(?:[^"\\]|\\.)*")),\s*&helpers::child_path\(path, "([^"]*)"\),\s*config,\s*collector,?\s*\)')
NEST=re.compile(r'(self\.(?:r#)?(\w+)|val|item)\s*\.validate\(\s*&helpers::child_path\(path, "([^"]*)"\),\s*config,\s*collector,?\s*\)')
num=lambda s: None if s in(None,"None") else int(re.search(r"\d+",s).group())
for m in mods:
    src=open(path(m)).read()
    rename={}
    for sm in re.finditer(r'pub struct (\w+) \{(.*?)\n\}',src,re.S):
        for fm in re.finditer(r'rename = "([^"]+)".*?\n\s*(?:#\[[^\n]*\]\s*)*pub (?:r#)?(\w+):',re.sub(r'#\[serde\(\s*([^\]]*?),?\s*\)\]',lambda x:'#[serde('+re.sub(r'\s*\n\s*',' ',x.group(1))+')]',sm.group(2))):
            rename[(sm.group(1),fm.group(2))]=fm.group(1)
    for im in re.finditer(r'impl Validate for (\w+) \{\s*fn validate\(&self, _?path: &str, _?config: &ParserConfig, _?collector: &mut ErrorCollector\) \{(.*?)\}\n\}',src,re.S):
        t,b=im.groups(); key=f"{m}::{t}"
        if key not in schema["types"]: print("not in schema",key); continue
        if schema["types"][key]["k"]!="s": continue
        # events in order
        ev=[]
        for x in re.finditer(r'if let Some\(ref (val|vec)\) = self\.(?:r#)?(\w+)(\s*&& config\.validate_optional_fields)?',b): ev.append((x.start(),"opt",x))
        for x in re.finditer(r'for item in (&self\.(?:r#)?(\w+)|vec)',b): ev.append((x.start(),"for",x))
        for x in CALL.finditer(b): ev.append((x.start(),"call",x))
        for x in NEST.finditer(b): ev.append((x.start(),"nest",x))
        ev.sort(key=lambda e:e[0])
        ncall=len(re.findall(r'helpers::validate_',b)); nnest=len(re.findall(r'\.validate\(',b))
        cur=None; gated=False; item=None; rules=[]; c=n=0
        for _,k,x in ev:
            if k=="opt": cur=x.group(2); gated=bool(x.group(3))
            elif k=="for": item=cur if x.group(1)=="vec" else x.group(2); 
            else:
                who=x.group(2) if k=="call" else x.group(1)
                direct=x.group(3) if k=="call" else x.group(2)
                f=direct or (item if who=="item" else cur)
                g=gated and not direct and not(who=="item" and item!=cur)
                name=rename[(t,f)]
                if k=="call":
                    c+=1
                    assert x.group(8)==x.group(4),(key,x.group(0))
                    if x.group(1)=="length": rules.append(dict(f=name,n=x.group(4),g=int(g),min=num(x.group(5)),max=num(x.group(6))))
                    else:
                        p=json.loads(x.group(7))
                        if p not in pats: pats.append(p)
                        rules.append(dict(f=name,n=x.group(4),g=int(g),p=pats.index(p)))
                else:
                    n+=1; rules.append(dict(f=name,n=x.group(3),g=int(g)))
        assert c==ncall and n==nnest,(key,c,ncall,n,nnest)
        fields={f["n"]:f for f in schema["types"][key]["f"]}
        for r in rules:
            assert r["f"] in fields,(key,r)
            ref=fields[r["f"]]["t"] in schema["types"]
            assert ref==("p" not in r and "min" not in r),(key,r,fields[r["f"]])
            if r["n"]!=r["f"]: print("name",key,r["f"],r["n"])
        miss=[f for f,d in fields.items() if d["t"] in schema["types"] and f not in [r["f"] for r in rules]]
        if miss: print("unvalidated child",key,miss)
        out[key]=rules
for k,v in schema["types"].items():
    if v["k"]=="s" and k not in out and k!="none::Hdr": print("no impl",k)
json.dump(dict(patterns=pats,rules=out),open(at+"rules.json","w"),separators=(",",":"))
print(len(out),"types",sum(len(v) for v in out.values()),"rules",len(pats),"patterns", sum('p' in r for v in out.values() for r in v), sum('min' in r for v in out.values() for r in v), sum(r['g'] for v in out.values() for r in v))
