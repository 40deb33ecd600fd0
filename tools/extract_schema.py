#!/usr/bin/env python3
"""One-off: derives sim/schema.json (the reference model's schema snapshot) from the pinned sources.
It is NOT run by any check: the committed snapshot is the oracle."""
import re, json, sys, os, collections
# --loose: the definitions and headers that MxMessage does not carry (sim/loose/schema.json)
loose="--loose" in sys.argv; args=[a for a in sys.argv[1:] if a!="--loose"]
repo=args[0] if args else "/repo"
env=open(f"{repo}/src/mx_envelope.rs").read()
docs=re.findall(r'#\[serde\(rename = "(\w+)"\)\]\s*(\w+)\(Box<crate::document::(\w+)::(\w+)>\)',env)
reg=open(f"{repo}/src/message_registry.rs").read()
full=dict((e,(s,f)) for s,f,r,e in re.findall(r'short_form: "([^"]+)",\s*full_form: "([^"]+)",\s*rust_type_name: "([^"]+)",\s*xml_element_name: "([^"]+)"',reg))
types={}
def load(path,mod):
    src=open(path).read()
    src=re.sub(r'//[^\n]*','',src)
    src=re.sub(r'#\[serde\(\s*([^\]]*?),?\s*\)\]',lambda m:'#[serde('+re.sub(r'\s*\n\s*',' ',m.group(1))+')]',src)
    for m in re.finditer(r'((?:#\[[^\]]*\]\s*)*)pub (struct|enum) (\w+)\s*(\{|\(|;)',src):
        attrs,kind,name,open_=m.groups()
        if open_!='{':
            end=src.index(';',m.start()); body=src[m.end():end]
            print("NONBRACE",mod,name,open_,body.strip()); continue
        d=1;j=m.end()
        while d: 
            c=src[j]; d+= (c=='{')-(c=='}'); j+=1
        body=src[m.end():j-1]
        sattr=[a for a in re.findall(r'#\[serde\((.*?)\)\]',attrs)]
        key=f"{mod}::{name}"
        if kind=='struct':
            fs=[]
            for fm in re.finditer(r'((?:#\[[^\n]*\]\s*)*)pub (?:r#)?(\w+):\s*([^,\n]+(?:<[^\n]*>)?),?',body):
                fa,fn,ft=fm.groups()
                ft=ft.strip().rstrip(',')
                ra=re.search(r'rename = "([^"]+)"',fa)
                others=re.sub(r'rename = "[^"]+"','',fa)
                opt=vec=False;t=ft.replace(' ','')
                if t.startswith('Option<'): opt=True;t=t[7:-1]
                if t.startswith('Vec<'): vec=True;t=t[4:-1]
                if t.startswith('Box<'): t=t[4:-1]
                if t.startswith('Vec<'): vec=True;t=t[4:-1]
                if t.startswith('Box<'): t=t[4:-1]
                skip='skip_serializing_if' in fa; default='default' in fa
                if opt and not skip: print("OPT WITHOUT SKIP",key,fn)
                extra=re.sub(r'#\[serde\(|\)\]|skip_serializing_if = "Option::is_none"|[\s,]','',others)
                if extra: print("EXTRA",key,fn,extra)
                fs.append(dict(n=ra.group(1) if ra else fn,t=t,o=int(opt),v=int(vec)))
            types[key]=dict(k='s',f=fs)
            if sattr: types[key]['a']=sattr; print("SATTR",key,sattr)
        else:
            vs=[]
            for vm in re.finditer(r'((?:#\[[^\n]*\]\s*)*)(\w+)\s*(\([^)]*\))?\s*,',body):
                va,vn,vt=vm.groups()
                if vt: print("DATA VARIANT",key,vn,vt)
                ra=re.search(r'rename = "([^"]+)"',va)
                vs.append(ra.group(1) if ra else vn)
            types[key]=dict(k='e',c=vs)
out=dict(docs=[],types=types)
if loose:
    carried={m for _,_,m,_ in docs}|{"bah_pacs_008_001_08"}; docs=[]; full={}
    for d in ["document","header"]:
        for mod in sorted(f[:-3] for f in os.listdir(f"{repo}/src/{d}") if f!="mod.rs"):
            if mod in carried: continue
            load(f"{repo}/src/{d}/{mod}.rs",mod)
            if d=="header": st="BusinessApplicationHeaderV02"
            else:
                mine=[k.split("::")[1] for k in types if k.startswith(mod+"::") and types[k]['k']=='s']
                used={f['t'] for k,t in types.items() if k.startswith(mod+"::") and t['k']=='s' for f in t['f']}
                st,=[t for t in mine if t not in used]
            docs.append((mod,mod,mod,st)); full[mod]=(mod,mod+".01")
    types["none::Hdr"]=dict(k='s',f=[])
for el,var,mod,st in docs:
    if not loose: load(f"{repo}/src/document/{mod}.rs",mod)
    out['docs'].append(dict(elem=el,variant=var,root=f"{mod}::{st}",short=full[el][0],full=full[el][1],rust=st))
hm=re.search(r'pub use (\w+)::BusinessApplicationHeaderV02|AppHdr',open(f"{repo}/src/header/mod.rs").read())
print(open(f"{repo}/src/header/mod.rs").read()[-600:])
if loose: out['header']="none::Hdr"
else:
    load(f"{repo}/src/header/bah_pacs_008_001_08.rs","bah")
    out['header']="bah::BusinessApplicationHeaderV02"
# resolve type refs
prim=collections.Counter()
for k,t in types.items():
    if t['k']!='s': continue
    mod=k.split('::')[0]
    for f in t['f']:
        q=f"{mod}::{f['t']}"
        if q in types: f['t']=q
        else:
            prim[f['t']]+=1
print(prim)
# reachable only
seen=set();st=[d['root'] for d in out['docs']]+[out['header']]
while st:
    k=st.pop()
    if k in seen or k not in types: continue
    seen.add(k)
    if types[k]['k']=='s': st+= [f['t'] for f in types[k]['f']]
print("reachable",len(seen),"of",len(types))
out['types']={k:types[k] for k in sorted(seen)}
print("fields",sum(len(t['f']) for t in out['types'].values() if t['k']=='s'),"enum types",sum(t['k']=='e' for t in out['types'].values()),"codes",sum(len(t['c']) for t in out['types'].values() if t['k']=='e'))
json.dump(out,open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"sim/loose/schema.json" if loose else "sim/schema.json"),"w"),separators=(',',':'))
