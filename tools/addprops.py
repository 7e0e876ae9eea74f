# usage: addprops.py C09 C10 ... : registers check modules in harness/src/props/mod.rs
import re,sys,os
p=os.path.join(os.path.dirname(os.path.abspath(__file__)),'../harness/src/props/mod.rs')
s=open(p).read()
ids=sorted(set(re.findall(r'"(C\d\d)"',s))|set(sys.argv[1:]))
o="use crate::engine::Check;\npub mod common;\n"+"".join(f"mod {i.lower()};\n" for i in ids)
extra=re.findall(r'^pub mod (?!common).*$',s,re.M)
o+="".join(e+"\n" for e in extra)
o+="\npub fn get(id: &str) -> Option<Check> {\n    Some(match id {\n"+"".join(f'        "{i}" => {i.lower()}::check(),\n' for i in ids)+"        _ => return None,\n    })\n}\n"
open(p,'w').write(o)
