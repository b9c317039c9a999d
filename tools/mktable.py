#!/usr/bin/env python3
# rewrites the table of planted bugs in DESIGN.md
import json,os,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=["| bug | caught by | needs | breaks |","|---|---|---|---|"]
for d in sorted(os.listdir(V+"/seeded")):
    m=json.load(open(f"{V}/seeded/{d}/meta.json"))
    rows.append(f"| {d} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |".replace("\n"," "))
p=V+"/DESIGN.md"; s=open(p).read()
s=re.sub(r"<!-- table -->.*<!-- end -->",lambda _:"<!-- table -->\n"+"\n".join(rows)+"\n<!-- end -->",s,flags=re.S)
open(p,"w").write(s)
