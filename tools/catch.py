#!/usr/bin/env python3
"""writes the table of planted changes into DESIGN.md (between the markers)"""
import json,os,re
base=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=["| planted change | caught by | breaks | needs |","|---|---|---|---|"]
for s in sorted(os.listdir(base+"/seeded")):
    m=json.load(open(f"{base}/seeded/{s}/meta.json"))
    by=m.get("caught_by") or m["property"]
    cl=lambda t:t.replace("|","/").replace("\n"," ")
    rows.append(f"| {s} | {by} | {cl(m['what_it_breaks'])} | {cl(m['needs'])} |")
d=open(base+"/DESIGN.md").read()
b,e="<!-- planted begin -->","<!-- planted end -->"
assert b in d
d=d[:d.index(b)+len(b)]+"\n"+"\n".join(rows)+"\n"+d[d.index(e):]
open(base+"/DESIGN.md","w").write(d)
