#!/usr/bin/env python3
"""refresh the table of planted bugs in DESIGN.md"""
import glob,json,os,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=[]
for m in sorted(glob.glob(V+"/seeded/*/meta.json")):
    d=json.load(open(m)); rows.append("| %s | %s | %s |"%(os.path.basename(os.path.dirname(m)),d["needs"].replace("|","/"),d["property"]))
p=V+"/DESIGN.md"; s=open(p).read()
a=s.index("| seed | needs | caught by |"); h=s[a:].split("\n\n",1)
s=s[:a]+"| seed | needs | caught by |\n|------|-------|-----------|\n"+"\n".join(rows)+"\n\n"+h[1]
open(p,"w").write(s)
