#!/usr/bin/env python3
"""Fills the generated parts of DESIGN.md: findings and planted bugs."""
import json,glob,os,re
os.chdir(os.path.dirname(os.path.abspath(__file__))+"/..")
s=open("DESIGN.md").read()
def fill(tag,body):
    global s
    a,b=f"<!-- {tag} -->",f"<!-- /{tag} -->"
    if a in s: s=s[:s.index(a)]+a+"\n"+body+"\n"+s[s.index(b):]
    else: s=s.replace("\n"+tag+"\n","\n"+a+"\n"+body+"\n"+b+"\n",1)
fill("FINDINGS","\n".join(["| | property | fix | what failed |","|---|---|---|---|"]+["| %s | %s | %s | %s |"%(d["id"],d["property"],d["commit"],d["what"]) for d in map(json.loads,open("known-findings.jsonl"))]))
rows=[]
for p in sorted(glob.glob("seeded/*/meta.json")):
    m=json.load(open(p)); rows.append("| %s | %s | %s | %s |"%(p.split("/")[1],m["property"],m["needs"].replace("|","/"),m["property"]))
fill("SEEDED","\n".join(["| bug | breaks | needs | caught by |","|---|---|---|---|"]+rows))
open("DESIGN.md","w").write(s)
