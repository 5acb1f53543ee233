#!/usr/bin/env python3
"""Rewrite the planted-bug table of DESIGN.md from /verif/seeded (a development tool).  The catches column is
read from the table itself unless given as id=check arguments (default: the check of the property)."""
import json,glob,re,sys,os
D="/verif/DESIGN.md"; t=open(D).read()
B,E="<!-- seeds -->","<!-- /seeds -->"
old=t.split(B)[1].split(E)[0]
c=dict(re.findall(r"^\| (\S+) \|.*\| ([^|]*) \|$",old,re.M)); c.update(a.split("=") for a in sys.argv[1:])
rows=["| bug | needs | caught by |","|---|---|---|"]
for d in sorted(glob.glob("/verif/seeded/*/")):
    i=os.path.basename(d[:-1]); m=json.load(open(d+"meta.json"))
    rows.append(f"| {i} | {m['needs'].replace('|','/')} | {c.get(i,m['property'])} |")
open(D,"w").write(t.replace(B+old+E,B+"\n"+"\n".join(rows)+"\n"+E))
