#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and tools/caught.json."""
import json,glob,os
os.chdir(os.path.dirname(os.path.abspath(__file__))+"/..")
caught=json.load(open("tools/caught.json"))
s=open("DESIGN.md").read().split("## Planted bugs")[0]
rows=[]
for f in sorted(glob.glob("seeded/*/meta.json")):
    b=os.path.basename(os.path.dirname(f)); m=json.load(open(f)); c=caught.get(b,{})
    rows.append(f"| {b} | {m['property']} | {m['what_it_breaks']} | {c.get('by','?')} | {c.get('note','')} |")
s+="## Planted bugs\n\nEach was written from the property and the code, confirmed by its own demonstration, and kept whether caught or not.\n\"first missed\" marks those that made us strengthen the check.\n\n| bug | property | what it breaks | caught by | note |\n|---|---|---|---|---|\n"+"\n".join(rows)+"\n"
open("DESIGN.md","w").write(s)
