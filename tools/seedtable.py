#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md section 5 from seeded/*/meta.json."""
import json,glob,os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
print("| planted bug | property | what it breaks | what it needs |\n|---|---|---|---|")
def c(s):
    return " ".join(str(s).replace("|","/").split())
for d in sorted(glob.glob(root+"/seeded/*/meta.json")):
    m=json.load(open(d)); n=os.path.basename(os.path.dirname(d))
    print(f"| {n} | {m['property']} | {c(m['what_it_breaks'])} | {c(m['needs'])} |")
