#!/usr/bin/env python3
"""updcaught.py ID[*]...: records seeds as caught by their property's check (* : missed at first)."""
import json,sys,os
os.chdir(os.path.dirname(os.path.abspath(__file__)))
d=json.load(open("caught.json"))
for i in sys.argv[1:]:
    m=i.endswith("*"); i=i.rstrip("*")
    p=json.load(open(f"../seeded/{i}/meta.json"))["property"]
    d[i]=p+(" (missed at first; check strengthened)" if m else "")
d={k:v for k,v in sorted(d.items()) if os.path.exists(f"../seeded/{k}/meta.json")}
json.dump(d,open("caught.json","w"),indent=1)
