#!/usr/bin/env python3
"""gen_costs.py DIR: writes tools/costs.json from the outputs ID.quick.out and ID.thorough.out in DIR (maintenance tool)."""
import re, sys, glob, json, os
here = os.path.dirname(os.path.abspath(__file__)); f = os.path.join(here, "costs.json")
c = json.load(open(f)) if os.path.exists(f) else {}
for p in sorted(glob.glob(sys.argv[1] + "/P*.out")):
    i, t, _ = os.path.basename(p).split(".")
    m = re.findall(r"states=(\d+) transitions=(\d+) traces=(\d+) wall=([\d.]+)s violations=0", open(p).read())
    if m: c.setdefault(i, {})[t] = dict(zip(("states", "transitions", "traces"), map(int, m[-1][:3]))) | {"wall": round(float(m[-1][3]))}
json.dump(dict(sorted(c.items())), open(f, "w"), indent=1)
