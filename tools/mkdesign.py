#!/usr/bin/env python3
"""Writes DESIGN.md from doc/design.in.md, doc/properties.py, properties.jsonl, props.py and seeded/."""
import json, os, sys, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H); sys.path.insert(0, os.path.join(H, "doc"))
import props, properties
o = ""
for l in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    a, b = properties.P[i]
    o += "### %s %s\n\nLevel: %s. *Proved, every run, for all inputs:* %s Lemmas: %s. Keys: %s.\n\n*Bounded (finder, never counted as proved):* %s Oracle: independent reference in `finder/`. Cost: about 30 s.\n\n" % (
        i, p["title"], props.LEVEL[i], a, ", ".join("`%s`" % x for x in props.LEMMAS.get(i, [])) or "none", ", ".join("`%s`" % x for x in props.KEYS[i]) or "none", b)
t = "| change | property | needs | caught by |\n|---|---|---|---|\n"
res = {}
try:
    for l in open(os.path.join(H, "doc", "seed-results.txt")):
        a = l.rstrip("\n").split(" ", 3)
        if len(a) >= 3: res[a[0]] = a[2] + (" " + a[3] if len(a) > 3 else "")
except OSError: pass
for d in sorted(glob.glob(os.path.join(H, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    k = os.path.basename(d)
    t += "| %s | %s | %s | %s |\n" % (k, m["property"], m["needs"].replace("|", "\\|"), res.get(k, "?"))
s = open(os.path.join(H, "doc", "design.in.md")).read().replace("@@PROPS@@", o).replace("@@SEEDS@@", t)
open(os.path.join(H, "DESIGN.md"), "w").write(s)
