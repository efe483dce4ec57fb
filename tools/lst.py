#!/usr/bin/env python3
"""Developer tool: list specified functions with the state each one touches."""
import sys, json, glob, re
sys.path.insert(0, "/verif")
from pg.summary import *
from pg.terms import *
pat = re.compile(sys.argv[1])
for f in sorted(glob.glob("/verif/pg/specs/*.json")):
    m = f.split("/")[-1][:-5]
    if not pat.search(m): continue
    print("##", m)
    for n, d in json.load(open(f)).items():
        reset(); s = Reader(d["tab"]).summary(d)
        ks = {}
        for l in s.lines:
            pl = pp_place(l.place) if l.place else ""
            k = l.kind + " " + re.sub(r"\[.*?\]|\(.*?\)", "", pl)[:40]
            ks[k] = ks.get(k, 0) + 1
        print(" ", n, "|", ", ".join(f"{k}x{v}" for k, v in ks.items())[:200], "| ret" if s.ret is not None and s.ret != ("unit",) else "", f"| P{len(s.panics)}" if s.panics else "")
