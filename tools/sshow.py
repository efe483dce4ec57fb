#!/usr/bin/env python3
"""Developer tool: print canonical summaries of functions matching a regex."""
import re, sys, time
sys.path.insert(0, "/verif")
from pg import facts, engine
from pg.summary import *
from pg.terms import *
F = facts.load("/tmp/w/facts.json")
pat = re.compile(sys.argv[1])
an = engine.Analyzer(F)
for b in F.roots:
    if pat.search(b["def"]) and "blocks" in b:
        t=time.time()
        print("=====", b["def"], b["span"], "|", b.get("trait"))
        r = summarise(an, b)
        print("  ret:", pp(r.ret) if r.ret else r.ret)
        for e in r.lines: print("   ", e.text())
        for p in r.panics: print("    PANIC", pp_c(p[0]), p[1],  p[3])
        print("  %.2fs"%(time.time()-t))
