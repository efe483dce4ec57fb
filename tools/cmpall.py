#!/usr/bin/env python3
"""Developer tool: compare the summaries of facts JSON against the spec."""
import sys, time, json, re, glob
sys.path.insert(0, "/verif")
from pg import facts, engine
from pg.summary import *
from pg.compare import *
from pg.terms import *
from pg.props import specified
from multiprocessing import Pool
spec = {}
for f in glob.glob("/verif/pg/specs/[a-z]*.json"): spec.update(json.load(open(f)))
F = facts.load(sys.argv[1] if len(sys.argv) > 1 else "/tmp/w/facts.json")
pat = re.compile(sys.argv[2] if len(sys.argv) > 2 else ".")
an = engine.Analyzer(F)
def one(i):
    b = F.roots[i]; reset(); t = time.time()
    try:
        d = spec[b["def"]]
        sp = Reader(d["tab"]).summary(d)
        s = summarise(an, b)
        ds = compare(sp, s)
        out = "".join(f"\n     {d.kind} {d.what[:400]} | IF {pp_c(d.guard)[:300]} {d.spans} {d.undecided or ''}" for d in ds[:6])
        if out: out = f"== {b['def']} {b['span']}" + ("  (undecided)" if all(d.undecided for d in ds) else "") + out
    except Exception as ex:
        out = f"FAIL {b['def']} {type(ex).__name__} {str(ex)[:200]}"
    if time.time() - t > 2: out = (f"slow {time.time()-t:.1f} {b['def']}\n" if not out else out)
    return out
if __name__ == "__main__":
    t0 = time.time(); n = 0
    todo = [i for i, b in enumerate(F.roots) if b["def"] in spec and pat.search(b["def"]) and specified(b)]
    with Pool(7) as p:
        for o in p.imap_unordered(one, todo, 4):
            if o: print(o); n += 1
    print("differing", n, "of", len(todo), round(time.time() - t0, 1))
