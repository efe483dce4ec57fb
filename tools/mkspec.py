#!/usr/bin/env python3
"""Developer tool: summarise functions and write the effect specifications to pg/specs/*.json."""
import sys, time, json, os, re
sys.path.insert(0, "/verif")
from pg import facts, engine
from pg.summary import *
from pg.terms import *
from pg.props import specified, fkey
from multiprocessing import Pool
FACTS, OUT = (sys.argv[1:] + ["/tmp/w/facts.json", "/verif/pg/specs"])[:2] if len(sys.argv) > 2 else ("/tmp/w/facts.json", "/verif/pg/specs")
F = facts.load(FACTS)
an = engine.Analyzer(F)
import signal
class TO(Exception): pass
def h(*a): raise TO()
signal.signal(signal.SIGALRM, h)
STD_OPT = {"count", "nth", "nth_back", "last", "size_hint", "len", "fold", "rfold", "ne"}
def one(i):
    b = F.roots[i]
    reset(); t = time.time()
    w = Writer(); signal.alarm(60)
    try: s = summarise(an, b)
    except TO:
        print("TIMEOUT", b["def"]); return None, None, None, None
    finally: signal.alarm(0)
    d = w.summary(s); d["tab"] = w.tab; d["key"] = list(fkey(b))
    from pg.compare import vocab
    voc = vocab(s)
    tr = (b.get("trait") or "").split("<")[0]
    td = F.traits.get(tr)
    d["optional"] = bool(tr) and (any(i["name"] == b["name"] and i["default"] for i in td["items"]) if td else b["name"] in STD_OPT)
    d["optional"] |= not (b.get("exported") or tr)
    if time.time() - t > 1: print("slow", round(time.time() - t, 1), b["def"])
    return b["span"].split(":")[0][4:-3].replace("/", "."), b["def"], d, voc
if __name__ == "__main__":
    t0 = time.time(); sh = {}; al = set(); n = 0
    todo = [i for i, b in enumerate(F.roots) if specified(b)]
    with Pool(7) as p:
        for m, f, d, voc in p.imap_unordered(one, todo, 4):
            if m is None: continue
            sh.setdefault(m, {})[f] = d; al |= voc; n += 1
    os.makedirs(OUT, exist_ok=True)
    for m, d in sh.items():
        with open(f"{OUT}/{m}.json", "w") as fh:
            fh.write("{\n" + ",\n".join(json.dumps(f) + ": " + json.dumps(d[f], separators=(",", ":")) for f in sorted(d)) + "\n}\n")
    print(n, round(time.time() - t0, 1))
    from pg.compare import shared_vocab
    with open(f"{OUT}/_vocab.json", "w") as fh: json.dump(sorted(shared_vocab([al])), fh, indent=0)
