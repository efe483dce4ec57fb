#!/usr/bin/env python3
"""Decide one property: check.py <ID>."""
import json
import os
import signal
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
if os.environ.get("PYTHONHASHSEED") != "0":  # the analysis does not depend on it; repeatable logs do
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)

from pg import compare, engine, facts, rules, summary, terms
from pg.bdd import FALSE
from pg.props import PROPS, fkey

FUNC_LIMIT = 120
TOTAL_LIMIT = 700
STATE = {}


class Timeout(BaseException):
    pass


def on_alarm(*_):
    raise Timeout()


def analyse(job):
    """Compare one function with its specification; the result is plain data."""
    name, bi, clause_ids, deadline = job
    F, an, spec, clauses, known = STATE["F"], STATE["an"], STATE["spec"], STATE["clauses"], STATE["known"]
    b = F.roots[bi]
    out = {"name": name, "span": b["span"], "diffs": [], "lines": 0, "rets": 0, "panics": 0, "error": None}
    left = int(min(FUNC_LIMIT, deadline - time.time()))
    if left < 1:
        out["error"] = "not analysed: out of time"
        return out
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(left)
    try:
        terms.reset()
        d = spec[name]
        sp = summary.Reader(d["tab"]).summary(d)
        act = summary.summarise(an, b)
        kv = compare.vocab(sp) | known
        sel = [clauses[i] for i in clause_ids]
        texts = {}

        def wanted(l):
            t = texts.get(id(l))
            if t is None:
                t = texts[id(l)] = l.text(False)
            return any(c.selects(l, t) for c in sel)

        ret = any(c.ret for c in sel)
        pan = {c.panics for c in sel if c.panics}
        out["lines"] = sum(1 for l in sp.lines if wanted(l))
        out["rets"] = 1 if ret and sp.ret is not None else 0
        out["panics"] = len(sp.panics) if pan else 0
        for x in compare.compare(sp, act, kv, lines=wanted, ret=ret, panics="same" if "same" in pan else "new" if pan else None):
            out["diffs"].append({"kind": x.kind, "what": x.what[:1500], "guard": terms.pp_c(x.guard)[:1500], "spans": list(x.spans)[:6], "undecided": list(x.undecided or [])[:8]})
    except Timeout:
        out["error"] = "not analysed: out of time"
    except RecursionError:
        out["error"] = "not analysed: recursion limit"
    except Exception as ex:  # an analysis that cannot handle the code decides nothing about it
        out["error"] = "not analysed: %s %s" % (type(ex).__name__, str(ex)[:200])
    finally:
        signal.alarm(0)
    return out


def known_findings(pid):
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: property=%s " % pid):
                key, _, what = line[len("known: property=%s " % pid):].partition(" | ")
                out.append((key.strip(), what.strip()))
    return out


def load_specs():
    spec = {}
    d = os.path.join(HERE, "pg", "specs")
    for f in sorted(os.listdir(d)):
        if f.endswith(".json") and not f.startswith("_"):
            with open(os.path.join(d, f)) as fh:
                spec.update(json.load(fh))
    return spec


def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    clauses = PROPS[pid]
    spec = load_specs()
    known = set(json.load(open(os.path.join(HERE, "pg", "specs", "_vocab.json"))))
    configs = [facts.FEATURES] + (["petgraph", "serde", "", "petgraph,serde,proptest"] if tier == "thorough" else [])
    violations, undecided, notes = [], [], []
    cov = {"functions": 0, "effect_lines": 0, "returns": 0, "panic_conditions": 0, "rule_sites": 0, "configurations": []}
    extracted = {}
    for cfg in configs:
        F = facts.extract(cfg)
        if cfg == facts.FEATURES:
            extracted = {"bodies": len(F.bodies), "roots": len(F.roots), "types": len(F.adts), "impls": len(F.impls)}
        cov["configurations"].append(cfg or "(no features)")
        an = engine.Analyzer(F)
        STATE.update(F=F, an=an, spec=spec, clauses=clauses, known=known)
        idx = F.index(fkey)
        jobs, wanted = [], 0
        deadline = t0 + TOTAL_LIMIT
        for name in sorted(spec):
            cl = [i for i, c in enumerate(clauses) if c.funcs.search(name)]
            if not cl:
                continue
            wanted += 1
            bi = idx.get(name)
            if bi is None:
                bi = idx.get(("key",) + tuple(spec[name]["key"]))
            if bi is None:
                if cfg != facts.FEATURES:
                    continue
                if spec[name].get("optional"):
                    undecided.append({"function": name, "why": ["no longer overrides the provided method"]})
                else:
                    violations.append({"key": name + " missing", "function": name, "where": "src", "kind": "anchor", "what": "the function does not exist any more: the property cannot be decided", "guard": "", "spans": []})
                continue
            jobs.append((name, bi, cl, deadline))
        results = run(jobs)
        for r in results:
            if cfg == facts.FEATURES:
                cov["functions"] += 1
                cov["effect_lines"] += r["lines"]
                cov["returns"] += r["rets"]
                cov["panic_conditions"] += r["panics"]
            if r["error"]:
                undecided.append({"function": r["name"], "why": [r["error"]]})
            for d in r["diffs"]:
                if d["undecided"]:
                    undecided.append({"function": r["name"], "why": d["undecided"], "difference": d["kind"] + ": " + d["what"][:300]})
                else:
                    violations.append({"key": r["name"] + " " + d["kind"], "function": r["name"], "where": r["span"], "kind": d["kind"], "what": d["what"], "guard": d["guard"], "spans": d["spans"]})
        for c in clauses:
            if c.rule and cfg == facts.FEATURES:
                n, bad, und, sample = getattr(rules, c.rule)(F)
                cov["rule_sites"] += n
                notes.append({"rule": c.rule, "sites": n, "sample": sample})
                for key, where, what in bad:
                    violations.append({"key": key, "function": key, "where": where, "kind": "rule " + c.rule, "what": what, "guard": "", "spans": []})
                undecided += und
    if tier == "thorough":
        uniq = {}
        for v in violations:
            uniq.setdefault((v["key"], v["what"]), v)
        violations = list(uniq.values())
    listed = known_findings(pid)
    fresh, seen = [], set()
    for v in violations:
        k = next((k for k, _ in listed if k == v["key"]), None)
        if k is None:
            fresh.append(v)
        else:
            seen.add(k)
    for k, what in listed:
        if k in seen:
            print("KNOWN-FINDING: property=%s %s" % (pid, what))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    rep = os.path.join(HERE, "evidence", pid + ".violations.txt")
    if fresh:
        with open(rep, "w") as fh:
            for v in fresh:
                fh.write(describe(pid, v) + "\n")
    elif os.path.exists(rep):
        os.remove(rep)
    cov["explanation"] = (
        "Dataflow over the MIR of /repo's current source (rustc driver, resolved callees). For each function the property speaks about, "
        "the analysis computes what the function writes (place, value, loop domain, guard), which user callbacks and delegated calls it makes and what it returns, "
        "and compares the part selected by the property with the reviewed effect specification in pg/specs; a difference in a term the analysis understands is a violation, "
        "one that involves an unresolved term decides nothing and is listed under undecided."
    )
    if all(c.rule for c in clauses):
        cov["explanation"] = "A rule over the type-checked program (pg/rules.py): the sites counted are what it examined (field types, derived serialisation code, or function bodies and the calls in them that start a hash-ordered iteration); each violation names the field or the call."
    cov["extracted"] = extracted
    cov["undecided"] = undecided[:40]
    cov["undecided_count"] = len(undecided)
    cov["samples"] = sorted(n for n in spec if any(c.funcs.search(n) for c in clauses))[:12]
    cov["rules"] = notes
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as fh:
        json.dump({
            "property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
            "assumptions": ["memory is what the modelled std containers say it is (pg/models.py)", "arithmetic does not overflow", "the specification in pg/specs states the property (reviewed; DESIGN.md)"],
            "wall_s": round(time.time() - t0, 2), "violations": len(fresh),
        }, fh, indent=1)
    print("%s: %d functions, %d effect lines, %d returns, %d rule sites; %d undecided; %.1f s" % (pid, cov["functions"], cov["effect_lines"], cov["returns"], cov["rule_sites"], len(undecided), time.time() - t0))
    for u in undecided[:10]:
        print("undecided:", u["function"], "; ".join(u["why"])[:200])
    floor = sum(1 for n in spec if any(c.funcs.search(n) for c in clauses))
    if cov["functions"] + cov["rule_sites"] == 0 or (floor and cov["functions"] == 0):
        print("nothing was analysed")
        return 2
    if fresh:
        for v in fresh[:20]:
            print(describe(pid, v)[:1200])
        print("VIOLATION property=%s replay=%s" % (pid, rep))
        return 1
    return 0


def describe(pid, v):
    s = "%s: %s: %s\n    rule: the effects of %s must be those of its specification (%s)\n    %s" % (v["where"], pid, v["kind"], v["function"], v["kind"], v["what"])
    if v["guard"]:
        s += "\n    when: " + v["guard"]
    if v["spans"]:
        s += "\n    at: " + ", ".join(str(x) for x in v["spans"])
    return s


def run(jobs):
    if len(jobs) <= 3:
        return [analyse(j) for j in jobs]
    from multiprocessing import Pool

    with Pool(min(8, os.cpu_count() or 4)) as p:
        return list(p.imap_unordered(analyse, jobs, max(1, min(6, len(jobs) // 32))))


if __name__ == "__main__":
    sys.exit(main())
