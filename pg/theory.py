"""Consistency of a condition in linear arithmetic over unsigned terms, equality and enum variants.

Conditions are BDDs over opaque atoms; two programs that branch on different but equivalent tests
differ only on conjunctions of atoms that cannot hold together.  `possible` drops those."""
from math import gcd

from .bdd import FALSE, TRUE
from .terms import *

CAP = 300
LEAVES = 400


def _lin(t):
    d, c = lin(t)
    return dict(d), c


def facts_of(ts):
    """Linear facts (sum + c <= 0) every value of these terms satisfies."""
    out, seen, todo = [], set(), list(ts)
    while todo:
        t = todo.pop()
        if t in seen or not isinstance(t, tuple) or not t:
            continue
        seen.add(t)
        rel = []  # pairs x <= y
        k = t[0]
        if k == "min":
            rel = [(t, x) for x in t[1:] if isinstance(x, tuple)]
        elif k == "max":
            rel = [(x, t) for x in t[1:] if isinstance(x, tuple)]
        elif k == "bin" and len(t) == 4 and t[1] == "BitAnd":
            rel = [(t, t[2]), (t, t[3])]
        elif k == "bin" and len(t) == 4 and t[1] in ("Shr", "Div", "Rem"):
            rel = [(t, t[2])]
        elif k == "bin" and len(t) == 4 and t[1] == "BitOr":
            rel = [(t[2], t), (t[3], t)]
        elif k == "idx" and t[1][0] == "range":
            rel = [(t[1][1], t), (add(t, const(1)), t[1][2])]
        elif k == "call" and t[1] == "next_power_of_two" and len(t[2]) == 1:
            rel = [(t[2][0], t), (const(1), t)]
        elif k == "call" and t[1] == "saturating_sub" and len(t[2]) == 2:
            rel = [(t, t[2][0]), (add(t[2][0], t[2][1], -1), t)]
        elif k == "call" and t[1] == "saturating_add" and len(t[2]) == 2:
            rel = [(t[2][0], t), (t[2][1], t)]
        for x, y in rel:
            if x[0] in ("gv", "bot", "bool") or y[0] in ("gv", "bot", "bool"):
                continue
            d, c = _lin(add(x, y, -1))
            out.append((d, c))
            todo.extend(d)
    return out


def tighten(d, c):
    g = 0
    for k in d.values():
        g = gcd(g, abs(k))
    if g > 1:
        # sum(k/g * t) <= floor(-c/g)
        return {t: k // g for t, k in d.items()}, -((-c) // g)
    return d, c


def fm(cons):
    """Fourier-Motzkin with integer tightening: False if the constraints (sum + c <= 0) have no solution."""
    work = {}

    def put(d, c):
        d = {t: k for t, k in d.items() if k}
        if not d:
            return c <= 0
        d, c = tighten(d, c)
        key = frozenset(d.items())
        if key not in work or work[key] < c:
            work[key] = c
        return True

    for d, c in cons:
        if not put(d, c):
            return False
    while work:
        cnt = {}
        for key in work:
            for t, k in key:
                p = cnt.setdefault(t, [0, 0])
                p[k < 0] += 1
        t = min(cnt, key=lambda t: (cnt[t][0] * cnt[t][1] - cnt[t][0] - cnt[t][1]))
        pos, neg, rest = [], [], {}
        for key, c in work.items():
            d = dict(key)
            k = d.get(t, 0)
            if k > 0:
                pos.append((d, c, k))
            elif k < 0:
                neg.append((d, c, -k))
            else:
                rest[key] = c
        if len(pos) * len(neg) + len(rest) > CAP:
            return True
        work = rest
        for d1, c1, k1 in pos:
            for d2, c2, k2 in neg:
                d = {x: v * k2 for x, v in d1.items() if x != t}
                for x, v in d2.items():
                    if x != t:
                        d[x] = d.get(x, 0) + v * k1
                if not put(d, c1 * k2 + c2 * k1):
                    return False
    return True


def numeric(t):
    return t[0] not in ("agg", "tuple", "bool", "gv", "bot", "ref", "refv", "&", "str", "comp", "it")


def consistent(lits, depth=0):
    var = {}
    cons, neqs, eqs = [], [], []
    for a, pos in lits:
        k = a[0]
        if k == "is" and pos:
            v = var.setdefault(a[1], a[2])
            if v != a[2]:
                return False
        elif k == "le0":
            d, c = dict(a[1]), a[2]
            cons.append((d, c) if pos else ({t: -x for t, x in d.items()}, -c + 1))
        elif k == "eq" and numeric(a[1]) and numeric(a[2]):
            d, c = _lin(add(a[1], a[2], -1))
            if pos:
                cons.append((d, c))
                cons.append(({t: -x for t, x in d.items()}, -c))
                eqs.append((a[1], a[2]))
            else:
                neqs.append((d, c))
    if eqs and depth < 2:
        m = {}
        for a, b in eqs:
            if b[0] == "const":
                m[a] = b
            elif a[0] == "const":
                m[b] = a
            elif a[0] not in ("lin",) and b[0] != "lin":
                x, y = (a, b) if len(pp(a)) > len(pp(b)) else (b, a)
                m[x] = y
        if m:
            sub = substitution(lambda t: m.get(t))
            new, changed = [], False
            for a, pos in lits:
                if a[0] == "eq" and (a[1] in m or a[2] in m) and pos:
                    new.append((a, pos))
                    continue
                n = sub.atom(a)
                if n <= 1:
                    if bool(n) != pos:
                        return False
                    changed = True
                    continue
                v, lo, hi = M.nodes[n]
                if lo <= 1 and hi <= 1:
                    b = M.atoms[v]
                    p2 = pos if hi == TRUE else not pos
                    changed |= b != a
                    new.append((b, p2))
                else:
                    new.append((a, pos))
                    changed = True
                    # a compound condition: it must be possible too
                    if not possible(n if pos else M.NOT(n), [l for l in lits if l[0] != a][:12], depth + 1):
                        return False
            d = {}
            for a, p in new:
                if d.setdefault(a, p) != p:
                    return False
            if changed and not consistent(list(d.items()), depth + 1):
                return False
    if not cons:
        return True
    ts = {t for d, _ in cons for t in d} | {t for d, _ in neqs for t in d}
    extra = facts_of(ts)
    ts |= {t for d, _ in extra for t in d}
    base = cons + extra + [({t: -1}, 0) for t in ts]
    if not fm(base):
        return False
    rel = [n for n in neqs if set(n[0]) <= ts][:4]
    return split(base, rel)


def split(base, neqs):
    if not neqs:
        return fm(base)
    (d, c), rest = neqs[0], neqs[1:]
    return split(base + [(d, c + 1)], rest) or split(base + [({t: -x for t, x in d.items()}, -c + 1)], rest)


CORES = {}  # literals that cannot hold together, as found so far: their atoms -> the clause that excludes them


def core(lits, ctx, depth):
    """A small part of an inconsistent conjunction that is already inconsistent."""

    def explain(base, delta, part):
        if delta and not consistent(list(ctx) + base, depth):
            return []
        if len(part) == 1:
            return part
        h = len(part) // 2
        x = explain(base + part[:h], part[:h], part[h:])
        y = explain(base + x, x, part[:h])
        return x + y

    return explain([], [], lits) if lits else []


def possible(node, ctx=(), depth=0):
    """False only if no assignment of the terms makes the condition true."""
    if not _possible(node, ctx, depth):
        return False
    if depth or ctx or node == TRUE:
        return True
    n = searched(node)
    return n == node or _possible(n, ctx, depth)


def searched(node):
    """What a search that found nothing says of each element of the same range looked at elsewhere."""
    sup = list(M.support(node))
    ex = [a for a in sup if a[0] == "exists" and a[2] != TRUE]
    if not ex:
        return node
    gens = {}
    for a in sup:
        if a[0] != "exists":
            for t in walk(a):
                if t and t[0] in GENERIC and len(t) == 3 and isinstance(t[2], int):
                    gens.setdefault(t[1], set()).add(t[2])
    for a in ex[:8]:
        own = {t[2] for b in M.support(a[2]) for t in walk(b) if t and t[0] in GENERIC and len(t) == 3 and t[1] == a[1]}
        if len(own) != 1:
            continue
        k0 = next(iter(own))
        for k in sorted(gens.get(a[1], ()))[:4]:
            f = substitution(lambda t: (t[0], t[1], k) if t[0] in GENERIC and len(t) == 3 and t[1] == a[1] and t[2] == k0 else None)
            node = M.AND(node, M.OR(M.atom(a), M.NOT(f.cond(a[2]))))
    return node


def _possible(node, ctx=(), depth=0):
    if CORES.get("epoch") is not M.nodes:
        CORES.clear()
        CORES["epoch"], CORES["all"] = M.nodes, []
    if node != FALSE and node != TRUE:
        sup = set(M.support(node))
        for atoms, clause in CORES["all"]:
            if atoms <= sup:
                node = M.AND(node, clause)
                if node == FALSE:
                    return False
    for _ in range(LEAVES):
        if node == FALSE:
            return False
        lits, n = [], node
        while n != TRUE:
            v, lo, hi = M.nodes[n]
            lits.append((M.atoms[v], hi != FALSE))
            n = hi if hi != FALSE else lo
        if consistent(list(ctx) + lits, depth):
            return True
        if not lits:
            return False
        bad = core(lits, ctx, depth)
        cube = TRUE
        for a, p in bad:
            cube = M.AND(cube, M.atom(a) if p else M.NOT(M.atom(a)))
        clause = M.NOT(cube)
        if not ctx and depth == 0 and len(bad) <= 6:
            CORES["all"].append(({a for a, _ in bad}, clause))
        node = M.AND(node, clause)
    return True


def nonempty(loops):
    """The loops run at least once."""
    g = TRUE
    for l in loops:
        if l[0] == "for" and isinstance(l[1], tuple):
            d = l[1]
            while d and d[0] == "rev":
                d = d[1]
            if d and d[0] == "range":
                c = binop("Lt", d[1], d[2])
                if c[0] == "bool":
                    g = M.AND(g, c[1])
    return g
