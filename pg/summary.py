"""Canonical summaries of functions, and their serialised form.

A summary is what one function does to the state reachable from its arguments and what it returns:

  lines   effect kind, place, value, arguments, enclosing loops, and the guard under which it happens
  ret     the value returned (returned iterators as comprehensions: domain, filter, element)
  panics  the condition of each explicit panic

Memory versions are forgotten, writes that do not change anything are dropped, loops over a chain
are two loops, and effects that differ only in their guard are one line."""
from .bdd import FALSE, TRUE
from .engine import deref, in_chain, mkref
from .terms import *
from .terms import add as t_add

LOCAL = ("l", "lw", "lm")


class Line:
    __slots__ = ("kind", "place", "val", "args", "loops", "guard", "spans")

    def __init__(self, kind, place, val, args, loops, guard, spans):
        self.kind, self.place, self.val, self.args = kind, place, val, args
        self.loops, self.guard, self.spans = loops, guard, spans

    def key(self):
        return (self.kind, self.place, self.val, self.args, self.loops)

    def text(self, guard=True):
        a = (" (" + ", ".join(pp(x) for x in self.args) + ")") if self.args else ""
        v = " := " + pp(self.val) if self.val is not None else ""
        pl = pp_place(self.place) if self.place else ""
        l = "".join(f" for {pp(x[1])}" + (f" until {pp(x[2])}" if len(x) > 2 else "") if x[0] == "for" else f" while {pp(x[1])}" for x in self.loops)
        g = " IF " + pp_c(self.guard) if guard and self.guard != TRUE else ""
        return f"{self.kind} {pl}{v}{a}{l}{g}"


class Summary:
    __slots__ = ("lines", "ret", "panics", "implicit", "cond")

    def __init__(self):
        self.lines, self.ret, self.panics, self.implicit = [], None, [], []


class Canon:
    def __init__(self, an):
        self.an = an

    def closure(self, v, st, d):
        an = self.an
        inst = v[1]
        if inst not in an.facts.bodies:
            return ("closure", "?", tuple(self.value(x, st, d + 1) for x in v[2]))
        body = an.facts.bodies[inst]
        n = body["argc"] - 1
        s = st.copy()
        ne, npn = len(an.effects), len(an.panics)
        lv = an.lamdepth
        an.lamdepth = lv + 1
        try:
            args = [("larg", lv, i) for i in range(n)]
            r, s2, c = an.call_value(v, args, s, TRUE, "", "?")
            if s2 is None:
                return ("lam", n, ("diverges",))
            eff = an.effects[ne:]
            r = self.value(r, s2, d + 1)
            es = tuple((e.kind, an.value_of(s2, ("ref", e.place)) if e.place and False else (e.place or ()), e.val if e.val is not None else (), tuple(e.args), ("bool", e.guard)) for e in eff if not (e.kind in LOCAL or e.kind.startswith("l") and e.kind != "lam"))
            return ("lam", n, r) + ((es,) if es else ())
        finally:
            an.lamdepth = lv
            del an.effects[ne:]
            del an.panics[npn:]

    def value(self, v, st, d=0):
        an = self.an
        if not isinstance(v, tuple) or not v or d > 8:
            return v
        k = v[0]
        if k == "closure":
            return self.closure(v, st, d)
        if k == "fn":
            return ("fn", v[1])
        if k == "it":
            r = self.iterator(v, st, d)
            if r is not None:
                return r
            return tuple(self.value(x, st, d + 1) if isinstance(x, tuple) else x for x in v)
        if k == "gv":
            return gv([(c, self.value(x, st, d + 1)) for c, x in v[1]])
        if k == "agg":
            return ("agg", v[1], v[2], tuple((n, self.value(x, st, d + 1)) for n, x in v[3]))
        if k == "tuple":
            return mktuple(tuple(self.value(x, st, d + 1) for x in v[1]))
        if k == "ref":
            pl = v[1]
            if pl[1][0] == "L":
                return ("&", self.value(an.read(st, pl), st, d + 1))
            return v
        if k in ("call", "ret", "boxed", "&", "reduce", "collect", "m", "arr"):
            return tuple(self.deep(x, st, d + 1) if isinstance(x, tuple) else x for x in v)
        return v

    def deep(self, x, st, d):
        if not x or not isinstance(x[0], str):
            return tuple(self.deep(y, st, d) if isinstance(y, tuple) else y for y in x)
        return self.value(x, st, d)

    def iterator(self, v, st, d):
        an = self.an
        ne, npn = len(an.effects), len(an.panics)
        s = st.copy()
        an.loopctx.append({"key": ("comp",), "more": None, "env0": {}, "nexts": {}, "mem_mod": set(), "entry": TRUE})
        try:
            dom, g, e, s = an.elem(v, s, TRUE, "")
            if any(not x.kind.startswith("l") for x in an.effects[ne:]):
                return None
            e = self.value(e, s, d + 1)
            if dom[0] == "it" and dom[1] == "of":
                dom = ("it", "of") + tuple(self.value(x, s, d + 1) if isinstance(x, tuple) else x for x in dom[2:])
            else:
                dom = self.value(dom, s, d + 1)
            return ("comp", dom, ("bool", g), e)
        except (KeyError, IndexError, TypeError, AttributeError):
            return None
        finally:
            an.loopctx.pop()
            del an.effects[ne:]
            del an.panics[npn:]


def summarise(an, body):
    r = an.run(body)
    C = Canon(an)
    st = r.state
    s = Summary()
    mc = MuCanon(an.recs, strip, strip_c)

    def norm(t):
        return mc.term(strip(t))

    def norm_c(c):
        return mc.cond(strip_c(c))

    an.base = TRUE
    an.loopctx = []
    an.callstack = []
    if st is None:
        from .engine import State

        st = State()
    s.ret = degv_deep(norm(C.value(r.ret, st))) if r.ret is not None else None
    if s.ret is not None:
        s.ret = gv([(c, assume(v, c)) for c, v in s.ret[1]]) if s.ret[0] == "gv" else s.ret
    raw = []
    for e in r.effects:
        if e.kind.startswith("l") and e.kind != "lam":
            continue
        if e.kind in ("cap", "clo"):
            continue
        pl = e.place
        if pl is not None and pl[1][0] == "L":
            continue
        val = C.value(e.val, st) if e.val is not None else None
        args = tuple(C.value(a, st) for a in e.args) if e.kind in ("cb", "m") else ()
        if e.kind == "insert":
            args = tuple(e.args)
        if e.kind == "resize":
            args = tuple(C.value(a, st) for a in e.args[1:])
        if e.kind == "cb":
            args = (norm_callee(e.extra),) + args
        if e.kind == "m":
            args = (("fnname", e.extra),) + args
        loops, g = split_nest(e.loops, e.guard)
        loops = tuple(tuple(C.value(x, st) if isinstance(x, tuple) else x for x in l) for l in loops)
        raw.append((e.kind, pl, val, args, loops, g, e.span if e.extra != "restore" else (e.span, "restore")))
    raw = overwritten(raw)
    i = 0
    acc = {}
    order = []
    while i < len(raw):
        kind, pl, val, args, loops, g, span = raw[i]
        i += 1
        back = isinstance(span, tuple)
        span = span[0] if back else span
        sp = split_chain(an, kind, pl, val, args, loops, g, (span, "restore") if back else span)
        if sp is not None:
            raw[i:i] = sp
            continue
        pl = norm(pl) if pl is not None else None
        val = norm(val) if val is not None else None
        args = tuple(norm(a) for a in args)
        loops = tuple(tuple(norm(x) if isinstance(x, tuple) else x for x in l[:2]) + tuple(norm(x) for x in l[2:] if isinstance(x, tuple)) for l in loops)
        g = norm_c(g)
        if kind == "fill" and pl[2] and pl[2][-1][0] == "rg":
            kind = "w"
            dom = ("range", pl[2][-1][1], pl[2][-1][2])
            dep = sum(1 for l in loops if l[0] == "for" and l[1] == dom)
            pl = ("pl", pl[1], pl[2][:-1] + (("ix", ("idx", dom, dep)),))
            loops = loops + (("for", dom),)
            if val[0] == "agg" and val[2] and not val[3]:
                g = M.AND(g, M.NOT(isv(("load", pl, 0), val[2])))
        if kind == "truncate" and val == const(0):
            kind, val = "clear", None
        if kind == "w" and val is not None and val == ("load", pl, 0) and not back:
            continue
        if g == FALSE:
            continue
        # a choice of values, places or domains is a choice of effects
        g = degv_c(g)
        for c0, pl0, val0 in field_writes(kind, pl, val, g):
            packed = ("pack", pl0 if pl0 is not None else (), val0 if val0 is not None else (), args, loops)
            for c, pk in degv(packed):
                gg = M.AND(c0, c)
                pk = assume(pk, gg)
                gg = assume(("bool", gg), gg)[1]
                _, pl2, v, args2, loops2 = pk
                pl2 = pl2 or None
                if val0 is None:
                    v = None
                if any(l[0] == "for" and l[1][0] == "range" and binop("Le", l[1][2], l[1][1]) == T_TRUE for l in loops2):
                    continue
                if gg == FALSE or (kind == "w" and v == ("load", pl2, 0) and not back):
                    continue
                k = (kind, pl2, v, args2, loops2)
                if k in acc:
                    acc[k].guard = M.OR(acc[k].guard, gg)
                    if span not in acc[k].spans:
                        acc[k].spans.append(span)
                else:
                    acc[k] = Line(kind, pl2, v, args2, loops2, gg, [span])
                    order.append(k)
    s.lines = [acc[k] for k in order]
    pan = [split_nest(p[4], p[0]) for p in r.panics]
    s.panics = [(degv_c(norm_c(pg)), p[1], p[3], tuple(tuple(norm(x) if isinstance(x, tuple) else x for x in l[:2]) + tuple(norm(x) for x in l[2:] if isinstance(x, tuple)) for l in pl)) for p, (pl, pg) in zip(r.panics, pan)]
    imp = {}
    for g, ls in r.implicit:
        ls, g = split_nest(ls, g)
        ls = tuple((l[0], norm(l[1]) if isinstance(l[1], tuple) else l[1]) for l in ls)
        imp[ls] = M.OR(imp.get(ls, FALSE), degv_c(norm_c(g)))
    s.implicit = [(g, "", "", ls) for ls, g in imp.items()]
    return s


def field_writes(kind, pl, val, g):
    """A write of a whole struct is a write of its fields."""
    if kind != "w" or val is None or val[0] != "agg" or not val[3]:
        return [(g, pl, val)]
    old = ("load", pl, 0)
    if val[2]:
        if M.AND(g, M.NOT(isv(old, val[2]))) != FALSE:
            return [(g, pl, val)]
        pl = ("pl", pl[1], pl[2] + (("v", val[2]),))
    out = []
    for n, v in val[3]:
        q = ("pl", pl[1], pl[2] + (("f", n),))
        if v != ("load", q, 0):
            out += field_writes(kind, q, v, g)
    return out


def overwritten(raw):
    """A value that is overwritten before anything else happens to the place is not an effect."""
    from .engine import may_alias

    out = list(raw)
    for i in range(len(out) - 1, -1, -1):
        kind, pl, val, args, loops, g, span = out[i]
        if kind != "w" or g == FALSE:
            continue
        for j in range(i + 1, len(out)):
            k2, p2, v2, a2, l2, g2, _ = out[j]
            if k2 in ("m", "cb", "lam"):
                break
            if k2 == "w" and p2 == pl and l2 == loops:
                g = M.AND(g, M.NOT(g2))
                continue
            if p2 is not None and p2[1] == pl[1] and k2 != "w" and may_alias(p2[2], pl[2]):
                break
            if k2 == "w" and p2 is not None and p2[1] == pl[1] and may_alias(p2[2], pl[2]) and reads(v2, pl):
                break
        out[i] = (kind, pl, val, args, loops, g, span)
    return out


def reads(v, pl):
    """Does the value mention the content of a place that may be `pl`?"""
    from .engine import may_alias

    return any(x and x[0] == "load" and x[1][1] == pl[1] and may_alias(x[1][2], pl[2]) for x in walk(v))


def norm_callee(x):
    if isinstance(x, tuple) and x and x[0] == "fn":
        return ("fn", x[1])
    return x if isinstance(x, tuple) else ("?",)


def degv_deep(t):
    if not has_gv(t):
        return t
    k = t[0]
    if k == "agg":
        return ("agg", t[1], t[2], tuple((n, degv_deep(v)) for n, v in t[3]))
    if k == "tuple":
        return ("tuple", tuple(degv_deep(v) for v in t[1]))
    if k == "gv":
        return gv([(degv_c(c), degv_deep(v)) for c, v in t[1]])
    return gv(degv(t))


def nested(l):
    return l[0] == "for" and isinstance(l[1], tuple) and l[1] and l[1][0] == "nest" and not any(isinstance(x, tuple) for x in l[2:])


def split_nest(loops, g):
    """A loop over nested iterators is two nested loops."""
    out = ()
    for l in loops:
        if nested(l):
            _, d1, g1, d2 = l[1]
            g = M.AND(g, g1[1])
            (a, g), (b, g) = split_nest((("for", d1) + l[2:],), g), split_nest((("for", d2) + l[2:],), g)
            out += a + b
        else:
            out += (l,)
    return out, g


def split_chain(an, kind, pl, val, args, loops, g, span):
    for i, l in enumerate(loops):
        if l[0] == "for" and l[1] == ("optdom",):
            ls = loops[:i] + loops[i + 1 :]
            return [(kind, pl, val, args, ls, g, span)]
        if l[0] == "for" and isinstance(l[1], tuple) and l[1] and l[1][0] == "chain":
            dom = l[1]
            dep = sum(1 for m in loops[:i] if m[0] == "for" and m[1] == dom)
            out = []
            for half, side in (("a", TRUE), ("b", FALSE)):
                sub = in_chain(dom, side, {x: x + half for x in an.chained.get(dom, ())}, dep)
                g2 = sub.cond(g)
                if g2 == FALSE:
                    continue
                ls = tuple(("for", sub.dom2) + tuple(sub.term(x) if isinstance(x, tuple) else x for x in m[2:]) if j == i else tuple(sub.term(x) if isinstance(x, tuple) else x for x in m) for j, m in enumerate(loops))
                out.append((kind, sub.term(pl) if pl else pl, sub.term(val) if val is not None else None, tuple(sub.term(a) for a in args), ls, g2, span))
            return out
    return None


# ------------------------------------------------------------------ serialisation
class Writer:
    def __init__(self):
        self.tab = []
        self.ids = {}
        self.bt = {}

    def term(self, t):
        if isinstance(t, (int, str)) or t is None or isinstance(t, bool):
            return t
        r = self.ids.get(t)
        if r is None:
            if t and t[0] == "bool":
                e = ["B", self.cond(t[1])]
            elif t and t[0] == "mu":
                e = ["M"] + [[self.term(a), self.term(b)] for a, b in mu_defs(t)]
            elif t and t[0] == "gv":
                e = ["G"] + [[self.cond(c), self.term(v)] for c, v in t[1]]
            elif t and t[0] == "exists":
                e = ["E", self.term(t[1]), self.cond(t[2])]
            else:
                e = ["T"] + [self.term(x) for x in t]
            r = self.ids[t] = [len(self.tab)]
            self.tab.append(e)
        return r

    def cond(self, c):
        if c <= 1:
            return c
        r = self.bt.get(c)
        if r is None:
            v, lo, hi = M.nodes[c]
            a = M.atoms[v]
            e = ["N", self.term(a), self.cond(lo), self.cond(hi)]
            r = self.bt[c] = len(self.tab) + 2
            self.tab.append(e)
        return r

    def summary(self, s):
        return {
            "ret": self.term(s.ret) if s.ret is not None else None,
            "lines": [[l.kind, self.term(l.place) if l.place else None, self.term(l.val) if l.val is not None else None, [self.term(a) for a in l.args], [self.term(x) for x in l.loops], self.cond(l.guard)] for l in s.lines],
            "panics": [[self.cond(p[0]), [self.term(x) for x in p[3]]] for p in s.panics],
            "implicit": [[self.cond(p[0]), [self.term(x) for x in p[3]]] for p in s.implicit],
        }


class Reader:
    def __init__(self, tab):
        self.tab = tab
        self.memo = {}

    def term(self, x):
        if not isinstance(x, list):
            return x
        return self.entry(x[0])

    def entry(self, i):
        r = self.memo.get(i)
        if r is not None:
            return r
        e = self.tab[i]
        k = e[0]
        if k == "B":
            r = ("bool", self.cond(e[1]))
        elif k == "G":
            r = gv([(self.cond(c), self.term(v)) for c, v in e[1:]])
        elif k == "M":
            r = mu(tuple((self.term(a), self.term(b)) for a, b in e[1:]))
        elif k == "E":
            r = ("exists", self.term(e[1]), self.cond(e[2]))
        else:
            t = tuple(self.term(x) for x in e[1:])
            r = rebuild(t)
        self.memo[i] = r
        return r

    def cond(self, c):
        if c <= 1:
            return c
        k = ("c", c)
        r = self.memo.get(k)
        if r is None:
            _, a, lo, hi = self.tab[c - 2]
            r = M.ite(self.atom(self.term(a)), self.cond(hi), self.cond(lo))
            self.memo[k] = r
        return r

    def atom(self, a):
        return atom_node(a)

    def summary(self, d):
        s = Summary()
        s.ret = self.term(d["ret"]) if d["ret"] is not None else None
        s.lines = [Line(k, self.term(pl) if pl is not None else None, self.term(v) if v is not None else None, tuple(self.term(a) for a in ar), tuple(self.term(x) for x in ls), self.cond(g), []) for k, pl, v, ar, ls, g in d["lines"]]
        s.panics = [(self.cond(g), "", "", tuple(self.term(x) for x in ls)) for g, ls in d["panics"]]
        s.implicit = [(self.cond(g), "", "", tuple(self.term(x) for x in ls)) for g, ls in d.get("implicit", [])]
        return s


def atom_node(a):
    k = a[0]
    if k == "is":
        return isv(a[1], a[2]) if a[2] in TWO else M.atom(a)
    if k == "eq":
        return eq(a[1], a[2])
    if k == "le0":
        r = const(a[2])
        for x, c in a[1]:
            r = t_add(r, binop("Mul", x, const(c)))
        d, c = lin(r)
        return le0(d, c)
    return M.atom(a)


def rebuild(t):
    return remake(t)
