"""Comparison of a function's summary with its specification."""
import re

from .bdd import FALSE, TRUE
from .terms import *
from .summary import *
from .theory import nonempty, possible

# Terms the dataflow could not resolve: nothing is concluded from a line that contains one.
OPAQUE = {"phi", "lv", "rest", "popped", "opaque", "uninit", "updix", "closure", "m", "elem?", "proj", "subend", "?"}


def heads(t, out):
    h = HEADS.get(t)
    if h is None:
        h = HEADS[t] = set()
        heads1(t, h)
    out |= h


def heads1(t, out):
    for x in walk(t):
        if x and isinstance(x[0], str):
            k = x[0]
            if k in OPAQUE:
                out.add(k)
            elif k in ("call", "ret"):
                out.add(k + ":" + str(x[1]))
            elif k == "fn":
                out.add("fn:" + str(x[1]))
            elif k == "konst":
                out.add("konst:" + str(x[1]) + str(x[2]))
            elif k == "it":
                out.add("it:" + str(x[1]))
            elif k in ("reduce", "fold"):
                out.add(k + ":" + str(x[1]))
            elif k == "while":
                out.add("while")
            elif k in ("fld", "upd") and len(x) > 2 and isinstance(x[2], str):
                out.add("fld:" + x[2])
            elif k == "agg" and len(x) == 4:
                out.add("agg:" + str(x[1]) + "::" + str(x[2]))
            elif k == "is" and isinstance(x[-1], str):
                out.add("var:" + x[-1])
            elif k == "pl" and len(x) == 3:
                for q in x[2]:
                    if q[0] == "f":
                        out.add("fld:" + q[1])


def vocab_cond(c, out):
    for a in M.support(c):
        heads(a, out)


def vocab_line(l, out=None, guard=True):
    out = set() if out is None else out
    for x in (l.place, l.val) + tuple(l.args):
        if isinstance(x, tuple):
            heads(x, out)
    for lp in l.loops:
        if lp[0] != "for":
            out.add("while")
        for x in lp[1:]:
            if isinstance(x, tuple):
                heads(x, out)
    if guard:
        vocab_cond(l.guard, out)
    return out


def vocab(s):
    out = set()
    for l in s.lines:
        vocab_line(l, out)
    if s.ret is not None:
        heads(s.ret, out)
    for p in s.panics:
        vocab_cond(p[0], out)
    return out


class Diff:
    def __init__(self, kind, what, guard, spans, undecided):
        self.kind, self.what, self.guard, self.spans, self.undecided = kind, what, guard, spans, undecided

    def __repr__(self):
        return f"{'?' if self.undecided else ''}{self.kind}: {self.what}"


# Pure observations of a standard set or map: they have no other spelling the analysis does not normalise.
SETLEN = re.compile(r"^call:std::collections::(BTreeSet|HashSet|BTreeMap|HashMap)::<[^<>]*>::len$")


def novel(voc, known):
    return sorted(v for v in voc if (v not in known or v in ("phi", "uninit", "opaque")) and not SETLEN.match(v))


def definite(x, kv, ctx=TRUE):
    """x holds in some state whatever the conditions that the specification does not know turn out to be."""
    if x == FALSE:
        return False

    def new(a):
        v = set()
        heads(a, v)
        return bool(novel(v, kv))

    return possible(M.AND(M.NOT(M.exists(M.NOT(x), new)), ctx))


LOCAL_HEADS = re.compile(r"^(call|ret|fn):<?(impl )?(view|secondary|algorithms|portgraph|multiportgraph|hierarchy|unmanaged|index|boundary|weights|render)::")


def shared_vocab(specs):
    """Names every function may use: the crate's own functions, fields and variants."""
    out = set()
    for v in specs:
        out.update(x for x in v if x.startswith(("fld:", "agg:", "var:")) or LOCAL_HEADS.match(x))
    return out


def compare(spec, act, known=None, lines=None, ret=True, panics=None):
    """Differences between a summary and its specification.

    lines: predicate selecting the effect lines to compare (None: all)."""
    diffs = compare1(spec, act, known, lines, ret, panics)
    if diffs:
        # the same terms may have been built from conditions that differ only where they cannot arise
        act = Align(spec).summary(act)
        if known is not None:
            known = known | siblings(spec, act)
        diffs = compare1(spec, act, known, lines, ret, panics)
    return diffs


PICKS = {"max", "min", "last"}


def reductions(s):
    out = {}
    roots = [s.ret] + [x for l in s.lines for x in (l.place, l.val) + tuple(l.args) + tuple(l.loops)]
    roots += [("bool", c) for c in [l.guard for l in s.lines] + [p[0] for p in list(s.panics) + list(s.implicit)]]
    for t in roots:
        if isinstance(t, tuple):
            for x in walk(t):
                if x and x[0] == "reduce" and x[1] in PICKS:
                    out.setdefault(x[2:], set()).add(x[1])
    return out


def siblings(spec, act):
    """Picking another element of the same sequence than the specification does is no new vocabulary."""
    a = reductions(act)
    if not a:
        return set()
    s = reductions(spec)
    return {"reduce:" + k for args, ks in a.items() if args in s for k in ks - s[args]}


def term_diff(a, b):
    """Condition outside of which two terms are equal."""
    if a == b:
        return FALSE
    if not isinstance(a, tuple) or not isinstance(b, tuple) or not a or not b:
        return TRUE
    if a[0] in ("gv", "bool") or b[0] in ("gv", "bool"):
        if not isinstance(a[0], str) or not isinstance(b[0], str):
            return TRUE
        if a[0] == "gv" or b[0] == "gv":
            return M.OR(*[M.AND(c, c2, term_diff(x, y)) for c, x in alts(a) for c2, y in alts(b)])
        if not is_boolish(a) or not is_boolish(b):
            return TRUE
        x, y = cond_of(a), cond_of(b)
        return M.ite(x, M.NOT(y), y)
    if a[0] in NUMERIC and b[0] in NUMERIC and (a[0] != b[0] or a[0] in ("lin", "const")):
        return M.NOT(eq(a, b))
    if len(a) != len(b) or isinstance(a[0], str) and a[0] != b[0] or a[0] in ("mu", "lin"):
        return TRUE
    r = FALSE
    for x, y in zip(a, b):
        if x != y:
            if not isinstance(x, tuple) or not isinstance(y, tuple):
                return TRUE
            r = M.OR(r, term_diff(x, y))
            if r == TRUE:
                return r
    return r


def same(a, b):
    d = term_diff(a, b)
    return d == FALSE or d != TRUE and not possible(d)


class Align(substitution):
    """Rewrite recurrences, collections and quantified conditions of a summary into those of the
    specification they are equal to wherever their conditions are consistent."""

    def __init__(self, spec):
        substitution.__init__(self, self.pick)
        self.mus, self.coll, self.ex, self.loops = [], {}, {}, set()
        roots = [spec.ret] + [x for l in spec.lines for x in (l.place, l.val) + tuple(l.args) + tuple(l.loops)]
        conds = [l.guard for l in spec.lines] + [p[0] for p in list(spec.panics) + list(spec.implicit)]
        roots += [("bool", c) for c in conds] + [x for p in list(spec.panics) + list(spec.implicit) for x in p[3]]
        seen = set()
        for t in roots:
            if isinstance(t, tuple):
                for x in walk(t):
                    if x in seen:
                        continue
                    seen.add(x)
                    if not x or not isinstance(x[0], str):
                        continue
                    if x[0] == "mu":
                        self.mus.append(x)
                    elif x[0] == "exists" and len(x) == 3:
                        self.ex.setdefault(x[1], []).append(x)
                    elif x[0] in CONDITIONAL:
                        self.coll.setdefault((x[0], len(x)), []).append(x)
        for l in spec.lines:
            self.loops.add(tuple(l.loops))
        for p in list(spec.panics) + list(spec.implicit):
            self.loops.add(tuple(p[3]))

    def pick(self, t):
        k = t[0]
        if k == "mu":
            defs = tuple((self.term(a), self.term(b)) for a, b in mu_defs(t))
            for m in self.mus:
                if mu_defs(m) == defs:
                    return m
            for m in self.mus:
                d = mu_defs(m)
                if len(d) == len(defs) and all(same(x, y) for p, q in zip(d, defs) for x, y in zip(p, q)):
                    return m
            return mu(defs)
        if k in CONDITIONAL and t not in self.m:
            r = remake(tuple(self.term(x) if isinstance(x, tuple) else x for x in t))
            if r[0] == k:
                for x in self.coll.get((k, len(r)), ()):
                    if x == r:
                        return x
                for x in self.coll.get((k, len(r)), ()):
                    if same(x, r):
                        return x
            return r
        return None

    def atom(self, a):
        if a[0] == "exists":
            d, c = self.term(a[1]), self.cond(a[2])
            for x in self.ex.get(d, ()):
                y = M.ite(c, M.NOT(x[2]), x[2])
                if y == FALSE or not possible(y):
                    return M.atom(x)
            return M.atom(("exists", d, c))
        return substitution.atom(self, a)

    def loop(self, ls):
        r = tuple(self.term(x) for x in ls)
        if r not in self.loops:
            for x in self.loops:
                if len(x) == len(r) and same(x, r):
                    return x
        return r

    def summary(self, s):
        o = Summary()
        o.ret = self.term(s.ret) if s.ret is not None else None
        o.lines = [Line(l.kind, self.term(l.place) if l.place is not None else None, self.term(l.val) if l.val is not None else None, tuple(self.term(a) for a in l.args), self.loop(l.loops), self.cond(l.guard), l.spans) for l in s.lines]
        o.panics = [(self.cond(p[0]),) + tuple(p[1:3]) + (self.loop(p[3]),) + tuple(p[4:]) for p in s.panics]
        o.implicit = [(self.cond(p[0]),) + tuple(p[1:3]) + (self.loop(p[3]),) + tuple(p[4:]) for p in s.implicit]
        return o


CONDITIONAL = {"collect", "comp", "position", "count", "reduce", "fold", "sum", "for", "while"}


def compare1(spec, act, known=None, lines=None, ret=True, panics=None):
    diffs = []
    kv = vocab(spec) if known is None else known
    care = TRUE
    excused = list(spec.panics) + list(spec.implicit) + list(act.panics)
    for p in excused:
        if not p[3]:
            care = M.AND(care, M.NOT(p[0]))
    if care == FALSE:
        care = TRUE
    sel = lines or (lambda l: True)
    A = {l.key(): l for l in act.lines if sel(l)}
    S = {l.key(): l for l in spec.lines if sel(l)}

    def cared(l):
        c = care
        for p in excused:
            if p[3] and tuple(l.loops[: len(p[3])]) == tuple(p[3]):
                c = M.AND(c, M.NOT(p[0]))
        return c if c != FALSE else care

    # exact matches first; the rest of a place is compared by value
    for k in [k for k in A if k in S and M.AND(cared(A[k]), M.ite(A[k].guard, M.NOT(S[k].guard), S[k].guard)) == FALSE]:
        del A[k], S[k]
    groups = {}
    for k, l in A.items():
        groups.setdefault((l.kind, l.place, l.loops, len(l.args)), ([], []))[0].append(l)
    for k, l in S.items():
        groups.setdefault((l.kind, l.place, l.loops, len(l.args)), ([], []))[1].append(l)
    for gk, (la, ls) in groups.items():
        if not la or not ls:
            continue
        c = cared(la[0])
        ga, gs = M.OR(*[x.guard for x in la]), M.OR(*[x.guard for x in ls])
        if M.AND(c, M.ite(ga, M.NOT(gs), gs)) != FALSE:
            continue
        bad = FALSE
        for x in la:
            for y in ls:
                g = M.AND(c, x.guard, y.guard)
                if g != FALSE:
                    d = ret_diff(x.val, y.val) if x.val is not None and y.val is not None else (FALSE if x.val == y.val else TRUE)
                    for u, v in zip(x.args, y.args):
                        d = M.OR(d, ret_diff(u, v))
                    bad = M.OR(bad, M.AND(g, d))
        if not possible(M.AND(bad, nonempty(gk[2]))):
            for x in la:
                A.pop(x.key(), None)
            for y in ls:
                S.pop(y.key(), None)

    for k, l in A.items():
        s = S.get(k)
        g0 = s.guard if s is not None else FALSE
        c = cared(l)
        ne = nonempty(l.loops)
        x = M.AND(c, M.AND(l.guard, M.NOT(g0)))
        y = M.AND(c, M.AND(g0, M.NOT(l.guard)))
        x = x if possible(M.AND(x, ne)) else FALSE
        y = y if possible(M.AND(y, ne)) else FALSE
        if x != FALSE:
            nv = novel(vocab_line(l), kv)
            if nv and not novel(vocab_line(l, None, False), kv) and definite(x, kv, ne):
                nv = []
            diffs.append(Diff("extra" if s is None else "wider", l.text(False), x, l.spans, nv))
        if y != FALSE:
            v = set()
            vocab_cond(l.guard, v)
            nv = novel(v, kv)
            diffs.append(Diff("narrower", l.text(False), y, l.spans, [] if nv and definite(y, kv, ne) else nv))
    for k, s in S.items():
        if k in A:
            continue
        if not possible(M.AND(cared(s), s.guard, nonempty(s.loops))):
            continue
        diffs.append(Diff("missing", s.text(False), s.guard, [], []))
    if ret and spec.ret is not None and act.ret is not None:
        d = M.AND(care, ret_diff(spec.ret, act.ret))
        if possible(d):
            v = set()
            heads(act.ret, v)
            nv = novel(v, kv)
            if nv and definite(M.AND(care, ret_diff(spec.ret, act.ret, kv)), kv):
                nv = []
            diffs.append(Diff("return", pp(act.ret)[:600], d, [], nv))
    if panics:
        diffs += panic_diff(spec, act, kv, panics)
    # A step-by-step iterator (or its consumer) written as a loop has no common form with it.
    if diffs:
        lost = {h for h in vocab(spec) - vocab(act) if h in STEPWISE or PRIVATE.search(h)}
        for d in diffs:
            if lost:
                d.undecided = d.undecided or sorted("no longer " + x for x in lost)
    # What is missing may hide behind what could not be resolved.
    und = any(d.undecided for d in diffs)
    unres = [d for d in diffs if d.undecided]
    if unres:
        for d in diffs:
            if d.kind in ("missing", "narrower"):
                d.undecided = d.undecided or ["hidden by unresolved terms"]
    return diffs


# Private functions with a specification of their own: without the call its body may stand in its place.
PRIVATE = re.compile(r"LineConvexChecker::<[^<>]*>::find_index$")
STEPWISE = {"it:scan", "it:successors", "reduce:reduce", "reduce:partition_map", "reduce:join"}


def ret_diff(a, b, kv=None):
    """Condition under which two values differ (kv: only where both are resolved in these terms)."""
    if a == b:
        return FALSE
    if not a or not b or not isinstance(a[0], str) or not isinstance(b[0], str):
        return TRUE
    if a[0] == "gv" or b[0] == "gv":
        return M.OR(*[M.AND(c, c2, ret_diff(x, y, kv)) for c, x in alts(a) for c2, y in alts(b)])
    if a[0] == "bool" or b[0] == "bool":
        x, y = cond_of(a), cond_of(b)
        return M.ite(x, M.NOT(y), y)
    if a[0] == "agg" and b[0] == "agg" and a[1:3] == b[1:3]:
        da, db = dict(a[3]), dict(b[3])
        if set(da) == set(db):
            return M.OR(*[ret_diff(da[n], db[n], kv) for n in da])
        return TRUE
    if a[0] == "tuple" and b[0] == "tuple" and len(a[1]) == len(b[1]):
        return M.OR(*[ret_diff(x, y, kv) for x, y in zip(a[1], b[1])])
    if kv is not None:
        # what is built from unknown terms may be equal after all
        v = set()
        heads(a, v)
        heads(b, v)
        if novel(v, kv):
            return FALSE
    if a[0] == "comp" and b[0] == "comp" and len(a) == 4 and len(b) == 4 and a[1] == b[1]:
        x, y = cond_of(a[2]), cond_of(b[2])
        return M.OR(M.ite(x, M.NOT(y), y), M.AND(x, ret_diff(a[3], b[3], kv)))
    for x, y in ((a, b), (b, a)):
        vs = EITHER.get(x[1]) if x[0] == "agg" else None
        if vs and x[2] in vs and y[0] != "agg" and y[0] not in NUMERIC - {"call", "load", "fld", "arg", "idx"}:
            # a value against one that was taken apart
            d = down(y, x[2])
            return M.OR(M.NOT(isv(y, x[2], vs)), *[ret_diff(v, field(d, n), kv) for n, v in x[3]])
    if a[0] in NUMERIC and b[0] in NUMERIC:
        return M.NOT(eq(a, b))
    return TRUE


EITHER = {"Option": ("None", "Some"), "Result": ("Ok", "Err")}


NUMERIC = {"const", "lin", "load", "fld", "len", "arg", "idx", "bin", "min", "max", "call", "mu"}


def panic_diff(spec, act, kv, mode):
    """Panics the specification does not have (mode "same": and panics it has that are gone)."""
    out = []

    def by_loops(ps):
        d = {}
        for p in ps:
            d.setdefault(tuple(p[3]), []).append(p)
        return d

    a, s = by_loops(act.panics), by_loops(spec.panics)
    imp = by_loops(spec.implicit)
    s0 = M.OR(*[p[0] for p in s.get((), []) + imp.get((), [])])
    for ls, ps in a.items():
        gs = M.OR(s0, *[p[0] for p in s.get(ls, []) + imp.get(ls, [])])
        for p in ps:
            x = M.AND(p[0], M.NOT(gs))
            if x != FALSE and possible(M.AND(x, nonempty(ls))):
                v = set()
                vocab_cond(p[0], v)
                for l in ls:
                    if l[0] != "for":
                        v.add("while")
                    if isinstance(l[1], tuple):
                        heads(l[1], v)
                nv = novel(v, kv)
                if nv and not ls and definite(x, kv):
                    nv = []
                if ls not in s and ls:
                    nv = nv or ["panic in a loop the specification does not have"]
                out.append(Diff("panic", str(p[1])[:300], x, [p[2]] if isinstance(p[2], str) else [], nv))
    if mode == "same":
        aimp = M.OR(*[p[0] for p in act.implicit if not p[3]])
        for ls, ps in s.items():
            ga = M.OR(*[p[0] for p in a.get((), [])], *[p[0] for p in a.get(ls, [])])
            x = M.AND(M.OR(*[p[0] for p in ps]), M.NOT(ga), M.NOT(aimp))
            if x != FALSE and possible(M.AND(x, nonempty(ls))):
                und = [] if not ls else ["panic in a loop"]
                out.append(Diff("no panic", "the call no longer panics", x, [], und))
    return out
