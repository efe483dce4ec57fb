"""Value terms (global value numbering) used by the dataflow engine.

Terms are hashable tuples.  Constructors normalise: integer arithmetic to linear form, comparisons
to a canonical inequality atom, conditional values to guarded-value lists over BDD conditions."""
import re
import zlib

from .bdd import BDD, FALSE, TRUE

M = BDD()
_ids = {}


def tid(t):
    i = _ids.get(t)
    if i is None:
        i = len(_ids)
        _ids[t] = i
    return i


# ------------------------------------------------------------------ constants
def const(n):
    return ("const", n)


T_TRUE = ("bool", TRUE)
T_FALSE = ("bool", FALSE)
UNIT = ("tuple", ())
BOT = ("bot",)


def mktuple(vs):
    """A tuple; the fields of one value in order are that value."""
    if len(vs) > 1:
        base = None
        for i, v in enumerate(vs):
            if v[0] == "bool" and v[1] > 1:
                a = M.atoms[M.nodes[v[1]][0]]
                v = a[1] if a[0] == "t" and M.atom(a) == v[1] else v
            if v[0] == "fld" and v[2] == str(i):
                b = v[1]
            elif v[0] == "load" and v[1][2] and v[1][2][-1] == ("f", str(i)):
                b = ("load", ("pl", v[1][1], v[1][2][:-1]), v[2])
            else:
                return ("tuple", vs)
            if base is not None and b != base:
                return ("tuple", vs)
            base = b
        return base
    return ("tuple", vs)


def boolt(n):
    return ("bool", n)


def is_boolish(t):
    return t[0] == "bool"


def cond_of(t):
    """BDD node of a boolean-valued term."""
    if t[0] == "bool":
        return t[1]
    if t[0] == "const":
        return TRUE if t[1] else FALSE
    if t[0] == "gv":
        return M.OR(*[M.AND(c, cond_of(v)) for c, v in t[1]])
    if t[0] == "un" and t[1] == "Not":
        return M.NOT(cond_of(t[2]))
    return M.atom(("t", t))


# ------------------------------------------------------------------ guarded values
SETINSERT = re.compile(r"^(?:std|indexmap)::(?:\w+::)*(BTreeSet|HashSet|IndexSet)::<[^<>]*>::insert$")


def gv(alts):
    """alts: [(cond, term)] with disjoint conds."""
    flat = []
    for c, t in alts:
        if c == FALSE or t == BOT:
            continue
        if t[0] == "gv":
            for c2, t2 in t[1]:
                cc = M.AND(c, c2)
                if cc != FALSE:
                    flat.append((cc, t2))
        else:
            flat.append((c, t))
    if not flat:
        return BOT
    if any(t[0] == "bool" for _, t in flat):
        return boolt(M.OR(*[M.AND(c, cond_of(t)) for c, t in flat]))
    d = {}
    for c, t in flat:
        d[t] = M.OR(d.get(t, FALSE), c)
    if len(d) == 1:
        return next(iter(d))
    # putting a value into a set that has it changes nothing
    for t in [t for t in d if t[0] == "m" and len(t) == 4 and t[2] in d and SETINSERT.match(t[1])]:
        a = M.atom(("t", ("call", t[1][:-6] + "contains", (("&", t[2]), ("&", t[3])))))
        had = M.AND(d[t[2]], a)
        if had != FALSE:
            d[t] = M.OR(d[t], had)
            d[t[2]] = M.AND(d[t[2]], M.NOT(a))
            if d[t[2]] == FALSE:
                d.pop(t[2])
    if len(d) == 1:
        return next(iter(d))
    tot = M.OR(*d.values())
    # values of one shape are merged field-wise
    groups = {}
    for t in d:
        if t[0] == "agg":
            groups.setdefault(("agg", t[1], t[2], tuple(n for n, _ in t[3])), []).append(t)
        elif t[0] == "tuple":
            groups.setdefault(("tuple", len(t[1])), []).append(t)
    for k, ts in groups.items():
        if len(ts) < 2:
            continue
        cs = [d.pop(t) for t in ts]
        c = M.OR(*cs)
        if k[0] == "agg":
            t = ("agg", k[1], k[2], tuple((n, gv([(M.constrain(ci, c), ti[3][i][1]) for ci, ti in zip(cs, ts)])) for i, n in enumerate(k[3])))
        else:
            t = ("tuple", tuple(gv([(M.constrain(ci, c), ti[1][i]) for ci, ti in zip(cs, ts)]) for i in range(k[1])))
        d[t] = M.OR(d.get(t, FALSE), c)
    if len(d) == 1:
        return next(iter(d))
    items = [(M.constrain(c, tot), t) for t, c in d.items()]
    items = [(c, t) for c, t in items if c != FALSE]
    if len(items) == 1:
        return items[0][1]
    # Merge aggregates of one shape field-wise?  Kept apart: rules want whole values.
    if len(items) > 48:
        return ("phi", 0)
    items.sort(key=lambda x: tid(x[1]))
    return ("gv", tuple(items))


def alts(t):
    if t[0] == "gv":
        return list(t[1])
    return [(TRUE, t)]


def expand(t, limit=24):
    """[(cond, value)]: the alternatives of a value, with the choices inside aggregates pulled out."""
    k = t[0]
    if k == "gv":
        out = []
        for c, v in t[1]:
            for c2, v2 in expand(v, limit):
                cc = M.AND(c, c2)
                if cc != FALSE:
                    out.append((cc, v2))
        return out
    if k in ("agg", "tuple"):
        parts = [v for _, v in t[3]] if k == "agg" else list(t[1])
        acc = [(TRUE, ())]
        for p in parts:
            if p[0] not in ("gv", "agg", "tuple"):
                acc = [(c, vs + (p,)) for c, vs in acc]
                continue
            ex = expand(p, limit)
            acc = [(M.AND(c, c2), vs + (v2,)) for c, vs in acc for c2, v2 in ex if M.AND(c, c2) != FALSE]
            if len(acc) > limit:
                return [(TRUE, t)]
        if k == "agg":
            return [(c, ("agg", t[1], t[2], tuple((n, v) for (n, _), v in zip(t[3], vs)))) for c, vs in acc]
        return [(c, ("tuple", vs)) for c, vs in acc]
    return [(TRUE, t)]


def dist(t, f):
    if t[0] == "gv":
        return gv([(c, f(v)) for c, v in t[1]])
    return f(t)


# ------------------------------------------------------------------ structure
TWO = {
    "Some": ("None", "Some"),
    "None": ("None", "Some"),
    "Ok": ("Ok", "Err"),
    "Err": ("Ok", "Err"),
    "Continue": ("Continue", "Break"),
    "Break": ("Continue", "Break"),
    "Incoming": ("Incoming", "Outgoing"),
    "Outgoing": ("Incoming", "Outgoing"),
    "Node": ("Node", "Free"),
    "Port": ("Port", "Free"),
    "Free": ("?", "Free"),
    "Left": ("Left", "Right"),
    "Right": ("Left", "Right"),
}


def isv(t, variant, variants=None):
    """BDD: does enum value t hold `variant`?"""
    k = t[0]
    if k == "agg":
        return TRUE if t[2] == variant else FALSE
    if k == "gv":
        return M.OR(*[M.AND(c, isv(v, variant, variants)) for c, v in t[1]])
    if k == "bot":
        return FALSE
    if k == "cmp" and len(t) == 3 and t[1][0] != "tuple" and t[2][0] != "tuple":
        if variant == "Equal":
            return eq(t[1], t[2])
        if variant in ("Less", "Greater"):
            return cond_of(binop("Lt" if variant == "Less" else "Gt", t[1], t[2]))
    two = None
    if variants is not None:
        if len(variants) == 1:
            return TRUE
        if len(variants) == 2:
            two = TWO.get(variant, variants)
    elif variant in TWO:
        two = TWO[variant]
    if two:
        # canonical atom: the 2nd variant
        if variant == two[1]:
            return M.atom(("is", t, two[1]))
        return M.NOT(M.atom(("is", t, two[1])))
    return M.atom(("is", t, variant))


def discr(v, variants):
    """Discriminant of an enum value."""
    if v[0] == "agg":
        for n, name in variants:
            if name == v[2]:
                return const(n)
    if v[0] == "gv":
        return gv([(c, discr(x, variants)) for c, x in v[1]])
    return ("discr", v, variants)


def agg(adt, variant, fields):
    return ("agg", adt, variant, tuple(fields))


def some(t):
    return agg("Option", "Some", [("0", t)])


NONE = agg("Option", "None", [])


def field(t, name):
    k = t[0]
    if k == "agg":
        for n, v in t[3]:
            if n == name:
                return v
        return ("fld", t, name)
    if k == "tuple":
        i = int(name)
        if i < len(t[1]):
            return t[1][i]
    if k == "gv":
        return gv([(c, field(v, name)) for c, v in t[1]])
    if k == "bot":
        return t
    if k == "load":
        _, (_, base, projs), ver = t
        return ("load", ("pl", base, projs + (("f", name),)), ver)
    if k == "closure":
        return t[2][int(name)]
    if k == "upd":
        _, base, n, v = t
        return v if n == name else field(base, name)
    return ("fld", t, name)


def set_field(t, name, v):
    k = t[0]
    if k == "agg":
        fs = list(t[3])
        for i, (n, _) in enumerate(fs):
            if n == name:
                fs[i] = (n, v)
                return ("agg", t[1], t[2], tuple(fs))
        return ("agg", t[1], t[2], tuple(fs + [(name, v)]))
    if k == "tuple":
        l = list(t[1])
        while len(l) <= int(name):
            l.append(("uninit",))
        l[int(name)] = v
        return ("tuple", tuple(l))
    if k == "gv":
        return gv([(c, set_field(x, name, v)) for c, x in t[1]])
    if k == "upd" and t[2] == name:
        return ("upd", t[1], name, v)
    return ("upd", t, name, v)


def down(t, variant):
    k = t[0]
    if k == "agg":
        return t if t[2] == variant or t[2] == "" else BOT
    if k == "gv":
        return gv([(M.AND(c, isv(v, variant)), down(v, variant)) for c, v in t[1]])
    if k == "load":
        _, (_, base, projs), ver = t
        return ("load", ("pl", base, projs + (("v", variant),)), ver)
    if k == "bot":
        return t
    return ("down", t, variant)


# ------------------------------------------------------------------ integers
def lin(t):
    """-> (dict term->coef, const) or None if t is not integer-like structure"""
    k = t[0]
    if k == "const":
        return {}, t[1]
    if k == "lin":
        return dict(t[1]), t[2]
    return {t: 1}, 0


def mk_lin(d, c):
    d = {t: k for t, k in d.items() if k}
    if not d:
        return const(c)
    if c == 0 and len(d) == 1:
        (t, k), = d.items()
        if k == 1:
            return t
    return ("lin", tuple(sorted(d.items(), key=lambda x: tid(x[0]))), c)


def add(a, b, sign=1):
    da, ca = lin(a)
    db, cb = lin(b)
    d = dict(da)
    for t, k in db.items():
        d[t] = d.get(t, 0) + sign * k
    return mk_lin(d, ca + sign * cb)


def binop(op, a, b):
    if a[0] == "gv" and len(a[1]) <= 24:
        return gv([(c, binop(op, v, b)) for c, v in a[1]])
    if b[0] == "gv" and len(b[1]) <= 24:
        return gv([(c, binop(op, a, v)) for c, v in b[1]])
    if a[0] == "bot" or b[0] == "bot":
        return BOT
    op = op.replace("Unchecked", "")
    if op in ("Add", "Sub") and not is_boolish(a) and not is_boolish(b):
        return add(a, b, 1 if op == "Add" else -1)
    if op == "Mul":
        if a[0] == "const" and b[0] == "const":
            return const(a[1] * b[1])
        if a[0] == "const":
            a, b = b, a
        if b[0] == "const":
            d, c = lin(a)
            return mk_lin({t: k * b[1] for t, k in d.items()}, c * b[1])
        return ("bin", op) + tuple(sorted((a, b), key=tid))
    if op in ("Eq", "Ne"):
        n = eq(a, b)
        return boolt(n if op == "Eq" else M.NOT(n))
    if op in ("Lt", "Gt", "Le", "Ge"):
        return boolt(cmp(op, a, b))
    if op in ("BitAnd", "BitOr", "BitXor") and (is_boolish(a) or is_boolish(b)):
        x, y = cond_of(a), cond_of(b)
        if op == "BitAnd":
            return boolt(M.AND(x, y))
        if op == "BitOr":
            return boolt(M.OR(x, y))
        return boolt(M.ite(x, M.NOT(y), y))
    if a[0] == "const" and b[0] == "const" and a[1] >= 0 and b[1] >= 0:
        x, y = a[1], b[1]
        if op == "BitAnd":
            return const(x & y)
        if op == "BitOr":
            return const(x | y)
        if op == "BitXor":
            return const(x ^ y)
        if op == "Shr" and y < 128:
            return const(x >> y)
        if op == "Shl" and y < 64 and (x << y) < (1 << 32):
            return const(x << y)
        if op == "Div" and y:
            return const(x // y)
        if op == "Rem" and y:
            return const(x % y)
    z = const(0)
    if op in ("BitAnd", "BitOr", "BitXor"):
        if a == b:
            return z if op == "BitXor" else a
        if z in (a, b):
            return z if op == "BitAnd" else (b if a == z else a)
        return ("bin", op) + tuple(sorted((a, b), key=tid))
    if op in ("Shl", "Shr") and (b == z or a == z):
        return a
    if op in ("Div",) and b == const(1):
        return a
    return ("bin", op, a, b)


def idx_bound(d, c, upper):
    """An upper (lower) bound of sum(d) + c from the ranges of the loop indices in it, if constant."""
    for t, k in d.items():
        if t[0] == "idx" and t[1][0] == "range" and k in (1, -1):
            e = mk_lin({x: y for x, y in d.items() if x != t}, c)
            if (k > 0) == upper:
                b = add(t[1][2], const(-1))
            else:
                b = t[1][1]
            if b[0] == "gv":
                continue
            e = add(e, b, k)
            if e[0] == "const":
                return e[1]
    return None


def le0(d, c):
    """Node for sum(d) + c <= 0, canonical up to sign."""
    items = sorted(((t, k) for t, k in d.items() if k), key=lambda x: tid(x[0]))
    if not items:
        return TRUE if c <= 0 else FALSE
    if any(t[0] == "idx" for t, _ in items):
        b = idx_bound(d, c, True)
        if b is not None and b <= 0:
            return TRUE
        b = idx_bound(d, c, False)
        if b is not None and b > 0:
            return FALSE
    if all(k > 0 for _, k in items):  # unsigned terms
        if c > 0:
            return FALSE
        if c == 0:
            return M.AND(*[eq0(t) for t, _ in items])
    elif all(k < 0 for _, k in items) and c - 1 <= 0:
        if c <= 0:
            return TRUE
        if c == 1:
            return M.NOT(M.AND(*[eq0(t) for t, _ in items]))
    if len(items) == 1 and abs(items[0][1]) > 1:
        t, k = items[0]
        # k*t <= -c
        return le0({t: 1}, -((-c) // k)) if k > 0 else le0({t: -1}, -((-c) // -k))
    # unsigned single variable
    if items[0][1] < 0:
        # -(L) + c <= 0  <=>  not (L - c + 1 <= 0)... with L = -sum
        d2 = {t: -k for t, k in items}
        return M.NOT(le0(d2, -c + 1))
    if len(items) == 1 and items[0][1] == 1:
        t = items[0][0]
        if c > 0:
            return FALSE  # unsigned: t <= -c < 0
        if c == 0:
            return eq0(t)
    return M.atom(("le0", tuple(items), c))


def cmp(op, a, b):
    if op == "Gt":
        return cmp("Lt", b, a)
    if op == "Ge":
        return M.NOT(cmp("Lt", a, b))
    if op == "Le":
        return M.NOT(cmp("Lt", b, a))
    # Lt: a - b + 1 <= 0
    da, ca = lin(a)
    db, cb = lin(b)
    d = dict(da)
    for t, k in db.items():
        d[t] = d.get(t, 0) - k
    return le0(d, ca - cb + 1)


def eq0(t):
    if t[0] == "count":
        # nothing to count
        return M.NOT(M.atom(("exists", t[1], t[2][1])))
    return M.atom(("eq", t, const(0)))


def eq(a, b):
    if a == b:
        return TRUE
    if a[0] == "gv":
        return M.OR(*[M.AND(c, eq(v, b)) for c, v in a[1]])
    if b[0] == "gv":
        return M.OR(*[M.AND(c, eq(a, v)) for c, v in b[1]])
    if a[0] == "bool" or b[0] == "bool":
        x, y = cond_of(a), cond_of(b)
        return M.ite(x, y, M.NOT(y))
    if a[0] == "agg" or b[0] == "agg":
        if a[0] != "agg":
            a, b = b, a
        if b[0] == "agg":
            if a[2] != b[2]:
                return FALSE
        r = isv(b, a[2]) if a[2] else TRUE
        for n, v in a[3]:
            r = M.AND(r, eq(v, field(down(b, a[2]) if a[2] else b, n)))
        return r
    if a[0] == "tuple" and b[0] == "tuple" and len(a[1]) == len(b[1]):
        return M.AND(*[eq(x, y) for x, y in zip(a[1], b[1])])
    if a[0] == "discr" or b[0] == "discr":
        if a[0] != "discr":
            a, b = b, a
        if b[0] == "const":
            vs = tuple(n for _, n in a[2])
            return M.OR(*[isv(a[1], n, vs) for x, n in a[2] if x == b[1]])
        if b[0] == "discr" and b[2] == a[2]:
            vs = tuple(n for _, n in a[2])
            return M.OR(*[M.AND(isv(a[1], n, vs), isv(b[1], n, vs)) for _, n in a[2]])
    if a[0] in ("const", "lin") or b[0] in ("const", "lin"):
        da, ca = lin(a)
        db, cb = lin(b)
        d = dict(da)
        for t, k in db.items():
            d[t] = d.get(t, 0) - k
        c = ca - cb
        items = sorted(((t, k) for t, k in d.items() if k), key=lambda x: tid(x[0]))
        if not items:
            return TRUE if c == 0 else FALSE
        if items[0][1] < 0:
            items = [(t, -k) for t, k in items]
            c = -c
        if all(k > 0 for _, k in items):  # unsigned terms
            if c > 0:
                return FALSE
            if c == 0:
                return M.AND(*[eq0(t) for t, _ in items])
        if len(items) == 1:
            t, k = items[0]
            if c % k:
                return FALSE
            return eq(t, const(-c // k)) if k > 1 or t[0] == "discr" else eq0(t) if c == 0 else M.atom(("eq", t, const(-c)))
        if len(items) == 2 and c == 0 and items[0][1] == 1 and items[1][1] == -1:
            return M.atom(("eq", items[0][0], items[1][0]))
        return M.atom(("eq", ("lin", tuple(items), 0), const(-c)))
    x, y = sorted((a, b), key=tid)
    return M.atom(("eq", x, y))


# ------------------------------------------------------------------ traversal
def walk(t):
    """All sub-terms (including terms inside BDD conditions)."""
    st, seen = [t], set()
    while st:
        x = st.pop()
        if not isinstance(x, tuple):
            continue
        key = x
        if key in seen:
            continue
        seen.add(key)
        yield x
        if x and x[0] == "bool":
            st.extend(M.support(x[1]))
            continue
        if x and x[0] == "mu":
            st.extend(y for d in _mudefs[x[1]] for y in d)
            continue
        if x and x[0] == "exists" and len(x) == 3:
            st.append(x[1])
            st.extend(M.support(x[2]))
            continue
        if x and x[0] == "gv":
            for c, v in x[1]:
                st.append(v)
                st.extend(M.support(c))
            continue
        st.extend(y for y in x if isinstance(y, tuple))


_smemo = {}


def strip(t):
    """Forget memory versions (rules that do not care about the time of a load)."""
    if not isinstance(t, tuple) or not t:
        return t
    r = _smemo.get(t)
    if r is not None:
        return r
    k = t[0]
    if k == "load":
        r = ("load", strip(t[1]), 0)
    elif k == "len":
        r = ("len", strip(t[1]), 0)
    elif k == "bool":
        r = ("bool", strip_c(t[1]))
    elif k == "gv":
        r = gv([(strip_c(c), strip(v)) for c, v in t[1]])
    elif k == "agg":
        r = ("agg", t[1], t[2], tuple((n, strip(v)) for n, v in t[3]))
    elif k == "refv":
        r = ("refv", strip(t[1]), 0)
    elif k == "fn":
        r = ("fn", t[1])
    elif k == "phi":
        r = ("phi", 0)
    elif k == "closure":
        r = ("closure", 0) + tuple(strip(x) for x in t[2:])
    elif k == "ret":
        r = ("ret",) + tuple(strip(x) for x in t[1:-1]) + (0,)
    elif k == "lin":
        d = {}
        for x, c in t[1]:
            y = strip(x)
            for z, cc in lin(y)[0].items():
                d[z] = d.get(z, 0) + c * cc
        r = mk_lin(d, t[2])
    else:
        r = remake(tuple(strip(x) if isinstance(x, tuple) else x for x in t))
    _smemo[t] = r
    return r


_cmemo = {}


def strip_c(c):
    if c <= 1:
        return c
    r = _cmemo.get(c)
    if r is None:
        r = M.map_atoms(c, strip_atom, _cmemo)
        _cmemo[c] = r
    return r


def strip_atom(a):
    k = a[0]
    if k == "is":
        return isv(strip(a[1]), a[2]) if a[2] in TWO else M.atom(("is", strip(a[1]), a[2]))
    if k == "eq":
        x, y = strip(a[1]), strip(a[2])
        if x == y:
            # the value at two times
            return M.NOT(M.atom(("t", ("changed", x))))
        return eq(x, y)
    if k == "le0":
        d = {}
        gone = set()
        for x, c in a[1]:
            for z, cc in lin(strip(x))[0].items():
                if z in d and d[z] + c * cc == 0:
                    gone.add((z, abs(d[z])))
                d[z] = d.get(z, 0) + c * cc
        if gone and not any(d.values()):
            return M.atom(("t", ("drift", tuple(sorted(gone, key=repr)), a[2])))
        return le0(d, a[2])
    if k == "t":
        return cond_of(strip(a[1]))
    if k == "exists":
        return M.atom(("exists", strip(a[1]), strip_c(a[2])))
    if k == "more":
        return M.atom(("more",) + tuple(strip(x) if isinstance(x, tuple) else x for x in a[1:]))
    return M.atom(tuple(strip(x) if isinstance(x, tuple) else x for x in a))


def hash_str(s):
    return zlib.crc32(s.encode()) + 16


def shape_hash(t, memo, mask):
    """A hash of a term that does not depend on the history of the analysis.  mask(lv) -> hash or None."""
    if not isinstance(t, tuple):
        return hash_str(repr(t))
    r = memo.get(t)
    if r is not None:
        return r
    k = t[0] if t else ""
    if k == "lv":
        r = mask(t)
    elif k == "bool":
        r = cond_hash(t[1], memo, mask)
    elif k == "gv":
        r = hash_str("gv" + repr(sorted((cond_hash(c, memo, mask), shape_hash(v, memo, mask)) for c, v in t[1])))
    elif k == "lin":
        r = hash_str("lin" + repr(sorted((shape_hash(x, memo, mask), c) for x, c in t[1])) + repr(t[2]))
    elif k == "exists":
        r = hash_str("ex" + repr((shape_hash(t[1], memo, mask), cond_hash(t[2], memo, mask))))
    else:
        r = hash_str(repr([shape_hash(x, memo, mask) for x in t]))
    memo[t] = r
    return r


def cond_hash(c, memo, mask):
    if c <= 1:
        return c
    hs = []
    for a in M.support(c):
        if a[0] == "le0":
            hs.append(hash_str("le0" + repr(sorted((shape_hash(x, memo, mask), k) for x, k in a[1])) + repr(a[2])))
        else:
            hs.append(shape_hash(a, memo, mask))
    return hash_str("c" + repr(sorted(hs)))


_mu = {}
_mudefs = []


def mu(defs):
    """The recurrence with these definitions, as a small term (definitions are shared)."""
    i = _mu.get(defs)
    if i is None:
        i = _mu[defs] = len(_mudefs)
        _mudefs.append(defs)
    return ("mu", i)


def mu_defs(t):
    return _mudefs[t[1]]


def top_choice(t):
    """The term with its choices pulled to the top."""
    if not has_gv(t):
        return t
    if t[0] in ("agg", "tuple"):
        if t[0] == "agg":
            return ("agg", t[1], t[2], tuple((n, top_choice(v)) for n, v in t[3]))
        return ("tuple", tuple(top_choice(v) for v in t[1]))
    if t[0] == "gv":
        return gv([(degv_c(c), top_choice(v)) for c, v in t[1]])
    return gv(degv(t))


def volatile(a):
    """Does an atom speak of a loop's generic element or carried value?"""
    return any(x and x[0] in ("idx", "elem", "more", "in1", "lv", "mv", "pos", "mu") for x in walk(a))


def assume(t, g, depth=0):
    """The term with the recurrences inside simplified by the condition under which it is used."""
    if depth > 3 or not isinstance(t, tuple) or not any(x and x[0] == "mu" for x in walk(t)):
        return t
    if depth == 0:
        g = M.exists(g, volatile)
    if g == TRUE:
        return t

    def one(v):
        if not isinstance(v, tuple) or not v:
            return v
        if v[0] == "gv":
            return gv([(M.constrain(c, g), one(x)) for c, x in v[1] if M.AND(c, g) != FALSE])
        if v[0] == "bool":
            return ("bool", M.constrain(v[1], g))
        if v[0] == "agg":
            return ("agg", v[1], v[2], tuple((n, one(x)) for n, x in v[3]))
        if v[0] == "tuple":
            return ("tuple", tuple(one(x) for x in v[1]))
        return assume(v, g, depth + 1)

    return substitution(lambda x: mu(tuple((one(a), one(b)) for a, b in mu_defs(x))) if x and x[0] == "mu" else None).term(t)


class MuCanon:
    """Loop-carried variables as recurrences: the value of a variable is named by its initial value
    and its update (and those of the variables they depend on), not by the loop or the variable."""

    def __init__(self, recs, norm, norm_c):
        self.recs, self.norm = recs, norm
        self.stack = []
        self.memo = {}
        self.lvh, self.nr, self.lvstack = {}, {}, []
        self.top = substitution(self.fn)

    def term(self, t):
        return self.top.term(t)

    def cond(self, c):
        return self.top.cond(c)

    def fn(self, t):
        return self.lv(t) if t and t[0] == "lv" else None

    def group(self, lid, var):
        """The variables var depends on, itself first, the others in an order fixed by their shape."""
        recs = self.recs[lid]
        todo = [var] + (["#"] if "#" in recs else [])
        deps = set(todo)
        while todo:
            v = todo.pop()
            for e in recs[v]:
                for x in walk(e):
                    if x and x[0] == "lv" and x[1] == lid and x[2] in recs and x[2] not in deps:
                        deps.add(x[2])
                        todo.append(x[2])
        last = [v for v in deps if v == "#"]
        deps.discard("#")
        if len(deps) == 1:
            return [var] + last
        h = {v: 0 for v in deps}
        for _ in range(3):
            memo = {}

            def mask(t):
                if t[1] == lid:
                    return h.get(t[2], 1)
                return self.lvhash(t)

            h = {v: hash_str(repr((v == var, shape_hash(self.nrec(lid, v)[0], memo, mask), shape_hash(self.nrec(lid, v)[1], memo, mask)))) for v in sorted(deps, key=str)}
        return [var] + sorted(deps - {var}, key=lambda v: (h[v], str(v))) + last

    def nrec(self, lid, var):
        k = lid, var
        r = self.nr.get(k)
        if r is None:
            r = self.nr[k] = tuple(self.norm(x) if isinstance(x, tuple) else ("?",) for x in self.recs[lid][var])
        return r

    def lvhash(self, t):
        """Hash of another loop's variable: by its place in the nest, or by its own recurrence."""
        for d, (l, order) in enumerate(reversed(self.stack)):
            if l == t[1]:
                return hash_str(repr((d, order.index(t[2])))) if t[2] in order else 2
        if t[1] not in self.recs or t[2] not in self.recs[t[1]]:
            return 2
        if t in self.lvstack:
            return len(self.lvstack) - self.lvstack.index(t) + 10
        k = t, tuple(l for l, _ in self.stack)
        r = self.lvh.get(k) if not self.lvstack else None
        if r is None:
            if len(self.lvstack) > 2:
                return 3
            memo = {}

            def mask(x):
                return 5 if x == t else 6 if x[1] == t[1] else self.lvhash(x)

            self.lvstack.append(t)
            r = hash_str(repr([shape_hash(x, memo, mask) for x in self.nrec(t[1], t[2])]))
            self.lvstack.pop()
            if not self.lvstack:
                self.lvh[k] = r
        return r

    def lv(self, t):
        lid, var = t[1], t[2]
        for d, (l, order) in enumerate(reversed(self.stack)):
            if l == lid:
                return ("mv", d, order.index(var)) if var in order else ("lv", "?", "?")
        if lid not in self.recs or var not in self.recs[lid]:
            return ("lv", "?", "?")
        if not self.stack and t in self.memo:
            return self.memo[t]
        if len(self.stack) > 3:
            return ("lv", "?", "?")
        if lid + "b" in self.recs:
            return self.lv(("lv", lid + "b", var))
        order = self.group(lid, var)
        self.stack.append((lid, order))
        defs = []
        for v in order:
            sub = substitution(self.fn)
            defs.append(tuple(top_choice(sub.term(self.norm(x))) if isinstance(x, tuple) else ("?",) for x in self.recs[lid][v]))
        self.stack.pop()
        r = mu(tuple(defs))
        if not self.stack:
            self.memo[t] = r
        return r


class substitution:
    """Rebuild a term with a replacement function applied bottom-up (constructors renormalise)."""

    def __init__(self, fn):
        self.fn, self.m, self.mc = fn, {}, {}

    def term(self, t):
        if not isinstance(t, tuple) or not t:
            return t
        r = self.m.get(t)
        if r is None:
            r = self.fn(t)
            if r is None:
                r = self.rebuild(t)
            self.m[t] = r
        return r

    def rebuild(self, t):
        k = t[0]
        T = self.term
        if k == "bool":
            return ("bool", self.cond(t[1]))
        if k == "gv":
            return gv([(self.cond(c), T(v)) for c, v in t[1]])
        if k == "lin":
            r = const(t[2])
            for x, c in t[1]:
                r = add(r, binop("Mul", T(x), const(c)))
            return r
        if k == "fld":
            return field(T(t[1]), t[2])
        if k == "down":
            return down(T(t[1]), t[2])
        r = tuple(T(x) if isinstance(x, tuple) else x for x in t)
        if r != t:
            r2 = self.fn(r)
            if r2 is not None:
                return r2
        return remake(r)

    def cond(self, c):
        if c <= 1:
            return c
        r = self.mc.get(c)
        if r is None:
            r = self.mc[c] = M.map_atoms(c, self.atom, self.mc)
        return r

    def atom(self, a):
        k = a[0]
        T = self.term
        if k == "is":
            return isv(T(a[1]), a[2]) if a[2] in TWO else M.atom(("is", T(a[1]), a[2]))
        if k == "eq":
            return eq(T(a[1]), T(a[2]))
        if k == "le0":
            r = const(a[2])
            for x, c in a[1]:
                r = add(r, binop("Mul", T(x), const(c)))
            d, c = lin(r)
            return le0(d, c)
        if k == "t":
            return cond_of(T(a[1]))
        if k == "exists":
            return M.atom(("exists", T(a[1]), self.cond(a[2])))
        r = self.fn(a)
        if r is not None:
            return M.atom(r)
        return M.atom(tuple(T(x) if isinstance(x, tuple) else x for x in a))


_has = {}


def has_gv(t):
    """Does the term contain a choice anywhere (conditions of choices included)?"""
    if not isinstance(t, tuple) or not t:
        return False
    r = _has.get(t)
    if r is None:
        k = t[0]
        if k == "gv":
            r = True
        elif k == "bool":
            r = c_has_gv(t[1])
        elif k == "mu":
            r = False
        elif k == "exists":
            r = has_gv(t[1]) or c_has_gv(t[2]) or bool(t[2] > 1 and free_atoms(t[2], t[1]))
        elif k in BIND and len(t) > BIND[k][1] and isinstance(t[BIND[k][1]], tuple) and t[BIND[k][1]][0] == "bool":
            r = bind_norm(t) != [(TRUE, t)]
        else:
            r = any(has_gv(x) for x in t if isinstance(x, tuple))
        _has[t] = r
    return r


# ---- terms that bind the generic element of a domain: (kind, position of the domain, of the filter,
# of the values computed per element)
BIND = {"collect": (1, 2, (3,)), "comp": (1, 2, (3,)), "count": (1, 2, ()), "position": (1, 2, ()), "reduce": (2, 3, (4,))}
GENERIC = ("idx", "elem", "more", "in1", "pos")
_dep = {}


def bound_in(a, dom):
    """May an atom depend on the element of `dom` (or on how often a callback was called)?"""
    k = (a, dom)
    r = _dep.get(k)
    if r is None:
        sub = set(walk(dom))
        r = False
        for x in walk(a):
            if not x:
                continue
            if x[0] in ("ret", "lv", "larg") or x[0] in GENERIC and len(x) > 1 and x[1] in sub:
                r = True
                break
        _dep[k] = r
    return r


def free_atoms(c, dom):
    return [a for a in M.support(c) if not bound_in(a, dom)]


def per_case(conds, dom):
    """The cases of the tests in `conds` that do not depend on the element: [(case, [cond under it])]."""
    for c in conds:
        f = free_atoms(c, dom)
        if f:
            a = M.atom(f[0])
            out = []
            for s in (a, M.NOT(a)):
                for c2, r in per_case([M.constrain(x, s) for x in conds], dom):
                    c2 = M.AND(c2, s)
                    if c2 != FALSE:
                        out.append((c2, r))
            return out
    return [(TRUE, conds)]


def bind_alts(t):
    """Alternatives of a binder: choices of domain, and tests that do not depend on the element,
    are taken outside; what depends on the element stays inside."""
    k = t[0]
    di, gi, eis = BIND[k]
    res = []
    rest = [i for i in range(1, len(t)) if i != gi and i not in eis and isinstance(t[i], tuple)]
    outer = [(TRUE, {})]
    for i in rest:
        outer = [(M.AND(c, c2), {**d, i: x}) for c, d in outer for c2, x in degv(t[i]) if M.AND(c, c2) != FALSE]
    g0 = degv_c(t[gi][1])
    es0 = [degv(t[i]) for i in eis]
    for c, d in outer:
        dom = d[di] if di in d else t[di]
        flat = [M.constrain(g0, c)]
        for e in es0:
            flat += [M.constrain(c2, c) for c2, _ in e]
        for c2, vals in per_case(flat, dom):
            cc = M.AND(c, c2)
            if cc == FALSE:
                continue
            n = list(t)
            for i, x in d.items():
                n[i] = x
            g = vals[0]
            n[gi] = ("bool", g)
            j = 1
            for i, e in zip(eis, es0):
                al = []
                for _, x in e:
                    gg = M.AND(g, vals[j])
                    if gg != FALSE:
                        al.append((M.constrain(vals[j], g), x))
                    j += 1
                n[i] = (gv(al) if len(al) > 1 else al[0][1]) if al else BOT
            res.append((cc, tuple(n)))
    return res


def bind_norm(t):
    r = _dg.get(t)
    if r is None:
        if not (isinstance(t[BIND[t[0]][1]], tuple) and t[BIND[t[0]][1]][0] == "bool"):
            return None
        r = bind_alts(t)
        d = {}
        for c, x in r:
            d[x] = M.OR(d.get(x, FALSE), c)
        r = [(c, x) for x, c in d.items()]
        if len(r) > DG_LIMIT:
            r = [(TRUE, t)]
        for _, x in r:
            _dg.setdefault(x, [(TRUE, x)])
        _dg[t] = r
    return r


def exists_norm(dom, n):
    """EXISTS dom: n, with the tests that do not depend on the element taken outside."""
    return M.OR(*[FALSE if m == FALSE else M.AND(c, M.atom(("exists", dom, m))) for c, (m,) in per_case([n], dom)])


_chas = {}


def c_has_gv(c):
    if c <= 1:
        return False
    r = _chas.get(c)
    if r is None:
        r = _chas[c] = any(has_gv(a) for a in M.support(c))
    return r


_dg = {}
_dgc = {}
HEADS = {}
DG_LIMIT = 64


def degv(t):
    """[(cond, term)]: the alternatives of a term, every choice inside pulled to the top."""
    if not isinstance(t, tuple) or not t or not has_gv(t):
        return [(TRUE, t)]
    r = _dg.get(t)
    if r is not None:
        return r
    k = t[0]
    if k == "bool":
        r = [(TRUE, ("bool", degv_c(t[1])))]
    elif k in BIND and len(t) > BIND[k][1] and isinstance(t[BIND[k][1]], tuple) and t[BIND[k][1]][0] == "bool":
        return bind_norm(t)
    elif k == "gv":
        r = []
        for c, v in t[1]:
            c = degv_c(c)
            for c2, v2 in degv(v):
                cc = M.AND(c, c2)
                if cc != FALSE:
                    r.append((cc, v2))
    else:
        acc = [(TRUE, ())]
        for x in t:
            if not isinstance(x, tuple):
                acc = [(c, xs + (x,)) for c, xs in acc]
                continue
            ex = degv(x)
            acc = [(M.AND(c, c2), xs + (y,)) for c, xs in acc for c2, y in ex if M.AND(c, c2) != FALSE]
            if len(acc) > DG_LIMIT:
                acc = None
                break
        if acc is None:
            r = [(TRUE, t)]
        else:
            r = [(c, remake(xs)) for c, xs in acc]
    d = {}
    for c, x in r:
        d[x] = M.OR(d.get(x, FALSE), c)
    r = [(c, x) for x, c in d.items()]
    if len(r) > DG_LIMIT:
        r = [(TRUE, t)]
    _dg[t] = r
    return r


def remake(t):
    k = t[0] if t else None
    if k == "lin":
        r = const(t[2])
        for x, c in t[1]:
            r = add(r, binop("Mul", x, const(c)))
        return r
    if k == "tuple":
        return mktuple(t[1])
    if k == "fld":
        return field(t[1], t[2])
    if k == "down":
        return down(t[1], t[2])
    if k == "discr" and len(t) == 3:
        return discr(t[1], t[2])
    if k == "bin" and len(t) == 4:
        return binop(t[1], t[2], t[3])
    if k in ("max", "min") and all(isinstance(x, tuple) for x in t[1:]):
        return (k,) + tuple(sorted(t[1:], key=tid))
    return t


def degv_c(c):
    if c <= 1 or not c_has_gv(c):
        return c
    r = _dgc.get(c)
    if r is None:
        r = _dgc[c] = M.map_atoms(c, degv_atom, _dgc)
    return r


def degv_atom(a):
    if not has_gv(a):
        return M.atom(a)
    k = a[0]
    if k == "is":
        return M.OR(*[M.AND(c, isv(x, a[2])) if a[2] in TWO else M.AND(c, M.atom(("is", x, a[2]))) for c, x in degv(a[1])])
    if k == "eq":
        return M.OR(*[M.AND(c, c2, eq(x, y)) for c, x in degv(a[1]) for c2, y in degv(a[2])])
    if k == "le0":
        out = []
        for c, x in degv(("lin", a[1], a[2])):
            d, k0 = lin(x)
            out.append(M.AND(c, le0(d, k0)))
        return M.OR(*out)
    if k == "t":
        return M.OR(*[M.AND(c, cond_of(x)) for c, x in degv(a[1])])
    if k == "exists":
        n = degv_c(a[2])
        return M.OR(*[M.AND(c, exists_norm(d, M.constrain(n, c))) for c, d in degv(a[1])])
    return M.OR(*[M.AND(c, M.atom(x)) for c, x in degv(a)])


# ------------------------------------------------------------------ printing
def pp_place(p):
    if p[0] != "pl":
        return pp(p)
    base, projs = p[1], p[2]
    if base[0] == "O":
        s = base[1]
    elif base[0] == "T":
        s = "(*" + pp(base[1]) + ")"
    else:
        s = "local" + str(base[1]) + "_" + str(base[2])
    for q in projs:
        if q[0] == "f":
            s += "." + q[1]
        elif q[0] == "v":
            s += "@" + q[1]
        elif q[0] == "ix":
            s += "[" + pp(q[1]) + "]"
        elif q[0] == "rg":
            s += "[" + pp(q[1]) + ".." + pp(q[2]) + "]"
        else:
            s += "<" + str(q) + ">"
    return s


_ppm = {}


def pp(t):
    if not isinstance(t, tuple) or not t:
        return str(t)
    r = _ppm.get(t)
    if r is None:
        r = _pp(t)
        if len(r) > 3000:
            r = r[:1500] + "...#%d" % tid(t)
        _ppm[t] = r
    return r


def _pp(t):
    k = t[0]
    if not isinstance(k, str) or (k == "agg" and len(t) != 4):
        return "(" + ", ".join(pp(x) for x in t) + ")"
    if k == "const":
        return str(t[1])
    if k == "mu":
        return "rec[" + "; ".join(pp(a) + " -> " + pp(b) for a, b in _mudefs[t[1]]) + "]"
    if k == "bool":
        return pp_c(t[1])
    if k == "load":
        return pp_place(t[1]) + ("" if t[2] == 0 else f"'{t[2]}")
    if k == "len":
        return "len(" + pp_place(t[1]) + ")" + ("" if t[2] == 0 else f"'{t[2]}")
    if k == "ref":
        return "&" + pp_place(t[1])
    if k == "refv":
        return "&" + pp_place(t[1]) + ("" if t[2] == 0 else f"'{t[2]}")
    if k == "pl":
        return pp_place(t)
    if k == "agg":
        return f"{t[1].split('::')[-1]}{'::' + t[2] if t[2] else ''}{{" + ", ".join(f"{n}: {pp(v)}" for n, v in t[3]) + "}"
    if k == "tuple":
        return "(" + ", ".join(pp(x) for x in t[1]) + ")"
    if k == "gv":
        return "{" + " | ".join(f"{pp_c(c)} => {pp(v)}" for c, v in t[1]) + "}"
    if k == "lin":
        return "(" + " + ".join((f"{c}*" if c != 1 else "") + pp(x) for x, c in t[1]) + (f" + {t[2]}" if t[2] else "") + ")"
    if k == "fld":
        return pp(t[1]) + "." + t[2]
    if k == "down":
        return pp(t[1]) + "@" + t[2]
    if k == "call":
        return t[1].split("::")[-1] + "(" + ", ".join(pp(x) for x in t[2]) + ")"
    if k == "arg":
        return t[1]
    if k == "closure":
        return f"|clo{t[1]}|[" + ", ".join(pp(x) for x in t[2]) + "]"
    return k + "(" + ", ".join(pp(x) for x in t[1:]) + ")"


def pp_atom(a):
    k = a[0]
    if k == "is":
        return f"{pp(a[1])} is {a[2]}"
    if k == "eq":
        return f"{pp(a[1])}=={pp(a[2])}"
    if k == "le0":
        return "[" + " + ".join((f"{c}*" if c != 1 else "") + pp(x) for x, c in a[1]) + f" <= {-a[2]}]"
    if k == "t":
        return pp(a[1])
    if k == "exists":
        return f"EXISTS {pp(a[1])}: ({pp_c(a[2])})"
    return k + "(" + ", ".join(pp(x) for x in a[1:]) + ")"


_ppc = {}


def pp_c(c):
    if c == TRUE:
        return "T"
    if c == FALSE:
        return "F"
    r = _ppc.get(c)
    if r is None:
        r = _ppc[c] = _pp_c(c)
    return r


def _pp_c(c):
    cs = M.cubes(c, 8)
    out = []
    for cube in cs:
        out.append(" & ".join(("" if p else "!") + pp_atom(a) for a, p in cube))
    s = " || ".join(out)
    if len(cs) >= 8:
        s += " || ..."
    return s


_okeys = {}
_omu = {}
UNVERSIONED = ("load", "len", "refv", "ret")


def okey(t):
    """(size, hash) of a term, blind to memory versions and to the history of the analysis."""
    if not isinstance(t, tuple):
        return 0, zlib.crc32(repr(t).encode())
    r = _okeys.get(t)
    if r is not None:
        return r
    k = t[0] if t else ""
    if k == "bool":
        r = ckey(t[1])
    elif k == "lv":
        r = (1, hash_str("lv" + str(t[2])))
    elif k == "phi":
        r = (1, 7)
    elif k == "mu":
        r = _omu.get(t[1])
        if r is None:
            _omu[t[1]] = (1, 11)
            ks = [okey(x) for d in _mudefs[t[1]] for x in d if isinstance(x, tuple)]
            r = _omu[t[1]] = (1 + sum(x[0] for x in ks), hash_str("mu" + repr(ks)))
    else:
        if k == "gv":
            ks = sorted((ckey(c), okey(v)) for c, v in t[1])
            n = sum(a[0] + b[0] for a, b in ks)
        elif k == "lin":
            ks = sorted((okey(x), c) for x, c in t[1]) + [t[2]]
            n = sum(x[0][0] for x in ks[:-1])
        elif k == "le0":
            ks = sorted((okey(x), c) for x, c in t[1]) + [t[2]]
            n = sum(x[0][0] for x in ks[:-1])
        elif k == "eq":
            ks = sorted(okey(x) for x in t[1:])
            n = sum(x[0] for x in ks)
        elif k == "exists":
            ks = [okey(t[1]), ckey(t[2])]
            n = sum(x[0] for x in ks)
        else:
            u = t[:-1] if k in UNVERSIONED else ("closure",) + t[2:] if k == "closure" else t
            ks = [okey(x) for x in u]
            n = sum(x[0] for x in ks)
        r = (min(n + 1, 1 << 30), hash_str(k + repr(ks)) if isinstance(k, str) else hash_str(repr(ks)))
    _okeys[t] = r
    return r


def ckey(c):
    if c <= 1:
        return 0, c
    ks = sorted(okey(a) for a in M.support(c))
    return sum(x[0] for x in ks), hash_str("c" + repr(ks))


def rank(a):
    n, h = okey(a)
    return (n << 48) + (h << 8)


M.rank = rank


def reset():
    """Forget every term and condition (each function is analysed in a space of its own)."""
    M.__init__()
    _mudefs.clear()
    _okeys.clear()
    _omu.clear()
    for d in (_mu, _ids, _smemo, _cmemo, _has, _chas, _dep, _dg, _dgc, _ppm, _ppc, HEADS):
        d.clear()
