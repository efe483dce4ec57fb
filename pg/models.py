"""Transfer functions for library calls: index newtypes, Vec / slice / BitVec, mem, cmp, iterators."""
import re
from . import strings
from .bdd import FALSE, TRUE
from .terms import *
from .terms import add as t_add

IDX = re.compile(r"^index::(Node|Port)Index::<.*>::(new|index)$")
MAYBE = re.compile(r"^index::Maybe(Node|Port)Index::<.*>::(\w+)$")
POFF = re.compile(r"^index::PortOffset::<.*>::(\w+)$")
FROM_IDX = re.compile(r"^<(?:usize|u\d+) as std::convert::From<index::(?:Node|Port)Index(?:<.*>)?>>::from$")
TRY_IDX = re.compile(r"^<index::(?:Node|Port)Index(?:<.*>)? as std::convert::TryFrom<usize>>::try_from$")
MAYBE_FROM_IDX = re.compile(r"^<index::Maybe(\w+?)(?:<.*>)? as std::convert::From<index::(?:Node|Port)Index(?:<.*>)?>>::from$")
MAYBE_FROM_OPT = re.compile(r"^<index::Maybe\w+(?:<.*>)? as std::convert::From<std::option::Option<.*>>>::from$")
OPT_FROM_MAYBE = re.compile(r"^<std::option::Option<.*> as std::convert::From<index::Maybe.*>>::from$")
MAYBE_DEFAULT = re.compile(r"^<index::Maybe\w+(?:<.*>)? as std::default::Default>::default$")
MAYBE_INTO_ITER = re.compile(r"^<index::Maybe\w+(?:<.*>)? as std::iter::IntoIterator>::into_iter$")
IMPLFOR = re.compile(r"^index::<impl (.*) for (.*)>::(\w+)$")
INT = re.compile(r"^(?:u|i)(?:8|16|32|64|128|size)$")
SEQ = re.compile(r"(?:^|[<: ])(?:std::vec::Vec|core::slice|smallvec::SmallVec|bitvec::|std::slice|\[T\]|alloc::slice|std::array|std::collections::VecDeque|std::boxed::Box<\[)")
PURE_SEQ_REF = {"deref", "deref_mut", "as_slice", "as_mut_slice", "as_ref", "as_mut", "borrow", "borrow_mut", "as_bitslice", "as_mut_bitslice", "into_boxed_slice", "into_vec"}
ADAPT1 = {"rev", "enumerate", "copied", "cloned", "peekable", "fuse", "flatten", "dedup"}
ADAPT2 = {"map", "filter", "filter_map", "flat_map", "take_while", "skip_while", "inspect", "map_while", "zip", "chain", "skip", "take", "step_by", "scan", "unique_by", "dedup_by"}


def rd(an, st, r):
    """Read through a reference value (possibly several alternatives)."""
    def f(x):
        if x[0] == "ref":
            pl = x[1]
        else:
            pl = ("pl", ("T", x), ())
        return an.read(st, pl)

    return dist(r, f)


def full(an, st, r):
    v = rd(an, st, r)
    n = 0
    while v[0] == "ref" and n < 4:
        v = rd(an, st, v)
        n += 1
    return v


def repeated(v):
    """(element, count) of a sequence that repeats one value."""
    if v[0] == "fill":
        return v[1], v[2]
    if v[0] == "it" and v[1] == "slice" and v[2][0] == "fill":
        return v[2][1], v[2][2]
    return None


def places(r):
    from .engine import deref

    return [(c, deref(x)) for c, x in alts(r)]


RANGE_TY = re.compile(r"^(?:&(?:'\w+ )?(?:mut )?)*(?:std|core)::ops::(?:range::)?Range<")


def range_len(a, b):
    """Number of elements of a..b."""
    n = t_add(b, a, -1)
    if a == const(0):
        return n
    c = cond_of(binop("Lt", a, b))
    return n if c == TRUE else gv([(c, n), (M.NOT(c), const(0))])


EXTEND = re.compile(r"^<((?:\w+::)+(HashSet|HashMap|BTreeSet|BTreeMap|IndexSet|IndexMap|BinaryHeap))<(.*)> as std::iter::Extend<")


class Models:
    def get(self, an, f, rdef, name, trait, args, st, cond, sp, aty, rty):
        fn = getattr(self, "t_" + (trait or "").replace("std::", "").replace("::", "_"), None) if trait else None
        if not an.raw_index:  # inside index.rs the representation is what is being checked
            r = self.index(an, f, rdef, name, args, st, cond, sp)
            if r is not None:
                return r
        r = strings.call(an, f, rdef, name, trait, args, st, cond, sp, aty, rty)
        if r is not None:
            return r
        if trait in ("std::cmp::PartialEq", "std::cmp::PartialOrd", "std::cmp::Ord"):
            return self.cmp(an, name, args, st, aty)
        if trait == "std::clone::Clone" and name == "clone":
            return rd(an, st, args[0]), st, TRUE
        if trait == "std::default::Default" and name == "default":
            return self.default(an, f, rty, st)
        if trait in ("std::iter::Iterator", "std::iter::DoubleEndedIterator", "std::iter::IntoIterator", "std::iter::ExactSizeIterator", "itertools::Itertools"):
            r = self.iterator(an, f, rdef, name, trait, args, st, cond, sp, aty, rty)
            if r is not None:
                return r
        if trait == "std::iter::FromIterator" and name == "from_iter" and not f.get("rcrate") and re.match(r"(std::vec::Vec|std::collections::|indexmap::)", rty):
            r = self.iterator(an, f, "", "collect", "std::iter::Iterator", args, st, cond, sp, None, rty)
            if r is not None:
                return r
        m = name == "extend" and EXTEND.match(rdef)
        if m and args[1][0] != "gv":
            # a set or a map is extended by inserting the items one by one
            ins = f"{m.group(1)}::<{m.group(3)}>::" + ("push" if m.group(2) == "BinaryHeap" else "insert")
            return self.consume(an, "extend", an.iter_of(st, args[1]), [args[0], args[1], "Extend<&" in rdef, ins, aty], st, cond, sp, rty, args[0])
        if rdef.startswith("std::mem::"):
            r = self.mem(an, name, args, st, cond, sp)
            if r is not None:
                return r
        if f.get("rcrate") and "inst" in f:
            pass
        elif SEQ.search(rdef) or (f.get("self") and SEQ.search(f["self"]) and not f.get("rcrate")):
            r = self.seq(an, f, rdef, name, trait, args, st, cond, sp, aty, rty)
            if r is not None:
                return r
        return self.misc(an, f, rdef, name, trait, args, st, cond, sp, aty, rty)

    # ------------------------------------------------------------- index newtypes
    def index(self, an, f, rdef, name, args, st, cond, sp):
        m = IMPLFOR.match(rdef)
        if m:
            rdef = f"<{m.group(2)} as {m.group(1)}>::{m.group(3)}"
        m = IDX.match(rdef)
        if m:
            return (args[0] if name == "new" else rd(an, st, args[0])), st, TRUE
        m = MAYBE.match(rdef)
        if m:
            a = args[0]
            if name in ("new", "to_option"):
                return a, st, TRUE
            if name == "is_some":
                return boolt(isv(a, "Some")), st, TRUE
            if name == "is_none":
                return boolt(M.NOT(isv(a, "Some"))), st, TRUE
            if name in ("expect", "unwrap"):
                an.panic(M.AND(cond, M.NOT(isv(a, "Some"))), sp, "MaybeIndex::" + name)
                return field(down(a, "Some"), "0"), st, TRUE
            if name in ("take", "replace"):
                old = rd(an, st, a)
                an.write_alts(st, places(a), NONE if name == "take" else some(args[1]), cond, sp)
                return old, st, TRUE
            if name == "as_mut":
                v = rd(an, st, a)
                c = isv(v, "Some")
                from .engine import push_proj

                r = dist(a, lambda x: ("ref", push_proj(push_proj(places(x)[0][1], ("v", "Some")), ("f", "0"))))
                return gv([(c, some(r)), (M.NOT(c), NONE)]), st, TRUE
        m = POFF.match(rdef)
        if m:
            if name == "new":
                return ("agg", "PortOffset", "", (("direction", args[0]), ("index", args[1]))), st, TRUE
            if name in ("direction", "index"):
                return field(args[0], name), st, TRUE
            if name == "opposite":
                v = rd(an, st, args[0])
                d = field(v, "direction")
                out = isv(d, "Outgoing")
                nd = gv([(out, ("agg", "Direction", "Incoming", ())), (M.NOT(out), ("agg", "Direction", "Outgoing", ()))])
                return ("agg", "PortOffset", "", (("direction", nd), ("index", field(v, "index")))), st, TRUE
        if FROM_IDX.match(rdef) or MAYBE_FROM_OPT.match(rdef) or OPT_FROM_MAYBE.match(rdef):
            return args[0], st, TRUE
        if MAYBE_FROM_IDX.match(rdef):
            return some(args[0]), st, TRUE
        if MAYBE_DEFAULT.match(rdef):
            return NONE, st, TRUE
        if MAYBE_INTO_ITER.match(rdef):
            return ("it", "opt", args[0]), st, TRUE
        if TRY_IDX.match(rdef):
            c = M.atom(("t", ("fits", args[0])))
            return gv([(c, ("agg", "Result", "Ok", (("0", args[0]),))), (M.NOT(c), ("agg", "Result", "Err", (("0", ("agg", "IndexError", "", (("index", args[0]),))),)))]), st, TRUE
        if rdef.startswith("std::num::NonZero") or rdef.startswith("core::num::nonzero"):
            if name in ("get", "new_unchecked", "from"):
                return args[0], st, TRUE
            if name == "new":
                z = eq(args[0], const(0))
                return gv([(M.NOT(z), some(args[0])), (z, NONE)]), st, TRUE
        return None

    # ------------------------------------------------------------- comparisons
    def cmp(self, an, name, args, st, aty=None):
        a, b = rd(an, st, args[0]) if name not in ("max", "min", "clamp") else args[0], None
        if len(args) > 1:
            b = rd(an, st, args[1]) if name not in ("max", "min", "clamp") else args[1]
        n = 0
        while b is not None and n < 4 and all(x[0] in ("ref", "&") for v in (a, b) for _, x in alts(v)):
            a, b = (gv([(c, rd(an, st, x) if x[0] == "ref" else x[1]) for c, x in alts(v)]) for v in (a, b))
            n += 1
        if name in ("eq", "ne"):
            c = eq(a, b)
            return boolt(c if name == "eq" else M.NOT(c)), st, TRUE
        if name in ("lt", "le", "gt", "ge"):
            if a[0] == "tuple" or b[0] == "tuple":
                return boolt(M.atom(("t", ("cmp", name, a, b)))), st, TRUE
            return binop({"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[name], a, b), st, TRUE
        if name in ("max", "min"):
            return self.maxmin(name, a, b, aty), st, TRUE
        if name in ("cmp", "partial_cmp"):
            r = ("cmp", a, b)
            return (r if name == "cmp" else some(r)), st, TRUE
        return None

    def maxmin(self, name, a, b, aty=None):
        if a == b:
            return a
        if aty and re.match(r"^(&\s*)*(std::option::)?Option<", aty[0]):
            ca, cb = isv(a, "Some"), isv(b, "Some")
            inner = self.maxmin(name, field(down(a, "Some"), "0"), field(down(b, "Some"), "0"))
            if name == "max":
                return gv([(M.AND(ca, cb), some(inner)), (M.AND(ca, M.NOT(cb)), a), (M.NOT(ca), b)])
            return gv([(M.AND(ca, cb), some(inner)), (M.NOT(M.AND(ca, cb)), NONE)])
        if a[0] != "tuple" and b[0] != "tuple":
            c = cond_of(binop("Le", a, b))
            return gv([(c, a if name == "min" else b), (M.NOT(c), b if name == "min" else a)])
        return (name,) + tuple(sorted((a, b), key=tid))

    def default(self, an, f, rty, st):
        if re.match(r"^(std::ops::|core::ops::)?Range<", rty):
            return ("agg", "Range", "", (("start", const(0)), ("end", const(0)))), st, TRUE
        if INT.match(rty):
            return const(0), st, TRUE
        if rty == "bool":
            return T_FALSE, st, TRUE
        if rty.startswith("std::option::Option<"):
            return NONE, st, TRUE
        if re.match(r"^(std::vec::Vec|smallvec::SmallVec|bitvec::vec::BitVec|std::collections::\w+)", rty):
            return ("empty", rty.split("<")[0]), st, TRUE
        if "inst" in f:
            return None
        return ("default", rty), st, TRUE

    # ------------------------------------------------------------- mem
    def mem(self, an, name, args, st, cond, sp):
        if name in ("replace", "take"):
            old = rd(an, st, args[0])
            if name == "replace":
                new = args[1]
            else:
                new = self.taken(an, old)
            an.write_alts(st, places(args[0]), new, cond, sp)
            for c, pl in places(args[0]):
                an.set_len(st, pl, len_of(new))
            return old, st, TRUE
        if name == "swap":
            a, b = rd(an, st, args[0]), rd(an, st, args[1])
            an.write_alts(st, places(args[0]), b, cond, sp)
            an.write_alts(st, places(args[1]), a, cond, sp)
            return UNIT, st, TRUE
        if name in ("drop", "forget"):
            return UNIT, st, TRUE
        return None

    def taken(self, an, old):
        """The default value `mem::take` leaves behind."""
        t = an.cur_aty[0] if getattr(an, "cur_aty", None) else ""
        m = re.match(r"^&(?:'\w+ )?mut (.*)$", t)
        ty = m.group(1) if m else ""
        if old[0] == "bool" or ty == "bool":
            return T_FALSE
        if re.match(r"^(crate::|portgraph::)?index::Maybe", ty) or ty.startswith(("std::option::Option<", "Option<")):
            return NONE
        if ty:
            r = self.default(an, {"inst": 1}, ty, None)
            if r is not None:
                return r[0]
        return ("default", "")

    # ------------------------------------------------------------- sequences
    def seq(self, an, f, rdef, name, trait, args, st, cond, sp, aty, rty):
        from .engine import deref, push_proj, mkref

        if name in ("new", "with_capacity", "new_const") and rdef.split("::")[-1] == name:
            return ("empty", "seq"), st, TRUE
        if name in ("from_elem",):
            return ("fill", args[0], args[1]), st, TRUE
        if rdef.endswith("BitVec::<T, O>::repeat"):
            return ("fill", args[0], args[1]), st, TRUE
        if not args:
            return None
        a = args[0]
        if name in PURE_SEQ_REF:
            # smart references (BitRef) hold a reference themselves
            v = a
            if "BitRef" in (f.get("self") or "") or "BitRef" in rdef:
                x = rd(an, st, a)
                return x if x[0] in ("ref", "gv") else a, st, TRUE
            return a, st, TRUE
        isref = a[0] in ("ref", "gv", "load", "arg", "fld", "elem", "call") and True
        if name == "len":
            return an.length(st, a), st, TRUE
        if name == "is_empty":
            return boolt(eq(an.length(st, a), const(0))), st, TRUE
        if name in ("capacity",):
            return ("call", "capacity", (an.value_of(st, a),)), st, TRUE
        if name in ("index", "index_mut") and len(args) == 2:
            if args[1][0] not in ("agg", "it") and not (args[1][0] == "gv" and any(x[0] in ("agg", "it") for _, x in args[1][1])):
                an.index_panic(cond, args[1], an.length(st, a))
            return self.slice_at(an, st, a, args[1]), st, TRUE
        if name in ("get", "get_mut", "get_unchecked", "get_unchecked_mut") and len(args) == 2:
            ix = args[1]
            r = self.slice_at(an, st, a, ix)
            if name.startswith("get_unchecked"):
                return r, st, TRUE
            if ix[0] == "agg":
                end = field(ix, "end")
                c = binop("Le", end, an.length(st, a))[1] if end[0] != "fld" else M.atom(("t", ("inb", an.value_of(st, a), ix)))
            else:
                c = cond_of(binop("Lt", ix, an.length(st, a)))
            return gv([(c, some(r)), (M.NOT(c), NONE)]), st, TRUE
        if name in ("first", "last", "first_mut", "last_mut", "front", "back"):
            n = an.length(st, a)
            z = eq(n, const(0))
            ix = const(0) if name[0] == "f" else t_add(n, const(-1))
            r = self.slice_at(an, st, a, ix)
            return gv([(M.NOT(z), some(r)), (z, NONE)]), st, TRUE
        if name in ("iter", "iter_mut"):
            return ("it", "slice", a), st, TRUE
        if name == "into_iter":
            return an.iter_of(st, a), st, TRUE
        if name == "iter_ones":
            return ("it", "ones", a), st, TRUE
        if name == "contains" and len(args) == 2 and "slice" in rdef or (name == "contains" and "VecDeque" in rdef):
            x = full(an, st, args[1])
            dom, g, e, st = an.elem(("it", "slice", a), st, cond, sp)
            node = M.AND(g, eq(rd(an, st, e), x))
            return boolt(an.exists(dom, node)), st, TRUE
        if name in ("to_vec", "to_owned"):
            return rd(an, st, a), st, TRUE
        if name == "set" and len(args) == 3:
            for c, pl in places(a):
                an.write(st, push_proj(pl, ("ix", args[1])), args[2] if c == TRUE else args[2], M.AND(cond, c), sp)
            return UNIT, st, TRUE
        if name == "replace" and len(args) == 3:
            r = self.slice_at(an, st, a, args[1])
            old = rd(an, st, r)
            an.write_alts(st, places(r), args[2], cond, sp)
            return old, st, TRUE
        if name == "swap" and len(args) == 3:
            r1, r2 = self.slice_at(an, st, a, args[1]), self.slice_at(an, st, a, args[2])
            x, y = rd(an, st, r1), rd(an, st, r2)
            an.write_alts(st, places(r1), y, cond, sp)
            an.write_alts(st, places(r2), x, cond, sp)
            return UNIT, st, TRUE
        if name == "fill" and len(args) == 2:
            for c, pl in places(a):
                if pl[1][0] == "L":
                    an.write(st, pl, ("m", "fill", an.read(st, pl), args[1]), M.AND(cond, c), sp, record=False)
                else:
                    an.effect("fill", pl, args[1], M.AND(cond, c), sp)
                    an.kill(st, pl)
                    an.bump(st, pl[1], static(pl))
            return UNIT, st, TRUE
        return self.seq_mut(an, f, rdef, name, trait, args, st, cond, sp, aty, rty)

    def seq_mut(self, an, f, rdef, name, trait, args, st, cond, sp, aty, rty):
        KNOWN = {"push": 1, "push_back": 1, "push_front": 1, "resize": 2, "truncate": 1, "clear": 0, "pop": 0, "pop_front": 0, "pop_back": 0, "insert": 2, "remove": 1, "swap_remove": 1, "reserve": 1, "reserve_exact": 1, "shrink_to_fit": 0, "shrink_to": 1, "extend": 1, "extend_from_slice": 1, "retain": 1, "retain_mut": 1, "reverse": 0, "append": 1, "resize_with": 2, "drain": 1, "dedup": 0, "sort": 0, "sort_unstable": 0, "sort_by_key": 1, "sort_by": 1, "sort_unstable_by_key": 1}
        if name not in KNOWN or not args:
            return None
        a = args[0]
        rest = args[1:]
        alt = places(a)
        ret = UNIT
        if name in ("retain", "retain_mut") and len(alt) == 1 and alt[0][1][1][0] != "L":
            return self.consume(an, "retain", ("it", "slice", a), args, st, cond, sp, rty, a)
        if len(alt) == 1 and alt[0][0] == TRUE and alt[0][1][1][0] == "L":
            old = an.read(st, alt[0][1])
            nv = None
            if name in ("retain", "retain_mut"):
                nv, st, _ = self.consume(an, "collect", ("it", "filter", an.iter_of(st, old), args[1]), args[:1], st, cond, sp, "std::vec::Vec<_>", old)
            elif name == "reverse":
                nv, st, _ = self.consume(an, "collect", ("it", "rev", an.iter_of(st, old)), args[:1], st, cond, sp, "std::vec::Vec<_>", old)
            if nv is not None:
                an.write(st, alt[0][1], nv, cond, sp, record=False)
                return UNIT, st, TRUE
        if name == "extend" and len(alt) == 1 and alt[0][0] == TRUE and repeated(args[1]):
            x, k = repeated(args[1])
            return self.seq_mut(an, f, rdef, "resize", trait, [a, t_add(an.length(st, a), k), x], st, cond, sp, aty, rty)
        if name == "extend" and len(alt) == 1 and alt[0][0] == TRUE and args[1][0] != "gv":
            return self.consume(an, "extend", an.iter_of(st, args[1]), [a, args[1], "Extend<&" in rdef], st, cond, sp, rty, a)
        if name == "resize_with" and len(rest) == 2:
            fill, st, _ = an.call_value(rest[1], [], st, cond, sp, "?")
            rest = [rest[0], fill]
        n = an.length(st, a) if name in ("push", "push_back", "push_front", "pop", "pop_back") else None
        if name in ("pop", "pop_back", "pop_front"):
            z = eq(an.length(st, a), const(0))
            if len(alt) == 1:
                v = rd(an, st, self.slice_at(an, st, a, t_add(n, const(-1)) if n is not None else const(0)))
                if alt[0][1][1][0] == "L":
                    v = ("popped", an.read(st, alt[0][1]))
                ret = gv([(M.NOT(z), some(v)), (z, NONE)])
            else:
                ret = ("opaque", "pop")
        elif name in ("remove", "swap_remove", "drain"):
            ret = ("ret", name, an.value_of(st, a), tuple(an.value_of(st, x) for x in rest), an.count(name))
        nl = None
        if name in ("push", "push_back", "push_front"):
            nl = t_add(n, const(1))
        elif name in ("resize", "resize_with"):
            nl = rest[0]
        elif name == "clear":
            nl = const(0)
        elif name in ("pop", "pop_back"):
            nl = None
        kind = {"push": "push", "push_back": "push", "push_front": "pushf", "resize": "resize", "resize_with": "resize", "clear": "clear", "truncate": "truncate", "pop": "pop", "pop_front": "popf", "pop_back": "pop", "insert": "insert", "remove": "remove", "swap_remove": "remove", "reserve": "cap", "reserve_exact": "cap", "shrink_to_fit": "cap", "shrink_to": "cap"}.get(name, name)
        for c, pl in alt:
            cc = M.AND(cond, c)
            va = [an.value_of(st, x) for x in rest]
            if pl[1][0] == "L":
                old = an.read(st, pl)
                an.effect("l" + kind, pl, va[0] if va else None, cc, sp, va)
                if kind == "cap":
                    continue
                if name == "clear":
                    nv = ("empty", "seq")
                elif name == "resize" and old == ("empty", "seq"):
                    nv = ("fill", va[1], va[0])
                else:
                    nv = ("m", "push" if name == "push_back" else name, old) + tuple(va)
                an.write(st, pl, nv if c == TRUE else gv([(c, nv), (M.NOT(c), old)]), cond, sp, record=False)
            else:
                an.effect(kind, pl, va[0] if va else None, cc, sp, va)
                if kind == "cap":
                    continue
                last = None
                if name in ("push", "push_back"):
                    last = ("pl", pl[1], pl[2] + (("ix", n),))
                keep = {}
                if name in ("push", "push_back", "resize", "resize_with"):
                    # existing elements keep their values
                    keep = {k: v for k, v in st.known.items() if k[1] == pl[1] and len(k[2]) > len(pl[2]) and k[2][: len(pl[2])] == pl[2] and k[2][len(pl[2])][0] == "ix"}
                if name not in ("push", "push_back", "resize", "resize_with"):
                    an.kill(st, pl)
                    an.bump(st, pl[1], static(pl))
                else:
                    st.known.pop(pl, None)
                an.set_len(st, pl, nl if c == TRUE else None)
                if last is not None and c == TRUE:
                    st.known[last] = rest[0]
        return ret, st, TRUE

    def slice_at(self, an, st, a, ix):
        from .engine import deref, push_proj, mkref

        if ix[0] == "gv":
            return gv([(c, self.slice_at(an, st, a, i)) for c, i in ix[1]])
        if ix[0] == "agg" and "Range" in ix[1]:
            s, e = field(ix, "start"), field(ix, "end")
            if ix[1].endswith("RangeFull"):
                return a
            if s[0] == "fld":
                s = const(0)
            if ix[1].endswith("RangeFrom") or e[0] == "fld":
                e = an.length(st, a)
            elif ix[1].endswith("RangeInclusive") or ix[1].endswith("RangeToInclusive"):
                e = t_add(e, const(1))
            q = ("rg", s, e)
        elif ix[0] == "it" and ix[1] == "range":
            q = ("rg", ix[2], ix[3])
        else:
            q = ("ix", ix)
        return dist(a, lambda x: mkref(push_proj(deref(x), q)))

    # ------------------------------------------------------------- iterators
    def iterator(self, an, f, rdef, name, trait, args, st, cond, sp, aty, rty):
        if not args:
            return None
        a = args[0]
        if name == "into_iter":
            if f.get("rcrate") and "inst" in f:
                return None
            if aty and re.match(r"^(std::option::)?Option<", aty[0]):
                return ("it", "opt", a), st, TRUE
            if re.match(r"^<I as ", rdef) and a[0] == "ref":
                return an.by_ref(st, a, aty), st, TRUE
            if aty and aty[0][0] != "&" and RANGE_TY.match(aty[0]) and a[0] not in ("agg", "it", "gv"):
                return ("it", "range", field(a, "start"), field(a, "end")), st, TRUE
            return an.iter_of(st, a), st, TRUE
        if name in ("next", "next_back", "nth", "nth_back", "peek"):
            if name in ("next", "next_back"):
                r = an.next(st, a, cond, sp, rty, name == "next_back", aty)
                if r is not None:
                    return r
            if not (f.get("rcrate") and "inst" in f):
                return self.step(an, name, a, args, st, cond, sp)
            return None
        # adaptors and consumers take the iterator by value (or by &mut)
        crate_impl = f.get("rcrate") and "inst" in f
        if crate_impl:
            return None
        if name == "by_ref":
            return a, st, TRUE
        if a[0] == "ref" and trait in ("std::iter::Iterator", "std::iter::DoubleEndedIterator") and name not in ("size_hint", "len", "contains", "is_sorted"):
            it = an.by_ref(st, a, aty)
        else:
            it = None
            if aty and RANGE_TY.match(aty[0]):
                v = full(an, st, a) if a[0] == "ref" else a
                if v[0] not in ("agg", "it", "gv"):
                    it = ("it", "range", field(v, "start"), field(v, "end"))
            it = it or an.iter_of(st, a)
        if name in ADAPT1:
            return ("it", name, it), st, TRUE
        if name in ADAPT2:
            b = args[1]
            if name in ("zip", "chain"):
                b = an.iter_of(st, b)
            return ("it", name, it, b) + tuple(args[2:]), st, TRUE
        if name in ("for_each", "fold", "try_for_each", "try_fold", "any", "all", "find", "position", "find_map", "count", "sum", "collect", "last", "max", "min", "max_by_key", "min_by_key", "collect_vec", "join", "reduce", "is_some_and", "unzip", "partition_map", "product", "eq", "partition", "rposition", "rfind", "size_hint", "len", "all_equal", "extend", "next_tuple", "exactly_one", "sorted", "sorted_by_key", "collect_tuple", "is_sorted", "contains"):
            return self.consume(an, name, it, args, st, cond, sp, rty, a)
        return None

    def step(self, an, name, a, args, st, cond, sp):
        """One step of a Range or Option iterator held in memory."""
        from .engine import push_proj

        pls = places(a)
        if len(pls) != 1 or name == "peek":
            return None
        pl = pls[0][1]
        v = an.read(st, pl)
        while v[0] == "ref":
            pl = v[1]
            v = an.read(st, pl)
        israng = (v[0] == "agg" and v[1].endswith("Range") and len(v[3]) == 2) or (v[0] == "load" and self.is_range(an, a, name))
        if v[0] == "it" and v[1] == "range":
            s, e = v[2], v[3]
            mk = lambda s, e: ("it", "range", s, e)
        elif israng:
            s, e = field(v, "start"), field(v, "end")
            mk = None
        elif v[0] == "it" and v[1] == "opt":
            if name.startswith("nth"):
                return None
            an.write(st, pl, ("it", "opt", NONE), cond, sp, record=pl[1][0] != "L")
            return v[2], st, TRUE
        else:
            return None
        n = args[1] if name.startswith("nth") else const(0)
        back = name.endswith("back")
        c = cond_of(binop("Lt", t_add(s, n), e))
        if back:
            x = t_add(t_add(e, n, -1), const(-1))
            ns, ne = s, gv([(c, x), (M.NOT(c), s if n != const(0) else e)])
        else:
            x = t_add(s, n)
            ns, ne = gv([(c, t_add(x, const(1))), (M.NOT(c), e if n != const(0) else s)]), e
        if mk:
            an.write(st, pl, mk(ns, ne), cond, sp, record=False)
        else:
            q, nv = ("end", ne) if back else ("start", ns)
            an.write(st, push_proj(pl, ("f", q)), nv, cond, sp)
        return gv([(c, some(x)), (M.NOT(c), NONE)]), st, TRUE

    def is_range(self, an, a, name):
        t = an.cur_aty[0] if getattr(an, "cur_aty", None) else ""
        return bool(re.match(r"^&(?:'\w+ )?mut (?:std|core)::ops::Range<", t))

    def consume(self, an, name, it, args, st, cond, sp, rty, ref):
        if name == "size_hint":
            return ("call", "size_hint", (an.value_of(st, it),)), st, TRUE
        if name == "len":
            return self.iter_len(an, it, st), st, TRUE
        r = self.consume_known(an, name, it, args, st, cond, sp, rty)
        if r is not None:
            return r
        lc = {"key": ("for", ("?",), False), "more": None, "env0": {}, "nexts": {}, "mem_mod": set(), "entry": cond}
        # evaluate one generic iteration inside a loop context
        back = name in ("rfind", "rposition")
        base_name = {"rfind": "find", "rposition": "position"}.get(name, name)
        pre_own = dict(st.own)
        lid = an.loop_id(None, (sp, name, len(an.loopctx)))
        fr0 = an.frame
        st1 = st.copy()
        ne, npn = len(an.effects), len(an.panics)
        hit, only_hit = FALSE, False
        # memory modified by the body is unknown at the head of a generic iteration
        for rnd in range(3):
            del an.effects[ne:]
            del an.panics[npn:]
            s = st1.copy()
            lc["key"] = ("for", ("?",), False)
            an.loopctx.append(lc)
            savebase = an.base
            an.base = M.AND(an.base, cond)
            dom, g, e, s = an.elem(it, s, TRUE, sp)
            if back:
                dom = ("rev", dom)
            lc["key"] = ("for", dom, False)
            d = len(an.loopctx) - 1
            an.retag(ne, npn, d, lc["key"])
            out = None
            if name in ("for_each", "try_for_each"):
                out, s, _ = an.call_value(args[1], [e], s, g, sp, rty)
            elif base_name in ("any", "all", "position", "find_map"):
                out, s, _ = an.call_value(args[1], [e], s, g, sp, "bool" if name != "find_map" else "?")
            elif base_name in ("find",):
                an.frame += 1
                s.env[(an.frame, 0)] = e
                out, s, _ = an.call_value(args[1], [("ref", ("pl", ("L", an.frame, 0), ()))], s, g, sp, "bool")
            elif name == "extend":
                x = rd(an, s, e) if args[2] and e[0] == "ref" else e
                if len(args) > 3:
                    xs = [field(x, "0"), field(x, "1")] if "Map::" in args[3] else [x]
                    _, s, _ = an.opaque_call({"def": args[3], "rdef": args[3]}, args[3], args[3].rsplit("::", 1)[1], [args[0]] + xs, s, g, sp, [args[4][0]] + ["?"] * len(xs), "?")
                else:
                    _, s, _ = self.seq_mut(an, None, "", "push", "", [args[0], x], s, g, sp, aty=None, rty="()")
            elif name == "retain":
                out, s, _ = an.call_value(args[1], [e], s, g, sp, "bool")
            elif name in ("fold", "try_fold"):
                acc = ("lv", lid, "acc")
                out, s, _ = an.call_value(args[2], [acc, e], s, g, sp, rty)
            an.base = savebase
            an.loopctx.pop()
            if base_name in ("any", "all", "position", "find", "find_map") and out is not None and out != BOT:
                hit = isv(out, "Some") if name == "find_map" else M.NOT(cond_of(out)) if name == "all" else cond_of(out)
                hit = M.AND(g, hit)
                if hit != FALSE:
                    an.retag(ne, npn, d, ("for", dom, ("bool", hit)))
            s = s or st1
            mods = [k for k, v in s.own.items() if v != st1.own.get(k, 0)]
            envm = [k for k in st1.env if s.env.get(k) != st1.env[k]]
            if not mods and not envm:
                break
            only_hit = rnd == 0 and hit != FALSE and all(M.AND(x.guard, M.NOT(hit)) == FALSE for x in an.effects[ne:]) and all(an.restrict(s.env[k], M.NOT(hit)) == st1.env[k] for k in envm)
            if only_hit:
                break
            if rnd == 0:
                for k in envm:
                    st1.env[k] = ("lv", lid, f"{fr0 - k[0]}.{k[1]}")
                for base, path in mods:
                    for kk in list(st1.known):
                        if kk[1] == base:
                            from .engine import static_path

                            p2 = static_path(kk[2])
                            if p2[: len(path)] == path or path[: len(p2)] == p2:
                                del st1.known[kk]
                    an.bump(st1, base, path)
            else:
                break
        found = an.exists(dom, hit)
        if only_hit:
            # what happens on a hit happens once, after the search
            outer = M.AND(an.base, cond)
            for x in an.effects[ne:]:
                x.loops = x.loops[:d]
                x.guard = M.AND(outer, found, M.constrain(x.guard, M.AND(outer, hit)))
            for k in envm:
                s.env[k] = an.restrict(s.env[k], hit)
            st, _ = an.merge([(found, s), (M.NOT(found), st1)])
        else:
            if hit != FALSE:
                an.peel(ne, M.AND(cond, found), hit)
            step = lambda v, old: v if g == TRUE else gv([(g, v), (M.NOT(g), old)])
            an.recs[lid] = {f"{fr0 - k[0]}.{k[1]}": (st.env.get(k), step(s.env.get(k, st.env.get(k)), st1.env.get(k))) for k in envm}
            if name in ("fold", "try_fold"):
                an.recs[lid]["acc"] = (args[1], out)
            if an.recs[lid]:
                an.recs[lid]["#"] = (dom, ("bool", hit))
            st = st1 if (mods or envm) else s
            for k in envm:
                nm = f"{fr0 - k[0]}.{k[1]}"
                st.env[k] = hit == FALSE and name in ("for_each", "extend") and an.gathers(lid, nm, dom) or ("lv", lid, nm)
        if name == "extend":
            return UNIT, st, TRUE
        if ref[0] == "ref" and ref[1][1][0] == "L":
            cur = an.read(st, ref[1])
            if cur[0] in ("call", "ret"):
                cur = an.iter_of(st, cur)
            if cur[0] == "it":
                an.write(st, ref[1], ("it", "rest", cur), cond, sp, record=False)
        if name != "retain":
            for pl in an.advances(it):
                an.advance(st, pl, dom, hit, cond, sp)
        comp = (dom, g)
        if name == "retain":
            pl = places(ref)[0][1]
            an.loopctx.append(lc)
            sb = an.base
            an.base = M.AND(an.base, cond)
            an.effect("retain", pl, boolt(cond_of(out)), g, sp)
            an.base = sb
            an.loopctx.pop()
            an.kill(st, pl)
            an.bump(st, pl[1], static(pl))
            an.set_len(st, pl, None)
            return UNIT, st, TRUE
        if name in ("for_each",):
            return UNIT, st, TRUE
        if name in ("any", "all"):
            return boolt(found if name == "any" else M.NOT(found)), st, TRUE
        if base_name in ("find", "find_map"):
            v = some(e) if base_name == "find" else assume(an.restrict(out, hit), hit)
            return gv([(found, v), (M.NOT(found), NONE)]), st, TRUE
        if base_name == "position":
            p = ("position", dom, ("bool", hit))
            return gv([(found, some(p)), (M.NOT(found), NONE)]), st, TRUE
        if name == "count":
            if g == TRUE and dom[0] == "range":
                return range_len(dom[1], dom[2]), st, TRUE
            return ("count", dom, ("bool", g)), st, TRUE
        if name in ("fold", "try_fold", "try_for_each"):
            return ("fold", name, dom, ("bool", g), args[1] if name != "try_for_each" else UNIT, out), st, TRUE
        va = tuple(an.value_of(st, x) for x in args[1:])
        ev = an.value_of(st, e)
        r = ("reduce", name, dom, ("bool", g), ev) + va
        off = {x[2] if x[0] == "lin" else 0 for _, x in alts(ev)} if name in ("max", "min") and not va else ()
        if len(off) == 1 and 0 not in off:
            # the largest of x + c is the largest of x, plus c
            off = off.pop()
            r = ("reduce", name, dom, ("bool", g), t_add(ev, const(-off)))
            c = isv(r, "Some")
            return gv([(c, some(t_add(field(down(r, "Some"), "0"), const(off)))), (M.NOT(c), NONE)]), st, TRUE
        if name == "collect":
            from .engine import COLL, collect

            m = COLL.match(rty)
            r = collect(dom, g, ev, m.group(1) if m else "String" if rty.endswith("string::String") else "seq")
            if re.match(r"^(std::vec::Vec|smallvec::SmallVec|std::boxed::Box<\[|std::collections::VecDeque)", rty):
                an.note_collected(r, dom, g, e)
        return (boolt(M.atom(("t", r))) if rty == "bool" else r), st, TRUE

    def consume_known(self, an, name, it, args, st, cond, sp, rty):
        """Consumers of an iterator over a few known elements."""
        if name not in ("for_each", "any", "all", "fold", "find", "find_map", "count", "sum"):
            return None
        n = an.fin(it)
        if n is None or n > 4 or n == 0:
            return None
        todo, acc = TRUE, {"fold": args[1] if len(args) > 1 else None, "count": const(0), "sum": const(0)}.get(name)
        alts_ = []
        for i in range(n):
            c = M.AND(cond, todo)
            if c == FALSE:
                break
            before = st.copy()
            _, g, e, st = an.elem(an.fin_at(it, i), st, c, sp)
            here = M.AND(todo, g)
            cc = M.AND(cond, here)
            if name == "for_each":
                _, st, _ = an.call_value(args[1], [e], st, cc, sp, rty)
            elif name == "fold":
                v, st, _ = an.call_value(args[2], [acc, e], st, cc, sp, rty)
                acc = gv([(here, v), (M.NOT(here), acc)])
            elif name in ("count", "sum"):
                if name == "sum" and e[0] == "ref":
                    e = rd(an, st, e)
                acc = t_add(acc, const(1) if name == "count" else e) if here == TRUE else gv([(here, binop("Add", acc, const(1) if name == "count" else e)), (M.NOT(here), acc)])
            else:
                x = e
                if name == "find":
                    an.frame += 1
                    st.env[(an.frame, 0)] = e
                    x = ("ref", ("pl", ("L", an.frame, 0), ()))
                v, st, _ = an.call_value(args[1], [x], st, cc, sp, "bool" if name != "find_map" else "?")
                if st is None:
                    st = before
                if name == "find_map":
                    hit = M.AND(here, isv(v, "Some"))
                else:
                    hit = M.AND(here, cond_of(v) if name != "all" else M.NOT(cond_of(v)))
                alts_.append((hit, some(e) if name == "find" else v))
                todo = M.AND(todo, M.NOT(hit))
            if st is None:
                return None
            if here != TRUE and st is not before:
                st, _ = an.merge([(here, st), (M.NOT(here), before)])
        if name == "for_each":
            return UNIT, st, TRUE
        if name in ("fold", "count", "sum"):
            return acc, st, TRUE
        if name == "any":
            return boolt(M.NOT(todo)), st, TRUE
        if name == "all":
            return boolt(todo), st, TRUE
        return gv(alts_ + [(todo, NONE)]), st, TRUE

    def iter_len(self, an, it, st):
        if it[1] == "range":
            return range_len(it[2], it[3])
        if it[1] == "slice":
            return an.length(st, it[2])
        if it[1] in ("rev", "enumerate", "copied", "cloned", "map"):
            return self.iter_len(an, it[2], st)
        return ("call", "len", (an.value_of(st, it),))

    # ------------------------------------------------------------- misc
    def misc(self, an, f, rdef, name, trait, args, st, cond, sp, aty, rty):
        if name == "contains" and len(args) == 2 and (trait == "std::ops::RangeBounds" or rdef.startswith("std::ops::Range")):
            r, x = full(an, st, args[0]), full(an, st, args[1])
            if r[0] == "agg" and "Range" in r[1]:
                c = TRUE
                fs = dict(r[3])
                if "start" in fs:
                    c = M.AND(c, cond_of(binop("Le", fs["start"], x)))
                if "end" in fs:
                    c = M.AND(c, cond_of(binop("Le" if "Inclusive" in r[1] else "Lt", x, fs["end"])))
                return boolt(c), st, TRUE
            ty = re.sub(r"^(&(mut )?('[a-z_0-9]+ )?)+", "", aty[0])
            m = re.match(r"(?:std|core)::ops::(?:range::)?Range(From|To)?<", ty)
            if m:
                c = TRUE
                if m.group(1) != "To":
                    c = M.AND(c, cond_of(binop("Le", field(r, "start"), x)))
                if m.group(1) != "From":
                    c = M.AND(c, cond_of(binop("Lt", x, field(r, "end"))))
                return boolt(c), st, TRUE
        if name in ("to_usize", "from_usize", "to_u64", "from_u64") and "num_traits" in (f.get("trait") or rdef) or name in ("to_usize", "from_usize") and "ToPrimitive" in (f.get("trait") or rdef):
            a = full(an, st, args[0]) if args[0][0] == "ref" else args[0]
            return some(a), st, TRUE
        if trait in ("std::convert::Into", "std::convert::From", "std::convert::AsRef", "std::convert::AsMut") and "inst" not in f:
            if len(args) == 1 and name in ("into", "from"):
                g = f.get("args", [])
                if len(g) >= 2 and INT.match(g[0]) and INT.match(g[1]):
                    return args[0], st, TRUE
                if len(g) >= 2 and g[0] == g[1]:
                    return args[0], st, TRUE
            if name in ("as_ref", "as_mut"):
                return args[0], st, TRUE
        if rdef.endswith("vec::from_elem"):
            return ("fill", args[0], args[1]), st, TRUE
        if rdef.startswith("std::boxed::Box::<T>::new"):
            return args[0], st, TRUE
        if name in ("max", "min") and rdef.startswith("std::cmp::"):
            return self.maxmin(name, args[0], args[1], aty), st, TRUE
        if name in ("max_value", "min_value"):
            m = re.match(r"^u(8|16|32|64|size)$", f.get("self") or f.get("rself") or "")
            if m:
                return const(0 if name[1] == "i" else (1 << (64 if m.group(1) == "size" else int(m.group(1)))) - 1), st, TRUE
            return ("konst", (f.get("rself") or f.get("self") or "") + "::" + name, "", ""), st, TRUE
        if name in ("saturating_sub", "wrapping_sub", "saturating_add", "wrapping_add", "checked_add", "checked_sub", "next_power_of_two", "pow", "abs_diff", "checked_next_power_of_two", "div_ceil") and "num" in rdef:
            if name.startswith("wrapping_"):
                return binop("Add" if name.endswith("add") else "Sub", args[0], args[1]), st, TRUE
            if all(a[0] == "const" for a in args) and name.startswith("saturating"):
                x, y = args[0][1], args[1][1]
                return const(x + y if name.endswith("add") else max(0, x - y)), st, TRUE
            if name == "saturating_add" and const(0) in args:
                return args[0] if args[1] == const(0) else args[1], st, TRUE
            if name == "saturating_sub" and args[1] == const(0):
                return args[0], st, TRUE
            return ("call", name, tuple(args)), st, TRUE
        if trait in ("std::ops::Add", "std::ops::Sub", "std::ops::Mul", "std::ops::BitAnd", "std::ops::BitOr", "std::ops::BitXor", "std::ops::Shr", "std::ops::Shl", "std::ops::Rem", "std::ops::Div") and len(args) == 2 and not f.get("rcrate"):
            s = f.get("self", "")
            if INT.match(s.lstrip("&")) or s in ("U", "Self", "bool", "&bool"):
                a, b = args
                if a[0] == "ref" or s.startswith("&"):
                    a = rd(an, st, a)
                if b[0] == "ref" or b[0] == "gv" and any(v[0] == "ref" for _, v in b[1]):
                    b = rd(an, st, b)
                return binop(trait.split("::")[-1], a, b), st, TRUE
        if trait == "std::ops::Not" and not f.get("rcrate"):
            a = args[0]
            if a[0] == "ref" or f.get("self", "").startswith("&"):
                a = rd(an, st, a)
            if "bool" in f.get("self", ""):
                return boolt(M.NOT(cond_of(a))), st, TRUE
            m = re.match(r"^u(8|16|32|64)$", f.get("self", ""))
            if a[0] == "const" and m:
                return const(a[1] ^ ((1 << int(m.group(1))) - 1)), st, TRUE
            return ("un", "Not", a), st, TRUE
        if trait == "std::ops::Deref" and not f.get("rcrate"):
            s = f.get("self", "") or f.get("rself", "")
            if "BitRef" in s:
                v = rd(an, st, args[0])
                return v, st, TRUE
            if any(x in s for x in ("Box<", "Vec<", "String", "Cow<", "Rc<", "Arc<", "RwLock", "RefMut", "Ref<")):
                if "Guard" in s or "Ref" in s:
                    return rd(an, st, args[0]), st, TRUE
                return args[0], st, TRUE
        if trait == "std::ops::DerefMut" and not f.get("rcrate"):
            s = f.get("self", "") or f.get("rself", "")
            if "Guard" in s or "RefMut" in s:
                return rd(an, st, args[0]), st, TRUE
            return args[0], st, TRUE
        if name in ("identity", "must_use", "black_box") and len(args) == 1:
            return args[0], st, TRUE
        if rdef.startswith("std::ops::RangeInclusive") and name == "new":
            return ("agg", "Range", "", (("start", args[0]), ("end", t_add(args[1], const(1))))), st, TRUE
        if rdef.startswith(("std::option::Option", "std::result::Result")) and name in ("unwrap", "expect", "unwrap_unchecked", "unwrap_err", "expect_err"):
            v = args[0]
            var = "Some" if "option" in rdef else ("Err" if "err" in name else "Ok")
            c = isv(v, var)
            if c != TRUE and not name.endswith("unchecked"):
                an.panic(M.AND(cond, M.NOT(c)), sp, name)
            return field(down(v, var), "0"), st, TRUE
        if rdef.startswith("std::option::Option") and name in ("take", "replace", "insert", "get_or_insert_with"):
            if name == "take":
                old = rd(an, st, args[0])
                an.write_alts(st, places(args[0]), NONE, cond, sp)
                return old, st, TRUE
            if name == "replace":
                old = rd(an, st, args[0])
                an.write_alts(st, places(args[0]), some(args[1]), cond, sp)
                return old, st, TRUE
        if rdef.startswith("std::option::Option") and name in ("as_ref", "as_mut", "as_deref"):
            from .engine import push_proj, deref

            v = rd(an, st, args[0])
            c = isv(v, "Some")
            r = dist(args[0], lambda x: ("ref", push_proj(push_proj(deref(x), ("v", "Some")), ("f", "0"))))
            return gv([(c, some(r)), (M.NOT(c), NONE)]), st, TRUE
        if rdef.startswith("std::option::Option") and name in ("iter", "into_iter"):
            return ("it", "opt", args[0] if args[0][0] != "ref" else rd(an, st, args[0])), st, TRUE
        if rdef.startswith("std::option::Option") and name in ("copied", "cloned"):
            v = args[0]
            c = isv(v, "Some")
            p = field(down(v, "Some"), "0")
            return gv([(c, some(rd(an, st, p))), (M.NOT(c), NONE)]) if c != FALSE else NONE, st, TRUE
        if rdef.startswith("std::iter::") and name in ("once", "empty", "successors", "repeat", "from_fn", "repeat_with", "iterate"):
            return ("it", name) + tuple(an.value_of(st, a) if a[0] == "ref" else a for a in args), st, TRUE
        return None


def len_of(v):
    if v[0] == "empty":
        return const(0)
    return None


def static(pl):
    from .engine import static_path

    return static_path(pl[2])


MODELS = Models()
