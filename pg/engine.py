"""Interprocedural dataflow over MIR: gated value numbering with guarded effects.

For one entry function the engine walks the CFG once in topological order (loops: header values are
replaced by loop-carried unknowns, found by a fixpoint), inlining calls whose bodies belong to the
crate (and a few std combinators), and produces

  * the value returned, as a guarded-value term;
  * the effects on memory reachable from the arguments: each with the place, the value, the guard
    (a BDD over branch atoms), the enclosing loops, and the source location;
  * the panic exits with their guards.

Nothing is executed: locals hold terms over the entry state, joins build guarded values, and paths
are never enumerated."""
import re
import sys
from . import strings
from .bdd import FALSE, TRUE
from .terms import *
from .terms import add as t_add

sys.setrecursionlimit(20000)

MUTREF = re.compile(r"^&(?:'\w+ )?mut ")
INT = re.compile(r"^(?:u|i)(?:8|16|32|64|128|size)$")
SLICEY = re.compile(r"^&(?:'\w+ )?(?:mut )?(?:\[|std::vec::Vec<|smallvec::SmallVec<|bitvec::)")


class Unsupported(Exception):
    pass


UNROLL = 4


class Unroll(Exception):
    """Raised when a loop turns out to run over a few known elements."""

    def __init__(self, key, projs, it, n):
        self.key, self.projs, self.it, self.n = key, projs, it, n


class Effect:
    __slots__ = ("kind", "place", "val", "guard", "loops", "span", "stack", "seq", "extra", "args", "bodyguard")

    def __init__(self, kind, place, val, guard, loops, span, stack, seq, args=(), extra=None):
        self.kind, self.place, self.val, self.guard = kind, place, val, guard
        self.loops, self.span, self.stack, self.seq = loops, span, stack, seq
        self.args, self.extra = args, extra

    def __repr__(self):
        l = "".join(f" for[{pp_loop(x)}]" for x in self.loops)
        a = (" args(" + ", ".join(pp(x) for x in self.args) + ")") if self.args else ""
        v = pp(self.val) if self.val is not None else ""
        return f"{self.kind} {pp_place(self.place) if self.place else ''} := {v}{a} IF {pp_c(self.guard)}{l}  @{self.span}"


def pp_loop(x):
    return f"{x[0]} {pp(x[1]) if isinstance(x[1], tuple) else x[1]}{' early' if x[2] else ''}"


class Loop:
    def __init__(self, header, blocks):
        self.header, self.blocks = header, blocks
        self.children = []
        self.parent = None


class BodyInfo:
    """CFG facts of one MIR body."""

    def __init__(self, body):
        self.body = body
        bl = body["blocks"]
        n = len(bl)
        succ = []
        for b in bl:
            t = b["t"]
            k = t["k"]
            if k in ("goto", "drop", "assert"):
                s = [t["to"]]
            elif k == "call":
                s = [t["to"]] if t["to"] is not None else []
            elif k == "switch":
                s = [x[1] for x in t["cases"]] + [t["else"]]
            else:
                s = []
            succ.append(s)
        self.succ = succ
        # RPO
        seen, order, st = set(), [], [(0, iter(succ[0]))]
        seen.add(0)
        onstack = {0}
        back = []
        while st:
            u, it = st[-1]
            for v in it:
                if v not in seen:
                    seen.add(v)
                    onstack.add(v)
                    st.append((v, iter(succ[v])))
                    break
                elif v in onstack:
                    back.append((u, v))
            else:
                st.pop()
                onstack.discard(u)
                order.append(u)
        self.rpo = order[::-1]
        self.rpo_ix = {b: i for i, b in enumerate(self.rpo)}
        preds = {b: [] for b in self.rpo}
        for b in self.rpo:
            for s in succ[b]:
                preds[s].append(b)
        self.preds = preds
        loops = {}
        for u, v in back:
            blocks = loops.setdefault(v, {v})
            w = [u]
            while w:
                x = w.pop()
                if x in blocks:
                    continue
                blocks.add(x)
                w.extend(preds[x])
        self.loops = {h: Loop(h, bs) for h, bs in loops.items()}
        ls = sorted(self.loops.values(), key=lambda l: len(l.blocks))
        for i, l in enumerate(ls):
            for o in ls[i + 1 :]:
                if l.header in o.blocks and l is not o:
                    l.parent = o
                    break
        self.back = set(back)


class State:
    __slots__ = ("env", "known", "own", "w")

    def __init__(self):
        self.env, self.known, self.own, self.w = {}, {}, {}, {}

    def copy(self):
        s = State()
        s.env, s.known, s.own, s.w = dict(self.env), dict(self.known), dict(self.own), dict(self.w)
        return s


def static_path(projs):
    out = []
    for p in projs:
        if p[0] in ("f", "v"):
            out.append(p[1])
        else:
            break
    return tuple(out)


_phi = {}


def phi_ver(vs):
    k = tuple(sorted(vs))
    i = _phi.get(k)
    if i is None:
        i = _phi[k] = 1000003 + len(_phi)
    return i


class Result:
    def __init__(self):
        self.ret = None
        self.effects = []
        self.panics = []  # (guard, span, stack, msg)
        self.opaque = []
        self.cond = TRUE


WALK = re.compile(r"algorithms::(toposort|post_order|lca)::(?:TopoSort|PostOrder|LCA)\b")


# Functions specified on their own and left as calls everywhere else (some of them private).
MODULAR = re.compile(r"line_convex_checker::LineConvexChecker::<[^<>]*>::(find_index|get_intervals_from_nodes|is_convex_by_intervals)$")


def has_code(a, d=0):
    """Is the value a closure, or an iterator or container built on one?"""
    if not isinstance(a, tuple) or not a or d > 8:
        return False
    if a[0] == "closure":
        return True
    if a[0] in ("it", "boxed", "agg", "tuple", "gv", "&") or not isinstance(a[0], str):
        return any(has_code(x, d + 1) for x in a if isinstance(x, tuple))
    return False


class Analyzer:
    lamdepth = 0

    def __init__(self, facts, depth=14, no_inline=None, inline_next=True):
        self.facts = facts
        self.depth = depth
        self.infos = {}
        self.no_inline = no_inline or self.layer
        self.models = MODELS

    def layer(self, f):
        """Calls left as calls: a MultiPortGraph is specified in terms of the mutators of the
        PortGraph it wraps, which have specifications of their own."""
        m = WALK.search(f.get("rdef") or f["def"])
        if m and m.group(1) not in self.top_def:
            # the traversals are specified in their own module; elsewhere they are one call
            return True
        d = f.get("rdef") or f["def"]
        if MODULAR.search(d) and d != self.top_def or "algorithms::convex::" in self.top_def and d.startswith("unmanaged::UnmanagedDenseMap") and f["name"] == "get":
            return True
        if not self.top_self.startswith("multiportgraph::MultiPortGraph"):
            return False
        t = f.get("trait") or ""
        return t.startswith("view::") and f["name"] in ("link_ports", "unlink_port", "add_node", "remove_node") and (f.get("self") or f.get("rself") or "").startswith("portgraph::PortGraph")

    def info(self, body):
        k = id(body)
        if k not in self.infos:
            self.infos[k] = BodyInfo(body)
        return self.infos[k]

    # -------------------------------------------------------------- entry
    def run(self, body, args=None):
        self.top_self = body.get("self") or ""
        self.top_def = body.get("def", "")
        self.raw_index = body.get("def", "").lstrip("<").startswith("index::")
        self.frame = 0
        self.effects = []
        self.panics = []
        self.callstack = []
        self.chained = {}  # chain domain -> loops over it
        self.lids = {}  # loop in its calling context -> name
        self.recs = {}  # loop name -> {variable: (initial value, value after an iteration)}
        self.base = TRUE
        self.loopctx = []
        self.unrolling = []
        self.collected = {}
        self.loop_elems = []
        self.seq = 0
        self.opaque_n = {}
        st = State()
        if args is None:
            args = []
            names = arg_names(body)
            for i in range(body["argc"]):
                ty = body["locals"][i + 1]
                nm = names[i]
                if ty.startswith("&"):
                    args.append(("ref", ("pl", ("O", nm), ())))
                elif ty == "bool":
                    args.append(boolt(M.atom(("t", ("arg", nm)))))
                else:
                    args.append(("arg", nm))
        ret, st2, cond = self.call_body(body, args, st)
        self.dont_care()
        r = Result()
        r.implicit = [(p[0], p[4]) for p in self.panics if p[3] == "#index"]
        self.panics = [p for p in self.panics if p[3] != "#index"]
        r.ret, r.effects, r.panics, r.state, r.cond = ret, self.effects, self.panics, st2, cond
        return r

    def dont_care(self):
        """Simplify each guard by the panics that precede it: guards are read "unless it panicked"."""
        for i, e in enumerate(self.effects):
            bad = FALSE
            for g, sp, stk, msg, ls, ne in self.panics:
                if msg != "#index" and ne <= i and e.loops[: len(ls)] == ls:
                    bad = M.OR(bad, g)
            if bad != FALSE:
                e.guard = M.constrain(e.guard, M.NOT(bad))

    # -------------------------------------------------------------- versions & memory
    def ver(self, st, base, path):
        v = []
        for i in range(len(path)):
            x = st.own.get((base, path[:i]))
            if x:
                v.append(x)
        x = st.w.get((base, path))
        if x:
            v.append(x)
        if not v:
            return 0
        return v[0] if len(v) == 1 else phi_ver([y * 7 + i for i, y in enumerate(v)])

    def bump(self, st, base, path):
        self.seq += 1
        k = (base, path)
        n = st.own.get(k, 0)
        nv = (n + 1) if n < 1000003 else phi_ver([n, self.seq])
        st.own[k] = nv
        for i in range(len(path) + 1):
            k = (base, path[:i])
            n = st.w.get(k, 0)
            st.w[k] = (n + 1) if n < 1000003 else phi_ver([n, self.seq])

    def kill(self, st, place, prefix_only=False):
        """Forget known values that may overlap with `place`."""
        _, base, projs = place
        for k in list(st.known):
            _, b2, p2 = k
            if b2 == base:
                if may_alias(projs, p2):
                    del st.known[k]

    def read(self, st, place):
        _, base, projs = place
        if base[0] == "L":
            v = st.env.get((base[1], base[2]), ("uninit",))
            return self.project(st, v, projs)
        if base[0] == "T":
            t = base[1]
            # a value held behind a reference term
            if t[0] == "&":
                return self.project(st, t[1], projs)
        kn = st.known
        v = kn.get(place)
        if v is not None:
            return v
        for i in range(len(projs) - 1, -1, -1):
            v = kn.get(("pl", base, projs[:i]))
            if v is not None:
                return self.project(st, v, projs[i:])
        subs = [k for k in kn if k[1] == base and len(k[2]) > len(projs) and k[2][: len(projs)] == projs and all(q[0] == "f" and q[1] != "#len" for q in k[2][len(projs) :])]
        path = static_path(projs)
        r = ("load", place, self.ver(st, base, path))
        for k in sorted(subs, key=lambda k: len(k[2])):
            rest = k[2][len(projs) :]
            r = self.update(r, rest, kn[k])
        return r

    def project(self, st, v, projs):
        for p in projs:
            if p[0] == "f":
                v = field(v, p[1])
            elif p[0] == "v":
                v = down(v, p[1])
            elif p[0] == "ix":
                if v[0] == "arr" and p[1][0] == "const" and p[1][1] < len(v[1]):
                    v = v[1][p[1][1]]
                elif v[0] == "load":
                    pl = v[1]
                    v = ("load", ("pl", pl[1], pl[2] + (p,)), v[2])
                else:
                    v = dist(v, lambda x: ("at", x, p[1]))
            elif p[0] == "rg":
                v = dist(v, lambda x: ("slice", x, p[1], p[2]))
            else:
                v = dist(v, lambda x: ("proj", x, p))
        return v

    def update(self, v, projs, val):
        if not projs:
            return val
        p = projs[0]
        if p[0] == "f":
            return set_field(v, p[1], self.update(field(v, p[1]), projs[1:], val))
        if p[0] == "v":
            return self.update(down(v, p[1]), projs[1:], val) if v[0] == "agg" else self.update(v, projs[1:], val)
        return ("updix", v, p, val)

    def write(self, st, place, val, cond, sp, kind="w", record=True):
        """cond: reach condition relative to the current frame."""
        if place[0] != "pl":
            return
        _, base, projs = place
        if base[0] == "L":
            k = (base[1], base[2])
            old = st.env.get(k, ("uninit",))
            st.env[k] = self.update(old, projs, val)
            if projs and any(p[0] == "ix" for p in projs) and record:
                self.effect("lw", place, val, cond, sp)
            return
        if record:
            self.effect(kind, place, val, M.AND(cond, self.changes(st, place, val)), sp, extra=self.restores(st, place, val))
        self.kill(st, place)
        self.bump(st, base, static_path(projs))
        st.known[place] = val

    def restores(self, st, place, val):
        """Is what the place held at an earlier time put back?"""
        olds = [v for _, v in alts(val) if v[0] == "load" and v[1] == place]
        if not olds:
            return None
        now = [v for _, v in alts(self.read(st, place))]
        if all(v in now for v in olds):
            return None
        n = len(place[2])
        for e in self.effects:
            if e.place is not None and e.place[1] == place[1] and e.place[2][:n] == place[2] and (len(e.place[2]) > n or e.kind != "w"):
                return "restore"
        return None

    def changes(self, st, place, val):
        """Does writing a plain value change the place?"""
        if val[0] == "const" or val[0] == "agg" and val[2] and not val[3] or val in (T_TRUE, T_FALSE):
            old = self.read(st, place)
            if old[0] in ("load", "agg", "gv", "const", "bool", "lin"):
                return M.NOT(eq(val, old) if val[0] != "agg" else isv(old, val[2]))
        return TRUE

    def write_alts(self, st, places, val, cond, sp, kind="w"):
        if len(places) == 1:
            return self.write(st, places[0][1], val, cond, sp, kind)
        for c, pl in places:
            old = self.read(st, pl)
            cc = M.AND(cond, c)
            if pl[1][0] == "L":
                nv = gv([(c, val), (M.NOT(c), old)])
                self.write(st, pl, nv, cond, sp, kind)
            else:
                self.effect(kind, pl, val, M.AND(cc, self.changes(st, pl, val)), sp, extra=self.restores(st, pl, val))
                nv = gv([(c, val), (M.NOT(c), old)])
                self.write(st, pl, nv, cond, sp, kind, record=False)

    def effect(self, kind, place, val, cond, sp, args=(), extra=None):
        g = M.AND(self.base, cond)
        g = self.body_guard(g)
        if g == FALSE:
            return
        self.seq += 1
        self.effects.append(
            Effect(kind, place, val, g, tuple(l["key"] for l in self.loopctx), sp, tuple(self.callstack), self.seq, tuple(args), extra)
        )

    def body_guard(self, g):
        for l in self.loopctx:
            if l.get("more") is not None:
                g = M.constrain(g, l["more"])
            if l.get("entry") is not None and l["entry"] != TRUE:
                pass
        return g

    def index_panic(self, cond, ix, n):
        """An index out of bounds panics; recorded apart from the explicit panics."""
        for c, x in alts(ix):
            self.panic(M.AND(cond, c, M.NOT(cond_of(binop("Lt", x, n)))), "", "#index")

    def panic(self, cond, sp, msg):
        g = self.body_guard(M.AND(self.base, cond))
        if g != FALSE:
            self.panics.append((g, sp, tuple(self.callstack), msg, tuple(l["key"] for l in self.loopctx), len(self.effects)))

    # -------------------------------------------------------------- bodies
    def call_body(self, body, args, st):
        """Evaluate a body from condition TRUE.  Returns (ret, state, return condition)."""
        info = self.info(body)
        self.frame += 1
        fr = self.frame
        for i, a in enumerate(args):
            st.env[(fr, i + 1)] = a
        ctx = {"fr": fr, "body": body, "info": info, "rets": []}
        exits = self.region(ctx, None, {info.rpo[0]: [(TRUE, st)]})
        assert not exits
        rets = ctx["rets"]
        if not rets:
            for k in [k for k in st.env if k[0] == fr]:
                del st.env[k]
            return BOT, None, FALSE
        st2, cond = self.merge(rets)
        ret = st2.env.get((fr, 0), UNIT)
        for k in [k for k in st2.env if k[0] == fr]:
            del st2.env[k]
        return ret, st2, cond

    def merge(self, items):
        items = [(c, s) for c, s in items if c != FALSE]
        if len(items) == 1:
            return items[0][1], items[0][0]
        tot = M.OR(*[c for c, _ in items])
        # disjoint conditions; normalise relative to the total
        conds = [M.constrain(c, tot) for c, _ in items]
        out = State()
        keys = set()
        for _, s in items:
            keys.update(s.env)
        for k in keys:
            vs = [(c, s.env[k]) for c, (_, s) in zip(conds, items) if k in s.env]
            f = vs[0][1]
            if all(v == f for _, v in vs):
                out.env[k] = f
            else:
                vs = [(c, v) for c, v in vs if v != ("uninit",)] or vs
                out.env[k] = gv(vs)
        kk = set()
        for _, s in items:
            kk.update(s.known)
        vk = set()
        for _, s in items:
            vk.update(s.own)
        for k in vk:
            vals = [s.own.get(k, 0) for _, s in items]
            out.own[k] = vals[0] if all(v == vals[0] for v in vals) else phi_ver(vals)
        vk = set()
        for _, s in items:
            vk.update(s.w)
        for k in vk:
            vals = [s.w.get(k, 0) for _, s in items]
            out.w[k] = vals[0] if all(v == vals[0] for v in vals) else phi_ver(vals)
        for k in kk:
            f = items[0][1].known.get(k)
            if f is not None and all(s.known.get(k) == f for _, s in items):
                out.known[k] = f
                continue
            vs = [(c, self.read(s, k)) for c, (_, s) in zip(conds, items)]
            v = gv(vs)
            if v[0] != "phi":
                out.known[k] = v
        return out, tot

    def region(self, ctx, loop, entry):
        """Process the blocks of `loop` (or the whole body) from the pending entries."""
        info = ctx["info"]
        blocks = loop.blocks if loop else None
        pend = {b: list(v) for b, v in entry.items()}
        exits = []  # (target, cond, state, src)
        backs = []
        first = True
        for b in info.rpo:
            if blocks is not None and b not in blocks:
                continue
            if b not in pend:
                continue
            items = [(c, s) for c, s in pend.pop(b) if c != FALSE]
            if not items:
                continue
            st, cond = self.merge(items)
            if items and len(items) == 1:
                st = st.copy()
            inner = info.loops.get(b)
            if inner is not None and inner is not loop:
                outs = self.loop(ctx, inner, st, cond)
            else:
                outs = self.block(ctx, b, st, cond)
            for tgt, c, s in outs:
                if c == FALSE:
                    continue
                if loop is not None and tgt == loop.header:
                    backs.append((c, s))
                elif blocks is not None and tgt not in blocks:
                    exits.append((b, tgt, c, s))
                else:
                    pend.setdefault(tgt, []).append((c, s))
        if loop is not None:
            return exits, backs
        return exits

    def loop(self, ctx, loop, st0, cond0):
        """-> [(target, cond, state)]"""
        fr = ctx["fr"]
        modified, mem_mod = set(), set()
        snap = len(self.effects), len(self.panics)
        lid = self.loop_id(ctx, loop.header)
        nrets = len(ctx["rets"])
        subst = {}
        counted = None
        for it in range(6):
            del self.effects[snap[0] :]
            del self.panics[snap[1] :]
            del ctx["rets"][nrets:]
            st = st0.copy()
            for k in sorted(modified):
                st.env[k] = subst.get(k, ("lv", lid, lv_name(ctx, k)))
            for base, path in sorted(mem_mod, key=repr):
                for kk in list(st.known):
                    if kk[1] == base and (static_path(kk[2])[: len(path)] == path or path[: len(static_path(kk[2]))] == static_path(kk[2])):
                        del st.known[kk]
                nv = phi_ver([hash_str(lid), st0.own.get((base, path), 0)])
                st.own[(base, path)] = nv
                for i in range(len(path) + 1):
                    st.w[(base, path[:i])] = phi_ver([hash_str(lid), st0.w.get((base, path[:i]), 0)])
            head = {k: v for k, v in st.env.items()}
            lc = {
                "key": ("loop", lid, False),
                "more": None,
                "env0": head,
                "nexts": {},
                "mem_mod": mem_mod,
                "entry": cond0,
                "unroll": it == 0,
            }
            self.loopctx.append(lc)
            savebase = self.base
            self.base = M.AND(self.base, cond0)
            lc["base"], lc["own"], lc["w"], lc["lid"] = self.base, dict(st.own), dict(st.w), lid
            ent_own = dict(st.own)
            depths = len(self.loopctx), len(self.callstack), len(self.unrolling)
            try:
                exits, backs = self.region(ctx, loop, {loop.header: [(TRUE, st)]})
            except Unroll as u:
                if not lc["unroll"] or depths != (len(self.loopctx), len(self.callstack), len(self.unrolling)):
                    raise
                self.base = savebase
                self.loopctx.pop()
                del self.effects[snap[0] :]
                del self.panics[snap[1] :]
                del ctx["rets"][nrets:]
                return self.unrolled(ctx, loop, st0, cond0, u)
            self.base = savebase
            self.loopctx.pop()
            new, newmem = set(), set()
            for c, s in backs:
                for k, v in s.env.items():
                    if k in head and v != head[k] and k not in modified:
                        new.add(k)
                for k, v in s.own.items():
                    if v != ent_own.get(k, 0) and k not in mem_mod:
                        newmem.add(k)
            # induction variables
            newsub = {}
            if not new and not newmem and not subst:
                newsub, dom, nat = self.induction(modified, lid, ctx, st0, exits, backs)
                if newsub:
                    counted = (dom, nat)
            if lc["key"][0] != "loop" or lc.get("early"):
                pass
            key = self.loop_key(lc, exits, ctx["rets"][nrets:], None if newsub else counted)
            if not new and not newmem and not newsub:
                if key == lc.get("fixed", None) or not self._needs_rekey(snap, key):
                    break
                # re-tag the effects recorded inside with the final key
                d = len(self.loopctx)
                for e in self.effects[snap[0] :]:
                    ls = list(e.loops)
                    ls[d] = key
                    e.loops = tuple(ls)
                for i in range(snap[1], len(self.panics)):
                    g, sp, stk, msg, ls, ne = self.panics[i]
                    ls = list(ls)
                    if len(ls) > d:
                        ls[d] = key
                    self.panics[i] = (g, sp, stk, msg, tuple(ls), ne)
                break
            modified |= new
            mem_mod |= newmem
            subst.update(newsub)
        if backs:
            skip = FALSE
            if lc["more"] is not None and lc.get("g", TRUE) != TRUE:
                # elements the domain does not let through change nothing
                skip = M.AND(lc["more"], M.NOT(lc["g"]))
            tot = M.OR(skip, *[c for c, _ in backs])
            self.recs[lid] = {
                lv_name(ctx, k): (st0.env.get(k), gv([(M.constrain(c, tot), s.env.get(k, BOT)) for c, s in backs] + ([(M.constrain(skip, tot), head[k])] if skip != FALSE else [])))
                for k in modified
                if k not in subst
            }
            if self.recs[lid]:
                # the value also depends on when the loop ends
                self.recs[lid]["#"] = (key[1], key[2] or T_FALSE) if key[0] == "for" else (UNIT, key[1])
        if key[0] == "for" and key[1][0] == "chain" and self.recs.get(lid):
            self.split_recs(lid, key[1])
        # exits
        more = lc["more"]
        natural, early = [], []
        for b, tgt, c, s in exits:
            if more is not None and M.AND(c, more) == FALSE:
                natural.append((tgt, c, s))
            else:
                early.append((b, tgt, c, s))
        rets = ctx["rets"][nrets:]
        del ctx["rets"][nrets:]
        dom = key[1] if key[0] == "for" else ("while", key[1])
        if counted is not None:
            natural = counted[1]
        if key[0] == "for" and backs and natural and not rets and not (early and counted is None):
            self.gather(ctx, lid, dom, modified, subst, natural)
        elif more is None and early:
            # a loop without a domain runs until an iteration takes one of its exits
            natural = [(t, c, s) for b, t, c, s in early]
            early = []
        # an early exit happens when some iteration takes one; which one is read off that iteration
        outs = []
        hit = M.OR(*[c for _, _, c, _ in early], *[c for c, _ in rets])
        if more is not None:
            hit = M.AND(hit, more)
        anyearly = self.exists(dom, M.constrain(hit, more) if more is not None else hit) if hit != FALSE else FALSE
        if early or rets or (more is None and natural and counted is None):
            # what an iteration that leaves the loop does happens once, after the others
            if hit != FALSE:
                self.peel(snap[0], M.AND(cond0, anyearly), M.constrain(hit, more) if more is not None else hit)
            if natural and more is None and counted is None:
                self.peel(snap[0], M.AND(cond0, M.NOT(anyearly)), M.OR(*[c for _, c, _ in natural]))
        for _, tgt, c, s in early:
            for k, v in s.env.items():
                if v[0] in ("gv", "agg") and v is not st0.env.get(k):
                    s.env[k] = self.restrict(v, c)
            outs.append((tgt, M.AND(cond0, anyearly, M.constrain(c, hit)), s))
        for c, s in rets:
            ctx["rets"].append((M.AND(cond0, anyearly, M.constrain(c, hit)), s))
        if natural:
            rest = M.AND(cond0, M.NOT(anyearly))
            tot = M.OR(*[c for _, c, _ in natural])
            for tgt, c, s in natural:
                outs.append((tgt, M.AND(rest, M.constrain(c, tot)), s))
        if more is not None and lc.get("adv"):
            stop = M.OR(*[c for _, _, c, _ in early], *[c for c, _ in rets])
            for pl in lc["adv"]:
                for i, (_, _, s) in enumerate(outs):
                    self.advance(s, pl, dom, M.constrain(stop, more), cond0, "", record=i == 0)
                for _, s in rets:
                    self.advance(s, pl, dom, FALSE, cond0, "", record=False)
        return outs

    def peel(self, ne, here, leave):
        """Move the effects since ne that belong to an iteration which leaves the loop out of it."""
        d = len(self.loopctx)
        here = self.body_guard(M.AND(self.base, here))
        for e in self.effects[ne:]:
            if len(e.loops) <= d or M.AND(e.guard, leave) == FALSE:
                continue
            g = M.AND(here, M.constrain(e.guard, M.AND(here, leave)))
            if g == FALSE:
                continue
            x = Effect(e.kind, e.place, e.val, g, e.loops[:d] + e.loops[d + 1 :], e.span, e.stack, e.seq, e.args, e.extra)
            stay = M.AND(e.guard, M.NOT(leave))
            if stay == FALSE:
                self.effects.remove(e)
            e.guard = stay
            self.effects.append(x)

    def gather(self, ctx, lid, dom, modified, subst, natural):
        """A container filled element by element over a whole domain is a collected container."""
        for k in modified:
            if k in subst:
                continue
            r = self.gathers(lid, lv_name(ctx, k), dom)
            for _, _, s in natural:
                if r is not None and s.env.get(k) == ("lv", lid, lv_name(ctx, k)):
                    s.env[k] = r

    def gathers(self, lid, nm, dom):
        init, step = self.recs[lid].get(nm, (None, None))
        if init is None or step is None:
            return None
        old = ("lv", lid, nm)
        kind = container(init) or ("String" if strings.appends(step, old) else None)
        if kind is None:
            return None
        g, es = FALSE, []
        for c, v in step[1] if step[0] == "gv" else [(TRUE, step)]:
            if v == old:
                continue
            e = gathered(kind, v, old)
            if e is None:
                return None
            g = M.OR(g, c)
            es.append((c, e))
        if not es:
            return None
        e = gv([(M.constrain(c, g), x) for c, x in es])
        if any(x and x[0] == "lv" and len(x) > 1 and x[1] == lid for t in (e, ("bool", g)) for x in walk(t)):
            return None
        r = collect(dom, g, e, kind)
        if kind == "String":
            return strings.mkcat([strings.text(init), ("disp", r)])
        self.note_collected(r, dom, g, e)
        return r

    def note_collected(self, r, dom, g, e):
        if len(r) > 4:
            return
        deps = {x[1] for t in (e, ("bool", g)) for x in walk(t) if len(x) >= 3 and x[0] in ("idx", "elem", "more", "in1") and isinstance(x[1], tuple) and isinstance(x[2], int)}
        self.collected[r] = (dom, g, e, {d: self.depth_of(d) for d in deps})

    def retag(self, ne, npn, d, key):
        """The effects and panics recorded since (ne, npn) belong to a loop whose key is now known."""
        for e in self.effects[ne:]:
            ls = list(e.loops)
            ls[d] = key
            e.loops = tuple(ls)
        for i in range(npn, len(self.panics)):
            g, sp, stk, msg, ls, n = self.panics[i]
            ls = list(ls)
            if len(ls) > d:
                ls[d] = key
            self.panics[i] = (g, sp, stk, msg, tuple(ls), n)

    # Iterators held in memory: consuming one through a reference moves it on, past the first
    # element where the consumer stops or to its end.
    def by_ref(self, st, ref, aty):
        pl = ref[1]
        if pl[1][0] == "L":
            v = self.read(st, pl)
            return self.iter_of(st, v if v[0] in ("call", "ret") else ref)
        v = self.read(st, pl)
        while v[0] == "ref" and v[1][1][0] != "L":
            pl, ref = v[1], v
            v = self.read(st, pl)
        if v[0] == "load" and aty and re.match(r"^(?:&(?:'\w+ )?mut )+(?:std|core)::ops::Range<", aty[0]):
            inner = ("it", "range", field(v, "start"), field(v, "end"))
        elif v[0] in ("it", "agg"):
            inner = self.iter_of(st, v)
        else:
            inner = ("it", "slice", ref)
        return ("it", "adv", ref, inner)

    def advances(self, it):
        out = []
        if isinstance(it, tuple) and it and it[0] == "it":
            if it[1] == "adv":
                out.append(it[2][1])
            for x in it[2:]:
                if isinstance(x, tuple) and x and x[0] == "it":
                    out += self.advances(x)
        return out

    def advance(self, st, pl, dom, stop, cond, sp, record=True):
        if record:
            self.effect("adv", pl, None, cond, sp, (dom, ("bool", stop)))
        self.kill(st, pl)
        self.bump(st, pl[1], static_path(pl[2]))

    def movable(self, st, pl, cond):
        """May this loop be taken as a loop over the iterator at `pl`?"""
        lc = self.loopctx[-1] if self.loopctx else None
        if lc is None or "base" not in lc or lc["more"] is not None or M.AND(self.base, cond) != lc["base"]:
            return None
        path = static_path(pl[2])
        for b, p in lc["mem_mod"]:
            if b == pl[1] and (p[: len(path)] == path or path[: len(p)] == p):
                return None
        head = State()
        head.own, head.w = lc["own"], lc["w"]
        if self.ver(st, pl[1], path) != self.ver(head, pl[1], path):
            return None
        if any(isinstance(x, tuple) and len(x) > 1 and x[0] == "lv" and x[1] == lc["lid"] for x in walk(pl)):
            return None
        return lc

    def split_recs(self, lid, dom):
        """A loop over a chain is a loop over its first part, then one over its second."""
        if lid not in self.chained.setdefault(dom, []):
            self.chained[dom].append(lid)
        recs = self.recs[lid]
        for half, side in (("a", TRUE), ("b", FALSE)):
            out = {}
            sub = in_chain(dom, side, {lid: lid + half})
            for v, (init, upd) in recs.items():
                if v == "#":
                    init = sub.dom2
                out[v] = (init if half == "a" or v == "#" else ("lv", lid + "a", v), sub.term(upd) if isinstance(upd, tuple) else upd)
            self.recs[lid + half] = out
            if sub.dom2[0] == "chain":
                self.split_recs(lid + half, sub.dom2)

    def unrolled(self, ctx, loop, st0, cond0, u):
        """A loop over a few known elements, one copy of the body per element."""
        cur = [(TRUE, st0)]
        outs = []
        for i in range(u.n + 1):
            cur = [(c, s) for c, s in cur if c != FALSE]
            if not cur:
                break
            st, c = self.merge(cur)
            st = st.copy()
            skip = st.copy()
            nrets = len(ctx["rets"])
            here = M.AND(cond0, c)
            frame = [u, i, None]
            self.unrolling.append(frame)
            savebase = self.base
            self.base = M.AND(self.base, here)
            try:
                exits, backs = self.region(ctx, loop, {loop.header: [(TRUE, st)]})
            finally:
                self.base = savebase
                self.unrolling.pop()
            for _, tgt, c2, s in exits:
                outs.append((tgt, M.AND(here, c2), s))
            for j in range(nrets, len(ctx["rets"])):
                c2, s = ctx["rets"][j]
                ctx["rets"][j] = (M.AND(here, c2), s)
            cur = [(M.AND(c, c2), s) for c2, s in backs]
            g = frame[2]
            if g is not None and g != TRUE and i < u.n:
                cur.append((M.AND(c, M.NOT(g)), skip))
        return outs

    def loop_id(self, ctx, where):
        """A name for this loop in this calling context, stable across fixpoint rounds."""
        k = (tuple(self.callstack), ctx and ctx["body"]["id"], where, tuple(x[1] for x in self.unrolling))
        if k not in self.lids:
            self.lids[k] = f"L{len(self.lids)}"
        return self.lids[k]

    def _needs_rekey(self, snap, key):
        return True

    def exists(self, dom, node):
        if node == FALSE:
            return FALSE
        if dom[0] == "optdom":
            return node
        if node == TRUE and dom[0] == "range":
            return cond_of(binop("Lt", dom[1], dom[2]))
        if node == TRUE:
            return M.atom(("exists", dom, TRUE))
        return M.atom(("exists", dom, node))

    def loop_key(self, lc, exits, rets, counted):
        """What a loop runs over, and when an iteration of it is the last."""
        more = lc["more"]
        leave = M.OR(*[e[2] for e in exits], *[c for c, _ in rets])
        if counted is not None:
            more = M.NOT(M.OR(*[c for _, c, _ in counted[1]]))
            dom = counted[0]
        elif more is not None:
            dom = M.atoms[M.nodes[more][0]][1]
        else:
            return ("while", ("bool", M.NOT(leave)), False)
        return ("for", dom, last_when(leave, more))

    def induction(self, modified, lid, ctx, st0, exits, backs):
        """A counter with init a, step +1 and natural exit !(counter < b) is the index of a range
        (step -1 and exit !(counter > b): of a reversed range).

        -> ({variable: index}, loop domain, natural exits with the counter's final value)"""
        if not exits or not backs:
            return {}, None, None
        ix = ctx["info"].rpo_ix
        b0 = min((e[0] for e in exits), key=lambda b: ix[b])
        stay = M.NOT(M.OR(*[e[2] for e in exits if e[0] == b0]))
        if stay <= 1:
            return {}, None, None
        v, lo, hi = M.nodes[stay]
        atom = M.atoms[v]
        if not (lo <= 1 and hi <= 1):
            return {}, None, None
        for k in sorted(modified):
            lv = ("lv", lid, lv_name(ctx, k))
            steps = set(s.env.get(k) for _, s in backs)
            init = st0.env.get(k)
            if init is None or len(steps) != 1:
                continue
            up = steps == {t_add(lv, const(1))}
            if not up and steps != {t_add(lv, const(-1))}:
                continue
            bound = None  # up: lv < bound; down: lv > bound
            if atom[0] == "le0":
                d = dict(atom[1])
                cst = atom[2]
                if hi == FALSE:
                    d = {t: -x for t, x in d.items()}
                    cst = -cst + 1
                k0 = d.pop(lv, 0)
                if up and k0 == 1:
                    bound = mk_lin({t: -x for t, x in d.items()}, -cst + 1)
                elif not up and k0 == -1:
                    bound = mk_lin(d, cst - 1)
            elif atom[0] == "eq" and hi == FALSE and lv in atom[1:3]:
                bound = atom[2] if atom[1] == lv else atom[1]
            if bound is None or bound[0] == "gv" or init[0] == "gv":
                continue
            if any(isinstance(x, tuple) and x and x[0] == "lv" and x[1] == lid for x in walk(bound)):
                continue
            if up:
                dom = ("range", init, bound)
                val = ("idx", dom, self.depth_of(dom))
                key = dom
            else:
                dom = ("range", bound, init)
                val = t_add(("idx", dom, self.depth_of(dom)), const(1))
                key = ("rev", dom)
            ran = cond_of(binop("Le", dom[1], dom[2]))
            post = gv([(ran, bound), (M.NOT(ran), init)])
            sub = substitution(lambda x: post if x == lv else None)
            nat = []
            for b, tgt, c, s in exits:
                if b != b0:
                    continue
                s = s.copy()
                for q, w in s.env.items():
                    if w == lv:
                        s.env[q] = post
                    elif isinstance(w, tuple) and w and w[0] in ("lin", "gv", "bool", "agg", "tuple", "it"):
                        s.env[q] = sub.term(w)
                for q, w in list(s.known.items()):
                    s.known[q] = sub.term(w)
                nat.append((tgt, c, s))
            return {k: val}, key, nat
        return {}, None, None

    def depth_of(self, dom):
        return sum(1 for l in self.loopctx if l["key"][0] == "for" and l["key"][1] == dom)

    # -------------------------------------------------------------- blocks
    def block(self, ctx, b, st, cond):
        body = ctx["body"]
        bl = body["blocks"][b]
        fr = ctx["fr"]
        for pl, rv, sp in bl["st"]:
            val = self.rvalue(ctx, st, rv, pl, cond)
            self.write_alts(st, self.resolve(ctx, st, pl), val, cond, sp)
        t = bl["t"]
        k = t["k"]
        if k in ("goto", "drop"):
            return [(t["to"], cond, st)]
        if k == "return":
            ctx["rets"].append((cond, st))
            return []
        if k == "switch":
            v = self.operand(ctx, st, t["o"])
            outs = []
            rest = cond
            variants = None
            vmap = None
            if v[0] == "discr":  # also folded to a constant or a choice of constants by the constructor
                vmap = {x: n for x, n in v[2]}
                variants = tuple(n for _, n in v[2])
            allc = FALSE
            els = t["else"]
            else_unreach = body["blocks"][els]["t"]["k"] == "unreachable"
            for n, tgt in t["cases"]:
                if t["ty"] == "bool":
                    c = cond_of(v)
                    c = c if n else M.NOT(c)
                elif vmap is not None:
                    c = isv(v[1], vmap.get(n, str(n)), variants)
                else:
                    c = eq(v, const(n))
                allc = M.OR(allc, c)
                cc = M.AND(rest, c)
                outs.append((tgt, cc, st.copy()))
            if not else_unreach:
                outs.append((els, M.AND(cond, M.NOT(allc)), st.copy()))
            return [o for o in outs if o[1] != FALSE]
        if k == "assert":
            return [(t["to"], cond, st)]
        if k == "call":
            return self.call(ctx, st, t, cond)
        if k in ("unreachable", "unwind"):
            return []
        raise Unsupported(f"terminator {k}")

    # -------------------------------------------------------------- places & operands
    def resolve(self, ctx, st, pj):
        """MIR place -> [(cond, place)]"""
        l, projs = pj
        cur = [(TRUE, ("pl", ("L", ctx["fr"], l), ()))]
        for p in projs:
            k = p[0]
            nxt = []
            for c, pl in cur:
                if k == "d":
                    v = self.read(st, pl)
                    for c2, r in alts(v):
                        cc = M.AND(c, c2)
                        if cc == FALSE:
                            continue
                        nxt.append((cc, deref(r)))
                else:
                    _, base, pr = pl
                    if k == "f":
                        q = ("f", p[1])
                    elif k == "v":
                        q = ("v", p[1])
                    elif k == "i":
                        iv = self.read(st, ("pl", ("L", ctx["fr"], p[1]), ()))
                        if iv[0] == "gv":
                            for c2, x in iv[1]:
                                cc = M.AND(c, c2)
                                if cc != FALSE:
                                    nxt.append((cc, push_proj(pl, ("ix", x))))
                            continue
                        q = ("ix", iv)
                    elif k == "c":
                        q = ("ix", const(p[1])) if not p[2] else ("ixe", const(p[1]))
                    elif k == "sub":
                        q = ("rg", const(p[1]), ("subend", p[2], p[3]))
                    else:
                        q = ("?",)
                    nxt.append((c, push_proj(pl, q)))
            cur = nxt
        return cur

    def read_alts(self, st, places):
        if len(places) == 1:
            return self.read(st, places[0][1])
        return gv([(c, self.read(st, p)) for c, p in places])

    def operand(self, ctx, st, o):
        k = o["k"]
        if k in ("copy", "move"):
            return self.read_alts(st, self.resolve(ctx, st, o["p"]))
        if k == "const":
            if "v" in o:
                if o["ty"] == "bool":
                    return boolt(TRUE if o["v"] else FALSE)
                return const(o["v"])
            if "promoted" in o:
                pb = ctx["body"]["promoted"] if "promoted" in ctx["body"] else []
                i = o["promoted"]
                if i < len(pb):
                    return self.promoted(ctx, st, pb[i], o)
            s = o.get("s", "")
            m = re.match(r"^(?:const )?(.*)$", s)
            if o["ty"] == "()":
                return UNIT
            if (o.get("cdef") or "").startswith("index::Maybe") and o["cdef"].endswith("::NONE"):
                return NONE
            cb = self.facts.consts.get(o.get("cdef"))
            if cb is not None and "trait" not in o:
                return self.promoted(ctx, st, cb, o)
            return kconst(o)
        if k == "fn":
            return ("fn", o["fn"].get("rdef") or o["fn"]["def"], Hold(o["fn"]))
        return ("opaque", k)

    def promoted(self, ctx, st, pb, o):
        key = ("promoted", id(pb))
        self.frame += 1
        fr = self.frame
        st2 = State()
        info = self.info(pb)
        c2 = {"fr": fr, "body": pb, "info": info, "rets": []}
        pb.setdefault("name", "promoted")
        self.region(c2, None, {info.rpo[0]: [(TRUE, st2)]})
        if not c2["rets"]:
            return ("opaque", o.get("s", ""))
        s3, _ = self.merge(c2["rets"])
        v = s3.env.get((fr, 0), ("opaque", "promoted"))
        if v[0] == "ref" and v[1][1][0] == "L":
            return ("ref", ("pl", ("T", ("&", self.read(s3, v[1]))), ()))
        return v

    def rvalue(self, ctx, st, rv, dest, cond):
        k = rv["k"]
        if k == "use":
            return self.operand(ctx, st, rv["o"])
        if k in ("ref", "rawptr"):
            pls = self.resolve(ctx, st, rv["p"])
            return gv([(c, mkref(p)) for c, p in pls])
        if k == "cast":
            v = self.operand(ctx, st, rv["o"])
            if rv["ty"] == "bool" or v[0] != "bool":
                return v
            return dist(v, lambda x: x)
        if k == "bin":
            return binop(rv["b"], self.operand(ctx, st, rv["l"]), self.operand(ctx, st, rv["r"]))
        if k == "un":
            v = self.operand(ctx, st, rv["o"])
            if rv["u"] == "Not":
                if v[0] == "bool":
                    return boolt(M.NOT(v[1]))
                # type of destination decides; a bool local?
                if ctx["body"]["locals"][dest[0]] == "bool" and not dest[1]:
                    return boolt(M.NOT(cond_of(v)))
                m = INT.match(ctx["body"]["locals"][dest[0]])
                if v[0] == "const" and m and not dest[1] and ctx["body"]["locals"][dest[0]][1:].isdigit():
                    return const(v[1] ^ ((1 << int(ctx["body"]["locals"][dest[0]][1:])) - 1))
                return ("un", "Not", v)
            if rv["u"] == "PtrMetadata":
                return dist(v, lambda x: self.length(st, x))
            return ("un", rv["u"], v)
        if k == "discr":
            v = self.read_alts(st, self.resolve(ctx, st, rv["p"]))
            return discr(v, tuple((a, b) for a, b in rv["vars"]))
        if k == "agg":
            ops = [self.operand(ctx, st, o) for o in rv["ops"]]
            a = rv["a"]
            if a == "tuple":
                return mktuple(tuple(ops))
            if a == "adt":
                return mk_agg(rv["adt"], rv["variant"], list(zip(rv["fields"], ops)))
            if a == "closure":
                return ("closure", rv["inst"], tuple(ops))
            if a == "array":
                return ("arr", tuple(ops))
            return ("opaque", "agg") + tuple(ops)
        if k == "repeat":
            return ("fill", self.operand(ctx, st, rv["o"]), rv["n"])
        if k == "setdiscr":
            v = self.read_alts(st, self.resolve(ctx, st, dest))
            return ("agg", "?", rv["variant"], v[3] if v[0] == "agg" else ())
        return ("opaque", k, rv.get("s", ""))

    # -------------------------------------------------------------- lengths
    def length(self, st, r):
        """Length of the sequence a reference points to."""
        def f(x):
            if x[0] == "ref":
                pl = x[1]
                _, base, projs = pl
                if projs and projs[-1][0] == "rg":
                    return t_add(projs[-1][2], projs[-1][1], -1)
                if base[0] == "L" or (base[0] == "T" and base[1][0] == "&"):
                    v = self.read(st, pl)
                    return len_of_value(v)
                k = ("pl", base, projs + (("f", "#len"),))
                kn = st.known.get(k)
                if kn is not None:
                    return kn
                v = st.known.get(pl)
                if v is not None:
                    return len_of_value(v)
                return ("len", pl, self.len_ver(st, base, projs))
            return len_of_value(x)

        return dist(r, f)

    def len_ver(self, st, base, projs):
        path = static_path(projs)
        v = []
        for i in range(len(path)):
            x = st.own.get((base, path[:i]))
            if x:
                v.append(x)
        x = st.own.get((base, path + ("#len",)))
        if x:
            v.append(x)
        if not v:
            return 0
        return v[0] if len(v) == 1 else phi_ver([y * 7 + i for i, y in enumerate(v)])

    def set_len(self, st, pl, n, unknown=False):
        _, base, projs = pl
        if base[0] == "L":
            return
        k = ("pl", base, projs + (("f", "#len"),))
        st.known.pop(k, None)
        p = static_path(projs)
        st.own[(base, p + ("#len",))] = st.own.get((base, p + ("#len",)), 0) + 1
        if n is not None:
            st.known[k] = n

    # -------------------------------------------------------------- calls
    def call(self, ctx, st, t, cond):
        sp = t["sp"]
        args = [self.operand(ctx, st, a) for a in t["a"]]
        f = self.operand(ctx, st, t["f"])
        f = t["f"]["fn"] if t["f"]["k"] == "fn" else f
        if t["to"] is None:
            # diverging
            nm = f["def"] if isinstance(f, dict) else "?"
            self.panic(cond, sp, nm)
            return []
        self.cur_aty = t["aty"]
        self.cur_fn = f
        self.cur_rty = t["rty"]
        v, st, rc = self.apply(f, args, st, cond, sp, t["aty"], t["rty"])
        if st is None or rc == FALSE:
            return []
        cond = M.AND(cond, rc) if rc != TRUE else cond
        if t["rty"] == "bool" and v[0] != "bool":
            v = boolt(cond_of(v))
        self.write_alts(st, self.resolve(ctx, st, t["dest"]), v, cond, sp)
        return [(t["to"], cond, st)]

    def inline(self, body, args, st, cond, sp, modulo_panic=True):
        if len(self.callstack) >= self.depth or sum(1 for x in self.callstack if x[0] == body["id"]) >= 1:
            return None
        self.callstack.append((body["id"], body["def"], sp))
        savebase = self.base
        self.base = M.AND(self.base, cond)
        np = len(self.panics)
        ret, st2, rc = self.call_body(body, args, st)
        self.base = savebase
        self.callstack.pop()
        if st2 is None:
            return BOT, None, FALSE
        # What did not return has panicked (or is excluded): do not restrict later effects.
        return ret, st2, TRUE

    def apply(self, f, args, st, cond, sp, aty, rty):
        """-> (value, state, extra condition)"""
        if not isinstance(f, dict):
            return self.call_value(f, args, st, cond, sp, rty)
        if f.get("ctor"):
            return mk_agg(f["adt"], f["variant"], [(str(i), a) for i, a in enumerate(args)]), st, TRUE
        name = f["name"]
        rdef = f.get("rdef") or f["def"]
        trait = f.get("trait")
        # closure calls
        if trait in ("std::ops::FnOnce", "std::ops::FnMut", "std::ops::Fn"):
            callee = args[0]
            v = callee
            if v[0] == "ref":
                v = self.read(st, v[1])
                while v[0] == "ref":
                    v = self.read(st, v[1])
            cargs = list(args[1][1]) if len(args) > 1 and args[1][0] == "tuple" else args[1:]
            return self.call_value(v, cargs, st, cond, sp, rty)
        m = self.models.get(self, f, rdef, name, trait, args, st, cond, sp, aty, rty)
        if m is not None:
            return m
        if "inst" in f and not self.no_inline(f):
            body = self.facts.bodies[f["inst"]]
            a = args
            if f.get("closure"):
                a = [args[0]] + (list(args[1][1]) if args[1][0] == "tuple" else [args[1]])
            if body.get("spread") is not None:
                pass
            r = self.inline(body, a, st, cond, sp)
            if r is not None:
                return r
        if "inst" not in f and trait is not None:
            body = self.facts.provided(f["def"])
            if body is not None:
                r = self.inline(body, args, st, cond, sp)
                if r is not None:
                    return r
        return self.opaque_call(f, rdef, name, args, st, cond, sp, aty, rty)

    def call_value(self, v, args, st, cond, sp, rty):
        if v[0] == "gv":
            outs, vals, stt = [], [], None
            res = []
            for c, x in v[1]:
                s = st.copy()
                r, s2, rc = self.call_value(x, args, s, M.AND(cond, c), sp, rty)
                if s2 is not None:
                    res.append((c, r, s2))
            if not res:
                return BOT, None, FALSE
            st2, _ = self.merge([(c, s) for c, _, s in res])
            return gv([(c, r) for c, r, _ in res]), st2, TRUE
        if v[0] == "closure":
            body = self.facts.bodies[v[1]]
            ty0 = body["locals"][1]
            a0 = v
            if ty0.startswith("&"):
                # self captured by reference: materialise in a temp
                self.frame += 1
                st.env[(self.frame, 0)] = v
                a0 = ("ref", ("pl", ("L", self.frame, 0), ()))
            r = self.inline(body, [a0] + list(args), st, cond, sp)
            if r is not None:
                return r
        if v[0] == "fn":
            fn = v[2].v
            return self.apply(fn, args, st, cond, sp, ["?"] * len(args), rty)
        if v[0] == "boxed":
            return self.call_value(v[1], args, st, cond, sp, rty)
        # unknown callee (a caller-supplied callback)
        va = tuple(self.value_of(st, a) for a in args)
        self.effect("cb", None, None, cond, sp, va, v)
        self.seq += 1
        r = ("ret", "cb", v, va, self.count("cb"))
        return typed(r, rty), st, TRUE

    def count(self, k):
        self.opaque_n[k] = self.opaque_n.get(k, 0) + 1
        return self.opaque_n[k]

    def value_of(self, st, a, d=0):
        """A term for an argument as seen by an opaque callee."""
        if a[0] == "ref":
            pl = a[1]
            _, base, projs = pl
            if base[0] == "L":
                v = self.read(st, pl)
                return ("&", self.value_of(st, v, d + 1) if v[0] == "ref" and d < 4 else v)
            if base[0] == "T" and base[1][0] == "&":
                return ("&", self.read(st, pl))
            v = st.known.get(pl)
            if v is not None and v[0] != "load":
                return ("&", v)
            return ("refv", pl, self.ver(st, base, static_path(projs)))
        if a[0] == "gv":
            return gv([(c, self.value_of(st, x, d)) for c, x in a[1]])
        if a[0] == "closure":
            return ("closure", a[1], tuple(self.value_of(st, x, d + 1) if d < 3 else x for x in a[2]))
        if a[0] == "it" and d < 6:
            return tuple(self.value_of(st, x, d + 1) if isinstance(x, tuple) and x and x[0] in ("ref", "it", "closure", "gv") else x for x in a)
        if a[0] == "boxed":
            return ("boxed", self.value_of(st, a[1], d + 1))
        if a[0] == "tuple":
            return ("tuple", tuple(self.value_of(st, x, d + 1) for x in a[1]))
        if a[0] == "agg" and d < 3:
            return ("agg", a[1], a[2], tuple((n, self.value_of(st, x, d + 1)) for n, x in a[3]))
        return a

    def callarg(self, st, a):
        """An argument of an opaque call; closures and lazy iterators by what they compute."""
        if has_code(a):
            from .summary import Canon

            return self.value_of(st, Canon(self).value(a, st))
        return self.value_of(st, a)

    def opaque_call(self, f, rdef, name, args, st, cond, sp, aty, rty):
        va = tuple(self.callarg(st, a) for a in args)
        mut = [i for i, t in enumerate(aty) if MUTREF.match(t)]
        d = f["def"]
        if not mut:
            r = ("call", rdef if f.get("rdef") else d, va)
            m = MAPINDEX.match(r[1])
            if m and len(va) == 2:
                # indexing a map is `get` and a panic if there is nothing
                r = ("call", "%s::<%s>::get" % m.groups(), va)
                c = isv(r, "Some", ("None", "Some"))
                self.panic(M.AND(cond, M.NOT(c)), sp, "index")
                return field(down(r, "Some"), "0"), st, TRUE
            if SETLIKE.match(r[1]):
                if name == "is_empty" and len(va) == 1:
                    return boolt(eq(("call", r[1][: -len(name)] + "len", va), const(0))), st, TRUE
                if name == "contains" and len(va) == 2:
                    return boolt(member(r[1][: -len(name)], va[0], va[1])), st, TRUE
                if name == "contains_key" and len(va) == 2:
                    return boolt(isv(("call", r[1][: -len(name)] + "get", va), "Some", ("None", "Some"))), st, TRUE
            if any(a[0] == "closure" for a in args):
                self.effect("clo", None, None, cond, sp, va, rdef)
            return typed(r, rty), st, TRUE
        tgt = []
        r = ("ret", rdef, va, self.count(rdef))
        for i in mut:
            for c, a in alts(args[i]):
                pl = deref(a)
                base = pl[1]
                if base[0] == "L":
                    old = self.read(st, pl)
                    nv = ("m", rdef, old) + va[:i] + va[i + 1 :]
                    self.effect("lm", pl, None, M.AND(cond, c), sp, va, rdef)
                    self.write(st, pl, nv if c == TRUE else gv([(c, nv), (M.NOT(c), old)]), cond, sp, record=False)
                    if rty == "bool" and i == 0 and len(va) == 2 and mut == [0] and name in ("insert", "remove") and SETLIKE.match(rdef) and len(alts(args[0])) == 1:
                        # whether the set changed is whether the value was in it
                        was = member(rdef[: -len(name)], ("&", old), ("&", va[1]) if name == "insert" else va[1])
                        return boolt(M.NOT(was) if name == "insert" else was), st, TRUE
                else:
                    self.effect("m", pl, None, M.AND(cond, c), sp, va, rdef)
                    self.kill(st, pl)
                    self.bump(st, base, static_path(pl[2]))
        return typed(r, rty), st, TRUE

    # -------------------------------------------------------------- iterators
    def restrict(self, v, cond, d=0):
        """Drop the alternatives of a value that cannot occur under `cond`."""
        if cond == TRUE or d > 6 or not isinstance(v, tuple) or not v:
            return v
        k = v[0]
        if k == "gv":
            return gv([(c, self.restrict(x, M.AND(cond, c), d + 1)) for c, x in v[1] if M.AND(c, cond) != FALSE])
        if k == "agg":
            return ("agg", v[1], v[2], tuple((n, self.restrict(x, cond, d + 1)) for n, x in v[3]))
        if k == "it":
            return v[:2] + tuple(self.restrict(x, cond, d + 1) if isinstance(x, tuple) else x for x in v[2:])
        return v

    def fin(self, it, d=0):
        """Number of elements of an iterator over a few known elements (optional ones included)."""
        if it[0] != "it" or d > 4:
            return None
        k = it[1]
        if k == "arr":
            return len(it[2][1])
        if k in ("opt", "once"):
            return 1
        if k == "empty":
            return 0
        if k == "range" and it[2][0] == "const" and it[3][0] == "const":
            return max(0, it[3][1] - it[2][1])
        if k in ("rev", "map", "filter", "filter_map", "copied", "cloned", "inspect", "peekable", "fuse", "by_ref"):
            return self.fin(it[2], d + 1)
        if k == "enumerate":
            return self.fin(it[2], d + 1) if self.total(it[2]) else None
        if k in ("chain", "zip") and len(it) > 3:
            a, b = self.fin(it[2], d + 1), self.fin(it[3], d + 1)
            if a is None or b is None:
                return None
            if k == "zip":
                return min(a, b) if self.total(it[2]) and self.total(it[3]) else None
            return a + b
        return None

    def total(self, it):
        """Does the finite iterator yield each of its elements?"""
        if it[1] in ("filter", "filter_map", "opt"):
            return False
        return all(self.total(x) for x in it[2:] if isinstance(x, tuple) and x and x[0] == "it")

    def fin_at(self, it, i):
        """The finite iterator restricted to its i-th element."""
        k = it[1]
        if k == "arr":
            return ("it", "once", it[2][1][i])
        if k == "range":
            return ("it", "once", const(it[2][1] + i))
        if k in ("opt", "once"):
            return it
        if k == "rev":
            return self.fin_at(it[2], self.fin(it[2]) - 1 - i)
        if k == "enumerate":
            f = ("it", "once", const(i))
            return ("it", "zip", f, self.fin_at(it[2], i))
        if k == "zip":
            return ("it", "zip", self.fin_at(it[2], i), self.fin_at(it[3], i))
        if k == "chain":
            n = self.fin(it[2])
            return self.fin_at(it[2], i) if i < n else self.fin_at(it[3], i - n)
        return it[:2] + (self.fin_at(it[2], i),) + it[3:]

    def next_body(self, short):
        if not hasattr(self, "_nb"):
            self._nb = {}
            for b in self.facts.roots:
                if b["name"] == "next" and (b.get("trait") or "").endswith("iter::Iterator") and b.get("self"):
                    self._nb.setdefault(b["self"].split("<")[0].split("::")[-1], []).append(b)
        r = self._nb.get(short)
        return r[0] if r and len(r) == 1 else None

    def crate_elem(self, v, st, cond, sp):
        """Element of a crate iterator whose `next` delegates to an inner iterator."""
        if v[0] != "agg":
            return None
        nb = self.next_body(v[1])
        if nb is None:
            return None
        st0 = st.copy()
        self.frame += 1
        fr = self.frame
        key = (fr, 0)
        st.env[key] = v
        lc = {"key": ("for", ("?",), False), "more": None, "env0": dict(st.env), "nexts": {}, "mem_mod": set(), "entry": TRUE}
        self.loopctx.append(lc)
        snap = len(self.effects), len(self.panics)
        try:
            r = self.inline(nb, [("ref", ("pl", ("L", fr, 0), ()))], st, cond, sp)
        finally:
            self.loopctx.pop()
        ok = r is not None and r[1] is not None and lc["more"] is not None and r[1].env.get(key) == v and len(self.effects) == snap[0]
        if ok:
            ret, st2, _ = r
            more = lc["more"]
            c = isv(ret, "Some")
            ok = M.AND(c, M.NOT(more)) == FALSE
        if not ok:
            del self.effects[snap[0] :]
            del self.panics[snap[1] :]
            st.env, st.known, st.own, st.w = st0.env, st0.known, st0.own, st0.w
            return self.counter_elem(v, nb, key, st, cond, sp)
        g = M.constrain(c, more)
        e = self.restrict(field(down(ret, "Some"), "0"), M.AND(more, c))
        del st2.env[key]
        return lc["key"][1], g, e, st2

    def counter_elem(self, v, nb, key, st, cond, sp):
        """Element of a crate iterator whose `next` counts a range of its own up to its end."""
        for n, r in v[3]:
            if r[0] != "agg" or not r[1].endswith("Range") or len(r[3]) != 2:
                continue
            start, end = field(r, "start"), field(r, "end")
            cur = ("lv", "cur", repr(key))
            lim = ("lv", "lim", repr(key))
            at = set_field(v, n, ("agg", r[1], r[2], (("start", cur), ("end", lim))))
            past = set_field(v, n, ("agg", r[1], r[2], (("start", t_add(cur, const(1))), ("end", lim))))
            st0 = st.copy()
            snap = len(self.effects), len(self.panics)
            st.env[key] = at
            res = self.inline(nb, [("ref", ("pl", ("L", key[0], 0), ()))], st, cond, sp)
            more = cond_of(binop("Lt", cur, lim))
            ok = res is not None and res[1] is not None and len(self.effects) == snap[0]
            if ok:
                ret, st2, _ = res
                after = st2.env.get(key)
                ok = isv(ret, "Some") == more and after is not None and self.restrict(after, more) == past and self.restrict(after, M.NOT(more)) == at
            if ok:
                dom = ("range", start, end)
                ix = ("idx", dom, self.depth_of(dom))
                sub = substitution(lambda t: ix if t == cur else end if t == lim else None)
                e = sub.term(self.restrict(field(down(ret, "Some"), "0"), more))
                for i in range(snap[1], len(self.panics)):
                    p = self.panics[i]
                    self.panics[i] = (sub.cond(M.constrain(p[0], more)),) + p[1:]
                del st2.env[key]
                return dom, TRUE, e, st2
            del self.effects[snap[0] :]
            del self.panics[snap[1] :]
            st.env, st.known, st.own, st.w = st0.env, st0.known, st0.own, st0.w
        return None

    def iter_of(self, st, v, ty=None):
        """Normalise a value used as an iterator."""
        if v[0] == "it":
            return v
        if v[0] == "agg" and v[1].endswith("Range") and len(v[3]) == 2:
            return ("it", "range", field(v, "start"), field(v, "end"))
        if v[0] == "agg" and v[2] in ("Some", "None"):
            return ("it", "opt", v)
        if v[0] == "ref":
            inner = v[1]
            if inner[1][0] == "L":
                iv = self.read(st, inner)
                if iv[0] == "it" or (iv[0] == "agg" and iv[1].endswith("Range")):
                    return self.iter_of(st, iv)
            if inner[1][0] == "L" or (inner[1][0] == "T" and inner[1][1][0] == "&"):
                iv = self.read(st, inner)
                if iv[0] == "arr" and len(iv[1]) <= 8:
                    return ("it", "arr", ("arr", tuple(("ref", ("pl", inner[1], inner[2] + (("ix", const(i)),))) for i in range(len(iv[1])))))
            return ("it", "slice", v)
        if v[0] == "arr":
            return ("it", "arr", v)
        if v[0] == "collect" and v in self.collected:
            return ("it", "coll", v)
        if v[0] == "gv":
            w = merge_aggs(v)
            if w is not None:
                return self.iter_of(st, w)
            if all(x[0] == "agg" and x[2] in ("Some", "None") for _, x in v[1]):
                return ("it", "opt", v)
            its = [self.iter_of(st, x) for _, x in v[1]]
            if all(i[0] == "it" and i[1] == "slice" for i in its):
                return ("it", "slice", gv([(c, i[2]) for (c, _), i in zip(v[1], its)]))
        return ("it", "of", v)

    def elem(self, it, st, cond, sp):
        """-> (domain, guard node, element term, state)"""
        k = it[1]
        if k == "range":
            dom = ("range", it[2], it[3])
            return dom, TRUE, ("idx", dom, self.depth_of(dom)), st
        if k == "slice":
            dom = ("range", const(0), self.length(st, it[2]))
            ix = ("idx", dom, self.depth_of(dom))
            return dom, TRUE, dist(it[2], lambda r: mkref(push_proj(deref(r), ("ix", ix)))), st
        if k == "adv":
            return self.elem(it[3], st, cond, sp)
        if k in ("rev", "peekable", "fuse", "by_ref"):
            d, g, e, st = self.elem(it[2], st, cond, sp)
            return (("rev", d) if k == "rev" else d), g, e, st
        if k in ("copied", "cloned"):
            d, g, e, st = self.elem(it[2], st, cond, sp)
            return d, g, dist(e, lambda x: self.read(st, deref(x))), st
        if k == "enumerate":
            d, g, e, st = self.elem(it[2], st, cond, sp)
            if d[0] == "range" and g == TRUE:
                ix = ("idx", d, self.depth_of(d))
                i = t_add(ix, d[1], -1)
            else:
                i = ("pos", d)
            return d, g, ("tuple", (i, e)), st
        if k == "map":
            d, g, e, st = self.elem(it[2], st, cond, sp)
            v, st, _ = self.call_value(it[3], [e], st, M.AND(cond, g), sp, "?")
            return d, g, v, st or State()
        if k in ("filter",):
            d, g, e, st = self.elem(it[2], st, cond, sp)
            self.frame += 1
            st.env[(self.frame, 0)] = e
            r = ("ref", ("pl", ("L", self.frame, 0), ()))
            v, st, _ = self.call_value(it[3], [r], st, M.AND(cond, g), sp, "bool")
            return d, M.AND(g, cond_of(v)), e, st
        if k == "filter_map":
            d, g, e, st = self.elem(it[2], st, cond, sp)
            v, st, _ = self.call_value(it[3], [e], st, M.AND(cond, g), sp, "?")
            return d, M.AND(g, isv(v, "Some")), field(down(v, "Some"), "0"), st
        if k == "flat_map":
            d, g, e, st = self.elem(it[2], st, cond, sp)
            v, st, _ = self.call_value(it[3], [e], st, M.AND(cond, g), sp, "?")
            i2 = self.iter_of(st, v)
            d2, g2, e2, st = self.elem(i2, st, cond, sp)
            return ("nest", d, ("bool", g), d2), g2, e2, st
        if k == "zip":
            d, g, e, st = self.elem(it[2], st, cond, sp)
            d2, g2, e2, st = self.elem(it[3], st, cond, sp)
            return (d if d == d2 else ("zip", d, d2)), M.AND(g, g2), ("tuple", (e, e2)), st
        if k == "arr":
            dom = ("arrdom",) + tuple(self.value_of(st, x) if x[0] == "ref" and x[1][1][0] == "L" else x for x in it[2][1])
            return dom, TRUE, ("elem", dom, self.depth_of(dom)), st
        if k == "opt":
            return ("optdom",), isv(it[2], "Some"), field(down(it[2], "Some"), "0"), st
        if k == "coll":
            dom, g, e, deps = self.collected[it[2]]
            now = {d: self.depth_of(d) for d in deps}
            if now != deps:
                f = substitution(lambda x: x[:2] + (now[x[1]],) + x[3:] if len(x) >= 3 and x[0] in ("idx", "elem", "more", "in1") and x[1] in deps and x[2] == deps[x[1]] else None)
                g, e = f.cond(g), f.term(e)
            return dom, g, e, st
        if k == "inspect":
            return self.elem(it[2], st, cond, sp)
        if k == "of":
            r = self.crate_elem(self.restrict(it[2], M.AND(self.base, cond)), st, cond, sp)
            if r is not None:
                return r
        if k == "skip" and len(it) > 3:
            d, g, e, st = self.elem(it[2], st, cond, sp)
            n = it[3]
            if d[0] == "range":
                d2 = ("range", t_add(d[1], n), d[2])
            elif n == const(0):
                d2 = d
            else:
                d2 = ("skip", d, n)
            g, e = subst_dom(d, d2, g, e)
            return d2, g, e, st
        if k == "take" and len(it) > 3:
            d, g, e, st = self.elem(it[2], st, cond, sp)
            n = it[3]
            if d[0] == "range" and t_add(t_add(d[1], n), d[2], -1) == const(0):
                return d, g, e, st
            d2 = ("take", d, n)
            g, e = subst_dom(d, d2, g, e)
            return d2, g, e, st
        if k == "chain" and len(it) > 3:
            d1, g1, e1, st = self.elem(it[2], st, cond, sp)
            d2, g2, e2, st = self.elem(it[3], st, cond, sp)
            dom = ("chain", d1, d2)
            a = M.atom(("in1", dom, self.depth_of(dom)))
            return dom, M.ite(a, g1, g2), gv([(a, e1), (M.NOT(a), e2)]), st
        if k == "once":
            return ("optdom",), TRUE, it[2], st
        v = self.lazy(it, st)
        return v, TRUE, ("elem", v, self.depth_of(v)), st

    def lazy(self, it, st):
        """An adaptor that is not taken apart, by what its source yields and its closures compute."""
        if not has_code(it):
            return self.value_of(st, it)
        from .summary import Canon

        c = Canon(self)
        ne, npn = len(self.effects), len(self.panics)
        parts = tuple((c.closure(x, st, 0) if x[0] == "closure" else c.value(x, st, 0)) if isinstance(x, tuple) and x else x for x in it[2:])
        del self.effects[ne:]
        del self.panics[npn:]
        return self.value_of(st, it[:2] + parts)

    def over(self, lc, it, st, cond, sp, back):
        """`lc` is a loop over `it`: the value of its `next`."""
        # the element is evaluated inside the loop
        dom, g, e, st2 = self.elem(it, st, cond, sp)
        if back:
            dom = ("rev", dom)
        more = M.atom(("more", dom, self.depth_of(dom)))
        lc["more"] = more
        lc["g"] = g
        lc["key"] = ("for", dom, False)
        lc["adv"] = self.advances(it)
        v = gv([(M.AND(more, g), some(e)), (M.NOT(more), NONE)]) if g != FALSE else NONE
        return v, st2, M.OR(M.NOT(more), g)

    def next(self, st, ref, cond, sp, rty, back=False, aty=()):
        """Iterator::next on a reference to a local iterator inside a loop; None if not applicable."""
        if ref[0] != "ref":
            return None
        if ref[1][1][0] != "L":
            it = self.by_ref(st, ref, aty)
            lc = self.movable(st, it[2][1], cond) if it[1] == "adv" else None
            return self.over(lc, it, st, cond, sp, back) if lc is not None else None
        pl = ref[1]
        key = (pl[1][1], pl[1][2])
        cur = self.read(st, pl)
        while cur[0] == "ref" and cur[1][1][0] == "L":
            pl = cur[1]
            key = (pl[1][1], pl[1][2])
            cur = self.read(st, pl)
        projs = pl[2]
        if self.unrolling:
            u, i = self.unrolling[-1][:2]
            if (u.key, u.projs) == (key, projs) and self.unrolling[-1][2] is None:
                if i >= u.n:
                    self.unrolling[-1][2] = TRUE
                    return NONE, st, TRUE
                _, g, e, st = self.elem(self.fin_at(u.it, i), st, cond, sp)
                self.unrolling[-1][2] = g
                self.write(st, pl, ("it", "fin", u.it, const(i + 1)), cond, sp, record=False)
                return some(e), st, g
        if cur[0] == "gv":
            cur2 = self.restrict(cur, M.AND(self.base, cond))
            if cur2[0] == "gv" and merge_aggs(cur2) is None:
                return None
        else:
            cur2 = cur
        if cur2[0] in ("lv", "m", "rest", "phi", "ref"):
            return None
        it = self.iter_of(st, cur2)
        for lc in reversed(self.loopctx):
            if key in lc["env0"] and self.project(st, lc["env0"][key], projs) == cur:
                if lc is not self.loopctx[-1]:
                    break
                if lc["more"] is not None and lc["nexts"].get((key, projs)) is None:
                    break
                if lc["nexts"].get((key, projs)):
                    break
                n = self.fin(it) if lc.get("unroll") and not back else None
                if n is not None and n <= UNROLL and lc["more"] is None:
                    raise Unroll(key, projs, it, n)
                lc["nexts"][(key, projs)] = True
                return self.over(lc, it, st, cond, sp, back)
            break
        # not a loop iteration: consume one element
        if not (cur[0] == "agg" and self.next_body(cur[1])):
            m = self.models.step(self, "next_back" if back else "next", ref, [ref], st, cond, sp)
            if m is not None:
                return m
        if not back and it[1] in ("of", "opt", "map", "filter", "filter_map", "copied", "cloned", "slice", "enumerate", "chain", "flat_map"):
            self.loopctx.append({"key": ("first",), "more": None, "env0": {}, "nexts": {}, "mem_mod": set(), "entry": TRUE})
            ne, npn = len(self.effects), len(self.panics)
            dom, g, e, st2 = self.elem(it, st.copy(), cond, sp)
            self.loopctx.pop()
            pure = not any(not x.kind.startswith("l") for x in self.effects[ne:])
            del self.effects[ne:]
            del self.panics[npn:]
            if pure:
                if g == TRUE and dom[0] == "range":
                    f = substitution(lambda x: dom[1] if len(x) == 3 and x[0] == "idx" and x[1] == dom else None)
                    e = f.term(e)
                x = self.exists(dom, g)
                self.write(st, pl, ("it", "rest", it), cond, sp, record=False)
                return gv([(x, some(e)), (M.NOT(x), NONE)]) if x != FALSE else NONE, st, TRUE
        v = self.value_of(st, it)
        r = ("call", "Iterator::next" if not back else "DoubleEndedIterator::next_back", (v,))
        self.write(st, pl, ("it", "rest", it), cond, sp, record=False)
        return r, st, TRUE


class Hold:
    """Opaque payload that compares by identity of its key."""

    __slots__ = ("v", "k")

    def __init__(self, v):
        self.v = v
        self.k = (v.get("rdef") or v["def"], tuple(v.get("args", ())), v.get("inst"))

    def __hash__(self):
        return hash(self.k)

    def __eq__(self, o):
        return isinstance(o, Hold) and self.k == o.k

    def __repr__(self):
        return self.k[0]


def hash_str(s):
    h = 0
    for c in s:
        h = (h * 31 + ord(c)) & 0xFFFFFFF
    return h


def kconst(o):
    s = re.sub(r"\balloc\d+\b", "alloc", o.get("s", ""))
    return ("konst", o.get("cdef", ""), s if not o.get("cdef") else "", o["ty"] if o.get("cdef") else "")


def merge_aggs(v):
    """A guarded choice between structs of one shape, as one struct of guarded fields."""
    xs = [x for _, x in v[1]]
    f = xs[0]
    if any(x[0] != "agg" or x[1:3] != f[1:3] or [n for n, _ in x[3]] != [n for n, _ in f[3]] for x in xs) or f[2]:
        return None
    return ("agg", f[1], f[2], tuple((n, gv([(c, field(x, n)) for c, x in v[1]])) for n, _ in f[3]))


def typed(r, rty):
    if rty == "bool":
        return boolt(M.atom(("t", r)))
    return r


COLL = re.compile(r"^(?:std|alloc|core|indexmap|hashbrown)::.*?\b(BTreeSet|HashSet|BTreeMap|HashMap|IndexSet|IndexMap|BinaryHeap)\b")


MAPINDEX = re.compile(r"^<((?:std|alloc|core|indexmap|hashbrown)::(?:\w+::)*(?:BTreeMap|HashMap|IndexMap))<(.*)> as std::ops::Index<&Q>>::index$")
SETLIKE = re.compile(r"^(?:std|alloc|core|indexmap|hashbrown)::(?:\w+::)*(BTreeSet|HashSet|BTreeMap|HashMap|IndexSet|IndexMap)::<[^<>]*>::")


def member(prefix, s, k):
    """Whether a set has a value."""
    v = s[1] if s[0] == "&" else s
    if container(v) in ("HashSet", "BTreeSet", "IndexSet"):
        return FALSE
    if v[0] == "m" and v[1] == prefix + "insert" and len(v) == 4 and k[0] == "&":
        return M.OR(eq(v[3], k[1]), member(prefix, ("&", v[2]), k))
    return M.atom(("t", ("call", prefix + "contains", (s, k))))


def container(v):
    """The kind of an empty container."""
    if v == ("empty", "seq"):
        return "seq"
    if v == ("cat", ()):
        return "String"
    if v[0] == "empty":
        m = COLL.match(v[1])
        return m.group(1) if m else None
    if v[0] == "call" and (not v[2] and re.search(r"::(new|default)$", v[1]) or v[1].endswith("::with_capacity")):
        m = COLL.match(v[1])
        return m.group(1) if m else None
    return None


def gathered(kind, v, old):
    """What a step adds to the container."""
    if kind == "String":
        return ("cat", v[1][1:]) if v[0] == "cat" and v[1] and v[1][0] == ("disp", old) else None
    if v[0] != "m" or len(v) < 4 or v[2] != old:
        return None
    if kind == "seq":
        return v[3] if v[1] in ("push", "push_back") and len(v) == 4 else None
    m = COLL.match(v[1])
    if not m or m.group(1) != kind or not re.search(r"::(insert|push)$", v[1]):
        return None
    return v[3] if len(v) == 4 else ("tuple", tuple(v[3:]))


def collect(dom, g, e, kind):
    if kind == "String" and dom[0] == "nest":
        g, e, dom = dom[2][1], strings.mkcat([("disp", collect(dom[3], g, e, kind))]), dom[1]
    return ("collect", dom, ("bool", g), e) + (() if kind == "seq" else (kind,))


def last_when(stop, more):
    """The condition on an element under which its iteration is the loop's last one before the end."""
    stop = M.AND(stop, more)
    return ("bool", M.constrain(stop, more)) if stop != FALSE else False


def lv_name(ctx, k):
    return str(k[1]) if k[0] == ctx["fr"] else f"^{ctx['fr'] - k[0]}.{k[1]}"


def local_name(ctx, k):
    if k[0] == ctx["fr"]:
        for n, (l, pr) in ctx["body"].get("names", []):
            if l == k[1] and not pr:
                return n
        return f"_{k[1]}"
    return f"^{k[1]}"


def arg_names(body):
    out = []
    used = set()
    for i in range(body["argc"]):
        nm = None
        for n, (l, pr) in body.get("names", []):
            if l == i + 1 and not pr:
                nm = n
                break
        nm = nm or f"a{i}"
        if i == 0 and nm == "self":
            nm = "self"
        else:
            nm = f"a{i}"
        out.append(nm)
    return out


class in_chain(substitution):
    """What is said of a generic element of a chain, for the elements of one of its parts."""

    def __init__(self, dom, side, lids, dep=None):
        super().__init__(lambda t: ("lv", lids[t[1]], t[2]) if len(t) == 3 and t[0] == "lv" and t[1] in lids else None)
        self.dom, self.side, self.dep = dom, side, dep
        self.dom2 = dom[1] if side == TRUE else dom[2]

    def atom(self, a):
        if a[0] == "in1" and a[1] == self.dom and (self.dep is None or a[2] == self.dep):
            return self.side
        if a[0] == "more" and a[1] == self.dom:
            return M.atom(("more", self.dom2, a[2]))
        return super().atom(a)


def subst_dom(d, d2, g, e):
    if d == d2:
        return g, e
    f = substitution(lambda x: (x[0], d2) + x[2:] if len(x) >= 2 and x[0] in ("idx", "elem", "more", "in1", "pos") and x[1] == d else None)
    return f.cond(g), f.term(e)


def deref(r):
    if r[0] == "ref":
        return r[1]
    return ("pl", ("T", r), ())


def mkref(pl):
    if pl[1][0] == "T" and not pl[2] and pl[1][1][0] != "&":
        return pl[1][1]  # &*t = t
    return ("ref", pl)


def push_proj(pl, q):
    _, base, projs = pl
    if q[0] == "ix" and projs and projs[-1][0] == "rg":
        return ("pl", base, projs[:-1] + (("ix", t_add(projs[-1][1], q[1])),))
    if q[0] == "rg" and projs and projs[-1][0] == "rg":
        a = projs[-1][1]
        return ("pl", base, projs[:-1] + (("rg", t_add(a, q[1]), t_add(a, q[2])),))
    return ("pl", base, projs + (q,))


def may_alias(a, b):
    for x, y in zip(a, b):
        if x == y:
            continue
        if x[0] == "f" and y[0] == "f":
            return False
        if x[0] == "ix" and y[0] == "ix":
            d = t_add(x[1], y[1], -1)
            if d[0] == "const" and d[1] != 0:
                return False
            return True
        return True
    return True


def len_of_value(v):
    if v[0] == "arr":
        return const(len(v[1]))
    if v[0] == "empty":
        return const(0)
    if v[0] == "fill":
        return v[2] if isinstance(v[2], tuple) else ("n", v[2])
    if v[0] == "load":
        return ("len", v[1], v[2])
    return ("lenv", v)


def mk_agg(adt, variant, fields):
    return ("agg", adt.split("::")[-1], variant, tuple(fields))


from .models import MODELS  # noqa: E402
