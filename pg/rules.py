"""Rules over the type-checked program that are not effect comparisons.

Each takes the facts and returns (sites examined, violations, undecided, sample); a violation is
(key, where, what)."""
import re

# ------------------------------------------------------------------ small MIR helpers


def walk(x):
    """Every dict and list inside a fact."""
    if isinstance(x, dict):
        yield x
        for y in x.values():
            if isinstance(y, (dict, list)):
                yield from walk(y)
    elif isinstance(x, list):
        yield x
        for y in x:
            if isinstance(y, (dict, list)):
                yield from walk(y)


def calls(b):
    """(block, terminator, callee facts) of each call."""
    for i, bl in enumerate(b.get("blocks", [])):
        if bl["t"]["k"] == "call" and not bl.get("cleanup"):
            yield i, bl["t"], (bl["t"]["f"] or {}).get("fn") or {}


def succ(t):
    k = t["k"]
    if k == "switch":
        return [x[1] for x in t["cases"]] + ([t["else"]] if t.get("else") is not None else [])
    return [t["to"]] if t.get("to") is not None else []


def cycle(b, at):
    """Blocks of the innermost natural loop that contains block `at`."""
    bl = b["blocks"]
    n = len(bl)
    pred = {i: [] for i in range(n)}
    for i, x in enumerate(bl):
        for s in succ(x["t"]):
            pred[s].append(i)
    reach, todo = set(), [0]
    while todo:
        x = todo.pop()
        if x not in reach:
            reach.add(x)
            todo += succ(bl[x]["t"])
    order = sorted(reach)
    dom = {x: set(reach) for x in order}
    dom[0] = {0}
    changed = True
    while changed:
        changed = False
        for x in order:
            if x:
                d = set.intersection(*[dom[p] for p in pred[x] if p in reach]) | {x}
                if d != dom[x]:
                    dom[x], changed = d, True
    loops = {}
    for u in order:
        for h in succ(bl[u]["t"]):
            if h in dom[u]:
                body, todo = loops.setdefault(h, {h}), [u]
                while todo:
                    x = todo.pop()
                    if x not in body:
                        body.add(x)
                        todo += [p for p in pred[x] if p in reach]
    inside = [l for l in loops.values() if at in l]
    return min(inside, key=len) if inside else set()


# ------------------------------------------------------------------ serialisation keeps every field


def serde_fields(F):
    bad, und, sample, n = [], [], [], 0
    names = {}
    for b in F.d["bodies"]:
        if not b.get("derived") or "blocks" not in b:
            continue
        m = re.search(r"impl serde::Serialize for (.*)>::serialize$", b["def"])
        if m:
            ty = re.sub(r"<.*", "", m.group(1))
            adt = F.adts.get(ty)
            if not adt:
                continue
            seen = set()
            for x in walk(b["blocks"]):
                if isinstance(x, list) and len(x) >= 3 and x[0] == "f" and x[2] == ty:
                    seen.add(x[1])
            out = set()
            for _, t, f in calls(b):
                if f.get("name", "").startswith("serialize_"):
                    cs = [a.get("s", "").strip('"') for a in t["a"] if a.get("k") == "const" and a.get("ty", "").startswith("&")]
                    if cs and f["name"] == "serialize_field":
                        out.add(cs[-1])
                    elif cs and f["name"].endswith("_variant"):
                        out.add(cs[-1])
            names.setdefault(ty, [None, None])[0] = out
            for v in adt["variants"]:
                for fl in v["fields"]:
                    n += 1
                    if "PhantomData" in fl["ty"]:
                        continue
                    if fl["name"] not in seen:
                        bad.append(("serialize " + ty + " " + fl["name"], adt["span"], "field `%s` of %s is not written by its serialisation" % (fl["name"], ty)))
            sample.append("%s writes %s" % (ty, sorted(seen)))
        m = re.search(r"impl serde::Deserialize<'de> for (.*?)>::deserialize::__(\w+)(?:<.*>)? as serde::de::Visitor<'de>>::(visit_\w+)$", b["def"])
        if m:
            ty = re.sub(r"<.*", "", m.group(1))
            adt = F.adts.get(ty)
            if not adt:
                continue
            if m.group(3) == "visit_str" and m.group(2) == "__FieldVisitor":
                s = {a.get("s", "").strip('"') for _, t, f in calls(b) for a in t["a"] if a.get("k") == "const"}
                names.setdefault(ty, [None, None])[1] = s
            want = [fl["name"] for fl in adt["variants"][0]["fields"] if "PhantomData" not in fl["ty"]]
            if adt["enum"] or not want:
                continue
            if m.group(3) in ("visit_map", "visit_seq") and m.group(2) == "__Visitor":
                what = "next_value" if m.group(3) == "visit_map" else "next_element"
                k = sum(1 for _, t, f in calls(b) if f.get("name", "").startswith(what))
                n += 1
                if k < len(want):
                    bad.append(("deserialize " + ty, adt["span"], "deserialising %s reads %d values for %d fields" % (ty, k, len(want))))
    for ty, (out, inn) in sorted(names.items()):
        if out is not None and inn is not None and inn:
            n += 1
            if not out <= inn:
                bad.append(("names " + ty, F.adts[ty]["span"], "serialising %s writes the names %s, which deserialising it does not know" % (ty, sorted(out - inn))))
    return n, bad, und, sample[:12]


# ------------------------------------------------------------------ sharing between threads

SHARED = """
portgraph::PortGraph multiportgraph::MultiPortGraph multiportgraph::SubportIndex hierarchy::Hierarchy weights::Weights unmanaged::UnmanagedDenseMap
boundary::Boundary boundary::BoundaryPort boundary::PortOrdering index::NodeIndex index::PortIndex index::PortOffset Direction
view::region::Region view::flat_region::FlatRegion view::filter::FilteredGraph view::subgraph::Subgraph
portgraph::LinkError portgraph::PortOperation portgraph::NodeSubports multiportgraph::SubportIndex
algorithms::dominators::DominatorTree algorithms::lca::LCA algorithms::convex::topo_convex_checker::TopoConvexChecker algorithms::dynamic::DynamicTopoConvexChecker
portgraph::iter::Nodes portgraph::iter::Ports portgraph::iter::NodePorts portgraph::iter::NodePortOffsets portgraph::iter::NodeLinks portgraph::iter::Neighbours portgraph::iter::NodeConnections
multiportgraph::iter::Nodes multiportgraph::iter::Ports multiportgraph::iter::Neighbours multiportgraph::iter::NodeLinks multiportgraph::iter::NodeConnections
hierarchy::Children hierarchy::AttachError
""".split()
CONFINED = re.compile(r"\b(?:cell::(?:Cell|RefCell|UnsafeCell|OnceCell|LazyCell)|rc::(?:Rc|Weak)|RwLock(?:Read|Write)Guard|MutexGuard|mpsc::(?:Receiver|Sender))<|\*(?:const|mut) |\(?dyn (?!.*\bSend\b)[^)>]*")


def shared(F):
    n, bad, und, sample = 0, [], [], []
    marked = set()
    for i in F.impls:
        t = (i.get("trait") or "").split("<")[0]
        if t in ("std::marker::Send", "std::marker::Sync"):
            marked.add(re.sub(r"<.*", "", i.get("self") or ""))

    def fault(ty, seen):
        m = CONFINED.search(ty)
        if m:
            return m.group(0)
        for d in sorted(F.adts, key=len, reverse=True):
            if d not in seen and re.search(r"(?<![\w:])" + re.escape(d) + r"(?![\w:])", ty):
                if d in marked:
                    continue
                for v in F.adts[d]["variants"]:
                    for fl in v["fields"]:
                        x = fault(fl["ty"], seen | {d})
                        if x:
                            return "%s.%s: %s" % (d, fl["name"], x)
        return None

    for d in SHARED:
        a = F.adts.get(d)
        if a is None:
            continue
        for v in a["variants"]:
            for fl in v["fields"]:
                n += 1
                x = fault(fl["ty"], {d})
                if x and d not in marked:
                    bad.append(("shared " + d, a["span"], "field `%s: %s` confines %s to one thread (%s)" % (fl["name"], fl["ty"][:120], d, x)))
        sample.append(d)
    return n, bad, und, sample[:12]


# ------------------------------------------------------------------ nothing depends on hash order

HASHED = re.compile(r"\bhash_(?:map|set)::(?:Iter|IterMut|IntoIter|Keys|Values|ValuesMut|IntoKeys|IntoValues|Drain|ExtractIf|Union|Intersection|Difference|SymmetricDifference)\b")
SEQ = re.compile(r"^(?:&mut )*(?:std|alloc|smallvec)::(?:vec::Vec|collections::VecDeque|string::String|smallvec::SmallVec|SmallVec)\b|^(?:&mut )*smallvec::SmallVec\b")
UNORDERED = re.compile(r"^(?:&(?:mut )?)*(?:std::collections::|indexmap::)?(?:\w+::)*(?:HashSet|HashMap|BTreeSet|BTreeMap)\b")
APPEND = re.compile(r"^(?:push|push_back|push_front|push_str|insert|insert_str|extend|append|extend_from_slice|write_str|write_fmt|write_char|remove|swap_remove|pop|pop_front|pop_back)$")
PICK = {"find", "find_map", "position", "last", "nth", "max_by_key", "min_by_key", "max_by", "min_by", "reduce"}
SORT = re.compile(r"^(sort|sorted)")
SETS = re.compile(r"PortOrdering::missing_pairs|HashSet(Iter)?<|HashMap<")  # the set's own items
MUTATORS = re.compile(r"^view::(PortMut|LinkMut|MultiMut)$")
READERS = {"reserve", "shrink_to"}


class Hash:
    def __init__(self, F):
        self.F, self.memo = F, {}

    def base(self, b, defs, p):
        """The argument a place lives in (or None), following references and copies."""
        for _ in range(20):
            l, proj = p
            if 1 <= l <= b["argc"]:
                return l
            d = defs.get(l, [])
            if len(d) != 1:
                return None
            r = d[0]
            if r["k"] in ("ref", "addr"):
                p = r["p"]
            elif r["k"] in ("use", "cast") and r.get("o", {}).get("k") in ("move", "copy"):
                p = r["o"]["p"]
            elif r["k"] == "call!" and r["a"] and r["a"][0].get("k") in ("move", "copy"):
                p = r["a"][0]["p"]
            else:
                return None
        return None

    def defs(self, b):
        out = {}
        for bl in b["blocks"]:
            for s in bl["st"]:
                if isinstance(s, list) and len(s) >= 2 and isinstance(s[0], list) and not s[0][1] and isinstance(s[1], dict):
                    out.setdefault(s[0][0], []).append(s[1])
            t = bl["t"]
            if t["k"] == "call" and t.get("dest") and not t["dest"][1]:
                out.setdefault(t["dest"][0], []).append({"k": "call!", "a": t["a"], "n": ((t["f"] or {}).get("fn") or {}).get("name", "")})
        return out

    def local(self, b, defs, p):
        """The local a place or reference ends in."""
        for _ in range(20):
            l = p[0]
            d = defs.get(l, [])
            if 1 <= l <= b["argc"] or len(d) != 1:
                return l
            r = d[0]
            if r["k"] in ("ref", "addr"):
                p = r["p"]
            elif r["k"] in ("use", "cast") and r.get("o", {}).get("k") in ("move", "copy"):
                p = r["o"]["p"]
            else:
                return l
        return None

    def appends(self, f, depth=0):
        """Calling f adds to an ordered value behind its first argument: a reason, or None."""
        tr, nm = f.get("trait") or "", f.get("name", "")
        if not f.get("crate") and not f.get("rcrate"):
            s = f.get("rself") or f.get("self") or ""
            if APPEND.match(nm) and (SEQ.match(s) or "fmt::Write" in tr or "fmt::Formatter" in s):
                return (f.get("rdef") or f["def"])
            return None
        body = self.F.bodies.get(f.get("inst")) if f.get("inst") is not None else None
        if body is None or "blocks" not in body:
            if MUTATORS.match(tr) and nm not in READERS and not nm.startswith("link_view"):
                return f["def"]
            return None
        k = body["id"]
        if k not in self.memo:
            self.memo[k] = None
            if depth < 6:
                dd = self.defs(body)
                for _, t, g in calls(body):
                    if not t["a"] or t["a"][0].get("k") not in ("move", "copy") or not (t["aty"] or [""])[0].startswith("&mut"):
                        continue
                    if self.base(body, dd, t["a"][0]["p"]) is None:
                        continue
                    r = self.appends(g, depth + 1)
                    if r:
                        self.memo[k] = r
                        break
        return self.memo[k]

    def effects(self, b, blocks, closure=False):
        """Ordered effects on what outlives the body: (where, what); and local sequences filled."""
        dd = self.defs(b)
        out, filled = [], []
        for i, t, f in calls(b):
            if i not in blocks or not t["a"] or t["a"][0].get("k") not in ("move", "copy"):
                continue
            if not (t["aty"] or [""])[0].startswith("&mut"):
                continue
            r = self.appends(f)
            if not r:
                continue
            at = self.base(b, dd, t["a"][0]["p"])
            if at is not None:
                out.append((t["sp"], r))
            else:
                filled.append(self.local(b, dd, t["a"][0]["p"]))
        return out, filled

    def body(self, b):
        """(sites, violations) of one function body."""
        sites, bad = [], []
        loc = b["locals"]
        dd = self.defs(b)
        taint = {}  # local -> where it got its order from
        for i, t, f in calls(b):
            if t.get("dest") and not t["dest"][1] and HASHED.search(loc[t["dest"][0]]):
                had = any(a.get("k") in ("move", "copy") and HASHED.search(loc[a["p"][0]]) for a in t["a"])
                if not had:
                    sites.append((t["sp"], f.get("name", "")))
                taint.setdefault(t["dest"][0], t["sp"])
        if not sites and not taint:
            return sites, bad
        sorted_ = {self.local(b, dd, t["a"][0]["p"]) for _, t, f in calls(b) if SORT.match(f.get("name", "")) and t["a"] and t["a"][0].get("k") in ("move", "copy")}
        # a sorted slice is a deref of the vector
        for _, t, f in calls(b):
            if SORT.match(f.get("name", "")) and t["a"] and t["a"][0].get("k") in ("move", "copy"):
                l = t["a"][0]["p"][0]
                for _ in range(8):
                    d = dd.get(l, [])
                    if len(d) != 1:
                        break
                    r = d[0]
                    q = r["p"] if r["k"] == "ref" else r["o"]["p"] if r["k"] == "use" and r["o"].get("k") in ("move", "copy") else r["a"][0]["p"] if r["k"] == "call!" and r["a"] and r["a"][0].get("k") in ("move", "copy") else None
                    if q is None:
                        break
                    l = q[0]
                    sorted_.add(l)
        done = set()
        for _ in range(12):
            before = (len(taint), len(bad))
            for bl in b["blocks"]:
                for s in bl["st"]:
                    if not (isinstance(s, list) and isinstance(s[0], list) and isinstance(s[1], dict)):
                        continue
                    (l, pr), r = s[0], s[1]
                    src = [x["p"][0] for x in walk(r) if isinstance(x, dict) and isinstance(x.get("p"), list)] if r["k"] in ("use", "ref", "cast") else []
                    if not pr and any(x in taint for x in src) and not UNORDERED.match(loc[l]):
                        if l not in taint and l not in sorted_:
                            taint[l] = taint[next(x for x in src if x in taint)]
            for i, t, f in calls(b):
                nm = f.get("name", "")
                args = [(k, a["p"][0]) for k, a in enumerate(t["a"]) if a.get("k") in ("move", "copy")]
                hit = [(k, l) for k, l in args if l in taint]
                if not hit:
                    continue
                src = taint[hit[0][1]]
                dst = t["dest"][0] if t.get("dest") and not t["dest"][1] else None
                dty = loc[dst] if dst is not None else ""
                clo = []
                for _, l in args:
                    for r in dd.get(self.local(b, dd, [l, []]), []):
                        if r["k"] == "agg" and r.get("a") == "closure" and r.get("inst") is not None:
                            clo.append(self.F.bodies.get(r["inst"]))
                for c in clo:
                    if c is not None and "blocks" in c and (i, "clo") not in done:
                        done.add((i, "clo"))
                        for sp, r in self.effects(c, set(range(len(c["blocks"]))))[0]:
                            bad.append((src, "the hash-ordered iteration at %s drives `%s` (%s)" % (src, r, sp)))
                if nm == "next" and hit[0][0] == 0:
                    cyc = cycle(b, i)
                    if (i, "loop") in done:
                        continue
                    done.add((i, "loop"))
                    if not cyc:
                        if dst is not None and not HASHED.search(dty):
                            bad.append((src, "the first element in hash order is picked (%s)" % t["sp"]))
                        continue
                    out, filled = self.effects(b, cyc)
                    for sp, r in out:
                        bad.append((src, "the hash-ordered loop over %s performs `%s` (%s)" % (src, r, sp)))
                    for l in filled:
                        if l is not None and l not in sorted_:
                            taint.setdefault(l, src)
                elif nm in PICK and f.get("trait") == "std::iter::Iterator" and "bool" not in dty:
                    if (i, "pick") not in done:
                        done.add((i, "pick"))
                        bad.append((src, "`%s` picks an element by hash order (%s)" % (nm, t["sp"])))
                elif nm in ("extend", "append", "extend_from_slice") and hit[0][0] > 0 and args and args[0][0] == 0:
                    if SEQ.match(t["aty"][0]):
                        at = self.base(b, dd, [args[0][1], []])
                        l = self.local(b, dd, [args[0][1], []])
                        if at is not None:
                            if (i, "ext") not in done:
                                done.add((i, "ext"))
                                bad.append((src, "a sequence is extended in hash order (%s)" % t["sp"]))
                        elif l is not None and l not in sorted_:
                            taint.setdefault(l, src)
                elif dst is not None and dst not in taint and dst not in sorted_ and hit[0][0] == 0:
                    if HASHED.search(dty) or SEQ.match(dty) or nm in ("deref", "iter", "into_iter", "as_slice", "clone", "join"):
                        if not UNORDERED.match(dty):
                            taint[dst] = src
            if (len(taint), len(bad)) == before:
                break
        ret = taint.get(0)
        if ret is not None and SEQ.match(loc[0]):
            bad.append((ret, "the returned `%s` is in the order of a hash container (%s)" % (loc[0][:60], ret)))
        elif ret is not None and HASHED.search(loc[0]) and "{closure" not in b["def"] and not SETS.search(b["def"]):
            bad.append((ret, "the returned iterator runs in the order of a hash container (%s)" % ret))
        else:
            # a field of the returned value
            for bl in b["blocks"]:
                for s in bl["st"]:
                    if isinstance(s, list) and isinstance(s[1], dict) and s[1]["k"] == "agg" and s[0][0] == 0:
                        for x in walk(s[1].get("ops", [])):
                            if isinstance(x, dict) and isinstance(x.get("p"), list) and x["p"][0] in taint and SEQ.match(loc[x["p"][0]]):
                                bad.append((taint[x["p"][0]], "a returned sequence is in the order of a hash container (%s)" % taint[x["p"][0]]))
        return sites, bad


def hash_order(F):
    h = Hash(F)
    n, bad, sample, seen = 0, [], [], set()
    for b in F.d["bodies"]:
        if not b.get("crate") or "blocks" not in b:
            continue
        n += 1
        sites, vs = h.body(b)
        for sp, nm in sites:
            if (b["def"], sp) not in seen:
                seen.add((b["def"], sp))
                n += 1
                sample.append("%s %s (%s)" % (sp, nm, b["def"][:80]))
        for where, what in vs:
            k = ("hash order " + b["def"], where, what)
            if k not in seen:
                seen.add(k)
                bad.append(k)
    return n, bad, [], sample[:20]
