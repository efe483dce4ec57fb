"""Reduced ordered BDDs over interned atoms: the boolean normal form of path conditions."""

FALSE, TRUE = 0, 1


class BDD:
    def __init__(self):
        self.nodes = [None, None]  # (var, lo, hi)
        self.uniq = {}
        self.atom_ids = {}
        self.atoms = {}  # level -> atom
        self.cache = {}

    # ---- construction
    def mk(self, v, lo, hi):
        if lo == hi:
            return lo
        k = (v, lo, hi)
        n = self.uniq.get(k)
        if n is None:
            n = len(self.nodes)
            self.nodes.append(k)
            self.uniq[k] = n
        return n

    def rank(self, key):
        """Position of an atom in the variable order: depends on what it says, not on when it was met."""
        return len(self.atoms)

    def atom(self, key):
        i = self.atom_ids.get(key)
        if i is None:
            i = self.rank(key)
            while i in self.atoms:
                i += 1
            self.atoms[i] = key
            self.atom_ids[key] = i
        return self.mk(i, FALSE, TRUE)

    def var(self, n):
        return self.nodes[n][0] if n > 1 else 1 << 90

    def ite(self, f, g, h):
        if f == TRUE:
            return g
        if f == FALSE:
            return h
        if g == h:
            return g
        if g == TRUE and h == FALSE:
            return f
        k = (f, g, h)
        r = self.cache.get(k)
        if r is not None:
            return r
        v = min(self.var(f), self.var(g), self.var(h))

        def co(x, b):
            if self.var(x) != v:
                return x
            return self.nodes[x][2] if b else self.nodes[x][1]

        r = self.mk(
            v,
            self.ite(co(f, 0), co(g, 0), co(h, 0)),
            self.ite(co(f, 1), co(g, 1), co(h, 1)),
        )
        self.cache[k] = r
        return r

    def AND(self, *xs):
        r = TRUE
        for x in xs:
            r = self.ite(r, x, FALSE)
        return r

    def OR(self, *xs):
        r = FALSE
        for x in xs:
            r = self.ite(r, TRUE, x)
        return r

    def NOT(self, a):
        return self.ite(a, FALSE, TRUE)

    def implies(self, a, b):
        return self.AND(a, self.NOT(b)) == FALSE

    def constrain(self, f, c):
        """Generalised cofactor: agrees with f wherever c holds."""
        if c == FALSE:
            return f
        if c == TRUE or f <= 1:
            return f
        if f == c:
            return TRUE
        k = ("C", f, c)
        r = self.cache.get(k)
        if r is not None:
            return r
        v = min(self.var(f), self.var(c))
        f0, f1 = (self.nodes[f][1], self.nodes[f][2]) if self.var(f) == v else (f, f)
        c0, c1 = (self.nodes[c][1], self.nodes[c][2]) if self.var(c) == v else (c, c)
        if c0 == FALSE:
            r = self.constrain(f1, c1)
        elif c1 == FALSE:
            r = self.constrain(f0, c0)
        elif self.var(f) != v:
            # do not introduce variables f does not depend on
            r = self.constrain(f, self.ite(c0, TRUE, c1))
        else:
            r = self.mk(v, self.constrain(f0, c0), self.constrain(f1, c1))
        self.cache[k] = r
        return r

    def restrict(self, f, assign):
        """assign: dict var->bool"""
        if f <= 1 or not assign:
            return f
        k = ("R", f, tuple(sorted(assign.items())))
        r = self.cache.get(k)
        if r is not None:
            return r
        v, lo, hi = self.nodes[f]
        if v in assign:
            r = self.restrict(hi if assign[v] else lo, assign)
        else:
            r = self.mk(v, self.restrict(lo, assign), self.restrict(hi, assign))
        self.cache[k] = r
        return r

    def exists(self, f, pred):
        """Quantify out every variable whose atom satisfies pred."""
        memo, hit = {0: 0, 1: 1}, {}

        def go(n):
            if n not in memo:
                v, lo, hi = self.nodes[n]
                a, b = go(lo), go(hi)
                if v not in hit:
                    hit[v] = pred(self.atoms[v])
                memo[n] = self.OR(a, b) if hit[v] else self.ite(self.mk(v, FALSE, TRUE), b, a)
            return memo[n]

        return go(f)

    def support(self, f):
        seen, out, st = set(), set(), [f]
        while st:
            n = st.pop()
            if n <= 1 or n in seen:
                continue
            seen.add(n)
            v, lo, hi = self.nodes[n]
            out.add(v)
            st += [lo, hi]
        return [self.atoms[v] for v in sorted(out)]

    def map_atoms(self, f, fn, memo=None):
        """Rebuild f with fn(atom key) -> bdd node."""
        if memo is None:
            memo = {}

        def go(n):
            if n <= 1:
                return n
            r = memo.get(n)
            if r is None:
                v, lo, hi = self.nodes[n]
                a = memo.get(~v)
                if a is None:
                    a = memo[~v] = fn(self.atoms[v])
                r = memo[n] = self.ite(a, go(hi), go(lo))
            return r

        return go(f)

    def cubes(self, f, limit=64):
        """Disjoint cubes [(atom, polarity), ...] of f."""
        out = []

        def go(n, acc):
            if n == FALSE or len(out) >= limit:
                return
            if n == TRUE:
                out.append(list(acc))
                return
            v, lo, hi = self.nodes[n]
            go(hi, acc + [(self.atoms[v], True)])
            go(lo, acc + [(self.atoms[v], False)])

        go(f, [])
        return out
