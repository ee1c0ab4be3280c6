"""
Gated value numbering.

A *term* is a hash-consed tuple.  A *value* is the id of a node of a
multi-terminal decision diagram whose tests are atoms (comparisons between
terms, truth of terms) and whose leaves are terms; a *guard* is a value whose
leaves are True/False.  Both are canonical: two ways of writing the same
decision (nested ifs, early returns, De Morgan, swapped operands, min/max or
ternary) get the same node id.  This is the classic gated-SSA / value-numbering
domain; nothing is executed and no solver is involved.
"""
import sys
import time
from fractions import Fraction

sys.setrecursionlimit(50000)

TRUE_T, FALSE_T = ("c", True), ("c", False)
MAXNODES = 6000


class Blowup(Exception):
    pass

# terms that never stand for Python's None
NOTNONE = {"c", "obj", "list", "arr", "filled", "+", "sum", "size", "closure",
           "class", "native", "limit", "b", "it", "truediv", "enum", "ceil",
           "floor", "trunc", "pyfunc", "module", "ext", "pymod", "pydiv"}


class VN:
    python = False

    def __init__(self, enums=None):
        self.nones = set()
        self.nodes = []       # id -> ('L', term) | (var, hi, lo)
        self.uniq = {}
        self.fam = {}
        self._famkeys = []         # family key -> index
        self.vars = []        # (sortkey)
        self.memo = {}
        self.enums = enums or {}
        self.T = self.leaf(TRUE_T)
        self.F = self.leaf(FALSE_T)
        self._size = {}
        self._sup = {}
        self.nonneg_hint = set()
        self.real_hint = set()
        self.ptr_hint = {}    # term -> class it points to
        self.deadline = None
        self._rank = {}
        self._occ = {}
        self._occt = {}
        self.ticks = 0
        self.int_hint = set()

    # ---------------------------------------------------------------- nodes
    def leaf(self, term):
        key = ("L", type(term[1]).__name__ if term[0] == "c" else "", term)
        i = self.uniq.get(key)
        if i is None:
            i = len(self.nodes)
            self.nodes.append(("L", term))
            self.uniq[key] = i
        return i

    def c(self, v):
        return self.leaf(("c", v))

    def isleaf(self, v):
        return self.nodes[v][0] == "L"

    def term(self, v):
        """Ground term of a leaf, or a ('v', id) wrapper."""
        n = self.nodes[v]
        return n[1] if n[0] == "L" else ("v", v)

    def unwrap(self, t):
        return t[1] if t[0] == "v" else self.leaf(t)

    def mk(self, var, hi, lo):
        if hi == lo:
            return hi
        key = (var, hi, lo)
        i = self.uniq.get(key)
        if i is None:
            i = len(self.nodes)
            if len(self.nodes) > 3_000_000:
                raise Blowup()
            self.nodes.append(key)
            self.uniq[key] = i
        return i

    # A var is (family index, k) with families ordered by creation.
    def family(self, key):
        if key not in self.fam:
            self.fam[key] = len(self.fam)
            self._famkeys.append(key)
        return self.fam[key]

    def famkey(self, idx):
        return self._famkeys[idx]

    def var(self, famkey, k=0):
        return (self.family(famkey), k)

    def node_of_var(self, var):
        return self.mk(var, self.T, self.F)

    def cof(self, v, var, val):
        """Cofactor under var=val, with the family's theory applied."""
        n = self.nodes[v]
        if n[0] == "L":
            return v
        key = ("cof", v, var, val)
        r = self.memo.get(key)
        if r is not None:
            return r
        nv, hi, lo = n
        if nv == var:
            r = hi if val else lo
            r = self.cof(r, var, val)
        elif nv[0] == var[0]:
            kind = self.famkey(nv[0])[0]
            imp = None
            if kind == "lt":
                # var: p < var.k ; nv: p < nv.k
                if val and nv[1] >= var[1]:
                    imp = True
                elif not val and nv[1] <= var[1]:
                    imp = False
            elif kind == "enum":
                if val:
                    imp = False
            if imp is None:
                r = self.mk(nv, self.cof(hi, var, val), self.cof(lo, var, val))
            else:
                r = self.cof(hi if imp else lo, var, val)
        elif nv > var:
            r = v
        else:
            r = self.mk(nv, self.cof(hi, var, val), self.cof(lo, var, val))
        self.memo[key] = r
        return r

    def tick(self):
        self.ticks += 1
        if self.deadline is not None and self.ticks > self.deadline:
            raise Blowup("steps")

    def allow(self, secs):
        """Bound further work, counted in steps so that the verdict does not
        depend on how fast the machine is."""
        self.deadline = self.ticks + int(secs * 60000)

    def top(self, vs):
        best = None
        for v in vs:
            n = self.nodes[v]
            if n[0] != "L" and (best is None or n[0] < best):
                best = n[0]
        return best

    def apply(self, opkey, fn, *vs):
        """Lift fn (ground terms -> value) over the decisions of vs."""
        key = ("ap", opkey, vs)
        r = self.memo.get(key)
        if r is not None:
            return r
        self.tick()
        var = self.top(vs)
        if var is None:
            r = fn(*[self.nodes[v][1] for v in vs])
        else:
            hi = self.apply(opkey, fn, *[self.cof(v, var, True) for v in vs])
            lo = self.apply(opkey, fn, *[self.cof(v, var, False) for v in vs])
            r = self.ite_var(var, hi, lo)
        self.memo[key] = r
        return r

    def ite_var(self, var, hi, lo):
        # hi and lo may test earlier variables (fn may create atoms)
        th, tl = self.top((hi,)), self.top((lo,))
        if (th is None or th > var) and (tl is None or tl > var):
            return self.mk(var, self.cof(hi, var, True), self.cof(lo, var, False))
        return self.ite(self.node_of_var(var), hi, lo)

    def ite(self, g, a, b):
        if g == self.T:
            return a
        if g == self.F:
            return b
        if a == b:
            return a
        if self.nodes[g][0] == "L":
            return self.ite(self.truth(g), a, b)
        key = ("ite", g, a, b)
        r = self.memo.get(key)
        if r is not None:
            return r
        self.tick()
        var = self.top((g, a, b))
        hi = self.ite(self.cof(g, var, True), self.cof(a, var, True),
                      self.cof(b, var, True))
        lo = self.ite(self.cof(g, var, False), self.cof(a, var, False),
                      self.cof(b, var, False))
        r = self.mk(var, hi, lo)
        self.memo[key] = r
        return r

    def AND(self, *gs):
        r = self.T
        for g in gs:
            r = self.ite(r, g, self.F)
        return r

    def OR(self, *gs):
        r = self.F
        for g in gs:
            r = self.ite(r, self.T, g)
        return r

    def NOT(self, g):
        return self.ite(g, self.F, self.T)

    def implies(self, a, b):
        return self.AND(a, self.NOT(b)) == self.F

    def size(self, v):
        seen = set()
        st = [v]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            n = self.nodes[x]
            if n[0] != "L":
                st += [n[1], n[2]]
            if len(seen) > MAXNODES:
                break
        return len(seen)

    def leaves(self, v):
        seen, out = set(), []
        st = [v]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            n = self.nodes[x]
            if n[0] == "L":
                out.append(n[1])
            else:
                st += [n[2], n[1]]
        return out

    def leaf_guards(self, v):
        """[(term, guard)] partition of v."""
        out = []
        for t in self.leaves(v):
            g = self.apply(("is", t), lambda x, t=t: self.T if x == t and
                           type(x[-1]) is type(t[-1]) else self.F, v)
            out.append((t, g))
        return out

    def atoms(self, v):
        seen, out = set(), []
        st = [v]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            n = self.nodes[x]
            if n[0] != "L":
                if n[0] not in out:
                    out.append(n[0])
                st += [n[2], n[1]]
        return out

    def sub_terms(self, t, seen=None):
        """All subterms of a term, descending into embedded values."""
        if seen is None:
            seen = set()
        st = [t]
        while st:
            x = st.pop()
            if not isinstance(x, tuple) or x in seen:
                continue
            seen.add(x)
            if x and x[0] in ("v", "g") and len(x) == 2 and isinstance(x[1], int):
                st.extend(self.value_terms(x[1]))
                continue
            st.extend(y for y in x if isinstance(y, tuple))
        return seen

    def value_terms(self, v):
        out = []
        seen = set()
        st = [v]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            n = self.nodes[x]
            if n[0] == "L":
                out.append(n[1])
            else:
                out.append(self.famkey(n[0][0]))
                st += [n[1], n[2]]
        return out

    def all_terms(self, v):
        seen = set()
        for t in self.value_terms(v):
            self.sub_terms(t, seen)
        return seen

    MARKS = frozenset(("b", "it", "rec", "ph", "hole"))

    def occ(self, v):
        """The loop variables and placeholders that occur in a value."""
        memo = self._occ
        if v in memo:
            return memo[v]
        st = [v]
        while st:
            x = st[-1]
            if x in memo:
                st.pop()
                continue
            n = self.nodes[x]
            if n[0] == "L":
                memo[x] = self.occ_term(n[1])
                st.pop()
                continue
            miss = [y for y in n[1:] if y not in memo]
            if miss:
                st += miss
                continue
            f = ("F", n[0][0])
            if f not in memo:
                memo[f] = self.occ_term(self.famkey(n[0][0]))
            a = memo[n[1]]
            for o in (memo[n[2]], memo[f]):
                if not o <= a:
                    a = a | o
            memo[x] = a
            st.pop()
        return memo[v]

    def occ_term(self, t):
        if not t or t[0] == "c":
            return frozenset()
        if t[0] in ("v", "g") and len(t) == 2 and isinstance(t[1], int):
            return self.occ(t[1])
        r = self._occt.get(t)
        if r is None:
            r = frozenset()
            for x in t:
                if isinstance(x, tuple):
                    o = self.occ_term(x)
                    if not o <= r:
                        r = r | o
            if t[0] in self.MARKS:
                r = r | {t}
            self._occt[t] = r
        return r

    def mentions(self, v, pred):
        return any(t and pred(t) for t in self.all_terms(v))

    # ---------------------------------------------------------- arithmetic
    # polynomial normal form: ('+', const, ((monomial, coef), ...)) where a
    # monomial is a sorted tuple of terms.
    def poly(self, t):
        if t[0] == "c" and isinstance(t[1], (int, float, Fraction)) \
                and not isinstance(t[1], bool):
            return {(): t[1]} if t[1] != 0 else {}
        if t[0] == "c" and isinstance(t[1], bool):
            return {(): int(t[1])} if t[1] else {}
        if t[0] == "+":
            return dict(t[1])
        return {(t,): 1}

    def rank(self, t):
        """A total order of terms, fixed within one analysis."""
        i = self._rank.get(t)
        if i is None:
            i = self._rank[t] = len(self._rank)
        return i

    def ordered(self, items):
        items = tuple(items)
        if len(items) < 2:
            return items
        return tuple(sorted(items, key=lambda x: self.rank(x[0])))

    def unpoly(self, p):
        p = {m: c for m, c in p.items() if c != 0}
        if not p:
            return ("c", 0)
        if len(p) == 1:
            (m, c), = p.items()
            if m == ():
                return ("c", c)
            if c == 1 and len(m) == 1:
                return m[0]
        return ("+", self.ordered(p.items()))

    def tadd(self, a, b, sign=1):
        p = dict(self.poly(a))
        for m, c in self.poly(b).items():
            p[m] = p.get(m, 0) + sign * c
        return self.unpoly(p)

    def tmul(self, a, b):
        p = {}
        for m1, c1 in self.poly(a).items():
            for m2, c2 in self.poly(b).items():
                m = m1 + m2
                if m1 and m2:
                    m = tuple(sorted(m, key=self.rank))
                p[m] = p.get(m, 0) + c1 * c2
        return self.unpoly(p)

    def arith(self, op, a, b):
        if op == "+":
            return self.apply("+", lambda x, y: self.leaf(self.tadd(x, y)), a, b)
        if op == "-":
            return self.apply("-", lambda x, y: self.leaf(self.tadd(x, y, -1)),
                              a, b)
        if op == "*":
            return self.apply("*", lambda x, y: self.leaf(self.tmul(x, y)), a, b)
        return self.apply(("op", op),
                          lambda x, y: self.leaf((op, x, y)), a, b)

    # --------------------------------------------------------------- atoms
    def isnum(self, t):
        return t[0] == "c" and isinstance(t[1], (int, float)) \
            and not isinstance(t[1], bool)

    def nonneg(self, t):
        if t[0] in ("size", "abs"):
            return True
        if t[0] == "sum":
            return all(self.nonneg(x) for x in self.leaves(t[2][1]))
        if t[0] == "c":
            return not isinstance(t[1], str) and t[1] is not None and t[1] >= 0
        return t in self.nonneg_hint

    def lt_leaf(self, x, y, isint=True):
        """Guard for x < y."""
        p = dict(self.poly(x))
        for m, c in self.poly(y).items():
            p[m] = p.get(m, 0) - c
        p = {m: c for m, c in p.items() if c != 0}
        k = -p.pop((), 0)
        # p < k
        if not p:
            return self.T if 0 < k else self.F
        items = list(self.ordered(p.items()))
        if len(items) == 1 and len(items[0][0]) == 1 and \
                items[0][0][0][0] == "limit" and \
                items[0][0][0][1] == "max" and abs(k) < 2 ** 31:
            return self.F if items[0][1] > 0 else self.T
        # scale
        lead = items[0][1]
        if all(isinstance(c, int) for _, c in items):
            from math import gcd
            g = 0
            for _, c in items:
                g = gcd(g, abs(c))
            if g > 1:
                if isint and isinstance(k, int):
                    # p*g < k  <=>  p < ceil(k/g)
                    k = -((-k) // g)
                else:
                    k = k / g
                items = [(m, c // g) for m, c in items]
        neg = lead < 0
        if neg:
            items = [(m, -c) for m, c in items]
        fam = ("lt", tuple(items))
        allnn = all(len(m) and all(self.nonneg(t) for t in m) and c > 0
                    for m, c in items)
        if not neg:
            thr = (k, 0)
        else:
            # -p < k  <=>  p > -k  <=>  not (p <= -k)
            thr = (-k + 1, 0) if (isint and isinstance(k, int)) else (-k, 1)
        # indicator sums: sum < 1  <=>  not exists
        if allnn and thr[0] <= 0 and thr[1] == 0:
            g = self.F
        elif len(items) == 1 and len(items[0][0]) == 1 and \
                items[0][0][0][0] == "sum" and thr == (1, 0) and \
                self.nonneg(items[0][0][0]):
            s = items[0][0][0]
            g = self.NOT(self.exists(s[1], self.truth_nonzero(s[2][1])))
        else:
            g = self.node_of_var(self.var(fam, thr))
        return self.NOT(g) if neg else g

    def truth_nonzero(self, vid):
        return self.apply("nz", lambda t: self.F if t in (("c", 0), FALSE_T)
                          else (self.T if t[0] == "c" else
                                self.lt_leaf(("c", 0), t)), vid)

    def lt(self, a, b, isint=True):
        return self.apply(("lt", isint),
                          lambda x, y: self.lt_leaf(x, y, isint), a, b)

    def eq_leaf(self, x, y, numeric=False):
        if x == y:
            if x[0] == "c" and isinstance(x[1], bool) != isinstance(y[1], bool):
                pass
            return self.T
        if x[0] == "c" and y[0] == "c":
            return self.T if x[1] == y[1] else self.F
        for a, b in ((x, y), (y, x)):
            if a[0] == "enum" and b[0] == "enum":
                return self.F
            if a[0] == "enum":
                fam, _, name = a[1].rpartition("::")
                vals = self.enums.get(fam)
                if vals and name in vals:
                    i = vals.index(name)
                    return self.enum_eq(b, fam, vals, i)
            if a == ("c", None):
                return self.falsy_leaf(b)
            if a[0] == "c" and isinstance(a[1], bool):
                return self.NOT(self.falsy_leaf(b)) if a[1] \
                    else self.falsy_leaf(b)
            if a[0] == "findpos":
                # position of a found element is never the end position
                if b == self.tadd(("begin", a[1]), ("size", a[1])) or \
                        len(a) > 3 and b == self.tadd(a[1], a[3][2]):
                    return self.F
        if numeric:
            d = self.tadd(x, y, -1)
            # d == 0  <=>  not d < 0 and d < 1
            return self.AND(self.NOT(self.lt_leaf(d, ("c", 0))),
                            self.lt_leaf(d, ("c", 1)))
        a, b = sorted((x, y), key=self.rank)
        return self.node_of_var(self.var(("eq", a, b)))

    def enum_eq(self, t, fam, vals, i):
        r = self.T
        key = ("enum", t, fam)
        for j in range(i):
            r = self.AND(r, self.NOT(self.node_of_var(self.var(key, j))))
        if i < len(vals) - 1:
            r = self.AND(r, self.node_of_var(self.var(key, i)))
        return r

    def eq(self, a, b, numeric=False):
        return self.apply(("eq", numeric),
                          lambda x, y: self.eq_leaf(x, y, numeric), a, b)

    def falsy_leaf(self, t):
        if t[0] == "c":
            return self.F if t[1] else self.T
        if t[0] in ("obj", "closure", "new", "begin", "findpos", "enumtrue",
                    "addr", "some"):
            return self.F
        if t[0] == "isnone":
            x = t[1]
            if x[0] == "v" and len(x) == 2:
                return self.apply("notnone", lambda y: self.falsy_leaf(
                    ("isnone", y)), x[1])
            if x == ("c", None):
                return self.F
            if x[0] in NOTNONE:
                return self.T
        return self.node_of_var(self.var(("falsy", t)))

    def truth(self, v):
        return self.apply("truth", lambda t: self.NOT(self.falsy_leaf(t)), v)

    # ------------------------------------------------------------ quantifiers
    def depends(self, v, it):
        if it[0] in self.MARKS:
            return it in self.occ(v)
        return it in self.all_terms(v)

    def close(self, it, *vals):
        """
        Bind the iteration variable `it` in vals: bound variables are named by
        binder height, so the result does not depend on loop nesting order.
        """
        h = 0
        for v in vals:
            for t in self.occ(v):
                if t[0] == "b" and t != it and t[1] > h:
                    h = t[1]
        b = ("b", h + 1)
        if b == it:
            return b, vals
        return b, tuple(self.subst(v, lambda t: b if t == it else None,
                                   (it,)) for v in vals)

    def primes(self, g, cap=10):
        """Prime implicants of a guard as guards, or None when too many."""
        memo = {}

        def rec(f):
            if f == self.F:
                return ()
            if f == self.T:
                return ((),)
            if f in memo:
                return memo[f]
            var = self.nodes[f][0]
            hi, lo = self.nodes[f][1], self.nodes[f][2]
            both = self.AND(hi, lo)
            pb = rec(both)
            out = list(pb)
            for val, br in ((True, hi), (False, lo)):
                for p in rec(br):
                    cube = self.cube(p)
                    if not self.implies(cube, both):
                        out.append(((var, val),) + p)
            if len(out) > 4 * cap:
                raise Blowup()
            memo[f] = tuple(out)
            return memo[f]
        try:
            ps = rec(g)
        except Blowup:
            return None
        if len(ps) > cap:
            return None
        out = []
        for p in ps:
            c = self.cube(p)
            if c != self.F and c not in out:
                out.append(c)
        # drop those subsumed by others
        return [c for c in out if not any(d != c and self.implies(c, d)
                                          for d in out)]

    def cube(self, lits):
        c = self.T
        for var, val in lits:
            n = self.node_of_var(var)
            c = self.AND(c, n if val else self.NOT(n))
        return c

    def exists(self, dom, g):
        """dom = ('range', lo, hi, it)."""
        g = self.truth(g)
        if g == self.F:
            return self.F
        it = dom[-1]
        if dom[0] == "range":
            nonempty = self.lt_leaf(dom[1], dom[2])
        else:
            nonempty = self.node_of_var(self.var(("truth", (
                "nonempty", dom[:-1]))))
        if g == self.T:
            return nonempty
        if not self.depends(g, it):
            return self.AND(g, nonempty)
        key = ("exists", dom, g)
        if key in self.memo:
            return self.memo[key]
        ps = self.primes(g)
        out = self.F
        if ps is None:
            out = self.exists1(dom, g)
        else:
            for p in ps:
                out = self.OR(out, self.exists1(dom, p))
        self.memo[key] = out
        return out

    def exists1(self, dom, g):
        """exists for a conjunction: invariant literals are pulled out."""
        it = dom[-1]
        inv, dep = self.T, self.T
        n = self.nodes[g]
        x = g
        ok = True
        lits = []
        while n[0] != "L":
            if n[1] == self.F:
                lits.append((n[0], False))
                x = n[2]
            elif n[2] == self.F:
                lits.append((n[0], True))
                x = n[1]
            else:
                ok = False
                break
            n = self.nodes[x]
        if ok:
            for var, val in lits:
                c = self.cube([(var, val)])
                if self.depends(c, it):
                    dep = self.AND(dep, c)
                else:
                    inv = self.AND(inv, c)
        else:
            dep = g
        if dep == self.T:
            return self.AND(inv, self.exists(dom, self.T))
        b, (dep,) = self.close(it, dep)
        return self.AND(inv, self.node_of_var(self.var(
            ("exists", dom[:-1] + (b,), ("g", dep)))))

    # ------------------------------------------------------------ rewriting
    def subst(self, v, fn, need=None):
        """Rebuild v with fn applied to every subterm (bottom up); fn only
        changes terms in which one of the marks in need occurs."""
        memo = {}
        tm = {}
        if need is not None:
            need = frozenset(t for t in need)
            if not all(t[0] in self.MARKS for t in need):
                need = None

        def tsub(t):
            if not isinstance(t, tuple):
                return t
            if t in tm:
                return tm[t]
            if need is not None and t and isinstance(t[0], str) and \
                    need.isdisjoint(self.occ_term(t)):
                tm[t] = t
                return t
            if t and t[0] in ("v", "g") and len(t) == 2 and isinstance(t[1], int):
                r = (t[0], vsub(t[1]))
            elif t and t[0] == "c":
                r = t
            elif t and t[0] == "+":
                p = {}
                r = ("c", 0)
                for m, c in t[1]:
                    acc = ("c", c)
                    for x in m:
                        acc = self.tmul(acc, tsub(x))
                    r = self.tadd(r, acc)
            else:
                r = tuple(tsub(x) if isinstance(x, tuple) else x for x in t)
            r2 = fn(r)
            tm[t] = r2 if r2 is not None else r
            return tm[t]

        def vsub(x):
            if x in memo:
                return memo[x]
            if need is not None and need.isdisjoint(self.occ(x)):
                return x
            n = self.nodes[x]
            if n[0] == "L":
                r = self.leaf(tsub(n[1]))
            else:
                g = self.var_guard(n[0], tsub)
                r = self.ite(g, vsub(n[1]), vsub(n[2]))
            memo[x] = r
            return r
        return vsub(v)

    def var_guard(self, var, tsub):
        fam = self.famkey(var[0])
        k = fam[0]
        if k == "lt":
            t = ("c", 0)
            for m, c in fam[1]:
                acc = ("c", c)
                for x in m:
                    acc = self.tmul(acc, tsub(x))
                t = self.tadd(t, acc)
            thr = var[1]
            if thr[1] == 0:
                return self.lt_leaf(t, ("c", thr[0]))
            return self.NOT(self.lt_leaf(("c", thr[0]), t, isint=False))
        if k == "enum":
            t = tsub(fam[1])
            if t[0] == "enum":
                vals = self.enums[fam[2]]
                return self.T if t[1].rpartition("::")[2] == vals[var[1]] \
                    else self.F
            return self.node_of_var(self.var(("enum", t, fam[2]), var[1]))
        if k == "eq":
            return self.eq_leaf(tsub(fam[1]), tsub(fam[2]))
        if k == "falsy":
            t = tsub(fam[1])
            return self.falsy_leaf(t)
        if k == "exists":
            g = tsub(fam[2])
            d = tsub(fam[1])
            if d[-1] != fam[1][-1]:
                return self.node_of_var(self.var(("exists", d, g)))
            return self.exists(d, g[1])
        return self.node_of_var(self.var(tsub(fam), var[1]))

    # ------------------------------------------------------------- printing
    def show(self, v, depth=0):
        n = self.nodes[v]
        if n[0] == "L":
            return self.show_term(n[1])
        if v and self.isguard(v):
            return self.show_guard(v)
        if self.size(v) > 40:
            return "{" + "; ".join(self.show_term(t) for t in
                                   self.leaves(v)[:3]) + "; ...}"
        parts = []
        for t, g in self.leaf_guards(v)[:12]:
            parts.append(f"[{self.show_guard(g)}] -> {self.show_term(t)}")
        return "{" + "; ".join(parts) + "}"

    def isguard(self, v):
        return all(t in (TRUE_T, FALSE_T) and isinstance(t[1], bool)
                   for t in self.leaves(v))

    def show_var(self, var):
        fam = self.famkey(var[0])
        if fam[0] == "lt":
            k, e = var[1]
            t = self.show_term(("+", fam[1])) if len(fam[1]) != 1 or \
                fam[1][0][1] != 1 or len(fam[1][0][0]) != 1 \
                else self.show_term(fam[1][0][0][0])
            return f"{t} {'<=' if e else '<'} {k}"
        if fam[0] == "enum":
            return f"{self.show_term(fam[1])} is " \
                   f"{self.enums[fam[2]][var[1]]}"
        if fam[0] == "eq":
            return f"{self.show_term(fam[1])} == {self.show_term(fam[2])}"
        if fam[0] == "falsy":
            return f"!{self.show_term(fam[1])}"
        if fam[0] == "exists":
            return f"exists({self.show_term(fam[1])}: {self.show(fam[2][1])})"
        return self.show_term(fam)

    def show_guard(self, g, limit=10):
        if g == self.T:
            return "true"
        if g == self.F:
            return "false"
        paths = []

        def rec(x, acc):
            if len(paths) >= limit:
                return
            n = self.nodes[x]
            if n[0] == "L":
                if n[1] == TRUE_T:
                    paths.append(" & ".join(acc) or "true")
                return
            s = self.show_var(n[0])
            rec(n[1], acc + [s])
            rec(n[2], acc + [f"not({s})"])
        rec(g, [])
        return " | ".join(paths) + (" | ..." if len(paths) >= limit else "")

    def show_term(self, t):
        if self._depth > 7:
            return "..."
        self._depth += 1
        try:
            return self._show_term(t)
        finally:
            self._depth -= 1

    _depth = 0

    def _show_term(self, t):
        if not isinstance(t, tuple) or not t:
            return str(t)
        k = t[0]
        if k == "c":
            return repr(t[1]) if not isinstance(t[1], str) else t[1]
        if k == "+":
            out = []
            for m, c in t[1]:
                mm = "*".join(self.show_term(x) for x in m)
                out.append(f"{c}" if not m else (mm if c == 1 else f"{c}*{mm}"))
            return "(" + " + ".join(out) + ")"
        if k in ("v", "g") and len(t) == 2 and isinstance(t[1], int):
            return self.show(t[1])
        if k == "fld":
            return f"{self.show_term(t[1])}.{t[2]}"
        if k == "elem":
            return f"{self.show_term(t[1])}[{self.show_term(t[2])}]"
        if k == "it":
            return f"i{t[1]}"
        if k == "par":
            return str(t[1])
        if k == "enum":
            return t[1].split("::")[-1]
        if k == "range":
            return f"{self.show_term(t[-1])} in {self.show_term(t[1])}.." \
                   f"{self.show_term(t[2])}"
        if k == "call":
            return f"{t[1].split('::')[-1]}(" + ", ".join(
                self.show_term(x) for x in t[2:]) + ")"
        return f"{k}(" + ", ".join(self.show_term(x) if isinstance(x, tuple)
                                   else str(x) for x in t[1:]) + ")"
