"""
Equality of canonical values modulo the theory the atoms live in.

Two values with the same node id are equal.  Otherwise the paths on which their
leaves differ are enumerated; a path whose literals contradict each other (linear
arithmetic over the compared terms, non-empty ranges) is not a difference.  This
is a path-feasibility filter in the polyhedra style (Fourier-Motzkin on the
literals of one path); it only ever *removes* differences.
"""
from fractions import Fraction

CAP = 400


def _norm(p, k, strict):
    return ({m: Fraction(c) for m, c in p.items() if c}, Fraction(k), strict)


def infeasible(cons):
    """cons: list of (poly, k, strict): poly < k or poly <= k."""
    cons = [c for c in cons]
    while True:
        vs = {}
        for p, k, s in cons:
            if not p:
                if k < 0 or (s and k <= 0):
                    return True
                continue
            for m, c in p.items():
                vs.setdefault(m, [0, 0])[0 if c > 0 else 1] += 1
        cons = [c for c in cons if c[0]]
        if not vs:
            return False
        m = min(vs, key=lambda x: vs[x][0] * vs[x][1])
        pos = [c for c in cons if c[0].get(m, 0) > 0]
        neg = [c for c in cons if c[0].get(m, 0) < 0]
        rest = [c for c in cons if m not in c[0]]
        if len(pos) * len(neg) + len(rest) > CAP:
            return False
        new = []
        for p1, k1, s1 in pos:
            a = p1[m]
            for p2, k2, s2 in neg:
                b = -p2[m]
                q = {}
                for t, c in p1.items():
                    q[t] = q.get(t, 0) + c / a
                for t, c in p2.items():
                    q[t] = q.get(t, 0) + c / b
                q = {t: c for t, c in q.items() if c}
                new.append((q, k1 / a + k2 / b, s1 or s2))
        seen, cons = set(), []
        for c in rest + new:
            key = (tuple(sorted(((repr(t), v) for t, v in c[0].items()))),
                   c[1], c[2])
            if key not in seen:
                seen.add(key)
                cons.append(c)


class Theory:
    def __init__(self, vn):
        self.vn = vn

    def literal(self, var, val):
        """Linear constraints of a literal."""
        vn = self.vn
        fam = vn.famkey(var[0])
        if fam[0] == "lt":
            p = dict(fam[1])
            k, eps = var[1]
            isint = eps == 0 and all(isinstance(c, int) for c in p.values()) \
                and isinstance(k, int)
            try:
                if val:
                    if isint:
                        return [_norm(p, k - 1, False)]
                    return [_norm(p, k, eps == 0)]
                q = {m: -c for m, c in p.items()}
                return [_norm(q, -k, eps == 1)]
            except (TypeError, ValueError, OverflowError):
                return []
        if fam[0] == "exists" and val and fam[1][0] == "range":
            d = vn.tadd(fam[1][1], fam[1][2], -1)
            return [self.le(d, -1)]
        if fam[0] == "eq" and val:
            d = vn.tadd(fam[1], fam[2], -1)
            return [self.le(d, 0), self.le(vn.tmul(("c", -1), d), 0)]
        return []

    def le(self, t, k):
        p = dict(self.vn.poly(t))
        c = p.pop((), 0)
        return _norm(p, k - c, False)

    def nonneg(self, cons):
        out = []
        seen = set()
        for p, _, _ in cons:
            for m in p:
                if m in seen or not m:
                    continue
                seen.add(m)
                if all(self.vn.nonneg(t) for t in m):
                    out.append(_norm({m: -1}, 0, False))
        return out

    def consistent(self, lits):
        cons = []
        for var, val in lits:
            cons += self.literal(var, val)
        if not cons:
            return True
        return not infeasible(cons + self.nonneg(cons))

    def equal_under(self, lits, a, b):
        """Do the literals force the two ground terms to be equal?"""
        vn = self.vn
        if a == b:
            return True
        for t in (a, b):
            if t[0] == "c" and (isinstance(t[1], (str, bool))
                                or t[1] is None):
                return False
            if t[0] in ("obj", "list", "void", "enum", "pair"):
                return False
        d = vn.tadd(a, b, -1)
        cons = []
        for var, val in lits:
            cons += self.literal(var, val)
        base = cons + self.nonneg(cons)
        return infeasible(base + [self.le(d, -1)]) and \
            infeasible(base + [self.le(vn.tmul(("c", -1), d), -1)])


def differ(vn, a, b, lits=(), limit=3, depth=0, th=None, budget=None):
    """[(literals, term a, term b)] of feasible differences (at most limit)."""
    th = th or Theory(vn)
    if budget is None:
        budget = [20000]
    out = []

    def walk(x, y, ls):
        if x == y or len(out) >= limit:
            return
        budget[0] -= 1
        if budget[0] < 0:
            raise OverflowError("difference too large")
        var = vn.top((x, y))
        if var is None:
            ta, tb = vn.nodes[x][1], vn.nodes[y][1]
            if same(ta, tb, ls):
                return
            out.append((ls, ta, tb))
            return
        for val in (True, False):
            nl = ls + ((var, val),)
            if vn.famkey(var[0])[0] in ("lt", "exists", "eq") and \
                    not th.consistent(nl):
                continue
            walk(vn.cof(x, var, val), vn.cof(y, var, val), nl)

    def same(ta, tb, ls):
        if ta == tb and type(ta[1] if len(ta) > 1 else 0) is \
                type(tb[1] if len(tb) > 1 else 0):
            return True
        if ta[0] == "v" or tb[0] == "v":
            return not differ(vn, vn.unwrap(ta), vn.unwrap(tb), ls, 1,
                              depth + 1, th, budget)
        if ta[0] == tb[0] and len(ta) == len(tb) and depth < 8:
            if ta[0] == "obj" and ta[1] == tb[1]:
                da, db = dict(ta[2]), dict(tb[2])
                if da.keys() != db.keys():
                    return False
                return all(same(da[k], db[k], ls) for k in da)
            if ta[0] in ("list", "pair", "some", "ctor", "call", "elem",
                         "fld", "get", "trunc", "cast", "upd", "after",
                         "begin", "size", "filled", "new", "stream", "/",
                         "%"):
                if all(same(x, y, ls) if isinstance(x, tuple) and
                       isinstance(y, tuple) and x and y else x == y
                       for x, y in zip(ta[1:], tb[1:])):
                    return True
            if ta[0] in ("sum", "fold", "arr", "first"):
                # bound variables: no outer facts about them
                if all(samearg(x, y) for x, y in zip(ta[1:], tb[1:])):
                    return True
        if ta[0] in ("obj", "list", "void") or tb[0] in ("obj", "list", "void"):
            return False
        return th.equal_under(ls, ta, tb)

    def samearg(x, y):
        if x == y:
            return True
        if not (isinstance(x, tuple) and isinstance(y, tuple) and x and y):
            return False
        if x[0] in ("v", "g") and y[0] == x[0]:
            return not differ(vn, x[1], y[1], (), 1, depth + 1, th, budget)
        if x[0] == "range" and y[0] == "range" and len(x) == len(y):
            return all(samearg(p, q) for p, q in zip(x[1:], y[1:]))
        return same(x, y, ())

    walk(a, b, tuple(lits))
    return out


def show_lits(vn, lits, n=6):
    s = []
    for var, val in lits:
        t = vn.show_var(var)
        s.append(t if val else f"not({t})")
    return " & ".join(s[-n:]) or "always"
