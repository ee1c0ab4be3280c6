"""
Aiming an interpretation at a branch: the atoms of a model are changed until a
decision graph evaluates to the wanted outcome.
"""
from .randinterp import S


def reach(vn, want):
    """Whether a node has a leaf that may evaluate to want."""
    memo = {}

    def rec(v):
        r = memo.get(v)
        if r is None:
            n = vn.nodes[v]
            if n[0] == "L":
                t = n[1]
                r = bool(t[1]) == want if t[0] == "c" else True
            else:
                memo[v] = False
                r = rec(n[1]) or rec(n[2])
            memo[v] = r
        return r
    return rec


class Aim:
    def __init__(self, m):
        self.m = m
        self.vn = m.vn
        self.r = m.rnd
        self.can = {True: reach(m.vn, True), False: reach(m.vn, False)}
        self.fuel = 400

    def clear(self):
        self.m.memo = {}
        self.m.steps = 0

    def node(self, v, want, env, depth=0):
        m, vn = self.m, self.vn
        for _ in range(30 if depth == 0 else 12):
            self.fuel -= 1
            if self.fuel < 0 or depth > 6:
                return False
            self.clear()
            path, x = [], v
            while vn.nodes[x][0] != "L":
                n = vn.nodes[x]
                w = m.test(n[0], env)
                path.append((n[0], w, n[2] if w else n[1]))
                x = n[1] if w else n[2]
            leaf = vn.nodes[x][1]
            if m.truth(m.ev(leaf, env)) == want:
                return True
            alt = [(var, w) for var, w, o in path if self.can[want](o)]
            if not alt:
                return False
            var, w = alt[-1] if self.r.random() < .5 else self.r.choice(alt)
            self.test(var, not w, env, depth, path)
        self.clear()
        return m.truth(m.node(v, env)) == want

    def atoms(self, f):
        m = self.m
        self.clear()
        old, m.touched = m.touched, []
        try:
            f()
            return list(dict.fromkeys(m.touched))
        finally:
            m.touched = old

    def put(self, k, val):
        """Give a numeric atom a value, when it can have it."""
        m = self.m
        if not m.allowed(k, val):
            return False
        m.vals[k] = val
        self.clear()
        return True

    def test(self, var, val, env, depth, path=()):
        """Change atoms so that a test comes out as val."""
        m, vn = self.m, self.vn
        fam = vn.famkey(var[0])
        k = fam[0]
        if k == "lt":
            return self.linear(fam, var, val, env)
        if k == "eq":
            self.clear()
            x, y = m.ev(fam[1], env), m.ev(fam[2], env)
            return self.equal(x, y) if val else self.apart(x, y)
        if k == "falsy":
            self.clear()
            x = m.ev(fam[1], env)
            if isinstance(x, S):
                m.vals[("bool", x)] = not val
                self.clear()
                return True
            return False
        if k == "enum":
            self.clear()
            t = m.ev(fam[1], env)
            if isinstance(t, S) and t[0] != "enum":
                n = len(vn.enums[fam[2]])
                if val:
                    m.vals[("enumval", t)] = var[1]
                else:
                    m.vals[("enumval", t)] = self.r.choice(
                        [i for i in range(n) if i != var[1]])
                self.clear()
                return True
            return False
        if k == "exists":
            return self.exists(fam, val, env, depth, path)
        self.clear()
        x = m.ev(fam, env)
        if isinstance(x, S):
            m.vals[("bool", x)] = val
            self.clear()
            return True
        return False

    def exists(self, fam, val, env, depth, path=()):
        m = self.m
        dom, body = fam[1], fam[2][1]
        if dom[0] != "range":
            return False
        self.clear()
        if not val:
            for e in list(m.iter(dom, env)):
                self.clear()
                if m.truth(m.node(body, e)):
                    self.node(body, False, e, depth + 1)
            return True
        es = list(m.iter(dom, env))
        if not es:
            ks = [k for k in self.atoms(lambda: (
                m.num(m.ev(dom[1], env)), m.num(m.ev(dom[2], env))))
                if k[0] == "num"]
            sz = [k for k in ks if k[1][0] == "size"] or ks
            if not sz:
                return False
            self.put(self.r.choice(sz), self.r.choice((1, 2, 2, 3)))
            self.clear()
            es = list(m.iter(dom, env))
            if not es:
                return False
        if self.r.random() < .8:
            body = self.only(fam, path)
        return self.node(body, True, self.r.choice(es), depth + 1)

    def only(self, fam, path):
        """The body of fam where those that must not hold anywhere do not."""
        vn = self.vn
        dom, body = fam[1], fam[2][1]
        for var, w, _ in path:
            o = vn.famkey(var[0])
            if w or o[0] != "exists" or o == fam or \
                    o[1][:-1] != dom[:-1]:
                continue
            b = o[2][1]
            if o[1][-1] != dom[-1]:
                if vn.depends(b, dom[-1]):
                    continue
                b = vn.subst(b, lambda t: dom[-1] if t == o[1][-1] else None,
                             (o[1][-1],))
            try:
                n = vn.AND(body, vn.NOT(b))
            except Exception:
                continue
            if n != vn.F:
                body = n
        return body

    def linear(self, fam, var, val, env):
        m = self.m
        thr, eps = var[1]
        for _ in range(4):
            self.clear()
            s = 0
            for mono, c in fam[1]:
                p = c
                for x in mono:
                    p = p * m.num(m.ev(x, env))
                s += p
            now = s <= thr if eps else s < thr
            if now == val:
                return True
            edge = thr if eps == val else thr - 1 if val else thr
            if eps and not val:
                edge = thr + 1
            slack = self.r.choice((0, 0, 0, 1, 3))
            goal = edge - slack if val else edge + slack
            mono, c = self.r.choice(fam[1])
            ks = [k for k in self.atoms(lambda: [
                m.num(m.ev(x, env)) for x in mono]) if k[0] == "num"]
            if not ks:
                continue
            k = self.r.choice(ks)
            if len(mono) == 1:
                d = goal - s
                if c not in (1, -1):
                    d = d // c if d % c == 0 else d // c + 1
                else:
                    d = d * c
                if not self.put(k, m.vals[k] + d):
                    continue
            else:
                m.redraw(k)
        self.clear()
        return False

    def equal(self, x, y):
        m = self.m
        if isinstance(x, S) and isinstance(y, S):
            if m.boolish(x) or m.boolish(y):
                m.vals[("bool", y)] = m.truth(x)
                self.clear()
            if m.container(x) or m.container(y):
                kx, ky = ("num", S(("size", x))), ("num", S(("size", y)))
                n = m.num(kx[1])
                m.vals[ky] = n
                for i in range(min(int(n), 8)):
                    self.equal(m.elem(x, i), m.elem(y, i))
                self.clear()
                return True
            if x[0] == "enum" or y[0] == "enum":
                return False
            for n in m.known_fields(x, y):
                self.equal(S(("fld", x, n)), S(("fld", y, n)))
            return self.put(("num", y), m.num(x))
        for a, b in ((x, y), (y, x)):
            if isinstance(a, S) and isinstance(b, (int, float)):
                return self.put(("num", a), b)
        if isinstance(x, list) and isinstance(y, list) and len(x) == len(y):
            for a, b in zip(x, y):
                self.equal(a, b)
            return True
        return False

    def apart(self, x, y):
        m = self.m
        for a in self.r.sample((x, y), 2):
            if isinstance(a, S) and a[0] != "enum":
                if m.boolish(a) and (self.r.random() < .3 or not m.truth(a)):
                    m.vals[("bool", a)] = not m.truth(a)
                    self.clear()
                    return True
                if m.container(a):
                    k = ("num", S(("size", a)))
                    n = int(m.num(k[1]))
                    if n and self.r.random() < .6:
                        e = m.elem(a, self.r.randrange(n))
                        if isinstance(e, S):
                            return self.put(("num", e), m.num(e) + 1)
                    return self.put(k, n + 1)
                return self.put(("num", a), m.num(a) + self.r.choice((1, 2)))
        return False
