"""
Global value numbering by random interpretation (Gulwani and Necula, POPL'04):
two value graphs that the canonical form keeps apart are compared under random
interpretations of their atoms.  Only used to *withdraw* a difference: a pair is
reported as different only if some interpretation tells them apart, so two ways
of writing the same loop that the canonical form does not unify stay quiet.
Nothing of the analysed program runs; the interpreted objects are the value
graphs of engine/vn.py.
"""
import functools
import random
import time
from fractions import Fraction

INF = 10 ** 7
STEPS = 60000


class Inconclusive(Exception):
    pass


class S(tuple):
    """An uninterpreted value, identified by its key; large keys are replaced
    by a number, so that long histories stay cheap."""
    NAMES = {}

    def __new__(cls, t):
        w = weight(t)
        if w > 150 and t and t[0] not in ("size", "isnone", "fld", "elem",
                                          "len"):
            n = cls.NAMES.setdefault(tuple(t), len(cls.NAMES))
            t, w = (t[0], t[1] if isinstance(t[1], str) else "#",
                    ("#", n)), 5
        s = tuple.__new__(cls, t)
        s.w = w
        return s


def weight(t):
    w = 1
    for x in t:
        if isinstance(x, S):
            w += x.w
        elif isinstance(x, tuple):
            w += weight(x)
        else:
            w += 1
    return w


KEYORDER = {}


def pattern(t):
    if not isinstance(t, tuple):
        return t
    if t and t[0] in ("b", "it", "arg", "v", "c", "+"):
        return "*"
    if t and t[0] in ("elem", "sel") and len(t) == 3:
        return ("elem", pattern(t[1]), "*")
    return tuple(pattern(x) for x in t)


def indexlike(vn):
    """Atoms that are compared with the size of something."""
    out = set()
    for fam in vn._famkeys:
        if fam[0] == "lt" and any(len(m) == 1 and m[0][0] == "size"
                                  for m, _ in fam[1]):
            out |= {pattern(m[0]) for m, _ in fam[1]
                    if len(m) == 1 and m[0][0] in ("fld", "elem", "arg")}
    out.discard("*")
    return out


def limitlike(vn):
    """Atoms that are compared with the largest or smallest number."""
    out = set()
    for fam in vn._famkeys:
        if fam[0] == "lt" and any(len(m) == 1 and m[0][0] == "limit"
                                  for m, _ in fam[1]):
            out |= {pattern(m[0]) for m, _ in fam[1]
                    if len(m) == 1 and m[0][0] in ("fld", "elem", "arg")}
        if fam[0] == "eq" and "limit" in (fam[1][0], fam[2][0]):
            out |= {pattern(fam[1]), pattern(fam[2])}
    out.discard("*")
    return out


def cpat(t):
    """The shape of a term or symbol with its indices left out."""
    if not isinstance(t, tuple):
        return t
    if t and t[0] in ("elem", "sel") and len(t) == 3:
        return ("elem", cpat(t[1]), "*")
    if t and t[0] == "fld":
        return ("fld", cpat(t[1]), t[2])
    return tuple(t)


def shapes(vn, *vals):
    """(shapes that are indexed or measured, shape -> fields that are read)."""
    cont, flds = set(), {}
    for v in vals:
        if v is None:
            continue
        for t in vn.all_terms(v):
            if not t:
                continue
            if t[0] in ("size", "elem", "sel", "begin") and len(t) > 1 and \
                    isinstance(t[1], tuple):
                cont.add(cpat(t[1]))
            elif t[0] == "isnone":
                vn.nones.add(cpat(t[1]))
            elif t[0] == "fld":
                flds.setdefault(cpat(t[1]), set()).add(t[2])
    nums = set()
    for fam in vn._famkeys:
        if fam[0] == "lt":
            nums |= {cpat(m[0]) for m, _ in fam[1] if len(m) == 1}
            nums |= {("calls", m[0][1]) for m, _ in fam[1] if len(m) == 1 and
                     m[0][0] == "call"}
    big = vn.__dict__.setdefault("_big", {})
    for n in vn.nodes[vn.__dict__.get("_bigseen", 0):]:
        if n[0] != "L":
            fam, thr = vn.famkey(n[0][0]), n[0][1]
            if fam[0] == "lt" and len(fam[1]) == 1 and len(fam[1][0][0]) == 1 \
                    and abs(thr[0]) > 50:
                big.setdefault(cpat(fam[1][0][0][0]), set()).add(
                    Fraction(thr[0]) / fam[1][0][1])
    vn._bigseen = len(vn.nodes)
    bools = {cpat(fam[1]) for fam in vn._famkeys if fam[0] == "falsy"}
    return cont, flds, nums, bools


class Model:
    finite = False     # every loop of the program ends within a few steps

    cont, flds, nums, bools = frozenset(), {}, frozenset(), frozenset()

    def container(self, v):
        return cpat(v) in self.cont

    def boolish(self, v):
        return cpat(v) in self.bools

    def known_fields(self, *vs):
        out = set()
        for v in vs:
            out |= self.flds.get(cpat(v), set())
        return sorted(out)

    def allowed(self, k, val):
        v = k[1]
        if v[0] in ("size", "len"):
            return 0 <= val <= 8 and val == int(val)
        p = pattern(tuple(v))
        if (p in self.nn or p in self.ix) and val < 0:
            return False
        return True

    def redraw(self, k):
        redraw(self, k)

    def special(self, k):
        """Redraws what only a kind of model knows of."""
        return False

    def __init__(self, vn, seed, mode):
        self.vn = vn
        self.rnd = random.Random(seed)
        self.seed = seed
        self.mode = mode
        self.bias = (.6, .6, .6, .25, .1, .6, .85)[seed % 7] if vn.python \
            else .6
        self.vals = {}
        self.steps = 0
        self.touched = []
        self.memo = {}
        self.cov = set()
        self.reps = {}
        pats = getattr(vn, "_nnpat", None)
        if pats is None or len(vn.nonneg_hint) != vn._nnlen:
            vn._nnpat = {pattern(t) for t in vn.nonneg_hint}
            vn._nnlen = len(vn.nonneg_hint)
        self.nn = vn._nnpat
        if getattr(vn, "_rlen", None) != len(vn.real_hint):
            vn._rpat = {pattern(t) for t in vn.real_hint} - {"*"}
            vn._rlen = len(vn.real_hint)
        self.real = vn._rpat
        if getattr(vn, "_ptrlen", None) != len(vn.ptr_hint):
            vn._ptrpat = {pattern(t): c for t, c in vn.ptr_hint.items()
                          if t[0] != "arg"}
            vn._ptrpat.pop("*", None)
            vn._ptrarg = {}
            for t, c in vn.ptr_hint.items():
                if t[0] == "arg":
                    vn._ptrarg.setdefault(c, []).append(S(t))
            vn._ptrlen = len(vn.ptr_hint)
        self.ptr = vn._ptrpat
        if getattr(vn, "_ixlen", None) != len(vn._famkeys):
            vn._ixpat = indexlike(vn)
            vn._limpat = limitlike(vn)
            vn._ixlen = len(vn._famkeys)
        self.ix = vn._ixpat
        self.lim = vn._limpat
        self.keys = {}

    # ------------------------------------------------------------- scalars
    def key(self, v):
        if isinstance(v, (list,)):
            return ("L",) + tuple(self.key(x) for x in v)
        if isinstance(v, dict):
            r = self.keys.get(id(v))
            if r is None or r[0] is not v or r[1] != len(v):
                order = KEYORDER.get(tuple(v))
                if order is None:
                    order = KEYORDER[tuple(v)] = sorted(v, key=repr)
                r = (v, len(v), ("O",) + tuple([(k, self.key(v[k]))
                                                for k in order]))
                self.keys[id(v)] = r
            return r[2]
        if isinstance(v, bool):
            return int(v)
        if type(v) is tuple:
            return tuple([self.key(x) for x in v])
        return v

    def argkey(self, v):
        """Key of an argument: equal numbers are the same argument."""
        if isinstance(v, S) and (cpat(v) in self.nums or v[0] == "call" and
                                 ("calls", v[1]) in self.nums):
            return self.num(v)
        return self.key(v)

    def num(self, v, t=None):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, (int, float, Fraction)):
            return v
        if v is None:
            return 0
        if isinstance(v, S):
            k = ("num", v)
            if k not in self.vals:
                self.vals[k] = self.draw(v)
            self.touched.append(k)
            return self.vals[k]
        raise Inconclusive(f"number of {str(v)[:60]}")

    def draw(self, v):
        r = self.rnd
        nonneg = v[0] in ("size", "len") or pattern(tuple(v)) in self.nn
        if v[0] in ("size",):
            return r.choice((0, 1, 1, 2, 2, 3))
        if v[:2] == ("call", "id"):
            return r.choice((0, 1, 2))
        big = getattr(self.vn, "_big", None)
        if big and r.random() < .4:
            t = big.get(cpat(v))
            if t:
                w = r.choice(sorted(t)) + r.choice((-1, 0, 1, 7))
                return int(w) if w.denominator == 1 else w
        if pattern(tuple(v)) in self.real:
            return Fraction(r.choice((0, 1, 2, 3, 5, 8, 13, 21)), 2)
        if pattern(tuple(v)) in self.ix:
            return r.choice((0, 0, 0, 1, 1, 2))
        if pattern(tuple(v)) in self.lim and r.random() < .4:
            return INF
        if nonneg:
            return r.choice((0, 0, 1, 1, 2, 3, 5))
        if self.mode == 0:
            return r.choice((0, 0, 1, 2, 3, 4, 7, 12))
        if self.mode == 1:
            return r.randint(-3, 4)
        return r.randint(-20, 40)

    def truth(self, v):
        if isinstance(v, S):
            if v[0] == "enum":
                return True
            if self.vn.python:
                if v[0] == "isnone":
                    return self.none(v[1])
                if cpat(v) in self.vn.nones and self.none(v):
                    return False
                if self.container(v):
                    return self.num(S(("size", v))) > 0
                if cpat(v) in self.nums:
                    return self.num(v) != 0
            k = ("bool", v)
            if k not in self.vals:
                self.vals[k] = self.rnd.random() < self.bias
            self.touched.append(k)
            return self.vals[k]
        if isinstance(v, (list,)):
            return bool(v)
        if isinstance(v, dict):
            return True
        return bool(v)

    def none(self, v):
        """v is Python's None."""
        if v is None:
            return True
        if isinstance(v, S) and v[0] not in ("enum", "ext", "class"):
            k = ("bool", S(("isnone", v)))
            self.touched.append(k)
            if k not in self.vals:
                self.vals[k] = self.rnd.random() < .3
            return self.vals[k]
        return False

    def text(self, v, w):
        """The symbol v equals the string w."""
        k = ("text", v)
        self.touched.append(k)
        if k not in self.vals:
            known = sorted(self.vn.__dict__.setdefault("_texts", {w}) | {w})
            self.vn._texts.add(w)
            self.vals[k] = self.rnd.choice(known + ["?"])
        return self.vals[k] == w

    def same(self, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, S) and y is None:
                return self.none(x)
            if isinstance(x, S) and isinstance(y, str):
                return self.text(x, y)
            if isinstance(x, str) and isinstance(y, (int, Fraction, list)):
                return False
        if isinstance(a, (bool, int, float, Fraction)) or isinstance(
                b, (bool, int, float, Fraction)):
            if a is None or b is None:
                return a is b
            for x, y in ((a, b), (b, a)):
                if isinstance(x, bool) and isinstance(y, S):
                    return self.truth(y) == x
            return self.num(a) == self.num(b)
        if isinstance(a, S) and isinstance(b, S):
            if a == b:
                return True
            if a[0] == "enum" and b[0] == "enum":
                return False
            if a[0] == "enum" or b[0] == "enum":
                return False
            if self.ptr and self.ispointer(a) and self.ispointer(b):
                return not self.truth(a) and not self.truth(b)
            if self.container(a) or self.container(b):
                return self.same(self.spread(a), self.spread(b))
            if cpat(a) in self.bools or cpat(b) in self.bools:
                if self.truth(a) != self.truth(b):
                    return False
                if not self.truth(a) or not (cpat(a) in self.nums or
                                             cpat(b) in self.nums):
                    return True
            if self.num(a) != self.num(b):
                return False
            return all(self.same(S(("fld", a, n)), S(("fld", b, n)))
                       for n in self.known_fields(a, b))
        if isinstance(a, list) and isinstance(b, list):
            return len(a) == len(b) and all(self.same(x, y) for x, y in
                                            zip(a, b))
        if isinstance(a, dict) and isinstance(b, dict) and \
                "@base" not in a and "@base" not in b:
            return a.keys() == b.keys() and all(self.same(a[k], b[k])
                                                for k in a)
        if a is None and b is None:
            return True
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if isinstance(a, dict) and "@base" in a or \
                isinstance(a, S) and isinstance(b, list):
            return self.same(self.spread(a), b)
        if isinstance(b, dict) and "@base" in b or \
                isinstance(b, S) and isinstance(a, list):
            return self.same(a, self.spread(b))
        if isinstance(a, S) and isinstance(b, dict) or \
                isinstance(b, S) and isinstance(a, dict):
            raise Inconclusive("structure against symbol")
        return False

    def tick(self):
        self.steps += 1
        if self.steps > STEPS:
            raise Inconclusive("too many steps")

    # --------------------------------------------------------------- nodes
    def node(self, v, env):
        vn = self.vn
        while True:
            self.tick()
            n = vn.nodes[v]
            if n[0] == "L":
                return self.ev(n[1], env)
            w = self.test(n[0], env)
            self.cov.add((v, w))
            v = n[1] if w else n[2]

    def test(self, var, env):
        vn = self.vn
        fam = vn.famkey(var[0])
        k = fam[0]
        if k == "lt":
            s = 0
            for m, c in fam[1]:
                p = c
                for x in m:
                    p = p * self.num(self.ev(x, env))
                s += p
            thr, eps = var[1]
            return s <= thr if eps else s < thr
        if k == "eq":
            return self.same(self.ev(fam[1], env), self.ev(fam[2], env))
        if k == "falsy":
            return not self.truth(self.ev(fam[1], env))
        if k == "enum":
            t = self.ev(fam[1], env)
            vals = vn.enums[fam[2]]
            if isinstance(t, S) and t[0] == "enum":
                return t[1].rpartition("::")[2] == vals[var[1]]
            if not isinstance(t, S):
                raise Inconclusive("enum")
            kk = ("enumval", t)
            self.touched.append(kk)
            if kk not in self.vals:
                self.vals[kk] = self.rnd.randrange(len(vals))
            return self.vals[kk] == var[1]
        if k == "exists":
            for e in self.iter(fam[1], env):
                if self.truth(self.node(fam[2][1], e)):
                    return True
            return False
        return self.truth(self.ev(fam, env))

    def iter(self, dom, env):
        if dom[0] == "while":
            for i in range(40 if not self.finite else 16):
                e = dict(env)
                e[dom[-1]] = i
                yield e
            if self.finite:
                return
            raise Inconclusive("while does not end")
        if dom[0] != "range":
            raise Inconclusive("domain " + dom[0])
        lo, hi = self.num(self.ev(dom[1], env)), self.num(self.ev(dom[2], env))
        if hi - lo > 60:
            raise Inconclusive("long range")
        for i in range(int(lo), int(hi)):
            e = dict(env)
            e[dom[-1]] = i
            yield e

    # --------------------------------------------------------------- terms
    def ev(self, t, env):
        k = t[0]
        if k in ("c", "b", "rec", "it", "arg", "enum", "this", "limit"):
            return self.ev_(t, env)
        # terms live as long as vn, so their identity is a safe key
        fv = self.free(t)
        if fv:
            try:
                key = (id(t),) + tuple([self.key(env[v]) if v in env else None
                                        for v in fv])
                hash(key)
            except TypeError:
                return self.ev_(t, env)
        else:
            key = id(t)
        r = self.memo.get(key, self)
        if r is self:
            r = self.memo[key] = self.ev_(t, env)
            if self.keep is not None:
                self.keep.append(t)
        return r

    keep = None

    def free(self, t):
        """The loop variables a term may depend on (those in its binders too)."""
        memo = self.vn.__dict__.setdefault("_freememo", {})
        r = memo.get(id(t))
        if r is None:
            r = (tuple(sorted((x for x in self.vn.sub_terms(t) if x and x[0] in
                               ("b", "rec", "it")), key=repr)), t)
            memo[id(t)] = r
        return r[0]

    def ev_(self, t, env):
        v = self.ev0(t, env)
        if self.ptr and isinstance(v, S) and v[0] in ("fld", "elem", "call"):
            return self.rep(v)
        return v

    def rep(self, v):
        """The object v points to: possibly one that has another name, too."""
        c = self.ptr.get(pattern(tuple(v)))
        if c is None:
            return v
        k = ("rep", v)
        self.touched.append(k)
        if k not in self.vals:
            known = self.reps.setdefault(c, list(self.vn._ptrarg.get(c, ())))
            r = v
            if known and self.rnd.random() < .4:
                r = self.rnd.choice(known)
            self.vals[k] = r
        r = self.vals[k]
        known = self.reps.setdefault(c, list(self.vn._ptrarg.get(c, ())))
        if r not in known:
            known.append(r)
        return r

    def ispointer(self, v):
        t = tuple(v)
        return pattern(t) in self.ptr or t in self.vn.ptr_hint

    def ev0(self, t, env):
        self.tick()
        k = t[0]
        if k == "c":
            return t[1]
        if k in ("v", "g") and len(t) == 2 and isinstance(t[1], int):
            return self.node(t[1], env)
        if k == "+":
            s = 0
            for m, c in t[1]:
                p = c
                for x in m:
                    p = p * self.num(self.ev(x, env))
                s += p
            return s
        if k in ("b", "rec", "it"):
            if t in env:
                return env[t]
            raise Inconclusive(f"free {t}")
        if k == "enum":
            return S(t)
        if k == "limit":
            return INF if t[1] == "max" else -INF
        if k == "sum":
            s = 0
            for e in self.iter(t[1], env):
                s += self.num(self.node(t[2][1], e))
            return s
        if k == "fold":
            return self.fold(t[1], t[2][1], t[3], t[4][1], t[5], env)
        if k == "phc":
            if len(t) < 7:
                raise Inconclusive("phc")
            _, init, nxt, brk, b, it, own = t
            n = self.ev(it, env)
            return self.run(self.ev(init, env), nxt[1], brk[1], b, n, own,
                            env)
        if k == "phs":
            _, j, it, b, own, ini, nx = t
            n = int(self.num(self.ev(it, env)))
            return self.system(own, b, ini, nx, None, n, env)[j]
        if k == "folds":
            _, j, dom, own, ini, nx, brk = t
            if dom[0] == "range":
                lo = int(self.num(self.ev(dom[1], env)))
                n = int(self.num(self.ev(dom[2], env))) - lo
                if lo != 0 or n > 60:
                    raise Inconclusive("system range")
            else:
                n = None
            return self.system(own, dom[-1], ini, nx, brk[1], n, env)[j]
        if k == "arr":
            return self.arr(t, env)
        if k == "ordered":
            xs = self.spread(self.ev(t[1], env))

            def cmp(x, y):
                for a, b, r in ((x, y, -1), (y, x, 1)):
                    e = dict(env)
                    e[t[2]], e[t[3]] = a, b
                    if self.truth(self.node(t[4][1], e)):
                        return r
                return 0
            return sorted(xs, key=functools.cmp_to_key(cmp))
        if k == "filled":
            n = self.num(self.ev(t[1], env))
            f = self.ev(t[2], env)
            return [f] * int(max(n, 0))
        if k == "list":
            return [self.ev(x, env) for x in t[1:]]
        if k == "pair":
            return [self.ev(t[1], env), self.ev(t[2], env)]
        if k == "obj":
            d = {n: self.ev(w, env) for n, w in t[2]}
            d["#"] = t[1]
            return d
        if k == "first":
            for e in self.iter(t[1], env):
                if self.truth(self.node(t[2][1], e)):
                    return self.node(t[3][1], e)
            return S(("nofirst",))
        if k in ("findpos", "found") and len(t) > 3:
            for e in self.iter(t[3], env):
                if self.truth(self.node(t[2][1], e)):
                    i = e[t[3][-1]]
                    break
            else:
                raise Inconclusive("not found")
            at = t[1]
            if k == "findpos":
                return i + self.num(self.ev(
                    at if at[0] == "+" else ("begin", at), env))
            if at[0] == "+":
                bs = [m for m, c in at[1] if c == 1 and len(m) == 1 and
                      m[0][0] == "begin"]
                if len(bs) != 1:
                    raise Inconclusive("found")
                i += int(self.num(self.ev(("+", tuple(
                    x for x in at[1] if x[0] != bs[0])), env)))
                at = bs[0][0][1]
            return self.ev(("elem", at, ("c", i)), env)
        if k == "elem" or k == "sel":
            return self.elem(self.ev(t[1], env), self.ev(t[2], env))
        if k == "fld":
            b = self.ev(t[1], env)
            if isinstance(b, dict):
                if t[2] in b:
                    return b[t[2]]
                raise Inconclusive("no field")
            if isinstance(b, list) and t[2] in ("first", "second"):
                return b[t[2] == "second"]
            return S(("fld", self.key(b), t[2]))
        if k == "get":
            b = self.ev(t[2], env)
            if isinstance(b, list) and t[1] < len(b):
                return b[t[1]]
            return S(("get", t[1], self.key(b)))
        if k == "size":
            b = self.ev(t[1], env)
            if isinstance(b, list):
                return len(b)
            return S(("size", self.key(b)))
        if k == "upd":
            return self.upd(self.ev(t[1], env), t[2], self.ev(t[3], env), env)
        if k == "after":
            return self.after(t, env)
        if k == "ctor" and len(t) == 2 and t[1].removeprefix("std::") \
                .startswith(("vector<", "initializer_list<")):
            return []
        if k in ("/", "%"):
            a, b = self.num(self.ev(t[1], env)), self.num(self.ev(t[2], env))
            if b == 0 or isinstance(a, float) or isinstance(b, float):
                return S((k, a, b))
            q = abs(a) // abs(b)
            q = q if (a < 0) == (b < 0) else -q
            return q if k == "/" else a - b * q
        if k in ("pymod", "pydiv", "truediv"):
            a, b = self.num(self.ev(t[1], env)), self.num(self.ev(t[2], env))
            if b == 0:
                return S((k, a, b))
            if k == "truediv":
                r = Fraction(a) / Fraction(b)
                return int(r) if r.denominator == 1 else r
            return a % b if k == "pymod" else a // b
        if k in ("ceil", "floor"):
            v = self.num(self.ev(t[1], env))
            return -int(-v // 1) if k == "ceil" else int(v // 1)
        if k == "isnone":
            return self.none(self.ev(t[1], env))
        if k == "trunc":
            v = self.num(self.ev(t[1], env))
            return int(v)
        if k == "abs":
            return abs(self.num(self.ev(t[1], env)))
        if k == "call" and t[1] in ("lower_bound", "upper_bound") and \
                len(t) == 5:
            return self.bound(t, env)
        if t[:2] == ("call", "infinity") and len(t) == 2:
            return 4 * INF
        if k == "call" and t[1] == "contains" and len(t) == 4:
            xs = self.ev(t[2], env) or []
            if isinstance(xs, list):
                v = self.ev(t[3], env)
                return any(self.same(x, v) for x in xs)
        if k in ("arg", "this", "gvar", "local", "free", "void", "default",
                 "uninit", "new", "call", "ctor", "begin", "trunc", "cast",
                 "rbegin", "len", "some", "neg", "op", "raised", "dead",
                 "addr", "str", "ext", "class", "native", "member", "pyfunc",
                 "closure", "module", "bound", "missing", "fldof") or isinstance(k, str) and not \
                k[:1].isalpha():
            return S((k,) + tuple(
                self.argkey(self.ev(x, env)) if isinstance(x, tuple) and x and
                isinstance(x[0], str) else x for x in t[1:]))
        raise Inconclusive(f"term {k}")

    def bound(self, t, env):
        """Position std::lower_bound or std::upper_bound returns."""
        if t[2][0] != "begin":
            raise Inconclusive("bound of a part")
        xs = self.spread(self.ev(t[2][1], env))
        base = self.num(self.ev(t[2], env))
        if self.num(self.ev(t[3], env)) != base + len(xs):
            raise Inconclusive("bound of a part")
        v = self.num(self.ev(t[4], env))
        lo, hi = 0, len(xs)
        while lo < hi:
            mid = (lo + hi) // 2
            x = self.num(xs[mid])
            if x < v or t[1] == "upper_bound" and x == v:
                lo = mid + 1
            else:
                hi = mid
        return base + lo

    def elem(self, b, i):
        if isinstance(b, list):
            n = self.num(i)
            if isinstance(n, int) and 0 <= n < len(b):
                return b[n]
            return S(("oob",))
        if isinstance(b, dict):
            if "@base" in b:
                for kk, w in b["@cells"]:
                    if self.same(kk, i):
                        return w
                return self.elem(b["@base"], i)
            raise Inconclusive("index of object")
        try:
            i = self.num(i)
        except Inconclusive:
            i = self.key(i)
        return S(("elem", self.key(b), i))

    def upd(self, b, acc, w, env):
        if acc[0] == "f":
            if isinstance(b, dict) and "@base" not in b:
                d = dict(b)
                d[acc[1]] = w
                return d
            raise Inconclusive("field update of symbol")
        i = self.ev(acc[1], env)
        if isinstance(b, list) and not (b == [] and isinstance(i, dict)):
            n = self.num(i)
            if isinstance(n, int) and 0 <= n < len(b):
                c = list(b)
                c[n] = w
                return c
            return b
        return {"@base": b, "@cells": [(i, w)] + (
            b["@cells"] if isinstance(b, dict) and "@base" in b else [])} \
            if not (isinstance(b, dict) and "@base" in b) else \
            {"@base": b["@base"], "@cells": [(i, w)] + b["@cells"]}

    def arr(self, t, env):
        _, dom, body, base = t
        if base[0] == "len":
            n = int(self.num(self.ev(base[1], env)))
            out = [0] * max(n, 0)
        else:
            out = self.ev(base, env)
            if not isinstance(out, list):
                r = out
                for e in self.iter(dom, env):
                    r = self.upd(r, ("i", dom[-1]), self.node(body[1], e), e)
                return r
            out = list(out)
        for e in self.iter(dom, env):
            i = e[dom[-1]]
            if 0 <= i < len(out):
                out[i] = self.node(body[1], e)
        return out

    def after(self, t, env):
        name = t[1].split("::")[-1]
        old = self.ev(t[2], env)
        vals = [self.ev(x, env) for x in t[3:]]
        if name == "insert" and len(vals) == 1 and type(old) is int:
            old = []    # of a set initialised with {}
        if name == "clear":
            return []
        if name in ("resize", "push_back", "emplace_back", "pop_back") and \
                not isinstance(old, list):
            old = self.spread(old)
        if isinstance(old, list):
            if name in ("push_back", "emplace_back") and len(vals) == 1:
                return old + [vals[0]]
            if name == "emplace_back":
                return old + [vals]
            if name == "insert" and len(vals) == 1:
                return old if any(self.same(x, vals[0]) for x in old) \
                    else old + [vals[0]]
            if name == "clear":
                return []
            if name == "reserve":
                return old
            if name == "pop_back":
                return old[:-1]
            if name == "resize" and vals:
                n = int(self.num(vals[0]))
                return (old + [vals[1] if len(vals) > 1 else 0] * n)[:max(n, 0)]
        return S(("after", name, self.key(old)) + tuple(self.key(v)
                                                        for v in vals))

    def spread(self, v):
        """The elements of a container that is only known by name."""
        cells = []
        if isinstance(v, dict) and "@base" in v:
            v, cells = v["@base"], v["@cells"]
        if isinstance(v, list):
            out = list(v)
        elif isinstance(v, S):
            n = self.num(S(("size", self.key(v))))
            out = [self.elem(v, i) for i in range(min(int(n), 60))]
        else:
            raise Inconclusive("not a container")
        for i, w in reversed(cells):
            i = self.num(i)
            if 0 <= i < len(out):
                out[int(i)] = w
        return out

    def run(self, cur, nxt, brk, b, n, own, env):
        """cur after n iterations of nxt."""
        n = int(self.num(n))
        for i in range(max(n, 0)):
            e = dict(env)
            e[b] = i
            e[own] = cur
            cur = self.node(nxt, e)
        return cur

    def system(self, own, b, ini, nx, brk, n, env):
        """Values of a system of recurrences after n steps or at the end."""
        key = ("sys", id(ini), id(nx), brk, n) + tuple(
            self.key(env[v]) if v in env else None for v in self.free(nx))
        try:
            if key in self.memo:
                return self.memo[key]
        except TypeError:
            key = None
        cur = [self.ev(x, env) for x in ini[1:]]
        i = 0
        while n is None or i < n:
            self.tick()
            if i > 60:
                raise Inconclusive("while does not end")
            e = dict(env)
            e[b] = i
            for k, v in enumerate(cur):
                e[own + (k,)] = v
            stop = brk is not None and brk != self.vn.F and \
                self.truth(self.node(brk, e))
            cur = [self.ev(x, e) for x in nx[1:]]
            i += 1
            if stop:
                break
        if key is not None:
            self.memo[key] = cur
        return cur

    def fold(self, dom, nxt, init, brk, own, env):
        cur = self.ev(init, env)
        if dom[0] == "range":
            its = self.iter(dom, env)
        else:
            if dom[0] != "while":
                raise Inconclusive("domain " + dom[0])

            def gen():
                for i in range(40):
                    e = dict(env)
                    e[dom[-1]] = i
                    yield e
                raise Inconclusive("while does not end")
            its = gen()
        for e in its:
            e[own] = cur
            stop = brk != self.vn.F and self.truth(self.node(brk, e))
            cur = self.node(nxt, e)
            if stop:
                break
        return cur


def refute(vn, a, b, guard=None, n=150, lits=(), evals=20000, secs=120,
           effort=1000000):
    """
    ("differ", model) when an interpretation separates a from b under guard,
    ("same", k) when k interpretations reached the comparison and none did,
    ("unclear", why) otherwise.

    Interpretations are drawn at random, then aimed at the path on which the
    canonical forms differ, then varied one atom at a time, keeping those that
    take a branch of the two graphs none has taken before.
    """
    st = dict(hit=0, why="", i=0, new=0, steps=0, bad=0)
    cov, pool = set(), []
    shp = shapes(vn, a, b, guard)

    def model(seed, mode):
        m = getattr(vn, "Model", Model)(vn, seed, mode)
        m.cont, m.flds, m.nums, m.bools = shp
        return m

    def attempt(m):
        """True when m separates the two."""
        m.cov, m.steps, m.memo, m.touched = set(), 0, {}, []
        ok = False
        try:
            if guard is None or m.truth(m.node(guard, {})):
                x, y = m.node(a, {}), m.node(b, {})
                st["hit"] += 1
                ok = True
                if not m.same(x, y):
                    return True
        except (Inconclusive, TypeError, RecursionError) as e:
            st["why"] = str(e)
            st["bad"] += 1
        st["steps"] += m.steps + 5
        if m.cov - cov:
            cov.update(m.cov)
            st["new"] = st["i"]
            pool.append((m, ok))
        return False

    effort = getattr(getattr(vn, "Model", Model), "effort", effort)

    def repaired(m, guard):
        try:
            return repair(vn, m, guard, lits)
        finally:
            st["steps"] += m.spent

    for m in aimed(vn, a, b, guard, shp):
        if attempt(m):
            return "differ", m
        if st["steps"] > effort:
            break
    fails = st["steps"] = 0
    for seed in range(n):
        if st["steps"] > effort and st["hit"] >= 20:
            break
        m = model(seed, seed % 3)
        if attempt(m):
            return "differ", m
        if st["hit"] == 0 and st["why"]:
            fails += 1
            if fails > 60:
                break
        if guard is not None and seed < 60:
            try:
                if repaired(m, guard) and attempt(m):
                    return "differ", m
            except (Inconclusive, TypeError, RecursionError) as e:
                st["why"] = str(e)
    if lits:
        for seed in range(n, n + 60):
            if st["steps"] > 2 * effort:
                break
            m = model(seed, seed % 3)
            try:
                if repaired(m, None) and attempt(m):
                    return "differ", m
            except (Inconclusive, TypeError, RecursionError) as e:
                st["why"] = str(e)
    rnd = random.Random(1)
    t0 = time.time()
    for i in range(evals if st["hit"] else 0):
        if time.time() - t0 > secs or not pool or st["steps"] > effort or \
                i - st["new"] > 3000:
            break
        st["i"] = i
        good = [p for p, ok in pool if ok] or [p for p, _ in pool]
        src = rnd.choice(good[-40:] if rnd.random() < .5 else good) \
            if rnd.random() < .75 else rnd.choice(pool)[0]
        m = model(10 ** 6 + i, i % 3)
        m.vals = dict(src.vals)
        keys = list(dict.fromkeys(src.touched)) or list(src.vals)
        for _ in range(rnd.choice((1, 1, 1, 2, 2, 3, 5))):
            if keys:
                redraw(m, rnd.choice(keys))
        if attempt(m):
            return "differ", m
    if st["hit"] >= 20 and st["bad"] <= 3 * st["hit"]:
        return "same", st["hit"]
    return "unclear", f"{st['hit']} interpretations, {st['bad']} without " \
        f"a verdict: {st['why']}"


def aimed(vn, a, b, guard, shp, n=150, secs=30):
    """Interpretations aimed at where the two graphs have different leaves."""
    from .aim import Aim
    from .vn import Blowup

    def ne(x, y):
        if x == y:
            return vn.F
        if x[0] == "c" and y[0] == "c":
            return vn.F if x[1] == y[1] else vn.T
        return vn.T
    t0 = time.time()
    try:
        vn.allow(10)
        x = vn.apply(("ne",), ne, a, b)
        if guard is not None:
            x = vn.AND(guard, x)
    except (Blowup, RecursionError):
        return
    finally:
        vn.deadline = None
    if x == vn.F:
        return
    for seed in range(n):
        if time.time() - t0 > secs:
            return
        m = getattr(vn, "Model", Model)(vn, 5000 + seed, seed % 3)
        m.cont, m.flds, m.nums, m.bools = shp
        try:
            if Aim(m).node(x, True, {}):
                yield m
        except (Inconclusive, TypeError, RecursionError):
            pass


def redraw(m, k):
    if m.special(k):
        return
    if k[0] == "rep":
        c = m.ptr.get(pattern(tuple(k[1])))
        known = m.reps.setdefault(c, list(m.vn._ptrarg.get(c, ())))
        m.vals[k] = m.rnd.choice(known + [k[1]])
        return
    if k[0] == "enumval":
        m.vals[k] = m.rnd.randrange(4)
        return
    if k[0] == "text":
        m.vals[k] = m.rnd.choice(sorted(getattr(m.vn, "_texts", ())) + ["?"])
        return
    if k[0] == "bool":
        m.vals[k] = not m.vals.get(k, True)
        return
    if pattern(tuple(k[1])) in m.real:
        m.vals[k] = Fraction(m.rnd.randint(-2, 30), m.rnd.choice((1, 2, 3)))
        return
    if pattern(tuple(k[1])) in m.ix:
        m.vals[k] = m.rnd.choice((0, 0, 1, 1, 2, 3))
        return
    if pattern(tuple(k[1])) in m.lim and m.rnd.random() < .4:
        m.vals[k] = INF
        return
    lo = 0 if (k[1][0] == "size" or pattern(tuple(k[1])) in m.nn) else -6
    hi = 4 if k[1][0] == "size" else 30
    m.vals[k] = m.rnd.choice((m.rnd.randint(lo, hi),
                              m.rnd.randint(max(lo, -1), 3)))


def repair(vn, m, guard, lits, rounds=40):
    """Re-draw the atoms of violated tests until the path is taken."""
    m.spent = 0
    for _ in range(rounds):
        m.spent += m.steps
        m.steps = 0
        m.memo = {}
        bad = None
        for var, val in lits:
            m.touched = []
            m.memo = {}
            if m.test(var, {}) != val:
                bad = list(m.touched)
                break
        if bad is None and guard is not None:
            m.touched = []
            m.memo = {}
            if not m.truth(m.node(guard, {})):
                bad = list(m.touched)
        if bad is None:
            return True
        if not bad:
            return False
        redraw(m, m.rnd.choice(bad))
    return False
