"""Comparison of a function with its written specification (spec/*.cpp, *.py)."""
import os

from .interp import HIDDEN
from .equiv import differ, show_lits
from .randinterp import refute
from .vn import Blowup

DEBUG = bool(os.environ.get("VSA_DEBUG"))


def summary(I, f):
    try:
        return I.summarise(f), None
    except Exception as e:
        if DEBUG and not isinstance(e, (Blowup, RecursionError,
                                        OverflowError)):
            raise
        return None, f"{type(e).__name__} {e}"


def state_of(I, s):
    """{field or path: value} of what the call leaves changed in *this and in
    objects reached through pointers."""
    out = {}
    for k in s.state.env:
        if not isinstance(k[0], tuple) or k[0][0] != "ptr" or len(k) < 2:
            continue
        if k[0][1][0] in ("obj", "list"):
            continue  # a temporary
        if k[0][1] == ("this",) and k[1][0] == "f":
            out[k[1][1]] = I.read_path(s.state, k[:2])
        else:
            out[k] = s.state.env[k]
    return out


def before(I, n):
    """The value of a state_of key before the call."""
    if isinstance(n, str):
        return I.vn.leaf(("fld", ("this",), n))
    return I.read_path(I.empty_state(), n)


def has_unknown(I, s, vals):
    vn = I.vn
    for v in vals:
        for t in vn.all_terms(v):
            if t and t[0] in ("unk", "uninit"):
                return t
    return None


MODELLED = {"clear", "resize", "push_back", "emplace_back", "pop_back",
            "reserve", "insert"}


def foreign(vn, v):
    """Library operations in v that are left uninterpreted."""
    out = set()
    for t in vn.all_terms(v):
        if not t or len(t) < 2 or not isinstance(t[1], str):
            continue
        n = t[1]
        if t[0] == "call" and not n.startswith("pyvrp::") and \
                n not in ("lower_bound", "upper_bound", "contains"):
            out.add(n)
        elif t[0] == "after" and n.split("::")[-1] not in MODELLED and \
                not n.startswith("pyvrp::"):
            out.add(n)
        elif t[0] == "ctor" and "pyvrp" not in n and len(t) > 2:
            out.add(n)
    return out


def compare(chk, I, target, spec, rule, **kw):
    """compare_, with whatever the analysis cannot cope with undecided."""
    try:
        return compare_(chk, I, target, spec, rule, **kw)
    except Exception as e:
        if DEBUG:
            raise
        chk.undecided(rule, kw.get("label") or target["qual"],
                      f"analysis failed: {type(e).__name__} {str(e)[:200]}")


def compare_(chk, I, target, spec, rule, ret=True, throws=True, state=True,
            outs=True, fields=None, rewrite=None, label=None, events=None,
            ctor=False, split=False, hidden=False):
    """
    Obligation: target and spec have the same result, exceptions and effect.
    ctor: the specification returns the object the constructor must build.
    """
    where = label or target["qual"]
    loc = target["loc"]
    chk.saw(target["qual"])
    vn = I.vn
    st, err = summary(I, target)
    if st is None:
        return chk.undecided(rule, where, err)
    exp1 = set(st.expanded)
    if target["qual"].startswith("pyvrp::spec::"):
        # report the code the obligation goes through, not the obligation
        for q in st.expanded:
            fs = [] if q.startswith("pyvrp::spec::") else I.p.find(q)
            if fs and fs[0].get("loc"):
                loc = fs[0]["loc"]
                break
    sp, err = summary(I, spec)
    if sp is None:
        return chk.undecided(rule, where, "spec: " + err)
    chk.saw(*exp1)
    pairs = []
    if throws:
        pairs.append(("raises", st.throw_guard, sp.throw_guard))
    noexc = vn.NOT(sp.throw_guard)
    if not throws:
        noexc = vn.AND(noexc, vn.NOT(st.throw_guard))
    if ctor:
        s1 = state_of(I, st)
        rec = I.all_fields(target["record"])
        for n in (fields or rec):
            a = s1.get(n) or before(I, n)
            b = I.field(sp.ret, n)
            pairs.append((f"field {n}", a, b))
    else:
        if ret and split:
            rec = target["type"].split("(")[0].strip()
            rec = None if rec == "bool" else I.rec_of_type(rec) or \
                I.rec_of_type("pyvrp::spec::" + rec)
            if rec is None:
                pairs.append(("result", st.ret, sp.ret))
            for n in I.all_fields(rec) if rec else ():
                pairs.append((n, I.field(st.ret, n), I.field(sp.ret, n)))
        elif ret:
            pairs.append(("result", st.ret, sp.ret))
        if state:
            s1, s2 = state_of(I, st), state_of(I, sp)
            for n in sorted(set(s1) | set(s2), key=repr):
                if fields is not None and n not in fields:
                    continue
                if not isinstance(n, str) and not (n in s1 and n in s2):
                    # reached through pointers the other side does not
                    # mention: they may be the same object
                    chk.undecided(rule, f"{where} state {str(n)[:80]}",
                                  "objects reached differ")
                    continue
                d = before(I, n)
                pairs.append((f"state {n}", s1.get(n, d), s2.get(n, d)))
        if outs:
            for i in sorted(set(st.outs) | set(sp.outs)):
                d = vn.leaf(("arg", i))
                pairs.append((f"argument {i}", st.outs.get(i, d),
                              sp.outs.get(i, d)))
    if hidden:
        pairs.append((hidden, st.state.env[HIDDEN], sp.state.env[HIDDEN]))
    if rewrite:
        pairs = [(n, vn.subst(a, rewrite), vn.subst(b, rewrite))
                 for n, a, b in pairs]
    good = True
    vocabulary = set()  # library operations the specification speaks of
    for _, _, b in pairs:
        vocabulary |= foreign(vn, b)
    for name, a, b in pairs:
        vn.allow(20)
        a0, b0, guard = a, b, None
        if a0 == b0:
            chk.ok(rule, f"{where} {name}")
            continue
        if name != "raises" and noexc != vn.T:
            guard = noexc
            dead = vn.leaf(("raised",))
            try:
                a, b = vn.ite(noexc, a, dead), vn.ite(noexc, b, dead)
            except Blowup:
                vn.allow(20)
        w = f"{where} {name}"
        if a == b:
            chk.ok(rule, w)
            continue
        ds, err = None, None
        try:
            ds = differ(vn, a, b)
        except Exception as e:
            err = f"{type(e).__name__} {e}"
            if DEBUG and not isinstance(e, (OverflowError, RecursionError,
                                            Blowup)):
                raise
        if ds is not None and not ds:
            chk.ok(rule, w)
            continue
        u = has_unknown(I, st, [a]) or has_unknown(I, sp, [b])
        if u or st.unknown:
            chk.undecided(rule, w, f"not exact: {u or st.unknown[:2]}")
            continue
        how, m = "unclear", ""
        vn.deadline = None
        if guard is not None:
            how, m = refute(vn, a0, b0, lits=ds[0][0] if ds else ())
        # (most unguarded interpretations may be ones that raise)
        how2, m2 = refute(vn, a0, b0, guard, lits=ds[0][0] if ds else ())
        if how != "same" or how2 == "differ":
            how, m = how2, m2
        if how == "same":
            chk.ok(rule, w, f"equal under {m} random interpretations")
            continue
        if how == "unclear":
            chk.undecided(rule, w, f"canonical forms differ, and no "
                          f"interpretation separates them ({m}; {err})")
            continue
        more = foreign(vn, a0) - vocabulary
        if more:
            chk.undecided(rule, w, "the code uses operations the analysis "
                          f"does not interpret: {sorted(more)[:4]}")
            continue
        if not ds:
            good = False
            chk.bad(rule, w, f"differs from the specification", loc)
            continue
        lits, ta, tb = ds[0]
        vn.deadline = None
        good = False
        chk.bad(rule, w, f"when {show_lits(vn, lits)[:500]}: code gives "
                f"{vn.show_term(ta)[:400]}, specification says "
                f"{vn.show_term(tb)[:400]}", loc)
    return good


def specs_of(prog, pred=None):
    return {q[len("pyvrp::spec::"):]: fs for q, fs in prog.by_qual.items()
            if q.startswith("pyvrp::spec::")}
