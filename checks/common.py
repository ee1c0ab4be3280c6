"""Helpers shared by the checks."""
import multiprocessing
import re
import sys
import threading
import traceback

from engine import cppfront
from engine.check import Check
from engine.interp import Interp
from engine.speccmp import compare

_prog = {}


def program(*specs):
    key = tuple(sorted(specs))
    if key not in _prog:
        _prog[key] = cppfront.load(specs=key)
    return _prog[key]


def overloads(prog, qual):
    return [f for f in prog.find(qual)]


def pick(prog, qual, sig=None):
    """The definition of qual whose parameter types match the regex sig."""
    fs = [f for f in prog.find(qual)
          if sig is None or re.search(sig, f["type"])]
    return fs[0] if len(fs) == 1 else None


def spec_table(chk, I, prog, unit, rows, rule):
    """
    rows: (target qual, signature regex or None, spec function, options).
    A target that no longer exists is undecided: it was renamed or removed, and
    nothing can be said about it.
    """
    err = prog.spec_errors.get(unit)
    if err:
        chk.undecided(rule, unit, f"the specification no longer fits the "
                      f"declarations: {err[-300:]}")
        return
    for row in rows:
        qual, sig, spec = row[:3]
        opt = dict(row[3]) if len(row) > 3 else {}
        J = I
        if opt.get("opaque"):
            names = opt.pop("opaque")
            J = Interp(prog, vn=I.vn, opaque=lambda f, n=names:
                       f["qual"] in n)
        t = pick(prog, qual, sig)
        s = pick(prog, f"pyvrp::spec::{spec}")
        if t is None or s is None:
            chk.undecided(rule, qual, f"no unique definition "
                          f"({'target' if t is None else 'spec'})")
            continue
        compare(chk, J, t, s, rule, label=opt.pop("label", None) or
                qual.replace("pyvrp::", "") +
                (f"({sig})" if sig else ""), **opt)


def got_want(chk, I, prog, unit, names, rule, **opt):
    """got_X of the specification (the code, through its public interface)
    against want_X (what it must amount to)."""
    err = prog.spec_errors.get(unit)
    if err:
        chk.undecided(rule, unit, f"the specification no longer fits the "
                      f"declarations: {err[-300:]}")
        return
    for n in names:
        g = pick(prog, f"pyvrp::spec::got_{n}")
        w = pick(prog, f"pyvrp::spec::want_{n}")
        if g is None or w is None:
            chk.undecided(rule, n, "specification missing")
            continue
        compare(chk, I, g, w, rule, label=n, **opt)


def parallel(chk, jobs, workers=6):
    """Runs jobs (functions of a Check) in forked processes, as they share
    nothing but the program, and collects what they decided in order."""
    global _jobs
    _jobs = [(chk.pid, j) for j in jobs]
    with multiprocessing.get_context("fork").Pool(workers) as pool:
        for r in pool.imap(_run, range(len(jobs)), chunksize=1):
            chk.obs += r[0]
            chk.viol += r[1]
            chk.und += r[2]
            chk.analysed |= r[3]


def _run(i):
    pid, job = _jobs[i]
    c = Check(pid, "")
    sys.setrecursionlimit(20000)
    threading.stack_size(512 << 20)
    err = []

    def body():
        try:
            job(c)
        except Exception:
            err.append(traceback.format_exc())
    t = threading.Thread(target=body)
    t.start()
    t.join()
    if err:
        c.undecided("internal", f"job {i}", err[0][-390:])
        print(err[0][-800:], file=sys.stderr)
    return c.obs, c.viol, c.und, c.analysed
