"""
Common harness of the checks: obligations, known findings, evidence, verdict.

An obligation is one construct of /repo's current source and one rule.  It is
either discharged, violated (reported with file, line and the reason), or
undecided (the construct is outside what the analysis can express; never an
alarm, always listed in the evidence).
"""
import json
import os
import sys
import time
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VSA_REPO", "/repo"))
KNOWN = VERIF / "known_findings.txt"


class Check:
    def __init__(self, pid, rule, assumptions=()):
        self.pid, self.rule = pid, rule
        self.t0 = time.time()
        self.obs = []
        self.viol = []
        self.und = []
        self.analysed = set()
        self.assumptions = list(assumptions)
        self.notes = {}

    def saw(self, *names):
        self.analysed.update(names)

    def ok(self, rule, where, note=""):
        self.obs.append((rule, str(where), note))

    def bad(self, rule, where, why, loc=None):
        self.obs.append((rule, str(where), "VIOLATED"))
        self.viol.append(dict(rule=rule, where=str(where), why=why,
                              loc=f"{loc[0]}:{loc[1]}" if loc and loc[0]
                              else ""))

    def require(self, cond, rule, where, why, loc=None):
        if cond:
            self.ok(rule, where)
        else:
            self.bad(rule, where, why, loc)
        return cond

    def undecided(self, rule, where, why):
        self.und.append(dict(rule=rule, where=str(where), why=str(why)[:400]))

    def known(self):
        out = []
        if KNOWN.exists():
            for line in KNOWN.read_text().splitlines():
                line = line.strip()
                if line.startswith("finding:"):
                    parts = dict(x.split("=", 1) for x in
                                 line[8:].split("|")[0].split()
                                 if "=" in x)
                    desc = line.split("|", 1)[1].strip() if "|" in line else ""
                    out.append((parts.get("property"), parts.get("rule"),
                                parts.get("where"), desc))
        return out

    def finish(self):
        new, known = [], []
        for v in self.viol:
            hit = None
            for p, r, w, d in self.known():
                if p == self.pid and (r is None or r == v["rule"]) and \
                        w == v["where"].replace(" ", "_"):
                    hit = d or v["why"]
            (known if hit else new).append((v, hit))
        ev = Path(os.environ.get("VSA_EVIDENCE", VERIF / "evidence"))
        ev.mkdir(exist_ok=True)
        distinct = {(r, w) for r, w, _ in self.obs}
        samples = [dict(rule=r, where=w, note=n) for r, w, n in self.obs[:8]]
        cov = dict(
            explanation=self.rule,
            obligations=len(distinct),
            discharged=len(distinct) - len({(v["rule"], v["where"])
                                            for v in self.viol}),
            undecided=len(self.und),
            undecided_list=self.und[:40],
            functions_analysed=len(self.analysed),
            analysed=sorted(self.analysed)[:400],
            rules=sorted({r for r, _ in distinct}),
            samples=samples,
            known_findings=[dict(where=v["where"], what=d) for v, d in known],
            checker_cmd=f"python3 -m checks {self.pid}",
            trusted_base=["clang 18 parser and type checker (C++)",
                          "CPython's ast module (Python)",
                          "engine/: lowering, value numbering, dataflow",
                          "spec/: the written specifications"],
            **self.notes)
        tier = os.environ.get("VERIF_TIER", "quick")
        (ev / f"{self.pid}.json").write_text(json.dumps(dict(
            property=self.pid, tier=tier if tier in ("quick", "thorough")
            else "quick",
            seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="other",
            coverage=cov, assumptions=self.assumptions,
            wall_s=round(time.time() - self.t0, 2), violations=len(new)),
            indent=1))
        for v, d in known:
            print(f"KNOWN-FINDING: property={self.pid} {v['where']}: {d}")
        for u in self.und:
            print(f"undecided: {u['rule']} {u['where']}: {u['why'][:160]}")
        print(f"{self.pid}: {len(distinct)} obligations over "
              f"{len(self.analysed)} functions, {len(new)} violated, "
              f"{len(self.und)} undecided")
        if new:
            rp = ev / f"{self.pid}.violations.json"
            rp.write_text(json.dumps([v for v, _ in new], indent=1))
            for v, _ in new[:12]:
                print(f"  {v['loc']} [{v['rule']}] {v['where']}: {v['why']}")
            print(f"VIOLATION property={self.pid} replay=evidence/{rp.name}")
            return 1
        return 0
