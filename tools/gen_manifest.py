"""Writes MANIFEST.json from the registered checks and the table below."""
import importlib
import json
import pkgutil
import sys
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT))
import checks  # noqa: E402

NA = {
    "C34": "Solution quality is a statistical statement about runs; nothing in "
           "the shape of the source decides it.",
    "C35": "Needs numeric bounds on chains of additions over arbitrarily many "
           "visits; no sound static bound follows from the source, because the "
           "ranges of the inputs are only documented, not enforced.",
    "C36": "The duration of an iteration is a run-time quantity. What the "
           "source decides about it (the criterion compares against elapsed "
           "time and is consulted every iteration) is part of C24.",
}
PENDING = "No check yet; see DESIGN.md."

SUMMARY = ("guarded dataflow summaries (value numbering with loop and effect "
           "summaries) of the code compared with those of a written "
           "specification")
NOTE = ("Sound for what the summaries express: exact symbolic values of every "
        "result, stored field, exception guard and effect on all paths, "
        "without unrolling. Trusts the front end (clang's or CPython's parser), "
        "the engine's lowering and container models, and the specification in "
        "spec/. Integer overflow and memory exhaustion are outside the model. "
        "A difference the random interpretation cannot confirm is reported as "
        "undecided, not as a violation.")
TECH = {}
LEVEL_NOTE = {}
for m in pkgutil.iter_modules(checks.__path__):
    if m.name.startswith("p_"):
        mod = importlib.import_module(f"checks.{m.name}")
        for k in mod.CHECKS:
            TECH[k] = getattr(mod, "TECHNIQUE", {}).get(k, SUMMARY)
            LEVEL_NOTE[k] = getattr(mod, "LEVEL_NOTE", {}).get(k, NOTE)

props = [json.loads(x) for x in
         (ROOT / "properties.jsonl").read_text().splitlines()]
man = dict(
    version=1,
    setup_cmd="python3 -m compileall -q engine checks",
    checks=[dict(property=p["id"],
                 quick_cmd=f"python3 -m checks {p['id']}",
                 thorough_cmd=f"python3 -m checks {p['id']}",
                 technique=TECH[p["id"]], level="other",
                 level_note=LEVEL_NOTE[p["id"]])
            for p in props if p["id"] in TECH],
    not_applicable=[dict(property=p["id"], reason=NA.get(p["id"], PENDING))
                    for p in props if p["id"] not in TECH],
    notes="Every check reads /repo's working tree with clang's or CPython's "
          "parser and never runs it; see DESIGN.md.")
(ROOT / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")
print(len(man["checks"]), "checks,", len(man["not_applicable"]), "not claimed")
