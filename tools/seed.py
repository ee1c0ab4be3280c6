"""Development aid: create seeded/<id>/ from a description file.

usage: seed.py FILE.py...; each file defines ID, PROPERTY, NEEDS, BREAKS,
EDITS = [(path, old, new), ...] and DEMO (Python source run with the package
from /repo: must exit 0 unchanged, non-zero with the edits).
"""
import json
import runpy
import shutil
import subprocess
import sys
import tempfile
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
for f in sys.argv[1:]:
    d = runpy.run_path(f)
    out = ROOT / "seeded" / d["ID"]
    out.mkdir(parents=True, exist_ok=True)
    tmp = Path(tempfile.mkdtemp(prefix="seed", dir="/tmp"))
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", str(tmp / "r")])
        for p, a, b in d["EDITS"]:
            q = tmp / "r" / p
            s = q.read_text()
            assert s.count(a) == 1, (f, p, a, s.count(a))
            q.write_text(s.replace(a, b))
        diff = subprocess.check_output(["git", "-C", str(tmp / "r"), "diff"])
        (out / "patch.diff").write_bytes(diff)
    finally:
        shutil.rmtree(tmp)
    (out / "demo.py").write_text(d["DEMO"].lstrip("\n"))
    (out / "demo.sh").write_text(
        '#!/bin/bash\n. /opt/vp/env.sh\ncd /repo || exit 1\n'
        'exec python "$(dirname "$(realpath "$0")")/demo.py"\n'
        if not d.get("DEMO_SH") else d["DEMO_SH"])
    (out / "meta.json").write_text(json.dumps(
        dict(property=d["PROPERTY"], needs=d["NEEDS"],
             what_it_breaks=d["BREAKS"]), indent=1) + "\n")
    print(out)
