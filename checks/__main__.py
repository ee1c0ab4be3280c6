"""python3 -m checks C15 [C16 ...]: run the named checks, exit 1 on violation."""
import importlib
import pkgutil
import sys
import traceback

import checks
from engine.cppfront import FrontendError


def registry():
    reg = {}
    for m in pkgutil.iter_modules(checks.__path__):
        if m.name.startswith("p_"):
            mod = importlib.import_module(f"checks.{m.name}")
            reg.update(mod.CHECKS)
    return reg


def main(ids):
    sys.setrecursionlimit(20000)
    reg = registry()
    rc = 0
    for i in ids or sorted(reg):
        try:
            rc = max(rc, reg[i]())
        except FrontendError as e:
            print(f"{i}: the current tree cannot be parsed: {e}")
            return 2
        except Exception:
            traceback.print_exc()
            rc = max(rc, 3)
    return rc


sys.exit(main(sys.argv[1:]))
