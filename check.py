#!/usr/bin/env python3
"""check.py ID [--thorough] : decide one property from the current source of /repo.
check.py --setup            : verify that the tools are there.
check.py --all              : every registered check, one after another."""
import importlib
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

from sa.program import Program, AnalysisBroken  # noqa: E402
from sa.report import Check  # noqa: E402


def run(pid, tier):
    ck = Check(pid, tier)
    broken = None
    try:
        mod = importlib.import_module("checks." + pid.lower())
        mod.run(ck, Program())
    except AnalysisBroken as e:
        broken = str(e)
    except Exception:
        broken = "internal error: " + traceback.format_exc()
    return ck.finish(broken)


def main(argv):
    if "--setup" in argv:
        import shutil
        if shutil.which("clang") is None:
            print("clang is missing")
            return 1
        Program()
        return 0
    tier = "thorough" if "--thorough" in argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    if "--all" in argv:
        from checks import registry
        bad = 0
        for pid in registry.CHECKS:
            bad |= run(pid, tier)
        return bad
    return run(argv[0], tier)


if __name__ == "__main__":
    import threading
    threading.stack_size(512 * 1024 * 1024)
    rc = []
    t = threading.Thread(target=lambda: rc.append(main(sys.argv[1:])))
    t.start()
    t.join()
    sys.exit(rc[0] if rc else 2)
