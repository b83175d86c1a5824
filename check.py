#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Decides one property on /repo's working tree. Exit status 0: it held on
everything explored, 1: it does not (with a VIOLATION line), 2: cannot tell."""
import importlib
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vlib  # noqa: E402

# property -> (module, level)
CHECKS = {}
for _m in ("p_edm", "p_conc", "p_machine"):
    for _p, _l in importlib.import_module(_m).PROPERTIES.items():
        CHECKS[_p] = (_m, _l)


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    mod, level = CHECKS[pid]
    t0 = time.time()
    os.chdir(vlib.VERIF)
    cov = {}
    assumptions = []
    try:
        try:
            importlib.import_module(mod).check(pid, tier, cov, assumptions)
        except vlib.Trouble as e:
            # once more, in case it was the circumstances
            vlib.log("trouble, once more:", str(e)[:3000])
            importlib.import_module(mod).check(pid, tier, cov, assumptions)
    except vlib.Violation as e:
        msg = str(e)
        d = vlib.keep_replay(pid, e.files, msg)
        vlib.finish(pid, tier, level, fill(level, cov), assumptions, 1, t0)
        print(msg)
        print("VIOLATION property=%s replay=%s" % (pid, d), flush=True)
        return 1
    except Exception:
        traceback.print_exc()
        return 2
    vlib.finish(pid, tier, level, fill(level, cov), assumptions, 0, t0)
    vlib.log("property %s holds on everything explored" % pid)
    return 0


def fill(level, cov):
    if level == "model_checking":
        cov.setdefault("states", 0)
        cov.setdefault("transitions", 0)
        cov.setdefault("traces_validated_against_impl", 0)
        cov.setdefault("samples", [])
    cov["tlc_runs"] = vlib.TOTAL.runs
    return cov


if __name__ == "__main__":
    sys.exit(main())
