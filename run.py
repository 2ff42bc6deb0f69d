"""Entry point of all checks:  run.py C01 [--tier quick|thorough] [--only sub,..]
[--scale x]   or   run.py --replay FILE."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
# the tree under test is /repo; the variable is for trying out planted bugs in copies
REPO = os.environ.get("VERIF_DEV_REPO", "/repo")


def bootstrap():
    want = dict(OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", PYTHONHASHSEED="0",
                PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=REPO)
    if os.environ.get("VERIF_BOOT") != "1":
        env = dict(os.environ, VERIF_BOOT="1", **want)
        os.execve(PY, [PY, "-W", "ignore", os.path.join(HERE, "run.py")]
                  + sys.argv[1:], env)


PY = "/opt/venv/bin/python"
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

if __name__ == "__main__":
    bootstrap()
    sys.path.insert(0, HERE)
    sys.path.append(VT)                              # for hypothesis only
    import logging
    logging.disable(logging.CRITICAL)
    import scipy.integrate, scipy.sparse.linalg, scipy.optimize  # noqa
    # compile the code under test from its present source, never from a cache
    sys.pycache_prefix = "/nonexistent"
    import extensisq
    sys.pycache_prefix = None
    assert extensisq.__file__.startswith(REPO + "/"), extensisq.__file__
    import argparse
    import importlib
    from pbt import core
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--workers", type=int, default=8)
    ap.add_argument("--replay")
    ap.add_argument("--selftest", action="store_true")
    a = ap.parse_args()
    try:
        if a.selftest:
            import hypothesis
            from pbt import _selftest_problems
            _selftest_problems.main()
            print("ok", extensisq.__version__, hypothesis.__version__)
            sys.exit(0)
        if a.replay:
            sys.exit(core.replay(a.replay))
        mod = importlib.import_module("checks." + a.prop.lower())
        code = core.run_check(a.prop, mod, a.tier, int(os.environ.get("VERIF_SEED", "1")),
                              a.only.split(",") if a.only else None, a.scale, a.workers)
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        sys.exit(3)
    sys.exit(code)
