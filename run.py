#!/opt/venv/bin/python
"""Entry point: run.py <property id> [--thorough] [--replay FILE]."""
import os
import sys

for _v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS", "NUMBA_NUM_THREADS"):
    os.environ[_v] = "1"
os.environ.setdefault("VERIF_REPO", "/repo")
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
# the working tree under test comes first
sys.path.insert(0, os.environ["VERIF_REPO"])
try:
    import hypothesis  # noqa: F401
except ImportError:
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    import hypothesis  # noqa: F401

import importlib
import logging
import warnings

warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)


def selftest():
    """setup: nothing has to be built (numba compiles /repo's tree inside every check); see that everything imports"""
    import glob

    import flory

    names = sorted(os.path.basename(f)[:-3] for f in glob.glob(os.path.join(HERE, "props", "c*.py")))
    for name in names:
        importlib.import_module("props." + name)
    print(f"flory from {flory.__file__}, hypothesis {hypothesis.__version__}, {len(names)} checks")
    return 0


def main():
    if sys.argv[1] == "--selftest":
        sys.exit(selftest())
    prop = sys.argv[1].upper()
    import traceback

    from lib import harness

    try:
        import flory

        where = os.path.realpath(flory.__file__)
        assert where.startswith(os.path.realpath(os.environ["VERIF_REPO"]) + "/"), where
        module = importlib.import_module(f"props.{prop.lower()}")
        code = harness.main(prop, module, sys.argv[2:])
    except BaseException as e:
        if isinstance(e, SystemExit):
            raise
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)


if __name__ == "__main__":
    main()
