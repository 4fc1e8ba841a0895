#!/usr/bin/env python
"""run.py <PROPERTY> [--tier quick|thorough] [--seed N] [--facet F] [--replay FILE]"""
import importlib
import os
import shutil
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import paths  # noqa: E402


def entry():
    prop = sys.argv[1]
    rc = 2
    try:
        os.chdir(paths.SCRATCH)
        err = os.dup(2)
        if os.environ.get("HV_VERBOSE") is None:
            # optional-dependency chatter of the library under test
            devnull = os.open(os.devnull, os.O_WRONLY)
            os.dup2(devnull, 2)
        try:
            import hermespy  # noqa: F401
            mod = importlib.import_module(f"checks.{prop.lower()}")
        except BaseException:
            os.dup2(err, 2)
            raise
        os.dup2(err, 2)
        from lib import harness
        loc = os.path.realpath(list(hermespy.__path__)[0])
        if not loc.startswith(os.path.realpath(paths.REPO) + os.sep):
            print(f"harness error: hermespy imported from {loc}", file=sys.stderr)
            return 2
        rc = harness.main(mod.check, sys.argv[2:])
    finally:
        os.chdir("/")
        shutil.rmtree(paths.SCRATCH, ignore_errors=True)
    return rc


if __name__ == "__main__":
    try:
        code = entry()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
