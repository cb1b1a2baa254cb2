"""usage: python run.py C01 [quick|thorough] [--replay FILE] [--facet=NAME]"""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pbt import core  # noqa: E402

sys.path.append(core.VT_SITE)

if __name__ == "__main__":
    prop = sys.argv[1]
    try:
        mod = importlib.import_module("pbt.checks." + prop.lower())
        rc = core.main(prop, mod.TITLE, mod.FACETS, sys.argv[2:])
    except Exception:
        import traceback

        traceback.print_exc()
        rc = 2
    sys.exit(rc)
