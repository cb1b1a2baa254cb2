"""Pure Python mode side of C15: executes the cases it is given, one JSON line each."""
import json
import os
import sys
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
from pbt import core  # noqa: E402

sys.path.append(core.VT_SITE)


def main():
    import importlib

    import numpy as np

    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    assert os.environ.get("NBKODE_NONUMBA")
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    for line in sys.stdin:
        q = json.loads(line)
        try:
            mod = importlib.import_module(q["module"])
            r = dict(result=getattr(mod, q["func"])(*q["args"]))
        except Exception:
            r = dict(error=traceback.format_exc())
        out.write(json.dumps(r) + "\n")
        out.flush()


main()
