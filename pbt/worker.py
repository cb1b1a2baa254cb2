"""One shard of one facet, or the re-run of saved cases."""
import importlib
import json
import os
import signal
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
from pbt import core  # noqa: E402
from pbt.core import CaseAlarm, NonTermination, Violation, case_hash  # noqa: E402

sys.path.append(core.VT_SITE)  # hypothesis; appended so that /opt/venv's numpy, scipy, numba win

CASE_SECONDS = 30
#: wall-clock limit for minimizing a failing case
SHRINK_SECONDS = dict(quick=60, thorough=600)
MAX_JUMPS = 3_000_000


class Enough(KeyboardInterrupt):
    """Stops hypothesis: the failing case found so far is small enough."""


def arg(name, default=None, cast=str):
    if name in sys.argv:
        return cast(sys.argv[sys.argv.index(name) + 1])
    return default


def with_jump_budget(fn, case):
    """Deterministic non-termination test: count loop iterations executed inside nbkode's own code."""
    mon = sys.monitoring
    root = os.path.join(core.REPO, "nbkode") + os.sep
    tool = mon.PROFILER_ID
    mon.use_tool_id(tool, "verif")
    count = [0]

    def on_jump(code, off, dest):
        if not code.co_filename.startswith(root):
            return mon.DISABLE
        count[0] += 1
        if count[0] > MAX_JUMPS:
            raise NonTermination(f"more than {MAX_JUMPS} loop iterations inside nbkode in one case")

    mon.register_callback(tool, mon.events.JUMP, on_jump)
    mon.set_events(tool, mon.events.JUMP)
    try:
        return fn(case)
    except NonTermination as e:
        raise Violation(f"does not terminate: {e}")
    finally:
        mon.set_events(tool, 0)
        mon.free_tool_id(tool)


def run_guarded(facet, case):
    """Run a case; if it takes suspiciously long (pure Python mode), decide by a deterministic loop budget."""
    if facet.mode != "py":
        return facet.run(case)

    def on_alarm(sig, frame):
        raise CaseAlarm()

    signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_SECONDS)
    try:
        return facet.run(case)
    except CaseAlarm:
        signal.setitimer(signal.ITIMER_REAL, 0)
        return with_jump_budget(facet.run, case)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def from_code_under_test(e):
    """Checks only make calls that should succeed and handle the errors that are allowed: any other exception that
    escapes from nbkode breaks the property.  Exceptions of the harness itself stay what they are."""
    if isinstance(e, Violation):
        return e
    root = os.path.realpath(os.path.join(core.REPO, "nbkode")) + os.sep
    frames = traceback.extract_tb(e.__traceback__)
    inside = [f for f in frames if os.path.realpath(f.filename).startswith(root)]
    if not inside or frames[-1].filename.startswith(core.HERE):
        return e
    where = "; ".join(f"{os.path.basename(f.filename)}:{f.name}" for f in frames[-3:])
    return Violation(f"unexpected {type(e).__name__}: {str(e)[:300]} [{where}]")


def main():
    prop, fname = sys.argv[1], sys.argv[2]
    out = arg("--out")
    res = dict(evaluations=0, distinct=[], nontrivial=[], labels={}, samples=[], known=0)
    try:
        body(prop, fname, out, res)
    except BaseException:
        res["error"] = traceback.format_exc()
    with open(out + ".tmp", "w") as fh:
        json.dump(res, fh)
    os.replace(out + ".tmp", out)
    try:
        os.unlink(out + ".case")
    except OSError:
        pass
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(0)


def body(prop, fname, out, res):
    warnings.simplefilter("ignore")
    import nbkode

    real = os.path.realpath(nbkode.__file__)
    assert real.startswith(os.path.realpath(core.REPO) + os.sep), real
    mod = importlib.import_module("pbt.checks." + prop.lower())
    import numpy as np

    np.seterr(all="ignore")
    facets = {f.name: f for f in mod.FACETS}
    known_sigs = {k["sig"] for k in core.load_known(prop)}
    distinct, nontriv = set(), set()
    state = dict(fail=None)

    def one(facet, case):
        res["evaluations"] += 1
        if facet.mode == "jit":
            with open(out + ".case", "w") as fh:
                json.dump(dict(facet=facet.name, case=case), fh)
        try:
            try:
                nt, labels = run_guarded(facet, case)
            except NonTermination as e:
                raise Violation(f"does not terminate: {e}")
            except Exception as e:
                raise from_code_under_test(e)
        except Violation as e:
            if e.known is not None and e.known in known_sigs:
                res["known"] += 1
                res["labels"]["known:" + e.known] = res["labels"].get("known:" + e.known, 0) + 1
                return
            state["fail"] = fail = dict(facet=facet.name, case=case, msg=str(e))
            state.setdefault("since", time.time())
            if state.get("small") is None or len(json.dumps(case)) <= len(json.dumps(state["small"]["case"])):
                state["small"] = fail
            raise
        h = case_hash(facet.name, case)
        distinct.add(h)
        if nt:
            if h not in nontriv and len(res["samples"]) < 2 and res["evaluations"] > 5:
                res["samples"].append(dict(facet=facet.name, case=case))
            nontriv.add(h)
        for lab in labels:
            res["labels"][lab] = res["labels"].get(lab, 0) + 1

    def wrap_up():
        res["distinct"] = sorted(distinct)
        res["nontrivial"] = sorted(nontriv)

    files = [a[7:] for a in sys.argv if a.startswith("--case=")]
    if "--case" in sys.argv:
        files.append(arg("--case"))
    if files:
        for p in files:
            rep = json.load(open(p))
            try:
                one(facets[rep["facet"]], rep["case"])
            except Violation:
                res["violation"] = state["fail"]
                break
        wrap_up()
        return

    facet = facets[fname]
    n, shard, seed = arg("--n", 0, int), arg("--shard", 0, int), arg("--seed", 1, int)
    nshards, tier = arg("--nshards", 1, int), arg("--tier", "quick")
    budget = 600 if tier == "quick" else 5 * 3600
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis import seed as hseed

    t0 = time.time()
    import inspect

    kw = {}
    if "shard" in inspect.signature(facet.strategy).parameters:
        kw = dict(shard=shard, nshards=nshards)
    strat = facet.strategy(**kw)
    facet_no = list(facets).index(fname)

    @hseed((seed * 1000 + facet_no) * 1000 + shard)
    @settings(max_examples=n, database=None, deadline=None, suppress_health_check=list(HealthCheck),
              report_multiple_bugs=False, phases=[Phase.generate, Phase.shrink], print_blob=False,
              derandomize=False)
    @given(strat)
    def test(case):
        if time.time() - t0 > budget and state["fail"] is None:
            res["labels"]["skipped:time budget"] = res["labels"].get("skipped:time budget", 0) + 1
            return
        if state["fail"] is not None and time.time() - state["since"] > SHRINK_SECONDS[tier]:
            raise Enough()
        one(facet, case)

    try:
        test()
    except Violation:
        res["violation"] = state["fail"]
    except Enough:
        res["violation"] = state["small"]
    except BaseException as e:
        if state["fail"] is not None and type(e).__module__.startswith("hypothesis"):
            # flaky under shrinking: report the failing case that was seen
            try:
                one(facet, state["fail"]["case"])
            except Violation:
                res["violation"] = state["fail"]
            else:
                raise
        else:
            raise
    finally:
        wrap_up()


if __name__ == "__main__":
    main()
