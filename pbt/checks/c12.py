"""C12: events are found."""
import numpy as np

from .. import evts
from ..core import Facet, check
from ..prob import compiled

TITLE = "Events are found: one accurate zero per sign change, in direction"


def strategy():
    return evts.case_strategy()


def run(case):
    try:
        w = evts.Walk(case)
    except (RuntimeError, np.linalg.LinAlgError):
        return False, ["start-up equation without solution"]
    ts = evts.requested(case, w)
    gs = [evts.make_event(d, w) for d in case["events"]]
    if ts is None or any(g is None for g in gs):
        return False, ["out of reach"]
    end = evts.steps_made(w, max(ts))
    if end is None:
        return False, ["out of reach"]
    s = w.new()
    what = f"{w.name} run_events({ts}) from {w.nodes[0][0]!r}"
    tt, yy, te, ye = evts.call(s, ts, gs[0] if len(gs) == 1 and case["skip"] == 1 else gs, what)
    check(len(te) == len(gs) == len(ye), f"{what}: {len(te)} lists of event times for {len(gs)} events")
    n = 0
    for g, d, a, b in zip(gs, case["events"], te, ye):
        n += evts.check_event(w, end, g, d, a, b, f"{what}, event {d}")
    return n >= 1, [w.name] + sorted({d["kind"] for d in case["events"]}) + (["several crossings"] if n > 2 else [])


FACETS = [Facet("crossings", strategy, run, quick=4000, thorough=200000, shards=8,
                rule="at least one crossing had to be reported"),
          Facet("compiled", compiled(strategy), run, quick=400, thorough=40000, shards=8, mode="jit", rule="as crossings")]
