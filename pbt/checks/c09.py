"""C09: run returns exactly the requested times, in request order."""
import numpy as np
from hypothesis import strategies as st

from .. import traj
from ..core import Facet, check, under_test
from ..prob import amax, get

TITLE = "run returns exactly the requested times, in request order"
W = dict(run=6, runs=2, run1=3, runb=2, runold=3, stepn=1, skipn=1, stepu=1)
SIG = "adaptive-stops-before-t_bound"


def strategy():
    return traj.cases(W, bound=0.3, max_ops=8)


def run(case):
    return traj.run_case(case, trunc_known=SIG)


def strategy_split():
    @st.composite
    def cases(draw):
        c = draw(traj.cases(dict(run=1), bound=0.0, max_ops=3))
        del c["ops"]
        c["pos"] = draw(st.lists(traj.position(0, 10), min_size=2, max_size=8))
        c["cut"] = draw(st.integers(1, max(1, len(c["pos"]) - 1)))
        c["skip"] = draw(st.integers(0, 3))
        c["extra"] = draw(st.lists(traj.position(0, 10), max_size=3))
        return c

    return cases()


def run_split(case):
    """Metamorphic: one call, two calls (chronological), with extra times, reversed: same state for the same time."""
    try:
        e = traj.Engine(case)
    except (RuntimeError, np.linalg.LinAlgError):
        return False, ["start-up equation without solution"]
    p, name, kw = e.p, e.name, e.kw
    for _ in range(case["skip"]):
        if e.ref.t(e.i + 1) is None:
            return False, []
        e.i += 1
    ts = [e.time_at(x) for x in case["pos"]]
    extra = [e.time_at(x) for x in case["extra"]]
    if any(t is None for t in ts + extra):
        return False, []
    last = [e.ref.t(e.i + k) for k in range(12)]
    if last[-1] is None:
        return False, []

    def new():
        s = get(name)(p.rhs(500000), p.t0, p.y0, **kw)
        s.skip(n=case["skip"])
        return s

    def states(*calls):
        s = new()
        out = {}
        for c in calls:
            with under_test(f"{name}.run({c}) after {case['skip']} steps"):
                tt, yy = s.run(np.array(c))
            check(list(tt) == list(c), f"{name}.run({c}): returned times {list(tt)}")
            for t, y in zip(tt, yy):
                if t in out:
                    check(amax(out[t] - y) <= tol, f"{name}: state at {t} is {y.tolist()} and was {out[t].tolist()}")
                out[float(t)] = y.copy()
        return out

    tol = 0.0
    order = sorted(ts)
    tol = 64 * e.tol(e.i + 11)
    one = states(ts)
    alts = [("sorted", [order]), ("reversed", [order[::-1]]), ("with other times", [ts + extra]),
            ("split", [order[:case["cut"]], order[case["cut"]:]]), ("one by one", [[t] for t in order])]
    for what, calls in alts:
        got = states(*[c for c in calls if c])
        for t in ts:
            check(amax(got[t] - one[t]) <= tol, lambda: f"{name} after {case['skip']} steps: state at {t!r} requested in {ts} is {one[t].tolist()}, requested {what} {calls} it is {got[t].tolist()}")
    return p.nontrivial and len(set(ts)) > 1, [name]


FACETS = [Facet("requests", strategy, run, quick=5000, thorough=250000, shards=6,
                rule="at least two operations done, at least two steps made, f(t0, y0) != 0"),
          Facet("split", strategy_split, run_split, quick=1500, thorough=80000, shards=2,
                rule="at least two different times requested in several ways, f(t0, y0) != 0")]
