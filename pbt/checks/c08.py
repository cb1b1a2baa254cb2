"""C08: t_bound is never crossed."""
import numpy as np
from hypothesis import strategies as st

from .. import traj
from ..core import Facet, check
from ..prob import ABS, ADAPTIVE, AMS, BDFS, DEPTH, ERKS, MULTI, Problem, get, problems, startup_kwargs

TITLE = "t_bound is never crossed"
W = dict(step0=4, skip0=2, stepn=4, skipn=4, stepu=3, skipu=3, stepnu=2, skipnu=2, runs=1, runb=4, runev=2, interp=1, run1=1)


def strategy():
    return traj.cases(W, bound=0.95, max_ops=12)


def run(case):
    nt, labels = traj.run_case(case)
    hit = {"t_bound reached", "beyond t_bound", "refused", "stopped at t_bound"} & set(labels)
    return nt and bool(hit), labels


def strategy_start():
    @st.composite
    def cases(draw):
        name = draw(st.sampled_from([m for m in ABS + AMS + BDFS if DEPTH[m] > 1]))
        return dict(solver=name, prob=draw(problems(amp=1.0)), h=draw(st.sampled_from([0.125, 0.5, 0.1, 0.03, 1.0])),
                    first=draw(st.sampled_from(["default", "auto", "none"] + ADAPTIVE + ERKS + MULTI)),
                    at=draw(st.integers(0, 8 * DEPTH[name])) / 8)

    return cases()


def run_start(case):
    """Construction close to t_bound: the right-hand side is not evaluated at states beyond it by fixed steps,
    and the solver never starts beyond it."""
    p = Problem(case["prob"])
    name, h, first = case["solver"], case["h"], case["first"]
    kw = startup_kwargs(name, first)
    if abs(p.t0) > 1000:
        p.t0 = 1000.0
    need = p.t0 + (DEPTH[name] - 1) * h if first != "none" else p.t0
    bound = p.t0 + case["at"] * h
    edge = 8 * max(abs(bound), abs(p.t0)) * 2.3e-16 + 1e-300
    err = sol = None
    try:
        sol = get(name)(p.rhs(200000), p.t0, p.y0, h=h, t_bound=bound, **kw)
    except (RuntimeError, np.linalg.LinAlgError):
        return False, ["start-up equation without solution"]
    except ValueError as e:
        err = e
    if sol is not None:
        # t0 + h + h + ... may differ from t0 + k h in the last digits
        check(float(sol.t) <= bound + edge, f"{name} first={first} h={h} t0={p.t0}: starts at t={float(sol.t)!r}, beyond t_bound={bound!r}")
    if bound < need - edge:
        check(err is not None, f"{name} first={first} h={h} t0={p.t0}: start-up up to {need!r} accepted with t_bound={bound!r}")
    elif bound > need + edge:
        check(err is None, f"{name} first={first} h={h} t0={p.t0}: start-up up to {need!r} refused with t_bound={bound!r}: {err}")
    return first != "none" and p.nontrivial, ["refused" if err is not None else "accepted"]


FACETS = [Facet("bounded", strategy, run, quick=5000, thorough=250000, shards=8,
                rule="at least two operations and two steps made, and a call was stopped or refused because of t_bound"),
          Facet("startup", strategy_start, run_start, quick=2000, thorough=50000, shards=2,
                rule="a start-up was needed and f(t0, y0) != 0")]
