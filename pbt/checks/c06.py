"""C06: the trajectory does not depend on how the solver is advanced."""
from ..core import Facet
from .. import traj
from ..prob import compiled

TITLE = "The trajectory does not depend on how the solver is advanced"
W = dict(step0=2, skip0=1, stepn=2, skipn=2, stepu=2, skipu=2, stepnu=1, skipnu=1, run=3, runs=2, run1=2, runev=3, interp=2)


def strategy():
    return traj.cases(W, bound=0.15, max_ops=10)


def run(case):
    return traj.run_case(case)


FACETS = [Facet("interleave", strategy, run, quick=4000, thorough=200000, shards=8,
                rule="at least two operations done, at least two steps made, f(t0, y0) != 0"),
          Facet("compiled", compiled(strategy), run, quick=400, thorough=40000, shards=8, mode="jit", rule="as interleave")]
