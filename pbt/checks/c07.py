"""C07: step and skip stop exactly where their arguments say."""
from ..core import Facet
from .. import traj
from ..prob import compiled

TITLE = "step and skip stop exactly where their arguments say"
W = dict(step0=3, skip0=2, stepn=3, skipn=3, stepu=4, skipu=4, stepnu=4, skipnu=4, run1=1)


def strategy():
    return traj.cases(W, bound=0.25, max_ops=10)


def run(case):
    return traj.run_case(case)


FACETS = [Facet("stops", strategy, run, quick=4000, thorough=200000, shards=8,
                rule="at least two operations done, at least two steps made, f(t0, y0) != 0"),
          Facet("compiled", compiled(strategy), run, quick=400, thorough=40000, shards=8, mode="jit", rule="as stops")]
