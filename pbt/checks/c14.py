"""C14: watching events changes nothing, and resuming misses nothing."""
import numpy as np
from hypothesis import strategies as st

from .. import evts
from ..core import Facet, check
from ..prob import compiled, amax

TITLE = "Watching events changes nothing, and resuming misses nothing"


def strategy():
    @st.composite
    def cases(draw):
        c = draw(evts.case_strategy(ulps=(0,)))
        c["cuts"] = draw(st.lists(st.integers(0, 64).map(lambda k: k / 8), min_size=1, max_size=3))
        c["between"] = draw(st.sampled_from(["nothing", "interpolate", "run past"]))
        c["chunk_past"] = draw(st.booleans())
        return c

    return cases()


def run(case):
    try:
        w = evts.Walk(case)
    except (RuntimeError, np.linalg.LinAlgError):
        return False, ["start-up equation without solution"]
    ts = evts.requested(case, w)
    ds = case["events"]
    gs = [evts.make_event(d, w) for d in ds]
    if ts is None or any(g is None for g in gs):
        return False, ["out of reach"]
    if evts.steps_made(w, max(ts)) is None:
        return False, ["out of reach"]
    what = f"{w.name} run_events({ts}) from {w.nodes[0][0]!r} with events {ds}"
    s = w.new()
    tt, yy, te, ye = evts.call(s, ts, gs, what)
    te = [[float(t) for t in x] for x in te]
    # the same as run
    r = w.new()
    rt, ry = r.run(np.array(ts))
    check(np.array_equal(tt, rt) and np.array_equal(yy, ry), lambda: f"{what}: returns {tt.tolist()}, {yy.tolist()}; run returns {rt.tolist()}, {ry.tolist()}")
    check(float(s.t) == float(r.t) and np.array_equal(s.y, r.y) and np.array_equal(s.f, r.f), lambda: f"{what}: leaves the solver at t={float(s.t)!r}, y={s.y.tolist()}; run leaves it at {float(r.t)!r}, {r.y.tolist()}")
    try:
        a, b = s.step(n=2), r.step(n=2)
    except (RuntimeError, np.linalg.LinAlgError):
        pass
    else:
        check(np.array_equal(a[0], b[0]) and np.array_equal(a[1], b[1]), lambda: f"{what}: the next steps lead to {a}, after run they lead to {b}")
    # the same as each event alone
    for k, g in enumerate(gs):
        one = evts.call(w.new(), ts, g if case["skip"] % 2 else [g], what)
        at = [float(t) for t in one[2][0]]
        check(at == te[k], lambda: f"{what}: event {k} is reported at {te[k]}, tracked alone at {at}")
        check(all(np.array_equal(u, v) for u, v in zip(one[3][0], ye[k])), f"{what}: event {k} has states {ye[k]}, tracked alone {one[3][0]}")
    # the same as in several calls
    order = sorted(ts)
    cuts = sorted(t for t in (w.at(x) for x in case["cuts"]) if t is not None)
    chunks, lo = [], -np.inf
    for c in cuts + [np.inf]:
        chunk = [t for t in order if lo < t <= c]
        if c < np.inf and c <= order[-1]:
            chunk.append(c)
        if chunk:
            chunks.append(chunk)
        lo = c
    s = w.new()
    got = [[] for _ in gs]
    got_y = [[] for _ in gs]
    joints = []
    for chunk in chunks:
        if joints and case["chunk_past"]:
            chunk = [joints[-1]] + chunk
        _, _, a, b = evts.call(s, chunk, gs, what + f" split into {chunks}")
        for k in range(len(gs)):
            got[k] += [float(t) for t in a[k]]
            got_y[k] += list(b[k])
        joints.append(float(s.t))
        if case["between"] == "interpolate":
            s.interpolate(float(s.t))
        elif case["between"] == "run past":
            s.run(np.array([float(s.t)]))
    for k in range(len(gs)):
        # an event exactly at the joint may be reported by both calls
        seen = []
        for t in got[k]:
            if not (seen and seen[-1] == t and t in joints):
                seen.append(t)
        check(seen == te[k], lambda: f"{what}: event {k} is reported at {te[k]}; split into {chunks}: {got[k]}")
        states = dict(zip(got[k], got_y[k]))
        check(all(np.array_equal(states[t], y) for t, y in zip(te[k], ye[k])), f"{what}: event {k} has states {ye[k]}, in several calls {got_y[k]}")
    return any(te) and len(chunks) > 1, ["%d calls" % len(chunks)] + (["several events"] if len(gs) > 1 else [])


FACETS = [Facet("split", strategy, run, quick=4000, thorough=200000, shards=8,
                rule="an event was reported and the request was split into at least two calls"),
          Facet("compiled", compiled(strategy), run, quick=400, thorough=40000, shards=8, mode="jit", rule="as split")]
