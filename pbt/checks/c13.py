"""C13: a terminal event ends the run at the earliest terminal crossing."""
import numpy as np

from .. import evts
from ..core import Facet, check
from ..prob import compiled, amax

TITLE = "A terminal event ends the run at the earliest terminal crossing"


def strategy():
    return evts.case_strategy(terminal=(True, True, None, False), ulps=(0,), max_events=5)


def run(case):
    try:
        w = evts.Walk(case)
    except (RuntimeError, np.linalg.LinAlgError):
        return False, ["start-up equation without solution"]
    ts = evts.requested(case, w)
    ds = case["events"]
    gs = [evts.make_event(d, w) for d in ds]
    if ts is None or any(g is None for g in gs):
        return False, ["out of reach"]
    start = w.nodes[0]
    end = evts.steps_made(w, max(ts))
    if end is None:
        return False, ["out of reach"]
    # zeros too close to the start of the call may or may not count as crossings there
    if any(abs(float(g(*start))) <= evts.noise(w, d, 0) for g, d in zip(gs, ds)):
        return False, ["zero at the start"]
    what = f"{w.name} run_events({ts}) from {start[0]!r} with events {ds}"
    # each event alone, not terminal, all the way
    alone = []
    for d in ds:
        g = evts.make_event(dict(d, term=None), w)
        alone.append(evts.call(w.new(), ts, [g], what)[2:])
    alone_t = [[float(t) for t in a[0][0]] for a in alone]
    firsts = [a[0] for a, d in zip(alone_t, ds) if d["term"] and a]
    ref = w.new().run(np.array(ts))
    s = w.new()
    tt, yy, te, ye = evts.call(s, ts, gs, what)
    check(len(te) == len(gs) == len(ye), f"{what}: {len(te)} lists of event times for {len(gs)} events")
    te = [[float(t) for t in x] for x in te]
    if not firsts:
        check(te == alone_t, lambda: f"{what}: reports {te}; the events alone {alone_t}")
        check(np.array_equal(tt, ref[0]) and np.array_equal(yy, ref[1]), lambda: f"{what}: returns {tt.tolist()}, {yy.tolist()} without a terminal crossing; run returns {ref[0].tolist()}, {ref[1].tolist()}")
        return False, ["no terminal crossing"]
    t_stop = min(firsts)
    keep = [[t for t in a if t <= t_stop] for a in alone_t]
    i = next(i for i, n in enumerate(w.nodes) if n[0] >= t_stop)
    # exactly on a step end: other events there may be found by this step or by the next one
    tie = min(abs(t_stop - n[0]) for n in w.nodes) <= 8 * w.tulp()
    cut = (lambda x: [[t for t in a if t < t_stop - 16 * w.tulp()] for a in x]) if tie else (lambda x: x)
    if tie:
        check(any(t_stop in a for a, d in zip(te, ds) if d["term"]) and all(t <= t_stop for a in te for t in a), lambda: f"{what}: reports {te}, the earliest terminal crossing is at {t_stop!r}")
    check(cut(te) == cut(keep), lambda: f"{what}: reports {te}; up to the earliest terminal crossing at {t_stop!r} the events alone are {keep}")
    which = [k for k, (a, d) in enumerate(zip(alone_t, ds)) if d["term"] and a and a[0] == t_stop][0]
    for k, a in enumerate(cut(keep)):
        for j in range(len(a)):
            check(amax(np.asarray(ye[k][j]) - np.asarray(alone[k][1][0][j])) <= 1e-12 * amax(ye[k][j]), f"{what}: state {ye[k][j]} at the event at {a[j]!r}, alone it is {alone[k][1][0][j]}")
    # output: requested times before the event with their states, then the event if requested times remained
    order = np.argsort(np.array(ts), kind="stable")
    before = sorted(t for t in ts if t < t_stop)
    remained = len(before) < len(ts)
    want = before + ([t_stop] if remained else [])
    if tie and t_stop in ts:
        # requested exactly at the event: both the requested time and the event's may be returned
        want += [t_stop] * min(ts.count(t_stop), len(tt) - len(want))
    check(sorted(float(t) for t in tt) == want, lambda: f"{what}: returns the times {tt.tolist()}; the earliest terminal crossing is at {t_stop!r}, so it should be {want}")
    if list(ts) == sorted(ts):
        check([float(t) for t in tt] == want, f"{what}: returns the times {tt.tolist()} instead of {want}")
    else:
        kept = [float(t) for t in tt if t < t_stop]
        check(kept == [t for t in ts if t < t_stop], f"{what}: the times before the event at {t_stop!r} are returned as {kept}, not in the order requested")
    check(yy.shape == (len(want), w.p.n), f"{what}: states of shape {yy.shape}")
    full = {float(t): y for t, y in zip(*ref)}
    tol = 1e-11 * max(amax(n[1]) for n in w.nodes)
    for t, y in zip(tt, yy):
        exp = full[float(t)] if t < t_stop else np.asarray(alone[which][1][0][0])
        check(amax(y - exp) <= tol, lambda: f"{what}: state {y.tolist()} at {float(t)!r}; it should be {exp.tolist()}")
    # the solver is left on its own sequence of steps, right after the event
    j = i + 1 if tie and float(s.t) != w.nodes[i][0] else i
    check(float(s.t) == w.nodes[j][0] and amax(s.y - w.nodes[j][1]) <= tol, lambda: f"{what}: the solver is at t={float(s.t)!r}; the event at {t_stop!r} ends in the step to {w.nodes[i][0]!r}")
    labels = ["terminated"] + (["on a step end"] if tie else [])
    if len([f for f in firsts if w.nodes[i - 1][0] < f <= w.nodes[i][0]]) > 1:
        labels.append("several terminal events in the step")
    if not remained:
        labels.append("after the last requested time")
    if any(w.nodes[i - 1][0] < t < t_stop for t in ts):
        labels.append("requested times in the step before the event")
    return True, labels


FACETS = [Facet("terminal", strategy, run, quick=5000, thorough=200000, shards=8,
                rule="a terminal event ended the run"),
          Facet("compiled", compiled(strategy), run, quick=400, thorough=40000, shards=8, mode="jit", rule="as terminal")]
