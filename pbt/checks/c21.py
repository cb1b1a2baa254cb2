"""C21: an integration call makes progress or fails loudly.

Hostile right-hand sides; every call is limited to far more evaluations of the right-hand side, and loop iterations, than
it can need.
"""
import warnings

import numpy as np
from hypothesis import strategies as st

from ..core import Facet, NonTermination, check, under_test
from ..prob import ADAPTIVE, ALL, DEPTH, IMPLICIT, MULTI, amax, dyadic, get

TITLE = "An integration call makes progress or fails loudly"

KINDS = ["square", "power", "pole", "tan", "exp", "nan_t", "inf_t", "nan_y", "nan_always", "inf_always", "zero", "const", "zero_state",
         "jump", "stiff", "huge", "tiny", "late_zero", "sqrt", "alternate"]

#: right-hand sides for which reaching a given time may legitimately take very many steps
LONG = ("stiff", "huge", "alternate", "power", "jump", "nan_y")


def make_rhs(c):
    k, ts, a = c["kind"], c["ts"], c["a"]
    n = len(c["y0"])
    i = c["i"] % n
    unit = np.zeros(n)
    unit[i] = 1.0

    def f(t, y):
        if k == "square":
            return a * y * y
        if k == "power":
            return a * np.abs(y) ** 3 + unit
        if k == "pole":
            return y / (ts - t)
        if k == "tan":
            return 1.0 + y * y
        if k == "exp":
            return np.exp(y) * a
        if k == "nan_t":
            return -y + (np.nan if t > ts else 0.0) * unit
        if k == "inf_t":
            return -y + (np.inf if t > ts else 0.0) * np.ones(n)
        if k == "nan_y":
            return np.ones(n) * a + (np.nan if y[i] > 2 else 0.0)
        if k == "nan_always":
            return y * np.nan
        if k == "inf_always":
            return unit * np.inf
        if k == "zero":
            return 0.0 * y
        if k == "const":
            return a + 0.0 * y
        if k == "zero_state":
            return -a * y
        if k == "jump":
            return -y + np.where(t > ts, 1e6, 0.0) * unit
        if k == "stiff":
            return -1e8 * (y - np.cos(t))
        if k == "huge":
            return 1e150 * a * y
        if k == "tiny":
            return 1e-150 * a * y
        if k == "late_zero":
            return np.where(t < ts, 1.0, 0.0) * np.cos(t) * a + 0 * y
        if k == "sqrt":
            return np.sqrt(1.0 - t + ts + 0 * y)  # NaN after a while
        if k == "alternate":
            return np.where(np.floor(64 * t) % 2 == 0, a, -a) + 0 * y
        raise AssertionError(k)

    return f


def strategy():
    @st.composite
    def cases(draw):
        name = draw(st.sampled_from(ALL + ADAPTIVE * 10))
        c = dict(solver=name, kind=draw(st.sampled_from(KINDS)), t0=draw(st.sampled_from([0.0, 0.0, 1.0, -3.0, 1e6, 1e16, -1e16, 1e300, -1e300])),
                 y0=draw(st.lists(st.sampled_from([0.0, 1.0, -1.0, 2.0, 0.5, 1e-10, 1e10]), min_size=1, max_size=3)), i=draw(st.integers(0, 2)),
                 a=draw(st.sampled_from([1.0, -1.0, 3.0, 0.25])))
        if c["kind"] == "zero_state":
            c["y0"] = [0.0] * len(c["y0"])
        c["dt"] = draw(st.sampled_from([0.0, 0.5, 1.0, 1 / 3, 2.0]))
        c["ts"] = c["t0"] + c["dt"]
        if name in ADAPTIVE:
            o = {}
            if draw(st.booleans()):
                o["rtol"] = draw(st.sampled_from([1e-2, 1e-6]))
            if draw(st.integers(0, 3)) == 0:
                o["first_step"] = draw(st.sampled_from([1e-3, 1.0, 1e3, 1e-12]))
            if draw(st.integers(0, 3)) == 0:
                o["max_step"] = draw(st.sampled_from([0.5, 1e3]))
            c["opts"] = o
        else:
            c["h"] = draw(st.sampled_from([0.125, 0.01, 1.0, 1e-14, 1e5]))
            if name in MULTI:
                c["first"] = draw(st.sampled_from(["none", "auto", "RungeKutta4"] if c["kind"] not in LONG else ["none", "RungeKutta4"]))
        c["bound"] = draw(st.sampled_from([None, None, 0.75, 3.0]))
        c["ops"] = draw(st.lists(st.tuples(st.sampled_from(["step", "skip", "run", "runev", "upto", "skipto", "long"]), st.sampled_from([1, 2, 5, 20, 60]),
                                           st.sampled_from([0.25, 0.5, 1.0, 1.5, 4.0])).map(list), min_size=1, max_size=4))
        return c

    return cases()


def run(c):
    name = c["solver"]
    f = make_rhs(c)
    n = len(c["y0"])
    budget = [0]

    def rhs(t, y):
        budget[0] -= 1
        if budget[0] < 0:
            raise NonTermination("evaluation budget exhausted")
        with np.errstate(all="ignore"):
            return f(t, y)

    kw = dict(c.get("opts", {}))
    if "h" in c:
        kw["h"] = c["h"]
        if name in MULTI:
            kw["first_stepper_cls"] = None if c["first"] == "none" else c["first"]
    t0 = c["t0"]
    if c["bound"] is not None:
        kw["t_bound"] = t0 + c["bound"]
    labels = [c["kind"], name]
    #: evaluations per step: stages, or a root finder giving up; rejections by factors of at least 0.9 down to the
    #: smallest number cost at most 7500 attempts, by the usual 0.2 less than 500
    per_step = 12 * 1000 if name in ADAPTIVE else 60 * (2 * n + 2) + 20
    budget[0] = 400000
    what = f"{name} for {c}"
    loud = (RuntimeError, ValueError, np.linalg.LinAlgError)
    try:
        with under_test(f"constructing {what}", allow=loud):
            s = get(name)(rhs, t0, np.array(c["y0"]), **kw)
    except loud as e:
        return False, labels + ["construction refused"]
    check(np.shape(s.y) == (n,), f"{what}: state of shape {np.shape(s.y)}")
    moved = failed = 0
    bound = kw.get("t_bound", np.inf)
    for op, m, x in c["ops"]:
        before = float(s.t)
        unit = float(s.h) if "h" in c else 1.0
        goal = before + x * (1.0 if name in ADAPTIVE else m * unit)
        if name in ADAPTIVE and c["kind"] in LONG and op in ("run", "runev", "upto", "skipto"):
            # legitimately many steps
            goal = before + 1e-6 * x
            if c["kind"] in ("huge", "nan_y"):
                goal = before
        if goal > bound and op in ("run", "runev", "upto", "skipto"):
            goal = bound
        if op == "long":
            m = 8 * m
        err = res = None
        budget[0] = per_step * (m + 1) if op in ("step", "skip", "long") else 2000000
        did = f"{op} {m if op in ('step', 'skip', 'long') else goal!r} from {before!r}"
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                with under_test(f"{what}, {did}", allow=loud + (NonTermination,)):
                    if op == "step":
                        res = s.step(n=m)
                    elif op in ("skip", "long"):
                        s.skip(n=m)
                    elif op == "upto":
                        res = s.step(upto_t=goal)
                    elif op == "skipto":
                        s.skip(upto_t=goal)
                    elif op == "run":
                        res = s.run([goal])
                    else:
                        res = s.run_events([goal], lambda t, y: y[0] - 1.5)
        except NonTermination as e:
            check(False, f"{what}, {did}: does not come to an end ({e}), the solver is at {float(s.t)!r} with h={float(s.h)!r}")
        except loud as e:
            err = e
        after = float(s.t)
        check(not np.isnan(after) and after >= before, f"{what}, {did}: the time went to {after!r}")
        check(after <= bound, f"{what}, {did}: the time {after!r} is beyond t_bound={bound!r}")
        if err is None and goal >= before:
            if op in ("step", "upto") and np.size(res[0]):
                ts = np.concatenate([[before], res[0]])
                check(np.all(np.diff(ts) > 0), f"{what}, {did}: times {ts.tolist()} do not increase")
                check(np.shape(res[1]) == (len(res[0]), n), f"{what}, {did}: states of shape {np.shape(res[1])}")
            if op == "step":
                check(len(res[0]) == m, f"{what}, {did}: made {len(res[0])} of {m} steps without an error")
            if op in ("skip", "long"):
                check(after > before, f"{what}, {did}: time does not advance")
            if op in ("run", "runev"):
                short = len(res[0]) == 0
                check(not short or goal > bound - unit or name in ADAPTIVE and bound < np.inf, f"{what}, {did}: returned without reaching the time")
                if not short:
                    check(float(res[0][0]) == goal and after >= goal, f"{what}, {did}: returned {res[0]}, the solver is at {after!r}")
        if err is not None:
            failed += 1
            check(str(err) != "" or not isinstance(err, ValueError), f"{what}, {did}: {err!r}")
        if name in ADAPTIVE and abs(after) < 1e100:
            check(np.all(np.isfinite(s.y)) or not np.all(np.isfinite(c["y0"])), f"{what}, {did}: accepted the state {np.array(s.y).tolist()} at t={after!r}")
        # right-hand sides that are integrated without error
        if c["kind"] in ("zero", "const", "zero_state", "tiny", "late_zero") and abs(t0) < 1e4 and "h" not in c and bound == np.inf and op != "long" and after < 1e100 and amax(c["y0"]) <= 10:
            if err is not None:
                check(m > 10, f"{what}, {did}: {err!r} for a harmless right-hand side")
        if c["kind"] in ("nan_always", "inf_always") and name in ADAPTIVE and op in ("step", "skip"):
            check(err is not None, f"{what}, {did}: steps to {after!r} although the right-hand side is {c['kind']}")
        if c["kind"] in ("nan_t", "inf_t") and name in ADAPTIVE and abs(t0) < 1e4 and op == "run" and goal > c["ts"] + 1e-6:
            check(err is not None or bound < np.inf, f"{what}, {did}: reached {after!r} although the right-hand side is not finite after {c['ts']!r}")
        moved += after > before
        if err is not None and not isinstance(err, ValueError):
            # the solver stays usable: it fails again or goes on, it does not hang
            budget[0] = per_step * 3
            try:
                with under_test(f"{what}, step after {err!r}", allow=loud + (NonTermination,)):
                    s.skip(n=1)
            except NonTermination as e:
                check(False, f"{what}: a step after {err!r} does not come to an end")
            except loud:
                pass
            check(float(s.t) >= after and float(s.t) <= bound, f"{what}: a step after {err!r} moves the time to {float(s.t)!r}")
    if failed:
        labels.append("failed loudly")
    return bool(moved or failed), labels


FACETS = [Facet("hostile", strategy, run, quick=4000, thorough=200000, shards=8, rule="the time advanced or a call raised")]
