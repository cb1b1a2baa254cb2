"""C15: compiled and pure Python modes agree."""
import json
import subprocess
import sys
import warnings

import numpy as np

from .. import core, jitlib
from ..core import Facet, Violation, check
from ..prob import ADAPTIVE, ALL, DEPTH, IMPLICIT, dyadic, get, problems, startup_kwargs
from . import c17, c18

TITLE = "Compiled and pure Python modes agree"
_proc = None


def sibling(func, *args, module="pbt.checks.c15"):
    """Result of func(*args) in a process with NBKODE_NONUMBA=1."""
    global _proc
    if _proc is None:
        _proc = subprocess.Popen([core.PYTHON, core.HERE + "/sibling.py"], env=core.env_for("py"), stdin=subprocess.PIPE,
                                 stdout=subprocess.PIPE, text=True)
    _proc.stdin.write(json.dumps(dict(module=module, func=func, args=args)) + "\n")
    _proc.stdin.flush()
    line = _proc.stdout.readline()
    if not line:
        raise AssertionError("the pure Python process ended")
    r = json.loads(line)
    if "error" in r:
        raise AssertionError("pure Python process: " + r["error"])
    return r["result"]


def flat(x):
    return [float(v) for v in np.asarray(x, dtype=float).ravel()]


# -- solvers ----------------------------------------------------------------------------------------------
def construct(c):
    kw = dict(startup_kwargs(c["solver"], c.get("first", "default")))
    kw.update(c.get("opts", {}))
    if "h" in c:
        kw["h"] = c["h"]
    if "bound" in c:
        kw["t_bound"] = c["prob"]["t0"] + c["bound"]
    p = c["prob"]
    return get(c["solver"])(jitlib.rhs, p["t0"], np.array(p["y0"], dtype=float), **kw)


def state(s):
    return [[float(s.t)], flat(s.y), flat(s.f), [float(s.h)], [float(jitlib.count())]]


def operate(s, op):
    """[times, states, ...] of one operation with the given arguments."""
    kind = op[0]
    if kind in ("step", "skip"):
        r = getattr(s, kind)(**{k: v for k, v in (("n", op[1]), ("upto_t", op[2])) if v is not None})
        return [] if r is None else [flat(r[0]), flat(r[1]), [float(d) for d in np.shape(r[1])]]
    if kind == "run":
        r = s.run(np.array(op[1]))
        return [flat(r[0]), flat(r[1]), [float(d) for d in np.shape(r[1])]]
    if kind == "interp":
        return [[op[1]], flat(s.interpolate(op[1]))]
    evs = [jitlib.event(k, **e) for k, e in enumerate(op[2])]
    r = s.run_events(np.array(op[1]), evs if len(evs) != 1 else evs[0])
    out = [flat(r[0]), flat(r[1])]
    for a, b in zip(r[2], r[3]):
        out += [flat(a), flat(b)]
    return out


def execute(c, concrete=None, noise=0.0):
    """Outcome of every operation of case c, in this process' mode."""
    out, args = [], []
    jitlib.load(c["prob"], c.get("limit", 20000.0), noise)
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        try:
            s = construct(c)
        except (Exception, core.NonTermination) as e:
            return dict(out=[dict(exc=type(e).__name__, msg=str(e)[:200], vals=[])], args=[])
        out.append(dict(exc=None, vals=state(s)))
        for k, op in enumerate(c["ops"]):
            if concrete is not None:
                op = concrete[k] if k < len(concrete) else None
                if op is None:
                    break
            else:
                t, h = float(s.t), float(s.h)
                op = list(op)
                if op[0] in ("step", "skip"):
                    op[2] = None if op[2] is None else t + op[2] * h
                elif op[0] == "interp":
                    op[1] = t + op[1] * (t - float(s.cache.ts[0]))
                else:
                    op[1] = [t + x * h for x in op[1]]
                    if op[0] == "ev":
                        evs = []
                        for e in op[2]:
                            e = dict(e, i=e.get("i", 0) % len(s.y), t0=t)
                            if e["kind"] in ("time", "double"):
                                e["c"] = t + e["c"] * h
                                e["ph"] = t + e.get("ph", 0.0) * h
                            elif e["kind"] == "state":
                                e["c"] = float(s.y[e["i"]] + e["c"] * h * s.f[e["i"]])
                            evs.append(e)
                        op[2] = evs
            args.append(op)
            jitlib.BUF[jitlib.COUNT] = 0.0
            try:
                r = operate(s, op)
                out.append(dict(exc=None, vals=r + state(s)))
            except (Exception, core.NonTermination) as e:
                out.append(dict(exc=type(e).__name__, msg=str(e)[:200], vals=state(s)))
                if not isinstance(e, ValueError):
                    break
    return dict(out=out, args=args)


def failure(o):
    """An implicit step without solution: numba refuses NaN in a linear system, NumPy goes on until the iteration fails."""
    return "RuntimeError" if o["exc"] == "LinAlgError" else o["exc"]


def shape(o):
    return failure(o), [len(v) for v in o["vals"]]


def deviation(a, b):
    """Largest difference of each array, infinite where one is not finite and the other is."""
    d = []
    for x, y in zip(a["vals"], b["vals"]):
        x, y = np.array(x), np.array(y)
        same = (x == y) | (np.isnan(x) & np.isnan(y))
        diff = np.abs(np.where(same, 0.0, x - y))
        d.append(float(np.max(np.where(np.isnan(diff), np.inf, diff))) if diff.size else 0.0)
    return d


def compare(jit, py, noisy, base, counts, what):
    """Number of outcomes that were compared; an outcome that rounding errors change decides nothing."""
    for k, want in enumerate(py):
        others = [n[k] if k < len(n) else None for n in noisy]
        if any(o is None or shape(o) != shape(want) for o in others):
            return k, "sensitive to rounding"
        check(k < len(jit), lambda: f"{what}: no outcome of operation {k} in compiled mode")
        got = jit[k]
        check(failure(got) == failure(want), lambda: f"{what}: compiled mode {got['exc'] or 'returns'} {got.get('msg', '')}, pure Python mode {want['exc'] or 'returns'} {want.get('msg', '')} [operation {k}]")
        check(shape(got) == shape(want), lambda: f"{what}: compiled mode gives {got['vals']}, pure Python mode {want['vals']} [operation {k}]")
        slack = [max(v) for v in zip(*[deviation(o, want) for o in others])]
        for j, (d, x) in enumerate(zip(deviation(got, want), want["vals"])):
            if want["vals"] and j == len(want["vals"]) - 1:
                ok = not counts or slack[j] > 0 or d == 0
            else:
                scale = max([abs(v) for v in x if np.isfinite(v)] + [0.0])
                ok = d <= base * scale + 200 * slack[j] + 1e-300 or d == slack[j]
            check(ok, lambda: f"{what}: compiled mode gives {got['vals']}, pure Python mode {want['vals']} [operation {k}, array {j}: {d:.3g}, rounding {slack[j]:.3g}]")
    check(len(jit) == len(py), lambda: f"{what}: compiled mode goes on after {py[-1]}")
    return len(py), "complete"


def pieces(c, nan=False):
    py = sibling("execute", c)
    noisy = [sibling("execute", c, py["args"], k) for k in (1.0, 2.0, 3.0)]
    jit = json.loads(json.dumps(execute(c, py["args"])))
    return jit, py, noisy


def run(c):
    jit, py, noisy = pieces(c)
    what = f"{c['solver']} on {c['prob']} with {({k: v for k, v in c.items() if k not in ('solver', 'prob', 'ops')})}, operations {py['args']}"
    base = 1e-7 if c["solver"] in IMPLICIT else 1e-11
    counts = c["solver"] not in IMPLICIT
    try:
        n, why = compare(jit["out"], py["out"], [x["out"] for x in noisy], base, counts, what)
    except Violation:
        more = noisy + [sibling("execute", c, py["args"], 4.0 + k) for k in range(20)]
        n, why = compare(jit["out"], py["out"], [x["out"] for x in more], base, counts, what)
    labels = [c["solver"], why] + sorted({op[0] for op in py["args"]}) + sorted({"raises " + o["exc"] for o in py["out"] if o["exc"]})
    return n >= 3, labels


def event_d():
    from hypothesis import strategies as st

    @st.composite
    def strat(draw):
        e = dict(kind=draw(st.sampled_from(["time", "sin", "state", "state", "mixed", "double"])), s=draw(st.sampled_from([1.0, -1.0, 1e-3, 1e4, 1e-60, -1e80])))
        if e["kind"] in ("time", "double", "state"):
            e["c"] = draw(st.integers(0, 40)) / 8 + 0.0625
        if e["kind"] == "double":
            e["ph"] = e["c"] + draw(st.sampled_from([0.5, 1.5, 3.0]))
        if e["kind"] in ("sin", "mixed"):
            e["om"] = draw(st.sampled_from([0.5, 1.0, 3.0, 7.0]))
        if e["kind"] == "sin":
            e["ph"] = draw(st.sampled_from([0.5, 1.0, 2.0, -1.0]))
        if e["kind"] == "mixed":
            e["c"] = draw(st.integers(-15, 15)) / 8
        e["i"] = draw(st.integers(0, 3))
        e["direction"] = draw(st.sampled_from([None, None, 0, 1, -1, 0.5, -2.5]))
        e["terminal"] = draw(st.sampled_from([None, None, False, True]))
        return e

    return strat()


def cases(solvers, kinds, max_ops=6):
    from hypothesis import strategies as st

    x = st.integers(0, 48).map(lambda k: k / 8 + 0.0625)
    n = st.sampled_from([1, 2, 3, 7])
    ops = dict(step0=st.just(["step", None, None]), skip0=st.just(["skip", None, None]), stepn=n.map(lambda k: ["step", k, None]),
               skipn=n.map(lambda k: ["skip", k, None]), stepu=x.map(lambda v: ["step", None, v]), skipu=x.map(lambda v: ["skip", None, v]),
               both=st.tuples(st.sampled_from(["step", "skip"]), n, x).map(list),
               run=st.lists(x, min_size=1, max_size=5).map(lambda v: ["run", v]),
               ev=st.tuples(st.lists(x, min_size=1, max_size=4), st.lists(event_d(), min_size=1, max_size=3)).map(lambda a: ["ev", *a]),
               interp=st.integers(-7, 0).map(lambda k: ["interp", k / 8]), far=st.just(["run", [-20.0]]), out=st.just(["interp", 0.5]))
    one = st.sampled_from(kinds).flatmap(lambda k: ops[k])

    @st.composite
    def strat(draw):
        name = draw(st.sampled_from(solvers))
        p = draw(problems(amp=1.0, yamp=2.0, max_n=4))
        p["t0"] = max(min(p["t0"], 100.0), -100.0)
        special = draw(st.integers(0, 9))
        c = dict(solver=name, prob=p)
        if special == 0:
            p["c"] = draw(st.lists(dyadic(0, 2), min_size=p["n"], max_size=p["n"]))
        elif special == 1:
            p["nan_t"] = p["t0"] + draw(st.sampled_from([0.01, 0.3, 1.0, 3.0]))
            p["nan_kind"] = draw(st.sampled_from([0.0, 1.0]))
        elif special == 2:
            p = c["prob"] = dict(n=p["n"], t0=p["t0"], y0=p["y0"])
        if name in ADAPTIVE:
            o = c["opts"] = {}
            if draw(st.booleans()):
                o["rtol"] = draw(st.sampled_from([1e-2, 1e-5, 1e-8]))
                o["atol"] = draw(st.sampled_from([1e-3, 1e-7, 1e-10]))
            if draw(st.integers(0, 2)) == 0:
                o["first_step"] = draw(st.sampled_from([0.125, 0.5, 4.0]))
            if draw(st.integers(0, 3)) == 0:
                o["max_step"] = draw(st.sampled_from([0.25, 0.1]))
            for k, vs in (("min_factor", [0.1, 0.5]), ("max_factor", [2.0, 5.0]), ("safety_factor", [0.8, 0.5])):
                if draw(st.integers(0, 5)) == 0:
                    o[k] = draw(st.sampled_from(vs))
        else:
            c["h"] = draw(st.sampled_from([0.125, 0.25, 0.0625, 0.1, 0.03, 1 / 7]))
            if DEPTH[name] > 1:
                c["first"] = draw(st.sampled_from(["none", "auto"]))
        if draw(st.integers(0, 3)) == 0:
            c["bound"] = draw(st.sampled_from([0.55, 1.3, 3.01]))
        c["ops"] = draw(st.lists(one, min_size=2, max_size=max_ops))
        return c

    return strat()


def spread(names, shard, nshards):
    return names[shard::nshards] or names


def strategy(shard=0, nshards=1):
    # every shard compiles only its own solvers; those that take longest come first
    return cases(spread(ADAPTIVE + [n for n in ALL if n not in ADAPTIVE], shard, nshards),
                 ["step0", "skip0", "stepn", "skipn", "stepu", "skipu", "both", "run", "run", "interp", "far", "out"])


def strategy_ev(shard=0, nshards=1):
    return cases(spread(["RungeKutta45", "DOP853", "RungeKutta23", "BDF3", "RungeKutta4", "AdamsBashforth3", "AdamsMoulton4", "ForwardEuler"], shard, nshards),
                 ["ev", "ev", "ev", "stepn", "run", "interp"], max_ops=4)


def strategy_ev_all(shard=0, nshards=1):
    return cases(spread(ADAPTIVE + [n for n in ALL if n not in ADAPTIVE], shard, nshards), ["ev", "ev", "stepn", "run"], max_ops=4)


# -- root finders -----------------------------------------------------------------------------------------
def strategy_roots():
    from hypothesis import strategies as st

    num = st.integers(-32, 32).map(lambda k: k / 8)

    @st.composite
    def strat(draw):
        which = draw(st.sampled_from(["j_newton", "newton_hd", "bisect"]))
        c = dict(which=which, s=draw(st.sampled_from([1.0, -1.0, 1e-6, 1e6])), a=draw(num), x=draw(num))
        if which == "newton_hd":
            n = draw(st.integers(1, 4))
            vec = st.lists(num, min_size=n, max_size=n)
            c.update(kind=draw(st.sampled_from([0, 1, 1, 2, 3])), A=[draw(vec) for _ in range(n)], b=draw(vec), y0=draw(vec), shift=draw(vec))
            if draw(st.booleans()):
                for i in range(n):
                    c["A"][i][i] += 8.0
        else:
            c.update(kind=draw(st.sampled_from([0, 0, 0, 1, 2, 3, 4])), c=draw(st.lists(num, min_size=1, max_size=5)))
        if which == "j_newton":
            c["der"] = draw(st.sampled_from([0, 0, 1, 1, 2]))
            if draw(st.integers(0, 3)) == 0:
                c["x1"] = draw(num)
        if which == "bisect":
            c["w"] = draw(st.sampled_from([0.0, 0.5, 1.0, 3.0, 8.0, -1.0]))
        c["tol"] = draw(st.sampled_from([1.48e-8, 1e-3, 1e-12]))
        c["maxiter"] = draw(st.sampled_from([50, 50, 3, 1, 200]))
        return c

    return strat()


def roots(c, noise=0.0):
    from nbkode.nbcompat import j_newton, newton_hd
    from nbkode.nbcompat.zeros import bisect

    which = c["which"]
    x, a = c["x"], c["a"] * (1 + noise)
    jitlib.load_fn(c["kind"], c["s"] * (1 + noise), [v * (1 + noise * k) for k, v in enumerate(c.get("c", []))], c.get("A"), c.get("b"))
    try:
        with np.errstate(all="ignore"):
            if which == "j_newton":
                kw = dict(args=(a,), tol=c["tol"], maxiter=c["maxiter"])
                if "x1" in c:
                    kw["x1"] = c["x1"]
                if c["der"] >= 1:
                    kw["fprime"] = jitlib.fn1
                if c["der"] >= 2:
                    kw["fprime2"] = jitlib.fn2
                r = j_newton(jitlib.fn0, x, **kw)
            elif which == "bisect":
                r = bisect(jitlib.fn0, x, x + c["w"], args=(a,), tol=c["tol"], maxiter=c["maxiter"])
            else:
                y0 = np.array(c["y0"])
                r = newton_hd(jitlib.fnv, y0, args=(np.array(c["shift"]) * (1 + noise),), atol=c["tol"], maxiter=c["maxiter"])
                if not np.array_equal(y0, c["y0"]):
                    return dict(exc="modifies its start", vals=[])
        return dict(exc=None, vals=[flat(r), [float(jitlib.BUF[jitlib.FN + 15])]])
    except Exception as e:
        return dict(exc=type(e).__name__, msg=str(e)[:200], vals=[[float(jitlib.BUF[jitlib.FN + 15])]])


def run_roots(c):
    py = sibling("roots", c)
    noisy = [sibling("roots", c, k) for k in (3e-16, -3e-16, 7e-16)]
    got = json.loads(json.dumps(roots(c)))
    what = f"{c['which']} for {c}"
    base = 1e-9 if c["which"] == "newton_hd" else 1e-13
    try:
        n, why = compare([got], [py], [[x] for x in noisy], base, True, what)
    except Violation:
        more = noisy + [sibling("roots", c, k * 1e-16) for k in range(-12, 13) if k]
        n, why = compare([got], [py], [[x] for x in more], base, True, what)
    return n == 1 and py["vals"][-1][0] > 2, [c["which"], why, "raises " + py["exc"] if py["exc"] else "returns"]


FACETS = [
    Facet("histories", strategy, run, quick=400, thorough=40000, shards=8, mode="jit", rule="at least three outcomes compared in both modes"),
    Facet("events", strategy_ev, run, quick=200, thorough=0, shards=8, mode="jit", rule="at least three outcomes compared in both modes"),
    Facet("roots", strategy_roots, run_roots, quick=2000, thorough=100000, shards=2, mode="jit", rule="more than two evaluations"),
    Facet("elementwise", c18.strategy_elem, c18.run_elem, quick=2000, thorough=20000, shards=1, mode="jit", rule="the values differ"),
    Facet("newton", c17.strategy, c17.run, quick=2000, thorough=20000, shards=1, mode="jit", rule="the functions were evaluated more than twice"),
    Facet("events all", strategy_ev_all, run, quick=0, thorough=20000, shards=8, mode="jit"),
]
