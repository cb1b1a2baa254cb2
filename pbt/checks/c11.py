"""C11: results stay valid and callers' data is never touched."""
import numpy as np
from hypothesis import strategies as st

from ..core import Facet, check, under_test
from ..prob import ADAPTIVE, ALL, DEPTH, Problem, dyadic, get, problems, startup_kwargs

TITLE = "Results stay valid and callers' data is never touched"


def op():
    n = st.sampled_from([1, 1, 2, 3])
    x = dyadic(0, 4, 4)
    return st.one_of(
        st.just(["step0"]), st.just(["skip0"]), n.map(lambda k: ["stepn", k]), n.map(lambda k: ["skipn", k]),
        x.map(lambda a: ["stepu", a]), x.map(lambda a: ["skipu", a]),
        st.lists(dyadic(-1, 4, 4), min_size=1, max_size=4).map(lambda a: ["run", a]),
        st.tuples(st.lists(dyadic(0, 4, 4), min_size=1, max_size=4), st.integers(0, 4)).map(lambda a: ["runev", sorted(a[0]) if a[1] > 2 else a[0], a[1]]),
        dyadic(-1, 0, 4).map(lambda a: ["interp", a]), st.sampled_from(["interp0", "interp1"]).map(lambda a: [a]))


def strategy():
    @st.composite
    def cases(draw):
        p = draw(problems(amp=1.0, yamp=2.0, max_n=3))
        p["t0"] = max(min(p["t0"], 100.0), -100.0)
        k = draw(st.integers(1, 3))
        base = draw(st.sampled_from(ALL + ADAPTIVE * 6))
        sols = []
        for _ in range(k):
            name = draw(st.sampled_from([base, base, base] + ALL))
            c = dict(solver=name, dt=draw(st.sampled_from([0.125, 0.1, 0.25])))
            if name in ADAPTIVE:
                c["first_step"] = draw(st.sampled_from([None, 0.125, 1.0]))
            elif DEPTH[name] > 1:
                c["first"] = draw(st.sampled_from(["none", "auto", "RungeKutta4"]))
            sols.append(c)
        ops = draw(st.lists(st.tuples(st.integers(0, k - 1), op()).map(list), min_size=3, max_size=14))
        return dict(prob=p, sols=sols, ops=ops, scribble=draw(st.booleans()), params=draw(st.booleans()),
                    late=draw(st.integers(0, 6)))

    return cases()


def make(c, rhs, t0, y0, params):
    kw = startup_kwargs(c["solver"], c.get("first", "default"))
    if c["solver"] in ADAPTIVE:
        if c["first_step"]:
            kw["first_step"] = c["first_step"]
    else:
        kw["h"] = c["dt"]
    if params is not None:
        kw["params"] = params
    return get(c["solver"])(rhs, t0, y0, **kw)


def oldest(sol):
    """Start of the recorded history."""
    try:
        return float(sol.cache.ts[0])
    except AttributeError:
        return float(sol.t)


def apply(sol, c, o, arrays):
    """Returns the arrays the call returned."""
    t = float(sol.t)
    dt = c["dt"]
    kind = o[0]
    if kind == "step0":
        return list(sol.step())
    if kind == "skip0":
        sol.skip()
        return []
    if kind == "stepn":
        return list(sol.step(n=o[1]))
    if kind == "skipn":
        sol.skip(n=o[1])
        return []
    if kind == "stepu":
        return list(sol.step(upto_t=t + o[1] * dt))
    if kind == "skipu":
        sol.skip(upto_t=t + o[1] * dt)
        return []
    if kind in ("run", "runev"):
        lo = oldest(sol)
        ts = np.array([max(t + x * dt, lo) for x in o[1]])
        arrays.append((ts, ts.copy()))
        if kind == "run":
            return list(sol.run(ts))
        ev = [lambda t, y: np.sin(5 * t), lambda t, y: y[0] - 0.25]
        # 0: both; 1: the first; 2, 3: the first ends the run; 4: so does the second
        ev[0].terminal = o[2] in (2, 3)
        ev[1].terminal = o[2] == 4
        tt, yy, te, ye = sol.run_events(ts, ev[:1] if o[2] == 1 else ev)
        return [tt, yy] + [np.array(x) for x in te] + [y for x in ye for y in x]
    lo = oldest(sol)
    tau = dict(interp0=lo, interp1=t).get(kind)
    if tau is None:
        tau = max(lo, t + o[1] * dt)
    return [sol.interpolate(tau)]


def run(case):
    p = Problem(case["prob"])
    params = np.array([0.5, 0.25]) if case["params"] else None
    rhs0 = p.rhs(500000)
    # a plain function: it is shared by all solvers
    if params is None:
        def rhs(t, y):
            return rhs0(t, y)
    else:
        def rhs(t, y, a):
            return rhs0(t, y) * a[0] + a[1]

    sols_c = case["sols"]
    names = [c["solver"] for c in sols_c]

    def solo(i):
        """What solver i does alone, with its own data."""
        try:
            s = make(sols_c[i], rhs, p.t0, p.y0.copy(), None if params is None else params.copy())
        except (RuntimeError, np.linalg.LinAlgError):
            return None
        out = []
        for w, o in case["ops"]:
            if w != i:
                continue
            try:
                out.append([np.array(a) for a in apply(s, sols_c[i], o, [])])
            except (RuntimeError, np.linalg.LinAlgError) as e:
                out.append(e)
                break
        return out, float(s.t), np.array(s.y), np.array(s.f)

    want = [solo(i) for i in range(len(sols_c))]
    if any(w is None for w in want):
        return False, ["start-up equation without solution"]
    y0 = p.y0.copy()
    y0_kept = y0.copy()
    par_kept = None if params is None else params.copy()
    kept, inputs = [], []
    live = []
    for i, c in enumerate(sols_c):
        with under_test(f"constructing {c['solver']}"):
            live.append(make(c, rhs, p.t0, y0, params))
    check(np.array_equal(y0, y0_kept), f"{names}: y0 changed from {y0_kept.tolist()} to {y0.tolist()} by the constructor")
    if case["scribble"]:
        y0[:] = -77.0
        y0_kept = y0.copy()
    done = [0] * len(live)
    failed = [False] * len(live)
    for w, o in case["ops"]:
        if failed[w]:
            continue
        what = f"{names[w]} (solver {w} of {names}) {o}"
        try:
            got = apply(live[w], sols_c[w], o, inputs)
        except (RuntimeError, np.linalg.LinAlgError) as e:
            check(isinstance(want[w][0][done[w]], Exception), f"{what}: raises {e!r}, alone it does not")
            failed[w] = True
            continue
        exp = want[w][0][done[w]]
        done[w] += 1
        check(not isinstance(exp, Exception), f"{what}: does not raise {exp!r} as it does alone")
        check(len(got) == len(exp) and all(np.array_equal(a, b, equal_nan=True) for a, b in zip(got, exp)),
              lambda: f"{what}: returns {[np.asarray(a).tolist() for a in got]}; alone, on its own data, {[b.tolist() for b in exp]}")
        for a, b in inputs:
            check(np.array_equal(a, b), f"{what}: an array of times given to run was changed from {b.tolist()} to {a.tolist()}")
        if case["scribble"] and inputs:
            inputs[-1][0][:] = -55.0
            inputs[-1] = (inputs[-1][0], inputs[-1][0].copy())
        check(np.array_equal(y0, y0_kept), f"{what}: y0 was changed from {y0_kept.tolist()} to {y0.tolist()}")
        check(params is None or np.array_equal(params, par_kept), f"{what}: params was changed to {params}")
        for a, b, who in kept:
            check(np.array_equal(a, b, equal_nan=True), lambda: f"{what}: the result of an earlier call ({who}) changed from {b.tolist()} to {np.asarray(a).tolist()}")
        kept += [(a, np.array(a), what) for a in got]
    for i, s in enumerate(live):
        if failed[i]:
            continue
        out, t, y, f = want[i]
        check(float(s.t) == t and np.array_equal(s.y, y, equal_nan=True) and np.array_equal(s.f, f, equal_nan=True),
              lambda: f"{names[i]} (solver {i} of {names}) ends at t={float(s.t)!r}, y={s.y.tolist()}, alone at t={t!r}, y={y.tolist()}")
    return sum(done) >= 3 and len(kept) >= 2 and p.nontrivial, sorted(set(names))


FACETS = [Facet("interleaved", strategy, run, quick=4000, thorough=200000, shards=8,
                rule="at least three calls were made, at least two of them returned arrays, f(t0, y0) != 0")]
