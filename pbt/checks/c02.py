"""C02: implicit fixed-step solvers solve their published implicit equation, or raise."""
import numpy as np
from hypothesis import strategies as st

from ..core import Facet, Violation, check, under_test
from ..prob import (DEPTH, IMPLICIT, Problem, amax, compiled, finite, firsts, get, multistep_coefs, only, problems, same_t, startup_kwargs,
                    steps_h)

TITLE = "Implicit fixed-step solvers solve their published implicit equation"
NEWTON_TOL = 1.48e-8


def strategy():
    @st.composite
    def cases(draw):
        name = draw(st.sampled_from(only(IMPLICIT)))
        p = draw(problems(amp=draw(st.sampled_from([0.5, 2.0, 8.0])), scales=(1.0, 1.0, 1.0, 1e-6, 1e3, 1e6)))
        h = draw(steps_h())
        first = "default"
        if DEPTH[name] > 1:
            first = draw(st.sampled_from(firsts(["none", "none", "auto", "ForwardEuler", "RungeKutta4"])))
        ops = draw(st.lists(st.sampled_from([0, 0, 1, 2, 5]), min_size=1, max_size=8))
        return dict(solver=name, prob=p, h=h, first=first, ops=ops)

    return cases()


def strategy_hard():
    """Equations that may have no (unique) solution: singular, strongly non-linear or non-finite."""

    @st.composite
    def cases(draw):
        name = draw(st.sampled_from(IMPLICIT))
        kind = draw(st.sampled_from(["square", "cube", "exp", "resonant", "sqrt", "nan", "wiggle", "kink"]))
        n = draw(st.sampled_from([1, 1, 2, 3]))
        return dict(solver=name, kind=kind, n=n, h=draw(st.sampled_from([0.25, 0.5, 1.0, 2.0])),
                    c=draw(st.integers(-24, 24)) / 8, y0=[draw(st.integers(-24, 24)) / 8 for _ in range(n)],
                    steps=draw(st.integers(1, 5)), t0=draw(st.integers(-8, 8)) / 4)

    return cases()


def hard_rhs(case, beta):
    c, kind, h = case["c"], case["kind"], case["h"]

    def f(t, y):
        if kind == "square":
            return y * y + c
        if kind == "cube":
            return c * y * y * y + 1.0
        if kind == "exp":
            return np.exp(np.minimum(y, 600.0)) + c
        if kind == "resonant":
            return y / (h * beta) + c
        if kind == "sqrt":
            return np.sqrt(np.abs(y)) + c
        if kind == "nan":
            return np.where(y > c, np.nan, y + 1.0)
        if kind == "wiggle":
            return 8 * np.sin(4 * y) + c
        return np.abs(y - c) * 4 + t

    return f


def residual(k, a, b, bn, h, f, hist, tn, yn):
    pts = hist[-k:]
    K = sum(ai * yy for ai, (tt, yy) in zip(a, pts))
    scale = max(amax(yy) for tt, yy in pts)
    for bi, (tt, yy) in zip(b, pts):
        if bi != 0:
            fy = f(tt, yy)
            K = K + h * bi * fy
            scale = max(scale, h * abs(bi) * amax(fy))
    fn = f(tn, yn)
    return amax(yn - h * bn * fn - K), scale


def run(case):
    p = Problem(case["prob"])
    name, h = case["solver"], case["h"]
    a, b, bn = multistep_coefs(name)
    hL = h * bn * p.L
    # scale of rounding in the residual
    with under_test("constructing"):
        sol = get(name)(p.rhs(200000), p.t0, p.y0, h=h, **startup_kwargs(name, case["first"]))
    k = DEPTH[name]
    t, y = float(sol.t), np.array(sol.y)
    if case["first"] in ("none", "default"):
        check(t == p.t0 and np.array_equal(y, p.y0), f"{name}: does not start at (t0, y0): {t}, {y}")
        hist = [(p.t0, p.y0)] * k
    else:
        hist = [(t, y)]
    labels = [name, "n=%d" % p.n]
    checked = 0
    for m in case["ops"]:
        before = (float(sol.t), np.array(sol.y))
        big = max(amax(before[1]), h * p.fscale(before[0] + h, before[1]))
        easy = hL < 0.5 and big < 3e6
        try:
            if m == 0:
                ts, ys = sol.step()
                ys = np.reshape(ys, (1, p.n))
            else:
                ts, ys = sol.step(n=m)
        except Exception as e:
            if easy and m <= 1:
                raise Violation(f"{name}: step failed with {type(e).__name__} {e} although the equation is contractive "
                                f"(h*beta*L={hL:.3g}), from t={before[0]!r}, y={before[1].tolist()}")
            return checked >= 2 and p.nontrivial, labels + ["raised"]
        check(np.shape(ts) == (max(m, 1),) and np.shape(ys) == (max(m, 1), p.n), f"step shapes {ts.shape} {ys.shape}")
        check(float(sol.t) == ts[-1] and np.array_equal(sol.y, ys[-1]), "solver.t, y are not the last step returned")
        for tn, yn in zip(ts, ys):
            check(finite(yn), f"{name}: step returned {yn.tolist()} silently")
            if len(hist) >= k:
                told, yold = hist[-1]
                check(same_t(tn, told + h, 4, max(abs(told), h)), f"{name}: t advanced from {told!r} to {tn!r} with h={h!r}")
                res, scale = residual(k, a, b, bn, h, p.f, hist, tn, yn)
                scale = max(scale, h * bn * p.fscale(tn, yn), amax(yn), h * max(p.fscale(*pt) for pt in hist[-k:]))
                tol = 1.5 * NEWTON_TOL * (1 + hL) + 1e-11 * scale
                check(res <= tol, f"{name}: step from t={told!r} with h={h!r} to y={yn.tolist()} leaves a residual of "
                      f"{res:.3g} (tolerance {tol:.3g}) in the implicit formula")
                checked += 1
            hist.append((float(tn), np.array(yn)))
        fref = p.f(hist[-1][0], hist[-1][1])
        check(amax(fref - sol.f) <= 1e-12 * p.fscale(*hist[-1]) + 1e-280,
              f"{name}: f is {sol.f.tolist()}, the right-hand side at (t, y) is {fref.tolist()}")
    return checked >= 2 and p.nontrivial, labels


def run_hard(case):
    name, h = case["solver"], case["h"]
    a, b, bn = multistep_coefs(name)
    f = hard_rhs(case, bn)
    n = case["n"]
    y0 = np.array(case["y0"])
    k = DEPTH[name]
    with under_test("constructing"):
        sol = get(name)(f, case["t0"], y0, h=h, **startup_kwargs(name, "none"))
    hist = [(case["t0"], y0)] * k
    labels = [case["kind"]]
    checked = 0
    for _ in range(case["steps"]):
        try:
            ts, ys = sol.step(n=1)
        except Exception:
            return True, labels + ["raised"]
        tn, yn = float(ts[0]), ys[0]
        check(finite(yn), f"{name}: step returned {yn.tolist()} silently")
        if amax(yn) > 1e6:
            break
        res, scale = residual(k, a, b, bn, h, f, hist, tn, yn)
        # slope of the residual: the scalar root finder stops on the change of y
        d = 2e-8 * max(1.0, amax(yn))
        slope = 1 + h * bn * max(amax(np.nan_to_num(f(tn, yn + s * d) - f(tn, yn))) for s in (-1, 1)) / d
        tol = 2 * NEWTON_TOL * (slope if n == 1 else 1.0) + 1e-11 * max(scale, h * amax(f(tn, yn)), amax(yn))
        check(res <= tol, f"{name} ({case['kind']}): step to y={yn.tolist()} leaves a residual of {res:.3g} "
              f"(tolerance {tol:.3g}) in the implicit formula")
        hist.append((tn, np.array(yn)))
        checked += 1
    return checked >= 1, labels + ["solved"]


FACETS = [Facet("equation", strategy, run, quick=2400, thorough=120000, shards=8,
                rule="at least two steps compared and f(t0, y0) != 0"),
          Facet("hard", strategy_hard, run_hard, quick=1600, thorough=60000, shards=4,
                rule="at least one step solved or refused with an error")]
