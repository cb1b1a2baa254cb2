"""C05: every solver converges to the true solution at its stated order."""
import warnings

import numpy as np
from hypothesis import strategies as st

from ..core import Facet, check, under_test
from ..prob import ADAPTIVE, DEPTH, FIXED, IMPLICIT, ORDER, Problem, amax, dyadic, finite, get, problems, ulp

TITLE = "Every solver converges to the true solution at its stated order"
_TIGHT = []


def tight():
    """A first stepper whose error does not show: DOP853 with tight tolerances."""
    if not _TIGHT:
        import nbkode

        class VerifTightDOP853(nbkode.DOP853):
            def __init__(self, *args, **kwargs):
                super().__init__(*args, rtol=1e-12, atol=1e-13, **kwargs)

        _TIGHT.append(VerifTightDOP853)
    return _TIGHT[0]


def exact(p, ts):
    from scipy.integrate import solve_ivp

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        s = solve_ivp(p.f, (p.t0, float(ts[-1])), p.y0, method="DOP853", t_eval=ts, rtol=2.3e-14, atol=1e-15)
    assert s.success and s.y.shape[1] == len(ts)
    return s.y.T


def strategy():
    @st.composite
    def cases(draw):
        p = draw(problems(amp=1.0, yamp=2.0, max_n=3, forms=("lin", "time", "nonlin", "full", "full"), t0=False))
        p["t0"] = draw(dyadic(-4, 4))
        return dict(solver=draw(st.sampled_from(FIXED)), prob=p, k=draw(st.integers(4, 5)), fr=draw(st.integers(1, 7)) / 8)

    return cases()


def run(case):
    p = Problem(case["prob"])
    name = case["solver"]
    order = ORDER[name]
    L = max(p.L, amax(p.w), 0.5)
    if p.has_q:
        # sin(y) changes as fast as y does
        L = max(L, 1.5 * p.fscale(p.t0, p.y0))
    # L*h of the coarsest grid between 1/16 and 1/32: already in the asymptotic regime
    h0 = 2.0 ** -np.ceil(np.log2(L) + case["k"])
    span = 24 * h0
    grid = p.t0 + np.arange(8, 25) * h0  # start-up needs at most 5 steps
    off = grid[:-1] + case["fr"] * h0
    both = np.sort(np.concatenate((grid, off)))
    ex = exact(p, both)
    errs, errs_i = [], []
    for r in (1, 2, 4, 8):
        h = h0 / r
        kw = dict(first_stepper_cls=tight()) if DEPTH[name] > 1 else {}
        with under_test(f"{name} with h={h}"):
            sol = get(name)(p.rhs(10000000), p.t0, p.y0, h=h, **kw)
            tt, yy = sol.run(both)
        check(np.array_equal(tt, both), f"{name}: run returned times {tt} for {both}")
        if not finite(yy):
            check(False, f"{name}: run gives {yy}")
        on = np.isin(both, grid)
        e = np.abs(yy - ex)
        errs.append(float(np.sqrt(np.mean(e[on] ** 2))))
        errs_i.append(float(np.sqrt(np.mean(e[~on] ** 2))))
    scale = max(amax(ex), h0 * max(p.fscale(t, y) for t, y in zip(both, ex)), 1e-300)
    steps = span / h0 * 8
    floor = 1e-12 * scale * steps
    # between steps the Hermite interpolant limits to fourth order; its own error is bounded by its 4th derivative
    labels = [name]
    growth = np.exp(2 * L * span)
    if name in IMPLICIT:
        floor += 2e-8 * steps * growth * (3 if name.startswith("BDF") else 1)
    floor += 1e-11 * scale * growth + ulp(abs(p.t0) + span) * max(p.fscale(t, y) for t, y in zip(both, ex)) * 4
    for what, q, e in (("on the steps", order, errs), ("between steps", min(order, 4), errs_i)):
        # Errors of some step size may be small by cancellation: any of the three ratios settles it.
        ok = e[3] <= floor or any(e[3] <= e[i] * 2.0 ** (-(q - 0.5) * (3 - i)) for i in range(3))
        check(ok, f"{name} (order {order}): rms error {what} goes as {e} when h={h0} is halved three times; "
              f"expected to fall by {2 ** q} each time down to {floor:.3g}")
    # errors themselves are small
    check(errs[0] <= 100 * scale * (L * h0) ** order * growth + floor,
          f"{name}: rms error {errs[0]:.3g} with h*L={L * h0:.3g}, order {order}, solution size {scale:.3g}")
    return p.nontrivial and errs[0] > 4 * floor, labels


def strategy_adaptive():
    @st.composite
    def cases(draw):
        p = draw(problems(amp=1.0, yamp=2.0, max_n=3))
        name = draw(st.sampled_from(ADAPTIVE))
        tol = draw(st.sampled_from([1e-2, 1e-3, 1e-4, 1e-5, 1e-6] + ([1e-8, 1e-10] if name != "RungeKutta23" else [])))
        return dict(solver=name, prob=p, tol=tol, ratio=draw(st.sampled_from([1.0, 0.1, 1e-3])),
                    m=draw(st.integers(2, 40)), default=draw(st.integers(0, 5)) == 0)

    return cases()


def run_adaptive(case):
    p = Problem(case["prob"])
    name, tol = case["solver"], case["tol"]
    o = dict(rtol=tol, atol=tol * case["ratio"])
    if case["default"]:
        tol, o = 1e-3, {}
    L = max(p.L, amax(p.w), 0.5)
    span = 3.0 / L * 2
    ts = p.t0 + np.linspace(0, span, case["m"])
    ex = exact(p, ts)
    with under_test(f"{name} {o}"):
        sol = get(name)(p.rhs(10000000), p.t0, p.y0, **o)
        tt, yy = sol.run(ts)
    check(np.array_equal(tt, ts), f"{name}: run returned times {tt} for {ts}")
    scale = max(amax(ex), 1e-300)
    fs = max(p.fscale(t, y) for t, y in zip(ts, ex))
    err = amax(yy - ex)
    lim = case_bound(name) * tol * max(scale, fs / L, 1.0) + 1e-11 * scale + 8 * ulp(abs(p.t0) + span) * fs
    check(err <= lim, f"{name} {o}: error {err:.3g} of the solution returned by run, expected at most {lim:.3g}")
    return p.nontrivial and err > 0, [name, "ratio<%.0e" % (10 ** np.ceil(np.log10(max(err / (tol * max(scale, fs / L, 1.0)), 1e-9))))]


def case_bound(name):
    return 300.0


FACETS = [Facet("order", strategy, run, quick=900, thorough=60000, shards=8,
                rule="f(t0, y0) != 0 and the error of the coarsest grid is at least four times the floor"),
          Facet("tolerance", strategy_adaptive, run_adaptive, quick=400, thorough=40000, shards=4,
                rule="f(t0, y0) != 0 and a non-zero error")]
