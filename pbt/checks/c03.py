"""C03: multistep start-up builds an equally spaced, accurate history from t0."""
import numpy as np
from hypothesis import strategies as st

from ..core import Facet, check, under_test
from ..prob import (ABS, ADAPTIVE, AMS, BDFS, DEPTH, ERKS, MULTI, Problem, amax, finite, get, hermite,
                    multistep_coefs, problems, same_t, startup_kwargs, ulp)

TITLE = "Multistep start-up builds an equally spaced, accurate history from t0"


def strategy():
    @st.composite
    def cases(draw):
        name = draw(st.sampled_from(MULTI + [m for m in ABS + AMS + BDFS if DEPTH[m] > 1] * 3))
        p = draw(problems(amp=1.0, scales=(1.0, 1.0, 1e-3, 100.0)))
        h = draw(st.sampled_from([2.0 ** -k for k in range(2, 8)] + [0.1, 0.01, 0.07, 1 / 3]))
        first = draw(st.sampled_from(["default", "auto", "none"] + ADAPTIVE * 2 + ERKS + MULTI))
        return dict(solver=name, prob=p, h=h, first=first, by=draw(st.sampled_from(["class", "name", "lower"])),
                    fr=draw(st.integers(1, 7)) / 8)

    return cases()


def reference_history(p, name, first, h):
    """Times and states a first stepper produces at t0 + j h."""
    k = DEPTH[name]
    if first in ("default", "auto"):
        first = "RungeKutta45"
    out = [(p.t0, p.y0)]
    if first in ADAPTIVE:
        s = get(first)(p.rhs(100000), p.t0, p.y0)
        ts = [p.t0 + j * h for j in range(1, k)]
        tt, yy = s.run(np.array(ts))
        assert len(tt) == k - 1
        out += list(zip(ts, yy))
    else:
        s = get(first)(p.rhs(100000), p.t0, p.y0, h=h)
        if DEPTH[first] > 1:
            out += reference_history(p, first, "auto", h)[1:]
        while len(out) < k:
            ts, ys = s.step(n=1)
            out.append((float(ts[0]), ys[0]))
        out = out[:k]
    return out


def run(case):
    p = Problem(case["prob"])
    name, h, first = case["solver"], case["h"], case["first"]
    cls = get(name)
    k = DEPTH[name]
    kw = startup_kwargs(name, first)
    if kw.get("first_stepper_cls") not in (None, "auto"):
        if case["by"] == "class":
            kw["first_stepper_cls"] = get(first)
        # names are looked up ignoring case, as everywhere
        elif case["by"] == "lower":
            kw["first_stepper_cls"] = first.lower()
    try:
        ref = [(p.t0, p.y0)] if k == 1 or first == "none" else reference_history(p, name, first, h)
    except (RuntimeError, np.linalg.LinAlgError):
        return False, ["start-up equation without solution"]
    y0 = p.y0.copy()
    with under_test(f"constructing {name} with first stepper {first}"):
        sol = cls(p.rhs(200000), p.t0, y0, h=h, **kw)
    labels = [name, "first:" + first]
    m = len(ref)
    scale = max(max(amax(y) for t, y in ref), h * max(p.fscale(*pt) for pt in ref), 1e-300)
    tol = 1e-11 * scale
    t_end = ref[-1][0]
    check(same_t(sol.t, p.t0 + (m - 1) * h, 8, max(abs(p.t0), m * h)), f"{name} first={first}: starts at t={sol.t!r} instead of t0+{m - 1}h={t_end!r}")
    check(amax(sol.y - ref[-1][1]) <= tol, f"{name} first={first}: y={sol.y.tolist()} instead of {ref[-1][1].tolist()} at t={t_end}")
    if m == 1:
        check(sol.t == p.t0 and np.array_equal(sol.y, p.y0), f"{name}: does not start exactly at (t0, y0)")
    f_end = p.f(float(sol.t), np.array(sol.y))
    check(amax(sol.f - f_end) <= 1e-12 * p.fscale(float(sol.t), np.array(sol.y)) + 1e-280, f"{name}: f is not the rhs at (t, y)")
    # recorded history, through the continuous solution: nodes and mid points
    hist = [(t, y, p.f(t, y)) for t, y in ref]
    for j in range(m):
        tj = min(max(ref[j][0], p.t0), float(sol.t))
        with under_test(f"{name}.interpolate(t0+{j}h)"):
            yj = sol.interpolate(tj)
        slack = 16 * ulp(max(abs(tj), abs(p.t0) + m * h)) * p.fscale(*ref[j])
        check(amax(yj - ref[j][1]) <= tol + slack, f"{name} first={first}: history at t0+{j}h is {np.asarray(yj).tolist()} instead of {ref[j][1].tolist()}")
        if j and 1e-9 * abs(p.t0) < h:
            (ta, ya, fa), (tb, yb, fb) = hist[j - 1], hist[j]
            tm = ta + case["fr"] * (tb - ta)
            with under_test(f"{name}.interpolate"):
                ym = sol.interpolate(tm)
            yr = hermite(ta, ya, fa, tb, yb, fb, tm)
            slack = 64 * ulp(max(abs(ta), abs(tb))) * max(p.fscale(ta, ya), p.fscale(tb, yb))
            check(amax(ym - yr) <= 10 * tol + slack, f"{name} first={first}: between t0+{j - 1}h and t0+{j}h, {np.asarray(ym).tolist()} instead of {yr.tolist()}")
    # the first steps use that history
    a, b, bn = multistep_coefs(name)
    hist = [(p.t0, p.y0, p.f(p.t0, p.y0))] * k if m == 1 else hist
    hL = h * bn * p.L
    for s in range(k + 1):
        try:
            ts, ys = sol.step(n=1)
        except (RuntimeError, np.linalg.LinAlgError):
            return False, labels + ["implicit equation not solved"]
        tn, yn = float(ts[0]), ys[0]
        if not finite(yn) or amax(yn) > 1e10 * scale:
            break
        pts = hist[-k:]
        fn = p.f(tn, yn)
        ref_y = sum(ai * y for ai, (t, y, f) in zip(a, pts)) + h * sum(bi * f for bi, (t, y, f) in zip(b, pts)) + h * bn * fn
        sc = max(scale, amax(yn), h * p.fscale(tn, yn), max(amax(y) for t, y, f in pts))
        ntol = (2.5e-8 * (1 + hL) if bn else 0.0) + 1e-10 * sc
        check(amax(ref_y - yn) <= ntol, f"{name} first={first}: step {s + 1} after start-up gives {yn.tolist()}, from the history it should be {ref_y.tolist()}")
        check(same_t(tn, float(hist[-1][0]) + h, 8, max(abs(p.t0), m * h)), f"{name}: step {s + 1} after start-up leads to t={tn!r}")
        hist.append((tn, np.array(yn), fn))
    return m > 1 and p.nontrivial, labels


FACETS = [Facet("startup", strategy, run, quick=2400, thorough=100000, shards=8,
                rule="a history of at least two points was built and f(t0, y0) != 0")]
