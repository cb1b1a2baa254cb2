"""C01: explicit fixed-step solvers advance by their published formula."""
import numpy as np
from hypothesis import strategies as st

from ..core import Facet, check, under_test
from ..prob import (ABS, DEPTH, ERKS, EXPLICIT, TABLEAUX, Problem, amax, compiled, erk_step, finite, firsts, get, multistep_coefs,
                    only, problems, same_t, startup_kwargs, steps_h)

TITLE = "Explicit fixed-step solvers advance by their published formula"


def strategy():
    @st.composite
    def cases(draw):
        name = draw(st.sampled_from(only(EXPLICIT)))
        p = draw(problems(scales=(1.0, 1.0, 1e-6, 1e6)))
        h = draw(steps_h())
        first = "default"
        if name in ABS and name != "AdamsBashforth1":
            first = draw(st.sampled_from(firsts(["none", "none", "auto", "ForwardEuler", "RungeKutta4"])))
        ops = draw(st.lists(st.sampled_from([0, 0, 1, 2, 3, 7]), min_size=1, max_size=8))
        return dict(solver=name, prob=p, h=h, first=first, ops=ops)

    return cases()


def run(case):
    p = Problem(case["prob"])
    name, h = case["solver"], case["h"]
    with under_test("constructing"):
        sol = get(name)(p.rhs(100000), p.t0, p.y0, h=h, **startup_kwargs(name, case["first"]))
    k = DEPTH[name]
    t, y = float(sol.t), np.array(sol.y)
    if case["first"] in ("none", "default"):
        check(t == p.t0 and np.array_equal(y, p.y0), f"{name}: does not start at (t0, y0): {t}, {y}")
        hist = [(p.t0, p.y0)] * k
    else:
        hist = [(t, y)]
    labels = [name, "n=%d" % p.n]
    checked = 0
    for m in case["ops"]:
        with under_test(f"{name}.step"):
            if m == 0:
                ts, ys = sol.step()
                ys = np.reshape(ys, (1, p.n))
            else:
                ts, ys = sol.step(n=m)
        check(np.shape(ts) == (max(m, 1),) and np.shape(ys) == (max(m, 1), p.n), f"step shapes {ts.shape} {ys.shape}")
        check(float(sol.t) == ts[-1] and np.array_equal(sol.y, ys[-1]), "solver.t, y are not the last step returned")
        for tn, yn in zip(ts, ys):
            if not (finite(yn) and amax(yn) < 1e12 * max(1.0, amax(p.y0))):
                return checked > 0, labels + ["overflow"]
            if len(hist) >= k:
                told, yold = hist[-1]
                check(same_t(tn, told + h, 4, max(abs(told), h)), f"{name}: t advanced from {told!r} to {tn!r} with h={h!r}")
                if name in ERKS:
                    ref, scale = erk_step(p.f, told, yold, h, TABLEAUX[name])
                else:
                    a, b, bn = multistep_coefs(name)
                    pts = hist[-k:]
                    fs = [p.f(tt, yy) for tt, yy in pts]
                    ref = sum(ai * yy for ai, (tt, yy) in zip(a, pts)) + h * sum(bi * ff for bi, ff in zip(b, fs))
                    scale = max(max(amax(yy) for tt, yy in pts), h * sum(abs(bi) * p.fscale(*pt) for bi, pt in zip(b, pts)))
                scale = max(scale, h * p.fscale(told, yold))
                err = amax(ref - yn)
                check(err <= 1e-10 * scale + 1e-280,
                      f"{name}: step from t={told!r} h={h!r} gives {yn.tolist()}, the formula {ref.tolist()}")
                checked += 1
            hist.append((float(tn), np.array(yn)))
        fref = p.f(hist[-1][0], hist[-1][1])
        check(amax(fref - sol.f) <= 1e-12 * p.fscale(*hist[-1]) + 1e-280,
              f"{name}: f is {sol.f.tolist()}, the right-hand side at (t, y) is {fref.tolist()}")
    return checked >= 2 and p.nontrivial, labels


FACETS = [Facet("formula", strategy, run, quick=1600, thorough=120000, shards=8,
                rule="at least two steps compared and f(t0, y0) != 0"),
          Facet("compiled", compiled(strategy, EXPLICIT), run, quick=240, thorough=40000, shards=3, mode="jit", rule="as formula")]
