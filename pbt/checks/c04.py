"""C04: adaptive solvers take the same steps as their SciPy counterparts."""
import warnings

import numpy as np
from hypothesis import strategies as st

from ..core import Facet, check, under_test
from ..prob import ADAPTIVE, Problem, amax, compiled, dyadic, finite, get, only, problems, scipy_cls

TITLE = "Adaptive solvers take the same steps as their SciPy counterparts"


def options(draw, max_step=True):
    o = dict(rtol=draw(st.sampled_from([1e-3, 1e-3, 1e-2, 1e-5, 1e-8, 1e-10])),
             atol=draw(st.sampled_from([1e-6, 1e-6, 1e-3, 1e-9, 1e-12])))
    if draw(st.integers(0, 3)) == 0:
        o = {}
    if draw(st.booleans()):
        o["first_step"] = draw(st.sampled_from([2.0 ** -10, 0.1, 0.5, 1.0, 3.0, 10.0, 1e-5]))
    if max_step and draw(st.booleans()):
        o["max_step"] = draw(st.sampled_from([0.01, 0.1, 0.3, 1.0, 2.5, 100.0]))
    return o


def strategy_relative():
    """Pure relative error control, of solutions that do not vanish."""
    @st.composite
    def cases(draw):
        s = draw(st.sampled_from([1.0, 1.0, 1e-4, 1e4, 1e-8, 1e-30, 1e20]))
        p = dict(n=1, t0=draw(dyadic(-4, 4)), y0=[s * draw(st.sampled_from([1.0, -1.0, 2.5, -0.375]))], A=[[draw(st.integers(-16, 16).filter(bool)) / 8]])
        return dict(solver=draw(st.sampled_from(only(ADAPTIVE))), prob=p, steps=draw(st.integers(3, 25)),
                    opts=dict(options(draw), atol=0.0, rtol=draw(st.sampled_from([1e-3, 1e-2, 1e-5, 1e-8]))))

    return cases()


def strategy():
    @st.composite
    def cases(draw):
        p = draw(problems(amp=draw(st.sampled_from([0.5, 2.0, 20.0])), scales=(1.0, 1.0, 1.0, 1e-4, 1e4)))
        if amax(p["y0"]) > 100:
            p.pop("q", None)  # sin of large states amplifies rounding
        if draw(st.booleans()):
            # a kink makes steps fail
            p["kink"] = [draw(dyadic(-10, 10)), draw(dyadic(0, 3))]
        return dict(solver=draw(st.sampled_from(only(ADAPTIVE))), prob=p, opts=options(draw),
                    steps=draw(st.integers(3, 25)))

    return cases()


class KinkProblem(Problem):
    def f(self, t, y):
        out = super().f(t, y)
        if "kink" in self.d:
            c, dt = self.d["kink"]
            if t > self.t0 + dt + 0.0123456789:
                out = out + c
        return out


def run(case):
    p = KinkProblem(case["prob"])
    name, o = case["solver"], case["opts"]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        max_step = o.get("max_step", np.inf)
        with under_test(f"constructing {name}"):
            sol = get(name)(p.rhs(100000), p.t0, p.y0, **o)
        fmax = [0.0]

        def fref(t, y):
            out = p.f(t, y)
            fmax[0] = max(fmax[0], p.fscale(t, y), amax(out))
            return out

        ref = scipy_cls(name)(fref, p.t0, p.y0, np.inf, **o)
    labels = [name]

    def same_h(a, b, rel=1e-6):
        a, b = min(float(a), max_step), min(float(b), max_step)
        return a == b or abs(a - b) <= rel * max(abs(a), abs(b))

    check(same_h(sol.h, max(ref.h_abs, 10 * np.spacing(abs(p.t0)))), f"{name}: initial step {float(sol.h)!r}, SciPy {float(ref.h_abs)!r}")
    check(float(sol.t) == p.t0 and np.array_equal(sol.y, p.y0), f"{name} does not start at (t0, y0)")
    taken = rejected = 0
    for i in range(case["steps"]):
        t0, y0, h0 = float(sol.t), np.array(sol.y), float(sol.h)
        # start SciPy from the very same state: differences do not build up
        ref.t, ref.y, ref.f, ref.h_abs = t0, y0.copy(), np.array(sol.f), h0
        ref.direction = 1
        nfev = ref.nfev
        fmax[0] = 0.0
        msg = ref.step()
        if msg is not None or ref.status == "failed" or not finite(ref.y, ref.f) or amax(ref.y) > 1e6 * max(1.0, amax(p.y0)):
            break
        dt = ref.t - t0
        if dt < 1e-9 * max(abs(t0), 1.0):
            break
        with under_test(f"{name}.step"):
            ts, ys = sol.step(n=1)
        per = {"RungeKutta23": 3, "RungeKutta45": 6, "DOP853": 12}[name]
        again = (ref.nfev - nfev) // per > 1
        t, y = float(ts[0]), ys[0]
        check(t > t0 and t - t0 <= max_step * (1 + 1e-12) + 4 * np.spacing(abs(t)),
              f"{name}: step from {t0!r} to {t!r} with max_step={max_step!r}")
        # Rounding in the error estimate, relative to the tolerated error, and through it in step sizes
        hmax = min(h0, max_step)
        atol, rtol = o.get("atol", 1e-6), o.get("rtol", 1e-3)
        ft = amax(np.abs(p.g * p.w)) + amax(p.r)
        noise = (1 + hmax * p.L) * hmax * (1e-13 * fmax[0] + 100 * ft * np.spacing(abs(t0) + hmax)) / float(np.min(atol + rtol * np.maximum(np.abs(y0), np.abs(ref.y))))
        # sin(y) over an attempt that spans many periods makes the error estimate chaotic
        if noise > 1e-3 or p.has_q and hmax * fmax[0] > 20:
            labels.append("rounding noise")
            break
        relh = 1e-7 + 10 * noise
        if again:  # step sizes from error estimates of attempts far from convergence
            relh += 1e-5 if h0 * p.L < 1 else 2e-3
        tt = (relh * dt if again else 0.0) + 8 * np.spacing(abs(t0) + dt)
        check(abs(t - ref.t) <= tt, f"{name}: step {i + 1} from t={t0!r}, h={h0!r} goes to {t!r}, SciPy goes to {ref.t!r}")
        sc = max(amax(y0), amax(ref.y), hmax * fmax[0] * (1 + dt * p.L))
        check(amax(y - ref.y) <= 1e-9 * sc + fmax[0] * 2 * (abs(t - ref.t) + np.spacing(abs(t0) + dt)) + 1e-280,
              f"{name}: step {i + 1} from t={t0!r} to {t!r} gives {y.tolist()}, SciPy {ref.y.tolist()}")
        rejected += again
        check(np.array_equal(sol.y, y) and float(sol.t) == t, f"{name}: t, y are not those returned by step")
        fr = p.f(t, y)
        check(amax(sol.f - fr) <= 1e-12 * p.fscale(t, y) + 1e-280, f"{name}: f={sol.f.tolist()} is not the right-hand side {fr.tolist()}")
        # a small error estimate carries more of the rounding
        expo = {"RungeKutta23": 3, "RungeKutta45": 5, "DOP853": 8}[name]
        err = (0.9 * hmax / float(ref.h_abs)) ** expo
        fine = relh + 10 * noise / min(1.0, max(err, 1e-300)) + 4 * np.spacing(abs(t0)) / dt
        if fine < 1e-2:
            check(same_h(sol.h, ref.h_abs, fine),
                  f"{name}: after the step from {t0!r} to {t!r} the next step size is {float(sol.h)!r}, SciPy's {float(ref.h_abs)!r}")
        taken += 1
    if rejected:
        labels.append("with rejected attempts")
    if "max_step" in o:
        labels.append("max_step")
    return taken >= 3 and p.nontrivial, labels


FACETS = [Facet("steps", strategy, run, quick=3000, thorough=100000, shards=8,
                rule="at least three steps compared with SciPy's and f(t0, y0) != 0"),
          Facet("relative", strategy_relative, run, quick=600, thorough=20000, shards=4, rule="as steps"),
          Facet("compiled", compiled(strategy, ADAPTIVE), run, quick=600, thorough=40000, shards=3, mode="jit", rule="as steps")]
