"""C10: the continuous solution interpolates the steps accurately."""
import numpy as np
from hypothesis import strategies as st

from ..core import Facet, check, under_test
from ..prob import (ADAPTIVE, DEPTH, FIXED, Problem, amax, compiled, dyadic, finite, firsts, get, hermite, only, problems, scipy_cls,
                    startup_kwargs, ulp)

TITLE = "The continuous solution interpolates the steps accurately"


def strategy():
    @st.composite
    def cases(draw):
        name = draw(st.sampled_from(only(FIXED + ADAPTIVE * 6)))
        p = draw(problems(amp=2.0, yamp=2.0, max_n=3, scales=(1.0, 1.0, 1e-6, 1e3)))
        c = dict(solver=name, prob=p)
        if name in ADAPTIVE:
            o = c["opts"] = {}
            if draw(st.booleans()):
                o["rtol"] = draw(st.sampled_from([1e-1, 1e-2, 1e-5, 1e-9]))
                o["atol"] = draw(st.sampled_from([1e-2, 1e-6, 1e-9]))
            if draw(st.integers(0, 1)):
                o["first_step"] = draw(st.sampled_from([0.125, 0.5, 2.0, 8.0]))
            p["t0"] = max(min(p["t0"], 100.0), -100.0)
        else:
            c["h"] = draw(st.sampled_from([0.125, 0.25, 0.5, 0.0625, 0.1, 0.03, 1 / 7]))
            if DEPTH[name] > 1:
                c["first"] = draw(st.sampled_from(firsts(["none", "auto", "RungeKutta4"])))
        # stretches of steps, and positions (in steps, backwards from the current time) evaluated after each
        c["walk"] = draw(st.lists(st.tuples(st.integers(0, 5), st.lists(dyadic(-7, 0, 16), max_size=5)).map(list), min_size=1, max_size=5))
        c["how"] = draw(st.sampled_from(["skip", "step", "run"]))
        return c

    return cases()


class Segments:
    """Recorded steps and the documented interpolant between them."""

    def __init__(self, p, name):
        self.p, self.name = p, name
        self.nodes = []
        self.dense = {}

    def value(self, j, tau):
        """Interpolant of the step from node j-1 to node j."""
        a, b = self.nodes[j - 1], self.nodes[j]
        if self.name not in ADAPTIVE:
            return hermite(*a, *b, tau)
        if j not in self.dense:
            cls = scipy_cls(self.name)
            with np.errstate(all="ignore"):
                s = cls(self.p.f, a[0], np.array(a[1]), b[0], first_step=b[0] - a[0], rtol=1e100, atol=1e100)
                s.step()
            assert s.t == b[0] and s.t_old == a[0]
            self.dense[j] = s.dense_output()
        return self.dense[j](tau)

    def scale(self, j):
        a, b = self.nodes[j - 1], self.nodes[j]
        h = b[0] - a[0]
        # the stages are evaluated inside the step: their size enters the rounding errors
        return max(amax(a[1]), amax(b[1]), h * self.p.fscale(a[0], a[1]), h * self.p.fscale(b[0], b[1]))

    def tol(self, j):
        a, b = self.nodes[j - 1], self.nodes[j]
        h = b[0] - a[0]
        grow = 1.0
        if self.name in ADAPTIVE:
            z = h * self.p.L
            grow = (1 + z) ** 6
        fs = max(self.p.fscale(a[0], a[1]), self.p.fscale(b[0], b[1]))
        return grow * (1e-11 * self.scale(j) + 64 * ulp(max(abs(a[0]), abs(b[0]), h)) * fs) + 1e-290


def run(case):
    p = Problem(case["prob"])
    name = case["solver"]
    first = case.get("first", "default")
    kw = dict(startup_kwargs(name, first), **case.get("opts", {}))
    if "h" in case:
        kw["h"] = case["h"]
    try:
        sol = get(name)(p.rhs(1000000), p.t0, p.y0, **kw)
    except (RuntimeError, np.linalg.LinAlgError):
        return False, ["start-up equation without solution"]
    seg = Segments(p, name)
    depth = max(DEPTH.get(name, 1), 2)

    def record():
        seg.nodes.append((float(sol.t), np.array(sol.y), np.array(sol.f)))

    record()
    done = 0
    for steps, pos in case["walk"]:
        for _ in range(steps):
            try:
                if case["how"] == "run" and seg.nodes[-1][0] + 1e-3 * float(sol.h) > seg.nodes[-1][0]:
                    sol.run(np.array([seg.nodes[-1][0] + 1e-3 * float(sol.h)]))
                elif case["how"] == "step":
                    sol.step(n=1)
                else:
                    sol.skip(n=1)
            except (RuntimeError, np.linalg.LinAlgError):
                return done >= 2, [name, "stopped"]
            if not finite(sol.y, sol.f) or amax(sol.y) > 1e12:
                return done >= 2, [name, "stopped"]
            record()
        i = len(seg.nodes) - 1
        known = min(i, depth - 1)  # recorded steps whose end points were seen
        t = seg.nodes[-1][0]
        full = i >= depth  # start-up history has been pushed out
        for x in pos + [0.0, -1.0]:
            k = int(np.floor(x))
            if -k > known:
                lo = seg.nodes[i - depth + 1][0] if full else None
                if lo is not None and x < -(depth - 1):
                    tau = lo - (seg.nodes[i - depth + 2][0] - lo) * min(1.0, -(depth - 1) - x)
                    if tau < lo:
                        expect_error(sol, tau, name, lo, t)
                continue
            if k == 0:
                tau, j = t, i
            else:
                a, b = seg.nodes[i + k][0], seg.nodes[i + k + 1][0]
                tau, j = a + (x - k) * (b - a), i + k + 1
            if j == 0:
                continue
            with under_test(f"{name}.interpolate({tau!r}) at t={t!r}"):
                v = np.array(sol.interpolate(tau))
            tol = seg.tol(j)
            if tau == seg.nodes[j - 1][0]:
                want, what = seg.nodes[j - 1][1], "the recorded step"
            elif tau == seg.nodes[j][0]:
                want, what = seg.nodes[j][1], "the recorded step"
            else:
                want, what = seg.value(j, tau), "the documented dense output"
            check(v.shape == (p.n,) and amax(v - want) <= tol,
                  lambda: f"{name}: {v.tolist()} at {tau!r} (t={t!r}, step from {seg.nodes[j - 1][0]!r} to {seg.nodes[j][0]!r}); {what} gives {want.tolist()} (tolerance {tol:.3g})")
            done += 1
        if t + (seg.nodes[-1][0] - seg.nodes[-2][0] if i else float(sol.h)) / 16 > t:
            expect_error(sol, t + (seg.nodes[-1][0] - seg.nodes[-2][0] if i else float(sol.h)) / 16, name, None, t)
        if i:
            slopes(sol, seg, i, name, p)
    return done >= 2 and p.nontrivial, [name]


def expect_error(sol, tau, name, lo, t):
    try:
        v = sol.interpolate(tau)
    except ValueError:
        return
    except Exception as e:
        check(False, f"{name}: interpolate({tau!r}) outside the history raises {type(e).__name__}: {e} instead of ValueError")
    check(False, f"{name}: interpolate({tau!r}) outside the history [{lo!r}, {t!r}] returns {np.asarray(v).tolist()} instead of raising ValueError")


DEGREE = {"RungeKutta45": 4, "DOP853": 7}


def slopes(sol, seg, j, name, p):
    """The continuous solution leaves and reaches the step ends with the recorded derivatives."""
    a, b = seg.nodes[j - 1], seg.nodes[j]
    h = b[0] - a[0]
    if h < 1e5 * ulp(max(abs(a[0]), abs(b[0]))):
        return
    d = DEGREE.get(name, 3)
    x = np.cos(np.pi * np.arange(d + 1) / d)
    x[0], x[-1] = 1.0, -1.0
    taus = [min(max(a[0] + (xi + 1) / 2 * h, a[0]), b[0]) for xi in x]
    taus[0], taus[-1] = b[0], a[0]
    with under_test(f"{name}.interpolate"):
        ys = np.array([sol.interpolate(t) for t in taus])
    c = np.polynomial.chebyshev.chebfit(x, ys, d)
    dc = np.polynomial.chebyshev.chebder(c)
    tol = 200 * seg.tol(j) + 1e-12 * amax(ys)
    for at, node, which in ((-1.0, a, "start"), (1.0, b, "end")):
        s = np.polynomial.chebyshev.chebval(at, dc) * 2
        check(amax(s - h * node[2]) <= tol, lambda: f"{name}: slope at the {which} of the step [{a[0]!r}, {b[0]!r}] is {(s / h).tolist()}, the derivative there is {node[2].tolist()}")


FACETS = [Facet("dense", strategy, run, quick=4000, thorough=200000, shards=8,
                rule="at least two interpolated values were compared and f(t0, y0) != 0"),
          Facet("compiled", compiled(strategy), run, quick=400, thorough=40000, shards=4, mode="jit", rule="as dense")]
