"""Problems: right-hand sides, strategies for them, and small helpers shared by the checks.

    f_i(t, y) = sum_j A_ij y_j + b_i + g_i sin(w_i t) + q_i sin(y_(i+1 mod n)) + r_i t

All coefficients are small dyadic numbers, so that scaling and shifting them is exact.
"""
import os
import sys

import numpy as np

from .core import NonTermination

ERKS = ["Runge2", "Runge3", "Heun3", "RungeKutta4", "RungeKutta3_8"]
ABS = ["AdamsBashforth%d" % k for k in range(1, 6)]
AMS = ["AdamsMoulton%d" % k for k in range(1, 6)]
BDFS = ["BDF%d" % k for k in range(1, 7)]
EXPLICIT = ["ForwardEuler"] + ABS + ERKS
IMPLICIT = ["BackwardEuler"] + AMS + BDFS
FIXED = EXPLICIT + IMPLICIT
ADAPTIVE = ["RungeKutta23", "RungeKutta45", "DOP853"]
ALL = FIXED + ADAPTIVE
MULTI = ["ForwardEuler", "BackwardEuler"] + ABS + AMS + BDFS

#: number of past points used by each fixed step method
DEPTH = {n: 1 for n in ERKS + ["ForwardEuler", "BackwardEuler"]}
for _k in range(1, 6):
    DEPTH["AdamsBashforth%d" % _k] = _k
    DEPTH["AdamsMoulton%d" % _k] = max(1, _k - 1)
for _k in range(1, 7):
    DEPTH["BDF%d" % _k] = _k

#: this process runs nbkode in compiled mode: all problems share one compiled right-hand side, see jitlib
COMPILED = not os.environ.get("NBKODE_NONUMBA") and bool(os.environ.get("VERIF_COMPILED"))
#: the solvers that may be sampled (compiled mode: every solver takes about 10 s to compile)
RESTRICT = None
#: solvers compiled by the quick tier, one for each kind of method
KINDS = ["RungeKutta45", "DOP853", "RungeKutta23", "BDF3", "RungeKutta4", "AdamsBashforth3", "AdamsMoulton4", "ForwardEuler"]


def only(names):
    """The names that may be sampled."""
    return [n for n in names if n in RESTRICT] if RESTRICT else names


def firsts(names):
    """First steppers that may be sampled."""
    return [n for n in names if n in ("none", "auto", "default")] if RESTRICT else names


def compiled(strategy, among=None):
    """Variant of a strategy for compiled mode, every shard with its own few solvers."""
    def strat(shard=0, nshards=1):
        global RESTRICT
        names = KINDS if "thorough" not in sys.argv else ADAPTIVE + FIXED
        names = [n for n in names if among is None or n in among]
        RESTRICT = set(names[shard::nshards] or names)
        return strategy()

    return strat


def get(name):
    import nbkode

    return nbkode.get_solver(name)


class Problem:
    def __init__(self, d):
        self.d = d
        n = self.n = d["n"]
        z = [0.0] * n

        def v(k):
            return np.array(d.get(k, z), dtype=float)

        self.A = np.array(d.get("A", [z] * n), dtype=float).reshape(n, n)
        self.b, self.g, self.w, self.q, self.r = v("b"), v("g"), v("w"), v("q"), v("r")
        self.y0 = v("y0")
        self.t0 = float(d.get("t0", 0.0))
        self.nxt = np.array([(i + 1) % n for i in range(n)])
        self.has_q = bool(np.any(self.q != 0))
        self.has_g = bool(np.any(self.g != 0))

    @property
    def L(self):
        """Lipschitz constant (infinity norm)."""
        return float(np.max(np.sum(np.abs(self.A), axis=1) + np.abs(self.q)))

    def f(self, t, y):
        out = self.A @ y + self.b + self.r * t
        if self.has_g:
            out = out + self.g * np.sin(self.w * t)
        if self.has_q:
            out = out + self.q * np.sin(y[self.nxt])
        return out

    def fscale(self, t, y):
        """Magnitude of the terms of f: bounds its rounding error together with eps."""
        return float(np.max(np.abs(self.A) @ np.abs(y) + np.abs(self.b) + np.abs(self.r * t) + np.abs(self.g)
                            + np.abs(self.q)))

    def rhs(self, limit=None):
        if COMPILED:
            from . import jitlib

            jitlib.load(self.d, np.inf if limit is None else limit)
            return jitlib.rhs
        return Rhs(self, limit)

    @property
    def nontrivial(self):
        return bool(np.any(self.f(self.t0, self.y0) != 0))


class Rhs:
    """Counts evaluations and stops calls that evaluate more often than any correct call could."""

    def __init__(self, prob, limit=None):
        self.prob = prob
        self.n = 0
        self.limit = limit
        self.points = None

    def __call__(self, t, y):
        self.n += 1
        if self.limit is not None and self.n > self.limit:
            raise NonTermination(f"more than {self.limit} evaluations of the right-hand side")
        if self.points is not None:
            self.points.append((float(t), np.array(y, dtype=float)))
        return self.prob.f(t, y)


# ---------------------------------------------------------------------------------------------------------
# strategies (imported lazily: hypothesis is only on the path of the workers)


def dyadic(lo, hi, den=8):
    from hypothesis import strategies as st

    return st.integers(int(lo * den), int(hi * den)).map(lambda k: k / den)


def problems(max_n=4, min_n=1, amp=2.0, forms=("lin", "time", "nonlin", "full"), t0=True, yamp=4.0, stable=False,
             scales=(1.0,)):
    from hypothesis import strategies as st

    @st.composite
    def strat(draw):
        n = draw(st.integers(min_n, max_n))
        form = draw(st.sampled_from(list(forms)))
        d = dict(n=n)

        def vec(lo, hi):
            return draw(st.lists(dyadic(lo, hi), min_size=n, max_size=n))

        A = draw(st.lists(st.lists(dyadic(-amp, amp), min_size=n, max_size=n), min_size=n, max_size=n))
        if stable:
            for i in range(n):
                A[i][i] = -abs(A[i][i]) - sum(abs(x) for j, x in enumerate(A[i]) if j != i)
        d["A"] = A
        if form in ("time", "full", "affine"):
            d["b"] = vec(-2, 2)
            d["r"] = vec(-1, 1)
        if form in ("time", "full"):
            d["g"] = vec(-2, 2)
            d["w"] = vec(-3, 3)
        if form in ("nonlin", "full"):
            d["q"] = vec(-amp, amp)
        d["y0"] = vec(-yamp, yamp)
        s = draw(st.sampled_from(list(scales)))
        if s != 1.0:
            d["y0"] = [s * y for y in d["y0"]]
            for k in ("b", "r", "g"):
                if k in d:
                    d[k] = [s * y for y in d[k]]
        if t0:
            d["t0"] = draw(st.one_of(st.just(0.0), dyadic(-8, 8), st.sampled_from([100.0, -37.25, 0.1, 1 / 3, 1e4])))
        else:
            d["t0"] = 0.0
        return d

    return strat()


def steps_h(L=None, lo=2 ** -7, hi=0.5):
    """Step sizes, dyadic and not."""
    from hypothesis import strategies as st

    base = [2.0 ** -k for k in range(1, 8)] + [0.1, 0.01, 0.3, 1 / 3, 0.07, 0.05]
    return st.sampled_from([h for h in base if lo <= h <= hi])


def ulp(x):
    return float(np.spacing(max(abs(float(x)), 1e-300)))


def same_t(a, b, n=4, scale=0.0):
    return abs(a - b) <= n * ulp(max(abs(a), abs(b), scale))


def amax(x):
    x = np.asarray(x, dtype=float)
    return float(np.max(np.abs(x))) if x.size else 0.0


def finite(*xs):
    return all(np.all(np.isfinite(x)) for x in xs)


# ---------------------------------------------------------------------------------------------------------
# reference formulas


def _poly_int(nodes, a, b):
    """Weights w_j with int_a^b p = sum w_j p(nodes_j), for polynomials of degree < len(nodes)."""
    from fractions import Fraction as F

    out = []
    for j, xj in enumerate(nodes):
        poly = [F(1)]
        for m, xm in enumerate(nodes):
            if m != j:
                new = [F(0)] * (len(poly) + 1)
                for k, c in enumerate(poly):
                    new[k + 1] += c / (xj - xm)
                    new[k] -= c * xm / (xj - xm)
                poly = new
        out.append(sum(c * (F(b) ** (k + 1) - F(a) ** (k + 1)) / (k + 1) for k, c in enumerate(poly)))
    return out


def _poly_der(nodes, x):
    """Weights w_j with p'(x) = sum w_j p(nodes_j)."""
    from fractions import Fraction as F

    out = []
    for j, xj in enumerate(nodes):
        poly = [F(1)]
        for m, xm in enumerate(nodes):
            if m != j:
                new = [F(0)] * (len(poly) + 1)
                for k, c in enumerate(poly):
                    new[k + 1] += c / (xj - xm)
                    new[k] -= c * xm / (xj - xm)
                poly = new
        out.append(sum(k * c * F(x) ** (k - 1) for k, c in enumerate(poly) if k))
    return out


def multistep_coefs(name):
    """(a, b, bn), oldest first:  y_new = sum a_j y_j + h sum b_j f_j + h bn f_new."""
    if name == "ForwardEuler":
        return [1.0], [1.0], 0.0
    if name == "BackwardEuler":
        return [1.0], [0.0], 1.0
    k = int(name[-1])
    if name.startswith("AdamsBashforth"):
        nodes = list(range(-k + 1, 1))
        w = _poly_int(nodes, 0, 1)
        return [0.0] * (k - 1) + [1.0], [float(x) for x in w], 0.0
    if name.startswith("AdamsMoulton"):
        if k == 1:
            return [1.0], [0.0], 1.0
        nodes = list(range(-k + 2, 2))
        w = _poly_int(nodes, 0, 1)
        m = k - 1
        return [0.0] * (m - 1) + [1.0], [float(x) for x in w[:-1]], float(w[-1])
    if name.startswith("BDF"):
        nodes = list(range(-k + 1, 2))
        w = _poly_der(nodes, 1)
        wn = w[-1]
        return [float(-x / wn) for x in w[:-1]], [0.0] * k, float(1 / wn)
    raise KeyError(name)


TABLEAUX = {
    # name: (A rows, B, C), from the literature
    "Runge2": ([[], [1 / 2]], [0, 1], [0, 1 / 2]),
    "Runge3": ([[], [1 / 2], [0, 1], [0, 0, 1]], [1 / 6, 4 / 6, 0, 1 / 6], [0, 1 / 2, 1, 1]),
    "Heun3": ([[], [1 / 3], [0, 2 / 3]], [1 / 4, 0, 3 / 4], [0, 1 / 3, 2 / 3]),
    "RungeKutta4": ([[], [1 / 2], [0, 1 / 2], [0, 0, 1]], [1 / 6, 1 / 3, 1 / 3, 1 / 6], [0, 1 / 2, 1 / 2, 1]),
    "RungeKutta3_8": ([[], [1 / 3], [-1 / 3, 1], [1, -1, 1]], [1 / 8, 3 / 8, 3 / 8, 1 / 8], [0, 1 / 3, 2 / 3, 1]),
}

ORDER = {"ForwardEuler": 1, "BackwardEuler": 1, "Runge2": 2, "Runge3": 3, "Heun3": 3, "RungeKutta4": 4,
         "RungeKutta3_8": 4}
for _k in range(1, 7):
    ORDER["AdamsBashforth%d" % _k] = ORDER["AdamsMoulton%d" % _k] = ORDER["BDF%d" % _k] = _k


def erk_step(f, t, y, h, tab):
    """One step of an explicit Runge-Kutta method; returns (y_new, scale of the terms)."""
    A, B, C = tab
    K = []
    scale = amax(y)
    for row, c in zip(A, C):
        ys = np.array(y, dtype=float)
        for a, k in zip(row, K):
            ys = ys + h * a * k
        K.append(np.asarray(f(t + c * h, ys), dtype=float))
        scale = max(scale, amax(ys), h * amax(K[-1]))
    out = np.array(y, dtype=float)
    for b, k in zip(B, K):
        out = out + h * b * k
    return out, scale


def hermite(t0, y0, f0, t1, y1, f1, t):
    dt = t1 - t0
    s = (t - t0) / dt
    h00 = (1 + 2 * s) * (1 - s) ** 2
    h10 = s * (1 - s) ** 2
    h01 = s * s * (3 - 2 * s)
    h11 = s * s * (s - 1)
    return h00 * y0 + h10 * dt * f0 + h01 * y1 + h11 * dt * f1


SCIPY = {"RungeKutta23": "RK23", "RungeKutta45": "RK45", "DOP853": "DOP853"}


def scipy_cls(name):
    import scipy.integrate

    return getattr(scipy.integrate, SCIPY[name])


def startup_kwargs(name, first):
    """first: None | 'auto' | solver name | 'none' -> keyword arguments for the constructor."""
    if name in MULTI and first != "default":
        return dict(first_stepper_cls=None if first == "none" else first)
    return {}
