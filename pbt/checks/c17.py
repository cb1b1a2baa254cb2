"""C17: nbcompat.newton behaves as scipy.optimize.newton."""
import warnings

import numpy as np
from hypothesis import strategies as st

from ..core import Facet, NonTermination, Violation, check

TITLE = "nbcompat.newton behaves as scipy.optimize.newton"


def functions(d):
    """(f, f', f'') for a description; all of them work for scalars and arrays."""
    k = d["kind"]
    s = d.get("scale", 1.0)
    if k == "poly":
        c = np.array(d["c"], dtype=float)
        if "im" in d:
            c = c + 1j * np.array(d["im"], dtype=float)
        c1 = np.polynomial.polynomial.polyder(c) if len(c) > 1 else c * 0
        c2 = np.polynomial.polynomial.polyder(c1) if len(c1) > 1 else c1 * 0

        def horner(cs, x):
            r = 0 * x
            for a in cs[::-1]:
                r = r * x + a
            return r

        return tuple((lambda x, a, cs=cs, j=j: s * (horner(cs, x) - (a if j == 0 else 0))) for j, cs in enumerate((c, c1, c2)))
    if k == "power":
        p = d["p"]
        return (lambda x, a: s * (x ** p - a), lambda x, a: s * p * x ** (p - 1), lambda x, a: s * p * (p - 1) * x ** (p - 2))
    if k == "halley":
        # the limit of Halley's correction, f f'' = +-2 f'^2, is met exactly at x = z
        c, b, r, z = d["q"] ** 2 * d["sign"] / d["r"], d["q"], d["r"], d["z"]
        return (lambda x, a: s * ((r * (x - z) + b) * (x - z) + c), lambda x, a: s * (2 * r * (x - z) + b), lambda x, a: s * (2 * r + 0 * x))
    if k == "const":
        return (lambda x, a: s * (a + 0 * x), lambda x, a: 0 * x, lambda x, a: 0 * x)
    if k == "step":
        return (lambda x, a: s * np.sign(x - a), lambda x, a: 0 * x, lambda x, a: 0 * x)
    if k == "kink":
        return (lambda x, a: s * (np.abs(x) - a), lambda x, a: s * np.sign(x), lambda x, a: 0 * x)
    fs = dict(exp=(np.exp, np.exp, np.exp), sin=(np.sin, np.cos, lambda x: -np.sin(x)),
              atan=(np.arctan, lambda x: 1 / (1 + x * x), lambda x: -2 * x / (1 + x * x) ** 2),
              log=(np.log, lambda x: 1 / x, lambda x: -1 / x ** 2), cosh=(np.cosh, np.sinh, np.cosh))[k]
    return (lambda x, a: s * (fs[0](x) - a), lambda x, a: s * fs[1](x), lambda x, a: s * fs[2](x))


def strategy():
    num = st.integers(-32, 32).map(lambda k: k / 8)

    @st.composite
    def cases(draw):
        k = draw(st.sampled_from(["poly", "poly", "poly", "power", "exp", "sin", "atan", "log", "cosh", "const", "step", "kink"]))
        d = dict(kind=k, scale=draw(st.sampled_from([1.0, 1.0, -1.0, 1e-10, 1e6])))
        if k == "poly":
            d["c"] = draw(st.lists(num, min_size=1, max_size=5))
        if k == "power":
            d["p"] = draw(st.sampled_from([2, 3, 9, 0.5, 1 / 3, 1.5, -1.0, 40]))
        if draw(st.integers(0, 11)) == 0:
            d = dict(kind="halley", scale=d["scale"], q=draw(st.sampled_from([1.0, -1.0, 0.5, 3.0])), r=draw(st.sampled_from([1.0, -1.0, 2.0, -0.25])), sign=draw(st.sampled_from([1, -1])), z=0.0)
        c = dict(f=d, a=draw(num), x0=draw(st.one_of(num, st.sampled_from([0.0, 1e-8, 1e3, -1e6, 1e150, 2.5]))),
                 der=draw(st.sampled_from([0, 0, 1, 1, 2])), form=draw(st.sampled_from(["float", "float", "int", "np", "complex", "array1", "array", "zerod"])),
                 tol=draw(st.sampled_from([None, None, 1e-3, 1e-12, 1e-6, 0.0, -1.0])), maxiter=draw(st.sampled_from([None, None, None, 1, 2, 5, 200, 0])),
                 rtol=draw(st.sampled_from([None, None, 1e-3, 1e-10])), disp=draw(st.sampled_from([None, True, False, False])),
                 full=draw(st.booleans()), args=draw(st.booleans()))
        if d["kind"] == "halley":
            d["z"] = c["x0"] = draw(num)
            c["der"] = draw(st.sampled_from([2, 2, 2, 1, 0]))
        if draw(st.integers(0, 3)) == 0:
            c["x1"] = draw(st.one_of(num, st.just(c["x0"])))
        if c["form"] == "complex":
            c["xi"] = draw(num)
            if d["kind"] == "poly" and draw(st.booleans()):
                d["im"] = draw(st.lists(num, min_size=len(d["c"]), max_size=len(d["c"])))
        if c["form"] == "array":
            c["xs"] = draw(st.lists(num, min_size=2, max_size=4))
        return c

    return cases()


def start(c):
    f, x = c["form"], c["x0"]
    if f == "float":
        return x
    if f == "int":
        return int(x)
    if f == "np":
        return np.float64(x)
    if f == "complex":
        return complex(x, c["xi"])
    if f == "array1":
        return np.array([x])
    if f == "zerod":
        return np.array(x)
    return np.array([x] + c["xs"])


def noisy(f, k):
    """f with relative rounding-like errors."""
    return lambda x, a: f(x, a) * (1 + 2e-15 * np.sin(1e3 * k * np.real(x) + 7e2 * np.imag(x) + k))


def outcome(newton, c, noise=0):
    fs = functions(c["f"])
    if noise:
        fs = [noisy(f, noise) for f in fs]
    calls = [0, 0, 0]
    a = c["a"]

    def wrap(j):
        def g(x, *args):
            calls[j] += 1
            if calls[j] > 5000:
                raise NonTermination("more than 5000 evaluations in newton")
            return fs[j](x, *(args if c["args"] else (a,)))

        return g

    kw = {}
    if c["der"] >= 1:
        kw["fprime"] = wrap(1)
    if c["der"] >= 2:
        kw["fprime2"] = wrap(2)
    for k in ("tol", "maxiter", "rtol", "disp", "x1"):
        if c.get(k) is not None:
            kw[k] = c[k]
    if c["full"]:
        kw["full_output"] = True
    if c["args"]:
        kw["args"] = (a,)
    x0 = start(c)
    keep = np.array(x0)
    with warnings.catch_warnings(record=True) as log:
        warnings.simplefilter("always")
        with np.errstate(all="ignore"):
            try:
                r = newton(wrap(0), x0, **kw)
                res = ("returns", r)
            except (RuntimeError, ValueError, TypeError, ZeroDivisionError, OverflowError, FloatingPointError) as e:
                res = ("raises", type(e).__name__, str(e))
    return res, [w.category.__name__ for w in log], list(calls), np.array_equal(keep, x0)


def flat(r):
    """(root, dict of the convergence report)"""
    if isinstance(r, tuple) and len(r) > 1:
        root, rep = r[0], r[1:]
        if len(rep) == 1 and hasattr(rep[0], "iterations"):
            q = rep[0]
            return root, dict(root=q.root, iterations=q.iterations, calls=q.function_calls, converged=q.converged, flag=q.flag)
        return root, dict(("part%d" % i, np.asarray(v)) for i, v in enumerate(rep))
    return r, {}


def close(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or a.dtype.kind != b.dtype.kind:
        return False
    return bool(np.allclose(a, b, rtol=1e-9, atol=1e-13, equal_nan=True)) if a.dtype.kind in "fc" else bool(np.array_equal(a, b))


def compare(want, got, what):
    (w, wl, wc, _), (g, gl, gc, untouched) = want, got
    check(untouched, f"{what}: x0 was modified")
    check(w[0] == g[0], lambda: f"{what}: {g[0]} {g[1:]}, SciPy {w[0]} {w[1:]}")
    check(wc == gc, lambda: f"{what}: evaluates the functions {gc} times, SciPy {wc}")
    if w[0] == "raises":
        check(w[1] == g[1], lambda: f"{what}: raises {g[1:]}, SciPy {w[1:]}")
    else:
        (wr, wi), (gr, gi) = flat(w[1]), flat(g[1])
        check(close(gr, wr), lambda: f"{what}: root {gr!r}, SciPy {wr!r}")
        check(set(wi) == set(gi), lambda: f"{what}: report {gi}, SciPy {wi}")
        for k in wi:
            same = close(gi[k], wi[k]) if k == "root" else np.array_equal(gi[k], wi[k])
            check(same, lambda: f"{what}: {k} is {gi[k]}, SciPy {wi[k]}")
    check(gl.count("RuntimeWarning") == wl.count("RuntimeWarning"), lambda: f"{what}: warnings {gl}, SciPy {wl}")


def run(c):
    import scipy.optimize

    from nbkode.nbcompat import newton

    with np.errstate(all="ignore"):
        want = outcome(scipy.optimize.newton, c)
        got = outcome(newton, c)
    what = f"newton for {c}"
    try:
        compare(want, got, what)
    except Violation:
        if c["form"] != "complex":
            raise
        # abs() and np.abs() of a complex number may differ in the last digit: an outcome that SciPy itself changes
        # completely under such errors decides nothing
        for k in range(1, 9):
            with np.errstate(all="ignore"):
                other = outcome(scipy.optimize.newton, c, k)
            try:
                compare(want, other, what)
            except Violation:
                return False, ["ill-conditioned"]
        raise
    w, wc, wl = want[0], want[2], want[1]
    labels = [c["form"], "der%d" % c["der"], w[0]] + (["warned"] if wl else [])
    return sum(wc) > 2, labels


FACETS = [Facet("differential", strategy, run, quick=8000, thorough=400000, shards=4, rule="the functions were evaluated more than twice")]
