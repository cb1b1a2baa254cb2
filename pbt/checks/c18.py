"""C18: the jittable root finders return a root or raise."""
import warnings

import numpy as np
from hypothesis import strategies as st

from ..core import Facet, NonTermination, check, under_test
from . import c17

TITLE = "The jittable root finders return a root or raise"


# -- j_newton ---------------------------------------------------------------------------------------------
def strategy_j():
    def fix(c):
        # what j_newton takes: real scalars, valid tolerances and limits
        c["form"] = "float"
        c["tol"] = c["tol"] if c["tol"] is None or c["tol"] > 0 else 1e-9
        c["maxiter"] = c["maxiter"] or None
        c["disp"] = True
        return c

    return c17.strategy().map(fix)


def attempt(fn, c):
    fs = c17.functions(c["f"])
    n = [0]

    def wrap(j):
        def g(x, *args):
            n[0] += 1
            if n[0] > 5000:
                raise NonTermination("more than 5000 evaluations")
            return fs[j](x, *(args if c["args"] else (c["a"],)))

        return g

    kw = {k: c[k] for k in ("tol", "maxiter", "rtol") if c.get(k) is not None}
    if c.get("x1") is not None:
        kw["x1"] = np.float64(c["x1"])
    if c["der"] >= 1:
        kw["fprime"] = wrap(1)
    if c["der"] >= 2:
        kw["fprime2"] = wrap(2)
    if c["args"]:
        kw["args"] = (c["a"],)
    try:
        return float(fn(wrap(0), np.float64(c["x0"]), **kw)), n[0]
    except (RuntimeError, ValueError) as e:
        return type(e).__name__, n[0]


def run_j(c):
    import scipy.optimize
    from nbkode.nbcompat import j_newton, newton

    with np.errstate(all="ignore"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        want, n = attempt(newton, c)
        sp, nsp = attempt(scipy.optimize.newton, c)
        with under_test(f"j_newton for {c}"):
            got, m = attempt(j_newton, c)
    for w, k, who in ((want, n, "newton"), (sp, nsp, "SciPy's newton")):
        same = got == w if isinstance(w, str) or isinstance(got, str) else np.allclose(got, w, rtol=1e-9, atol=1e-13, equal_nan=True)
        check(same, f"j_newton for {c}: {got}, {who}: {w}")
        check(m == k, f"j_newton for {c} evaluates {m} times, {who} {k}")
    return n > 2, ["der%d" % c["der"], want if isinstance(want, str) else "root"]


# -- newton_hd --------------------------------------------------------------------------------------------
def strategy_hd():
    num = st.integers(-16, 16).map(lambda k: k / 8)

    @st.composite
    def cases(draw):
        n = draw(st.integers(1, 4))
        vec = st.lists(num, min_size=n, max_size=n)
        kind = draw(st.sampled_from(["linear", "contraction", "contraction", "quadratic", "stiff", "rootless", "singular"]))
        c = dict(kind=kind, n=n, A=[draw(vec) for _ in range(n)], b=draw(vec), y0=draw(vec), off=draw(st.sampled_from([0.0, 0.0, 1e3, -1e8])),
                 args=draw(st.booleans()))
        if draw(st.booleans()):
            c["atol"] = draw(st.sampled_from([1e-4, 1e-10, 1e-6]))
        if draw(st.integers(0, 3)) == 0:
            c["maxiter"] = draw(st.sampled_from([1, 2, 3, 10, 100]))
        return c

    return cases()


def run_hd(c):
    from nbkode.nbcompat import newton_hd

    n, kind = c["n"], c["kind"]
    A, b, off = np.array(c["A"]), np.array(c["b"]), c["off"]
    if kind == "linear":
        A = A + 2 * np.eye(n) * (1 + np.sum(np.abs(A)))
    count = [0]

    def func(y, shift=None):
        count[0] += 1
        if count[0] > 20000:
            raise NonTermination("more than 20000 evaluations in newton_hd")
        x = y - off
        if shift is not None:
            x = x - shift
        if kind == "linear":
            return A @ x - b
        if kind == "contraction":
            return x - b - 0.25 * np.sin(A @ x) / max(1.0, np.max(np.sum(np.abs(A), axis=1)))
        if kind == "quadratic":
            return x * x + 0.125 * (A @ x) - b
        if kind == "stiff":
            return x + 1e4 * (x - np.cos(A @ x)) - b
        if kind == "rootless":
            return x * x + 1.0 + 0 * b
        return A @ (x * np.abs(x)) - b  # singular: vanishing derivatives

    start = np.array(c["y0"]) + off
    given = start.copy()
    kw = {k: c[k] for k in ("atol", "maxiter") if k in c}
    shift = np.array(c["b"][::-1])
    if c["args"]:
        kw["args"] = (shift,)
    atol, maxiter = c.get("atol", 1.48e-8), c.get("maxiter", 50)
    what = f"newton_hd for {c}"
    got = err = None
    with np.errstate(all="ignore"):
        try:
            with under_test(what, allow=(RuntimeError, np.linalg.LinAlgError)):
                got = newton_hd(func, given, **kw)
        except (RuntimeError, np.linalg.LinAlgError) as e:
            err = e
        evals = count[0]
        check(np.array_equal(given, start), f"{what}: the start was modified")
        check(evals <= (2 * n + 1) * (maxiter + 2), f"{what}: {evals} evaluations with maxiter={maxiter}")
        labels = [kind, "n=%d" % n, "returned" if err is None else type(err).__name__]
        if err is None:
            check(np.shape(got) == (n,), f"{what}: returned {got!r}")
            r = func(np.array(got), *kw.get("args", ()))
            norm = float(np.sqrt(np.sum(r * r)))
            check(norm <= atol * (1 + 1e-9), f"{what}: returned {got.tolist()} where the norm of the function is {norm!r}")
        else:
            # well conditioned problems with a single root must be solved
            easy = kind in ("linear", "contraction") and maxiter >= 10
            if easy:
                noise = 64 * np.spacing(abs(off) + 8.0) * (np.max(np.sum(np.abs(A), axis=1)) if kind == "linear" else 2.0)
                check(noise > atol, f"{what}: raised {type(err).__name__} on a well conditioned problem")
    return evals > 2, labels


# -- bisect -----------------------------------------------------------------------------------------------
def strategy_bisect():
    num = st.one_of(st.integers(-64, 64).map(lambda k: k / 8), st.integers(-1000, 1000).map(lambda k: k / 97))

    @st.composite
    def cases(draw):
        kind = draw(st.sampled_from(["roots", "roots", "jumps", "monotone"]))
        c = dict(kind=kind, s=draw(st.sampled_from([1.0, -1.0, 1e-6, 1e6, -1e12, 1e-160, 1e200, -1e-200])),
                 left=draw(num), right=draw(num), roots=draw(st.lists(num, min_size=1, max_size=4)), args=draw(st.booleans()))
        if draw(st.integers(0, 4)) == 0:
            c[draw(st.sampled_from(["left", "right"]))] = c["roots"][0]
        if draw(st.booleans()):
            c["tol"] = draw(st.sampled_from([1e-3, 1e-12, 1e-300, 0.1]))
        if draw(st.integers(0, 2)) == 0:
            c["maxiter"] = draw(st.sampled_from([1, 2, 5, 20, 200]))
        return c

    return cases()


def run_bisect(c):
    from nbkode.nbcompat.zeros import bisect

    s, kind = c["s"], c["kind"]
    roots = sorted(c["roots"])
    if kind == "monotone":
        roots = roots[:1]
    points = []

    def value(x, k):
        v = s * k
        if kind == "monotone":
            return v * np.arctan(x - roots[0])
        for r in roots:
            v = v * (np.sign(x - r) if kind == "jumps" else (x - r))
        return v

    def f(x, k=1.0):
        points.append(float(x))
        if len(points) > 5000:
            raise NonTermination("more than 5000 evaluations in bisect")
        return value(x, k)

    left, right = c["left"], c["right"]
    tol, maxiter = c.get("tol", 1.48e-8), c.get("maxiter", 50)
    kw = {k: c[k] for k in ("tol", "maxiter") if k in c}
    k = 2.0 if c["args"] else 1.0
    if c["args"]:
        kw["args"] = (2.0,)
    what = f"bisect for {c}"
    got = err = None
    try:
        with under_test(what, allow=(ValueError,)):
            got = bisect(f, np.float64(left), np.float64(right), **kw)
    except ValueError as e:
        err = e
    if not left < right:
        check(err is not None, f"{what}: returned {got!r} for left >= right")
        return False, ["left >= right"]
    vl, vr = value(left, k), value(right, k)
    if not (vl == 0 or vr == 0 or (vl < 0) != (vr < 0)):
        check(err is not None, f"{what}: returned {got!r}, the signs at the ends do not differ")
        return True, [kind, "no bracket"]
    check(err is None, f"{what}: raised {err!r} for a bracket with values {vl!r} and {vr!r}")
    got = float(got)
    check(all(left <= x <= right for x in points + [got]), f"{what}: evaluated or returned outside the bracket: {points}, {got!r}")
    check(len(points) <= maxiter + 2, f"{what}: {len(points)} evaluations with maxiter={maxiter}")
    if vl == 0 or vr == 0:
        check(value(got, k) == 0 or abs(value(got, k)) <= tol, f"{what}: an end is a zero, returned {got!r} where the function is {value(got, k)!r}")
        return True, [kind, "end is a zero"]
    v = abs(value(got, k))
    width = (right - left) * 2.0 ** -min(maxiter, 1000)
    near = min(abs(got - r) for r in roots if roots.count(r) % 2)
    ok = v <= tol or near <= width * (1 + 1e-9) + 2 * np.spacing(max(abs(left), abs(right)))
    check(ok, f"{what}: returned {got!r} where the function is {value(got, k)!r}, the nearest change of sign is {near:.3g} away (final bracket {width:.3g})")
    return len(points) > 3, [kind, "value" if v <= tol else "bracket"]


# -- isclose, clip ----------------------------------------------------------------------------------------
def strategy_elem():
    special = [0.0, -0.0, np.inf, -np.inf, np.nan, 1.0, 1e-9, 1.5e-8, 1e308, -1e308, 5e-324, 1 + 1e-9]
    enc = st.one_of(st.sampled_from(special), st.integers(-80, 80).map(lambda k: k / 8), st.floats()).map(repr)

    @st.composite
    def cases(draw):
        n = draw(st.sampled_from([0, 0, 1, 3]))
        v = st.lists(enc, min_size=max(n, 1), max_size=max(n, 1))
        c = dict(n=n, a=draw(v), b=draw(v), atol=draw(st.sampled_from([0.0, 1e-8, 1.48e-8, 1.0])), rtol=draw(st.sampled_from([0.0, 1e-5, 0.5, 3.0])))
        if draw(st.booleans()):
            k = draw(st.sampled_from([1e-9, 2e-8, 1e-5, 0.3]))
            c["b"] = [repr(float(x) * (1 + k) + k) for x in c["a"]]
        c["clip"] = [draw(enc), draw(enc), draw(enc)]
        return c

    return cases()


def run_elem(c):
    from nbkode.nbcompat import clip, isclose

    a, b = np.array([float(x) for x in c["a"]]), np.array([float(x) for x in c["b"]])
    if c["n"] == 0:
        a, b = a[0], b[0]
    with np.errstate(all="ignore"):
        want = np.isclose(a, b, atol=c["atol"], rtol=c["rtol"])
        with under_test(f"isclose for {c}"):
            got = isclose(a, b, atol=c["atol"], rtol=c["rtol"])
        check(np.shape(got) == np.shape(want) and np.array_equal(got, want), f"isclose({a!r}, {b!r}, atol={c['atol']}, rtol={c['rtol']}) is {got}, NumPy's {want}")
        x, lo, hi = [float(v) for v in c["clip"]]
        if not (np.isnan(lo) or np.isnan(hi)):
            want = float(np.clip(x, lo, hi))
            with under_test(f"clip for {c}"):
                got = float(clip(x, lo, hi))
            check(np.array_equal(got, want, equal_nan=True), f"clip({x}, {lo}, {hi}) is {got}, NumPy's {want}")
    return bool(np.all(a != b)), ["scalar" if c["n"] == 0 else "array"]


FACETS = [
    Facet("j_newton", strategy_j, run_j, quick=3000, thorough=200000, shards=2, rule="the functions were evaluated more than twice"),
    Facet("newton_hd", strategy_hd, run_hd, quick=3000, thorough=200000, shards=2, rule="at least one iteration"),
    Facet("bisect", strategy_bisect, run_bisect, quick=4000, thorough=200000, shards=2, rule="a missing bracket, a zero at an end, or at least two bisections"),
    Facet("elementwise", strategy_elem, run_elem, quick=4000, thorough=200000, shards=2, rule="the values differ"),
]
