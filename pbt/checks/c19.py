"""C19: solutions respect the symmetries of the problem.

Two solvers are built for two problems related by a symmetry; their steps and their results of run must be related by it.
"""
import numpy as np
from hypothesis import strategies as st

from ..core import Facet, check, under_test
from ..prob import (ADAPTIVE, ALL, DEPTH, FIXED, IMPLICIT, MULTI, Problem, amax, dyadic, finite, get, problems, startup_kwargs)

TITLE = "Solutions respect the symmetries of the problem"
KINDS = ["shift", "perm", "scale", "mirror", "blocks", "rescale", "invariant"]


def strategy():
    @st.composite
    def cases(draw):
        kind = draw(st.sampled_from(KINDS))
        name = draw(st.sampled_from(FIXED + (ADAPTIVE * 4 if kind not in ("blocks", "rescale") else [])))
        c = dict(kind=kind, solver=name)
        forms = ("lin", "time", "nonlin", "full")
        if kind == "scale":
            forms = ("lin",)
        c["prob"] = draw(problems(amp=0.5, yamp=2.0, min_n=2 if kind == "perm" else 1, max_n=4, forms=forms))
        c["prob"]["t0"] = draw(dyadic(-4, 4))
        n = c["prob"]["n"]
        if kind == "shift":
            c["by"] = draw(st.sampled_from([1.0, -1.0, 0.25, 8.0, -64.0, 1024.0, 3.5, 100.0]))
        elif kind == "perm":
            c["by"] = draw(st.permutations(list(range(n))))
        elif kind == "scale":
            c["by"] = 2.0 ** draw(st.integers(-12, 12)) * draw(st.sampled_from([1.0, -1.0]))
            c["wave"] = draw(st.sampled_from([0.0, 0.0, 1.0, 3.0]))  # time dependent matrix
        elif kind == "rescale":
            c["by"] = 2.0 ** draw(st.integers(-6, 6))
        elif kind == "blocks":
            c["other"] = draw(problems(amp=0.5, yamp=2.0, max_n=3, forms=forms))
        elif kind == "invariant":
            # reactions: fixed integer directions orthogonal to w, rates from the problem
            n = c["prob"]["n"] = max(2, n)
            m = draw(st.integers(1, 3))
            w = draw(st.lists(st.integers(-3, 3), min_size=n, max_size=n).filter(any))
            c["w"] = w
            c["v"] = [[draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1)), draw(st.integers(-1, 1))] for _ in range(m)]
            for k in ("A", "b", "g", "w", "q", "r", "y0"):
                c["prob"].pop(k, None)
            c["y0"] = draw(st.lists(dyadic(-2, 2), min_size=n, max_size=n))
            c["k"] = draw(st.lists(dyadic(-1, 1), min_size=3 * m, max_size=3 * m))
        if name in ADAPTIVE:
            c["opts"] = dict(rtol=draw(st.sampled_from([1e-3, 1e-6, 1e-2])), atol=draw(st.sampled_from([1e-6, 1e-9, 1e-3])))
            if draw(st.integers(0, 3)) == 0:
                c["opts"]["first_step"] = draw(st.sampled_from([0.125, 0.5, 2.0]))
            if draw(st.integers(0, 3)) == 0:
                c["opts"]["max_step"] = draw(st.sampled_from([0.25, 0.5]))
        else:
            c["h"] = draw(st.sampled_from([0.0625, 0.03125, 0.05, 0.125, 0.01]))
            if DEPTH[name] > 1:
                c["first"] = draw(st.sampled_from(["none", "RungeKutta4", "RungeKutta4", "auto"]))
        c["n"] = draw(st.integers(1, 8))
        c["pos"] = draw(st.lists(st.integers(0, 40), min_size=1, max_size=5))
        return c

    return cases()


def reactions(c):
    """f = sum_j rate_j(t, y) v_j with w . v_j = 0, and its value of |terms|."""
    w, n = np.array(c["w"], dtype=float), len(c["w"])
    dirs = []
    for i, j, s in c["v"]:
        v = np.zeros(n)
        if i == j:
            if w[i] == 0:
                v[i] = 1.0
        else:
            v[i], v[j] = w[j], -w[i]
            if not v.any():
                v[i] = 1.0  # both weights vanish
        dirs.append(v)
    k = np.array(c["k"]).reshape(-1, 3)

    def f(t, y):
        out = np.zeros(n)
        for m, v in enumerate(dirs):
            a = k[m]
            out = out + v * (a[0] * y[m % n] + a[1] * np.sin(y[(m + 1) % n] + t) + a[2])
        return out

    return f, dirs


def build(c):
    """[(rhs, t0, y0, kwargs)] for the two solvers, maps of the first solver's times and states to the second's (or a
    list of solvers to be stacked), and whether the relation is exact up to the rounding of single operations."""
    kind, name = c["kind"], c["solver"]
    kw = dict(startup_kwargs(name, c.get("first", "default")))
    kw.update(c.get("opts", {}))
    if "h" in c:
        kw["h"] = c["h"]
    p = Problem(c["prob"]) if kind != "invariant" else None
    kw2 = dict(kw)
    same = lambda x: x
    if kind == "shift":
        s = c["by"]
        return (p.f, p.t0, p.y0, kw), (lambda t, y: p.f(t - s, y), p.t0 + s, p.y0.copy(), kw2), (lambda t: t + s), same, not (p.has_g or np.any(p.r))
    if kind == "perm":
        pi = np.array(c["by"])
        inv = np.argsort(pi)
        return (p.f, p.t0, p.y0, kw), (lambda t, y: p.f(t, y[inv])[pi], p.t0, p.y0[pi], kw2), same, (lambda y: y[..., pi]), False
    if kind == "mirror":
        return (p.f, p.t0, p.y0, kw), (lambda t, y: -p.f(t, -y), p.t0, -p.y0, kw2), same, (lambda y: -y), True
    if kind == "scale":
        k, om = c["by"], c["wave"]
        f = (lambda t, y: p.f(t, y) * (1 + 0.5 * np.sin(om * t))) if om else p.f
        if name in ADAPTIVE:
            kw2["atol"] = kw["atol"] * abs(k)
        return (f, p.t0, p.y0, kw), (f, p.t0, p.y0 * k, kw2), same, (lambda y: y * k), True
    if kind == "rescale":
        k = c["by"]
        kw2["h"] = kw["h"] / k
        return (p.f, p.t0, p.y0, kw), (lambda t, y: k * p.f(k * t, y), p.t0 / k, p.y0.copy(), kw2), (lambda t: t / k), same, True
    raise AssertionError(kind)


def solver(c, rhs, t0, y0, kw, limit=400000):
    from ..core import NonTermination

    n = [0]

    def f(t, y):
        n[0] += 1
        if n[0] > limit:
            raise NonTermination("too many evaluations")
        return rhs(t, y)

    return get(c["solver"])(f, t0, y0, **kw)


def drive(c, rhs, t0, y0, kw, tmap):
    """Steps, then requested times given by their position for the untransformed problem."""
    s = solver(c, rhs, t0, y0, kw)
    start = (float(s.t), np.array(s.y))
    ts, ys = s.step(n=c["n"])
    base = c["prob"]["t0"] if c["kind"] != "invariant" else c["prob"]["t0"]
    unit = c["h"] if "h" in c else 0.125
    s2 = solver(c, rhs, t0, y0, kw)
    off = (DEPTH[c["solver"]] - 1) * unit if "h" in c else 0.0
    req = np.array([tmap(base + off + 0.375 * x * unit) for x in c["pos"]])
    req = np.maximum(req, float(s2.t))
    tt, yy = s2.run(req)
    return start, np.array(ts), np.array(ys), np.array(tt), np.array(yy)


def run(c):
    name, kind = c["solver"], c["kind"]
    impl = name in IMPLICIT
    labels = [kind, name]
    try:
        if kind == "invariant":
            return run_invariant(c), labels
        if kind == "blocks":
            return run_blocks(c), labels
        one, two, tmap, ymap, exact = build(c)
        what = f"{name} under {kind} {c.get('by')}"
        with under_test(what, allow=(RuntimeError, np.linalg.LinAlgError)):
            a = drive(c, *one, lambda t: t)
            b = drive(c, *two, tmap)
    except np.linalg.LinAlgError:
        return False, labels + ["no solution"]
    except RuntimeError:
        return False, labels + ["no solution"]
    if not finite(*a[2:3], *b[2:3]) or amax(a[2]) > 1e6 * (1 + amax(one[2])):
        return False, labels + ["too large"]
    k = abs(c["by"]) if kind == "scale" else 1.0
    scale = max(amax(ymap(a[2])), amax(ymap(a[4])), amax(two[2]))
    if impl:
        tol = 1e-5 * (max(1.0, k) + scale)
    else:
        tol = 1e-8 * scale + 1e-290
    ttol = 1e-10 * max(1.0, amax(a[1]), amax(b[1]), amax(b[3]))
    stepwise = name not in ADAPTIVE or exact
    rtol_run = tol
    if not stepwise:
        rtol_run = 1e-8 * scale + 0.02 * (c["opts"]["atol"] + c["opts"]["rtol"] * scale)
    elif name in MULTI and c.get("first") == "auto" and kind != "mirror":
        tol = rtol_run = tol + 0.02 * scale + 2e-5 * max(1.0, k)  # the default start-up is adaptive
    if stepwise:
        check(abs(tmap(a[0][0]) - b[0][0]) <= ttol and amax(ymap(a[0][1]) - b[0][1]) <= tol,
              lambda: f"{what}: one solver starts at {a[0][0]!r}, {a[0][1].tolist()}, the other at {b[0][0]!r}, {b[0][1].tolist()}")
        check(amax(tmap(a[1]) - b[1]) <= ttol, lambda: f"{what}: the steps of one solver are at {a[1].tolist()}, of the other at {b[1].tolist()}")
        check(amax(ymap(a[2]) - b[2]) <= tol, lambda: f"{what}: the steps at {a[1].tolist()} give {a[2].tolist()}, the transformed problem {b[2].tolist()}")
    check(a[3].shape == b[3].shape, lambda: f"{what}: run gives {a[3].size} and {b[3].size} times")
    check(amax(ymap(a[4]) - b[4]) <= rtol_run, lambda: f"{what}: run at {a[3].tolist()} gives {a[4].tolist()}, the transformed problem {b[4].tolist()}")
    return amax(a[2][-1] - one[2]) > 0 and not (kind == "perm" and list(c["by"]) == sorted(c["by"])), labels


def run_blocks(c):
    name = c["solver"]
    p, q = Problem(c["prob"]), Problem(dict(c["other"], t0=c["prob"]["t0"]))
    kw = dict(startup_kwargs(name, c.get("first", "default")), h=c["h"])
    what = f"{name} with blocks of {p.n} and {q.n}"
    rhs = lambda t, y: np.concatenate([p.f(t, y[:p.n]), q.f(t, y[p.n:])])
    with under_test(what, allow=(RuntimeError, np.linalg.LinAlgError)):
        a, b, ab = (drive(c, f, p.t0, y0, kw, lambda t: t) for f, y0 in ((p.f, p.y0), (q.f, q.y0), (rhs, np.concatenate([p.y0, q.y0]))))
    if not finite(ab[2], a[2], b[2]) or amax(ab[2]) > 1e6:
        return False
    scale = amax(ab[2])
    tol = 1e-5 * (1 + scale) if name in IMPLICIT else 1e-8 * scale + 1e-290
    if name in MULTI and c.get("first") == "auto":
        tol += 0.02 * scale + 2e-5
    for k, which in ((0, "start"), (2, "steps"), (4, "run")):
        x = [r[k][1] if k == 0 else r[k] for r in (a, b, ab)]
        alone = np.concatenate([x[0], x[1]], axis=-1)
        check(alone.shape == x[2].shape and amax(alone - x[2]) <= tol, lambda: f"{what}, {which}: {x[2].tolist()} together, {alone.tolist()} alone")
    check(np.array_equal(a[1], ab[1]), f"{what}: times {ab[1].tolist()} and {a[1].tolist()}")
    return amax(ab[2][-1] - ab[0][1]) > 0


def run_invariant(c):
    name = c["solver"]
    f, dirs = reactions(c)
    w = np.array(c["w"], dtype=float)
    kw = dict(startup_kwargs(name, c.get("first", "default")))
    kw.update(c.get("opts", {}))
    if "h" in c:
        kw["h"] = c["h"]
    y0 = np.array(c["y0"])
    what = f"{name}, invariant {c['w']} . y"
    with under_test(what, allow=(RuntimeError, np.linalg.LinAlgError)):
        a = drive(c, f, c["prob"]["t0"], y0, kw, lambda t: t)
    if not finite(a[2]) or amax(a[2]) > 1e6:
        return False
    scale = max(amax(a[2]), amax(a[4]), 1.0) * np.sum(np.abs(w))
    tol = 1e-6 * scale if name in IMPLICIT else 1e-10 * scale
    for y, t in [(a[0][1], a[0][0])] + list(zip(a[2], a[1])) + list(zip(a[4], a[3])):
        check(abs(w @ y - w @ y0) <= tol, lambda: f"{what}: {float(w @ y)!r} at t={float(t)!r}, {float(w @ y0)!r} at the start")
    return amax(a[2][-1] - y0) > 0


FACETS = [Facet("relations", strategy, run, quick=6000, thorough=300000, shards=8, rule="the solution moves and the transformation is not the identity")]
