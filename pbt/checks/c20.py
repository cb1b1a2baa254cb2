"""C20: equivalent ways of stating a problem give the same solution."""
import sys
import warnings

import numpy as np
from hypothesis import strategies as st

from ..core import Facet, NonTermination, check, under_test
from ..prob import ADAPTIVE, ALL, DEPTH, KINDS, MULTI, Problem, amax, dyadic, finite, get, problems

TITLE = "Equivalent ways of stating a problem give the same solution"

DEFAULTS = dict(atol=1e-6, rtol=1e-3, min_step=1e-15, max_step=np.inf, min_factor=0.2, max_factor=10.0, safety_factor=0.9, first_step=None)


def strategy():
    @st.composite
    def cases(draw):
        name = draw(st.sampled_from(ALL + ADAPTIVE * 3))
        ints = draw(st.booleans())  # everything that can be an integer is one
        p = draw(problems(amp=0.5, yamp=2.0, max_n=3))
        if ints:
            p["y0"] = [float(round(y)) for y in p["y0"]]
            p["t0"] = float(round(p["t0"]))
        np_ = draw(st.integers(1, 3))
        if not ints and draw(st.booleans()):
            # no short binary form
            p["y0"] = [y + draw(st.sampled_from([0.1, -1 / 3])) for y in p["y0"]]
            p["t0"] += 0.1
        value = st.one_of(dyadic(-1, 1), st.integers(-9, 9).map(lambda k: k / 10))
        c = dict(solver=name, prob=p, ints=ints, par=[draw(value) for _ in range(np_)], v=draw(variant()), w=draw(variant()))
        if name not in ADAPTIVE:
            c["h"] = draw(st.sampled_from([0.125, 0.0625, 0.1, 1.0, None])) if not ints else draw(st.sampled_from([1.0, None, 0.125]))
        else:
            c["opts"] = {k: v for k, v in dict(atol=1e-4, rtol=1e-2, max_step=0.5, min_factor=0.5, max_factor=2.0, safety_factor=0.75, first_step=0.125).items() if draw(st.integers(0, 3)) == 0}
        if name in MULTI:
            c["first"] = draw(st.sampled_from(["RungeKutta45", "RungeKutta4", "ForwardEuler", "AdamsBashforth3", "RungeKutta45"]))
        c["n"] = draw(st.integers(1, 6))
        c["pos"] = draw(st.lists(st.integers(0, 24), min_size=1, max_size=5))
        c["upto"] = draw(st.integers(0, 5))
        return c

    return cases()


def variant():
    return st.fixed_dictionaries(dict(
        params=st.sampled_from(["closure", "number", "list", "tuple", "array", "int", "strided", "2d"]), y0=st.sampled_from(["array", "list", "tuple", "number", "int", "intlist", "strided", "f32"]),
        t0=st.sampled_from(["float", "int", "np", "zerod"]), times=st.sampled_from(["array", "list", "tuple", "int", "strided", "scalar", "f32"]), by=st.sampled_from(["class", "name", "lower", "attr", "alias", "module"]),
        defaults=st.integers(0, 255), bound=st.sampled_from(["none", "inf", "far"]), out=st.sampled_from(["new", "buffer", "arg", "strided"]), first=st.sampled_from(["name", "class", "auto", "lower"]),
        h=st.sampled_from(["float", "int", "np"]), kwargs=st.booleans()))


def is_int(x):
    return float(x) == int(x)


def cast_number(x, how):
    if how == "int" and is_int(x):
        return int(x)
    if how == "np":
        return np.float64(x)
    if how == "zerod":
        return np.array(float(x))
    return float(x)


def cast_vector(x, how):
    x = np.array(x, dtype=float)
    if how == "list":
        return x.tolist()
    if how == "tuple":
        return tuple(x.tolist())
    if how == "number" and x.size == 1:
        return float(x[0])
    if how == "int" and x.size == 1 and is_int(x[0]):
        return int(x[0])
    if how in ("int", "intlist") and all(is_int(v) for v in x):
        return x.astype(int) if how == "int" else [int(v) for v in x]
    if how == "strided":
        big = np.full(3 * x.size, 1e30)
        big[::3] = x
        return big[::3]
    if how == "f32" and np.array_equal(x.astype(np.float32), x):
        return x.astype(np.float32)
    return x


def state(c, v):
    """The solver for case c stated in the way v."""
    import nbkode

    p = Problem(c["prob"])
    par = np.array(c["par"]) if v["params"] != "int" else np.array(c["par"])
    n_eval = [0]
    w = np.array([[1.0, 0.5, -0.25]])[0, :par.size]
    buf = np.zeros(p.n)
    wide = np.zeros(2 * p.n)

    def base(t, y, q):
        n_eval[0] += 1
        if n_eval[0] > 300000:
            raise NonTermination("too many evaluations")
        q = np.reshape(np.asarray(q, dtype=float), -1)
        out = p.f(t, y) + 0.25 * float(w @ q) * y
        if v["out"] == "buffer":
            buf[:] = out
            return buf
        if v["out"] == "strided":
            wide[::2] = out
            return wide[::2]
        return out

    args, kw = [], {}
    if v["params"] == "closure":
        rhs = lambda t, y: base(t, y, par)
    else:
        rhs = base
        how = v["params"]
        given = par[None, :] if how == "2d" else cast_vector(par, how)
        (kw.__setitem__("params", given) if v["kwargs"] else args.append(given))
    name = c["solver"]
    cls = get(name)
    if v["by"] == "name":
        cls = nbkode.get_solver(name)
    elif v["by"] == "lower":
        cls = nbkode.get_solver(name.upper() if c["n"] % 2 else name.lower())
    elif v["by"] == "attr":
        cls = getattr(nbkode, name)
    elif v["by"] == "alias" and name == "ForwardEuler":
        cls = nbkode.get_solver("euler")
    elif v["by"] == "module":
        (cls,) = [s for s in nbkode.get_solvers() if s.__name__ == name]
    if c.get("h") is not None:
        kw["h"] = cast_number(c["h"], v["h"])
    elif name not in ADAPTIVE and v["defaults"] & 1:
        kw["h"] = cast_number(1.0, v["h"])
    if name in ADAPTIVE:
        for i, (k, d) in enumerate(DEFAULTS.items()):
            if k in c["opts"]:
                kw[k] = c["opts"][k]
            elif v["defaults"] >> i & 1:
                kw[k] = d
    if name in MULTI:
        f = c["first"]
        if f == "RungeKutta45" and v["first"] == "auto":
            if v["defaults"] & 2:
                kw["first_stepper_cls"] = "auto"
        elif v["first"] == "class":
            kw["first_stepper_cls"] = get(f)
        elif v["first"] == "lower":
            kw["first_stepper_cls"] = f.lower()
        else:
            kw["first_stepper_cls"] = f
    if v["bound"] == "inf":
        kw["t_bound"] = np.inf
    elif v["bound"] == "far":
        kw["t_bound"] = 10 ** 6
    with under_test(f"constructing {name} as {v}", allow=(RuntimeError, np.linalg.LinAlgError)):
        return cls(rhs, cast_number(p.t0, v["t0"]), cast_vector(p.y0, v["y0"]), *args, **kw)


def use(c, v):
    s = state(c, v)
    out = [np.array(float(s.t)), np.array(s.y), np.array(s.f), np.array(float(s.h))]
    what = f"{c['solver']} stated as {v}"
    number = np.int64 if v["h"] == "np" else int
    with under_test(what, allow=(RuntimeError, np.linalg.LinAlgError)):
        out += [np.array(x) for x in s.step(n=number(c["n"]))]
        unit = float(c["h"] or 1.0) if "h" in c else 0.125
        t = float(s.t)
        if c["ints"]:
            t, unit = float(np.ceil(t)), 1.0
            c = dict(c, pos=[x % 4 for x in c["pos"]])
        req = [t + x * unit * (1.0 if c["ints"] else 0.375) for x in c["pos"]]
        if v["times"] == "scalar" and len(req) == 1:
            out += [np.array(x) for x in s.run(cast_number(req[0], v["t0"]))]
        else:
            out += [np.array(x) for x in s.run(cast_vector(req, v["times"]))]
        upto = np.ceil(float(s.t)) + c["upto"] * unit
        # an upto_t that a step reaches within rounding: nothing depends on the form
        out += [np.array(x) for x in s.step(upto_t=cast_number(upto, v["t0"]))]
        out += [np.array(float(s.t)), np.array(s.y)]
    return out


def run(c):
    name = c["solver"]
    res = []
    for v in (c["v"], c["w"]):
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                res.append(use(c, v))
        except (RuntimeError, np.linalg.LinAlgError) as e:
            res.append(type(e).__name__)
    a, b = res
    labels = [name] + [f"{k}={x[k]}" for x in (c["v"], c["w"]) for k in ("params", "y0", "out", "times")]
    if isinstance(a, str) or isinstance(b, str):
        check(a == b if isinstance(a, str) and isinstance(b, str) else False, lambda: f"{name}: stated as {c['v']}: {a if isinstance(a, str) else 'works'}, as {c['w']}: {b if isinstance(b, str) else 'works'}")
        return False, labels
    if not finite(*a):
        return False, labels + ["overflow"]
    for k, (x, y) in enumerate(zip(a, b)):
        scale = amax(x)
        same = x.shape == y.shape and amax(x - y) <= 1e-9 * scale
        check(same, lambda: f"{name}: result {k} is {x.tolist()} stated as {c['v']}, {y.tolist()} stated as {c['w']}")
    diff = [k for k in c["v"] if c["v"][k] != c["w"][k]]
    return len(diff) > 0 and amax(a[-1] - a[1]) > 0, labels


def strategy_identity():
    """y' = y and y' = c: right-hand sides that return their argument, or always the same array."""
    @st.composite
    def cases(draw):
        name = draw(st.sampled_from(ALL + ADAPTIVE * 2))
        c = dict(solver=name, kind=draw(st.sampled_from(["argument", "constant", "view"])), y0=draw(st.lists(dyadic(-2, 2), min_size=1, max_size=3)),
                 n=draw(st.integers(1, 8)), t0=draw(dyadic(-2, 2)))
        if name not in ADAPTIVE:
            c["h"] = draw(st.sampled_from([0.125, 0.25, 0.1]))
        if name in MULTI:
            c["first"] = draw(st.sampled_from([None, "auto", "RungeKutta4"]))
        return c

    return cases()


def run_identity(c):
    name = c["solver"]
    y0 = np.array(c["y0"])
    const = y0[::-1].copy() + 0.5
    sneaky = dict(argument=lambda t, y: y, constant=lambda t, y: const, view=lambda t, y: y[::-1])[c["kind"]]
    plain = dict(argument=lambda t, y: y * 1.0, constant=lambda t, y: const.copy(), view=lambda t, y: y[::-1].copy())[c["kind"]]
    kw = {}
    if "h" in c:
        kw["h"] = c["h"]
    if "first" in c:
        kw["first_stepper_cls"] = c["first"]
    out = []
    for f in (plain, sneaky):
        try:
            s = get(name)(f, c["t0"], y0, **kw)
            r = [np.array(s.y), np.array(s.f), *map(np.array, s.step(n=c["n"]))]
            r += [np.array(x) for x in s.run([float(s.t) + 0.3, float(s.t) + 1.0])]
            out.append(r + [np.array(s.y), np.array(s.f)])
        except (RuntimeError, np.linalg.LinAlgError) as e:
            out.append(type(e).__name__)
    a, b = out
    check(isinstance(a, str) == isinstance(b, str), lambda: f"{name}: {a if isinstance(a, str) else 'works'} with copies, {b if isinstance(b, str) else 'works'} with a right-hand side returning its {c['kind']}")
    if not isinstance(a, str):
        for x, y in zip(a, b):
            check(x.shape == y.shape and amax(x - y) <= 1e-12 * amax(x), lambda: f"{name}: {x.tolist()} with copies, {y.tolist()} with a right-hand side returning its {c['kind']}")
        check(np.array_equal(const, y0[::-1] + 0.5), f"{name}: the array returned by the right-hand side was modified")
    return bool(np.any(y0)), [name, c["kind"]]


# -- compiled mode ----------------------------------------------------------------------------------------
def strategy_compiled(shard=0, nshards=1):
    names = (KINDS if "thorough" not in sys.argv else ALL)[shard::nshards]

    @st.composite
    def cases(draw):
        name = draw(st.sampled_from(names))
        n = draw(st.integers(1, 3))
        c = dict(solver=name, n=n, y0=draw(st.lists(dyadic(-2, 2), min_size=n, max_size=n)), t0=float(draw(st.integers(-4, 4))),
                 par=draw(st.lists(st.one_of(dyadic(-1, 1), st.integers(-9, 9).map(lambda k: k / 10)), min_size=3, max_size=3)), params=draw(st.sampled_from(["list", "tuple", "array", "strided"])),
                 rhs=draw(st.sampled_from(["plain", "njit"])), y=draw(st.sampled_from(["list", "array", "strided", "f32"])),
                 times=draw(st.sampled_from(["list", "array", "strided"])), steps=draw(st.integers(1, 6)), event=draw(st.sampled_from(["plain", "njit", "attributes"])),
                 pos=draw(st.lists(st.integers(1, 24).map(lambda k: k / 8), min_size=1, max_size=4)))
        if name not in ADAPTIVE:
            c["h"] = draw(st.sampled_from([0.125, 0.25]))
        return c

    return cases()


def run_compiled(c):
    """An already compiled right-hand side that has its parameters written in, against the form given."""
    import numba

    a, b, d = c["par"]
    t0 = c["t0"]
    kw = dict(h=c["h"]) if "h" in c else {}
    if c["solver"] in MULTI:
        kw["first_stepper_cls"] = None

    def written_in(t, y):
        return a * y + b * np.sin(t) + d

    def with_params(t, y, q):
        return q[0] * y + q[1] * np.sin(t) + q[2]

    def event(t, y):
        return np.sin(5 * (t - t0)) + 0.125

    forms = [(numba.njit(written_in), (), np.array(c["y0"]), "array", numba.njit(event)),
             (numba.njit(with_params) if c["rhs"] == "njit" else with_params, (cast_vector(c["par"], c["params"]),), cast_vector(c["y0"], c["y"]), c["times"],
              numba.njit(event) if c["event"] == "njit" else event)]
    if c["event"] == "attributes":
        event.terminal, event.direction = False, 0
    out = []
    for rhs, args, y0, times, ev in forms:
        what = f"{c['solver']} in compiled mode with {c}"
        try:
            with under_test(what, allow=(RuntimeError, np.linalg.LinAlgError)):
                s = get(c["solver"])(rhs, t0, y0, *args, **kw)
                r = [np.array(s.f)] + [np.array(x) for x in s.step(n=c["steps"])]
                req = cast_vector([float(s.t) + x * 0.25 for x in c["pos"]], times)
                tt, yy, te, ye = s.run_events(req, ev)
                r += [np.array(tt), np.array(yy), np.array(te), np.array(ye), np.array(s.y), np.array(s.f), np.array(float(s.h))]
                out.append(r)
        except (RuntimeError, np.linalg.LinAlgError) as e:
            out.append(type(e).__name__)
    x, y = out
    check(isinstance(x, str) == isinstance(y, str), lambda: f"{c['solver']} in compiled mode: {x if isinstance(x, str) else 'works'} with an already compiled right-hand side, {y if isinstance(y, str) else 'works'} stated as {c}")
    if not isinstance(x, str):
        for k, (u, v) in enumerate(zip(x, y)):
            check(u.shape == v.shape and amax(u - v) <= 1e-7 * amax(u), lambda: f"{c['solver']} in compiled mode: result {k} is {u.tolist()} with an already compiled right-hand side, {v.tolist()} stated as {c}")
    return any(c["par"]) and any(c["y0"]), [c["solver"], c["rhs"], c["params"], "event " + c["event"]]


FACETS = [
    Facet("forms", strategy, run, quick=4000, thorough=200000, shards=6, rule="the two statements differ in form and the solution moves"),
    Facet("aliased rhs", strategy_identity, run_identity, quick=1500, thorough=60000, shards=2, rule="y0 is not zero"),
    Facet("compiled", strategy_compiled, run_compiled, quick=24, thorough=800, shards=8, mode="jit", rule="parameters and y0 are not all zero"),
]
