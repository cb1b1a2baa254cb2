"""C16: solver lookup and filters tell the truth."""
import warnings

import numpy as np
from hypothesis import strategies as st

from ..core import Facet, check, under_test
from ..prob import ADAPTIVE, ALL, ABS, AMS, BDFS, DEPTH, ERKS, FIXED, IMPLICIT, Problem, amax, problems

TITLE = "Solver lookup and filters tell the truth"
GROUPS = {"Euler": ["ForwardEuler", "BackwardEuler"], "Adams-Bashforth": ABS, "Adams-Moulton": AMS, "BDF": BDFS}
MULTISTEP = ["ForwardEuler", "BackwardEuler"] + ABS + AMS + BDFS
ALIASES = {"Euler": "ForwardEuler"}


def recase(name, bits):
    return "".join(c.upper() if bits >> (i % 16) & 1 else c.lower() for i, c in enumerate(name))


def strategy():
    @st.composite
    def cases(draw):
        kind = draw(st.sampled_from(["filter", "filter", "filter", "name", "unknown", "group", "lists"]))
        bits = draw(st.integers(0, 2 ** 16 - 1))
        if kind == "filter":
            f = {k: draw(st.sampled_from([None, None, True, False])) for k in ("implicit", "fixed_step", "runge_kutta", "multistep")}
            g = draw(st.lists(st.sampled_from(sorted(GROUPS) + ["@rk", "@rk"]), max_size=3, unique=True))
            return dict(kind=kind, f=f, groups=g, bits=draw(st.one_of(st.none(), st.just(bits))))
        if kind == "name":
            return dict(kind=kind, name=draw(st.sampled_from(ALL + ["Euler"] * 3)), bits=draw(st.one_of(st.none(), st.just(bits))))
        if kind == "unknown":
            return dict(kind=kind, name=draw(st.one_of(st.text("abcRKE45_ ", max_size=8), st.sampled_from(ALL).map(lambda n: n[:-1]),
                                                         st.sampled_from(ALL).map(lambda n: n + "0"), st.sampled_from(ALL).map(lambda n: " " + n))))
        if kind == "group":
            return dict(kind=kind, name=draw(st.one_of(st.text("abcBDF-", max_size=6), st.sampled_from(sorted(GROUPS)).map(lambda n: n + "x"))),
                        extra=draw(st.lists(st.sampled_from(sorted(GROUPS)), max_size=2)))
        return dict(kind=kind, n=bits)

    return cases()


def run(case):
    import nbkode

    kind = case["kind"]
    labels = [kind]
    if kind == "filter":
        every = {c.__name__: c for c in nbkode.get_solvers()}
        check(set(ALL) <= set(every), lambda: f"get_solvers() lacks {sorted(set(ALL) - set(every))}")
        check(len(every) == len(nbkode.get_solvers()), "get_solvers() returns a solver twice")
        truth = dict(implicit=set(IMPLICIT), fixed_step=set(FIXED), runge_kutta=set(ERKS + ADAPTIVE), multistep=set(MULTISTEP))
        kw = {k: v for k, v in case["f"].items() if v is not None}
        groups = []
        members = set()
        for g in case["groups"]:
            if g == "@rk":
                # the groups of the Runge-Kutta solvers, by what they say themselves
                g = every["RungeKutta45"].GROUP
                if not isinstance(g, str):
                    continue
            if g in groups:
                continue
            groups.append(g)
            members |= set(GROUPS.get(g, [n for n, c in every.items() if c.GROUP == g]))
        if not groups:
            members = set(every)
        want = {n for n in members if n in ALL and all((n in truth[k]) is v for k, v in kw.items())}
        spelled = [g if case["bits"] is None else recase(g, case["bits"]) for g in groups]
        what = f"get_solvers({', '.join(map(repr, spelled))}, {kw})"
        with under_test(what):
            got = nbkode.get_solvers(*spelled, **kw)
        names = [c.__name__ for c in got]
        check(len(names) == len(set(names)), lambda: f"{what}: returns a solver twice: {names}")
        check({n for n in names if n in ALL} == want, lambda: f"{what}: returns {sorted(names)}, it should be {sorted(want)}")
        for c in got:
            check(nbkode.get_solver(c.__name__) is c, f"{what}: {c} is not the solver of that name")
        return bool(kw or groups), labels
    if kind == "name":
        name = case["name"]
        real = ALIASES.get(name, name)
        spelled = name if case["bits"] is None else recase(name, case["bits"])
        with under_test(f"get_solver({spelled!r})"):
            c = nbkode.get_solver(spelled)
        check(c.__name__ == real, f"get_solver({spelled!r}) is {c}, not {real}")
        if spelled == "euler":
            return True, labels  # as an attribute, the submodule
        with warnings.catch_warnings(record=True) as log:
            warnings.simplefilter("always")
            with under_test(f"nbkode.{spelled}"):
                a = getattr(nbkode, spelled)
        check(a is c, f"nbkode.{spelled} is {a}, get_solver({spelled!r}) is {c}")
        check(bool(log) == (spelled != real), f"nbkode.{spelled} warns: {[str(w.message) for w in log]}")
        if log:
            check(real in str(log[0].message), f"the warning for {spelled} does not name {real}: {log[0].message}")
        return True, labels + (["alias"] if name in ALIASES else [])
    if kind == "unknown":
        name = case["name"]
        if name.lower() in [n.lower() for n in ALL] + ["euler"] or hasattr_real(nbkode, name):
            return False, labels
        err = {}
        for what, fn, exc in (("get_solver", lambda: nbkode.get_solver(name), ValueError), ("attribute access", lambda: getattr(nbkode, name), AttributeError)):
            try:
                r = fn()
            except exc as e:
                err[what] = e
            except Exception as e:
                check(False, f"{what} {name!r} raises {type(e).__name__}: {e} instead of {exc.__name__}")
            else:
                check(False, f"{what} {name!r} gives {r} instead of {exc.__name__}")
        return True, labels
    if kind == "group":
        name = case["name"]
        if name.lower() in [g.lower() for g in nbkode.get_groups()]:
            return False, labels
        for args in ([name], case["extra"] + [name], [name] + case["extra"]):
            try:
                r = nbkode.get_solvers(*args)
            except KeyError:
                pass
            except Exception as e:
                check(False, f"get_solvers{tuple(args)} raises {type(e).__name__}: {e} instead of KeyError")
            else:
                check(False, f"get_solvers{tuple(args)} returns {r} instead of raising KeyError")
        return True, labels
    # lists
    with under_test("list_solvers"):
        plain = nbkode.list_solvers(include_alias=False)
        full = nbkode.list_solvers(alias_fmt_string="{name}")
        custom = nbkode.list_solvers("<{cls.__name__}>", "({name}={cls.__name__})")
        groups = nbkode.get_groups()
    every = [c.__name__ for c in nbkode.get_solvers()]
    check(sorted(plain) == sorted(every), lambda: f"list_solvers and get_solvers differ: {sorted(plain)}, {sorted(every)}")
    check(set(full) - set(plain) >= {"Euler"} and len(full) == len(set(full)), lambda: f"list_solvers with aliases: {full}")
    for n in full:
        check((n in plain) == (nbkode.get_solver(n).__name__ == n), f"list_solvers: {n}")
    check("<ForwardEuler>" in custom and "(Euler=ForwardEuler)" in custom, f"list_solvers with formats: {custom}")
    check(list(groups) == sorted(groups) and set(GROUPS) <= set(groups), f"get_groups: {groups}")
    by_group = [c for g in groups for c in nbkode.get_solvers(g)]
    check(len(by_group) == len(set(by_group)) == len(every), "the groups do not partition the solvers")
    for g in groups:
        for c in nbkode.get_solvers(g):
            check(str(c.GROUP).lower() == g.lower() if c.GROUP is not None else True, f"{c} is listed in group {g}, its GROUP is {c.GROUP}")
    check(set(ALL) <= set(dir(nbkode)), f"dir(nbkode) lacks {sorted(set(plain) - set(dir(nbkode)))}")
    return True, labels


def hasattr_real(mod, name):
    return name in vars(mod) or name.startswith("__")


def strategy_flags():
    @st.composite
    def cases(draw):
        return dict(solver=draw(st.sampled_from(ALL)), prob=draw(problems(amp=1.0, max_n=3)),
                    lam=draw(st.sampled_from([-1e6, -1e8, -3e6])), h=draw(st.sampled_from([1.0, 0.5, 0.25])))

    return cases()


def run_flags(case):
    """The flags by which solvers are filtered describe how they step."""
    import nbkode

    name = case["solver"]
    (cls,) = [c for c in nbkode.get_solvers() if c.__name__ == name]
    implicit = cls in nbkode.get_solvers(implicit=True)
    fixed = cls in nbkode.get_solvers(fixed_step=True)
    multistep = cls in nbkode.get_solvers(multistep=True)
    check(implicit != (cls in nbkode.get_solvers(implicit=False)) and fixed != (cls in nbkode.get_solvers(fixed_step=False)), f"{name} is both or neither")
    p = Problem(case["prob"])
    # step sizes
    if fixed:
        s = cls(p.rhs(100000), p.t0, p.y0, h=case["h"], **(dict(first_stepper_cls=None) if multistep else {}))
        for k in range(4):
            t = float(s.t)
            try:
                s.skip()
            except (RuntimeError, np.linalg.LinAlgError):
                break
            check(abs(float(s.t) - t - case["h"]) <= 4 * np.spacing(abs(t) + case["h"]), f"{name} is listed as fixed step; with h={case['h']} a step goes from {t!r} to {float(s.t)!r}")
    else:
        s = cls(lambda t, y: -y + np.sin(5 * t), 0.0, p.y0 + 1.0)
        ts, ys = s.step(n=12)
        d = np.diff(ts)
        check(np.max(d) > 1.0001 * np.min(d), f"{name} is listed as variable step, its times are {ts}")
    # a stiff decay: after one step an explicit method is far off, an implicit one is not
    lam, h = case["lam"], case["h"]
    if fixed:
        kw = dict(first_stepper_cls=None) if multistep else {}
        s = cls(lambda t, y: lam * y, 0.0, np.ones(p.n), h=h, **kw)
        try:
            s.skip(n=1)
            grown = amax(s.y) > 1e3
        except (RuntimeError, np.linalg.LinAlgError):
            grown = False  # an equation was solved for, without success
        check(grown != implicit, f"{name} is listed with implicit={implicit}; for y'={lam} y a step of h={h} leads from 1 to {s.y.tolist()}")
    else:
        check(not implicit, f"{name} is listed as implicit")
    return True, [name]


FACETS = [Facet("lookup", strategy, run, quick=2500, thorough=40000, shards=4, rule="a filter, group, known or unknown name was looked up"),
          Facet("flags", strategy_flags, run_flags, quick=1200, thorough=30000, shards=4, rule="every case: the behaviour of a solver was compared with its flags")]
