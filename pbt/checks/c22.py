"""C22: user-defined methods work from their coefficients alone."""
import numpy as np
from hypothesis import strategies as st

from ..core import Facet, check, under_test
from ..prob import ADAPTIVE, ALL, Problem, amax, dyadic, finite, hermite, problems

TITLE = "User-defined methods work from their coefficients alone"

COUNT = [0]


def fresh(word):
    COUNT[0] += 1
    return f"{word}{COUNT[0]}x"


def bases():
    from nbkode.multistep.core import ExplicitMultistep, ImplicitMultistep
    from nbkode.runge_kutta.core import AdaptiveRungeKutta
    from nbkode.runge_kutta.explicit import ERK, FSAL, Fehlberg45

    return dict(erk=(ERK,), fsal=(FSAL,), pair=(AdaptiveRungeKutta, ERK), fehlberg=(Fehlberg45,), explicit=(ExplicitMultistep,), implicit=(ImplicitMultistep,))


def define(kind, ns, name=None):
    base = bases()[kind]
    return type(base[0])(name or fresh("Mine"), base, dict(ns))


def strategy():
    co = st.one_of(st.integers(-8, 8).map(lambda k: k / 8), st.just(0.0), st.integers(-30, 30).map(lambda k: k / 17))

    @st.composite
    def cases(draw):
        kind = draw(st.sampled_from(["erk", "erk", "fsal", "fsal", "pair", "fehlberg", "explicit", "implicit"]))
        c = dict(kind=kind, prob=draw(problems(amp=1.0, yamp=2.0, max_n=3)))
        s = draw(st.integers(1, 5 if kind != "fsal" else 4))
        if kind in ("erk", "fsal", "pair"):
            c["A"] = [[draw(co) if j < i else 0.0 for j in range(s)] for i in range(s)]
            c["B"] = [draw(co) for _ in range(s)]
            c["C"] = [0.0] + [draw(co) for _ in range(s - 1)]
        if kind in ("fsal", "pair"):
            # consistent pairs: the weights of both formulas add up to one
            c["B"][0] += 1.0 - sum(c["B"])
            b2 = [draw(co) for _ in range(s + (kind == "fsal"))]
            b2[0] += 1.0 - sum(b2)
            c["B2"] = b2
            c["p"] = draw(st.integers(1, 4))
        if kind in ("fsal", "pair", "fehlberg"):
            c["opts"] = dict(rtol=draw(st.sampled_from([1e-2, 1e-3])), atol=draw(st.sampled_from([1e-2, 1e-4])))
            for k, v in dict(max_step=0.25, first_step=0.125, safety_factor=0.5, min_factor=0.5, max_factor=2.0).items():
                if draw(st.integers(0, 3)) == 0:
                    c["opts"][k] = v
        else:
            c["h"] = draw(st.sampled_from([0.125, 0.0625, 0.1]))
        if kind in ("explicit", "implicit"):
            c["A"] = [draw(co) for _ in range(s)]
            c["B"] = [draw(co) for _ in range(draw(st.sampled_from([s, s, 1, 2, 3, 5])))]
            c["first"] = draw(st.sampled_from([None, "RungeKutta4"]))
        if kind == "implicit":
            c["Bn"] = draw(co.filter(lambda x: x != 0))
        if kind in ("erk", "explicit", "implicit"):
            c["more"] = draw(st.sampled_from([0, 0, 1, 4]))  # longer recorded history
        c["n"] = draw(st.integers(1, 8))
        return c

    return cases()


def depth(c):
    """Number of steps of a multistep method."""
    return max(len(c["A"]), len(c["B"]))


def namespace(c):
    ns = {k: np.array(c[k], dtype=float) for k in ("A", "B", "C", "B2") if k in c}
    if "p" in c:
        ns["error_estimator_order"] = c["p"]
    if "Bn" in c:
        ns["Bn"] = c["Bn"]
    if c.get("more"):
        ns["LEN_HISTORY"] = max(2, depth(c) if c["kind"] in ("explicit", "implicit") else 2) + c["more"]
    return ns


def stages(f, t, y, f0, h, A, C):
    K = [np.array(f0)]
    for i in range(1, len(C)):
        K.append(f(t + C[i] * h, y + h * sum(a * k for a, k in zip(A[i][:i], K))))
    return K


def run(c):
    kind = c["kind"]
    p = Problem(c["prob"])
    ns = namespace(c)
    with under_test(f"defining a solver from {c}"):
        cls = define(kind, {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in ns.items()})
    labels = [kind]
    kw = dict(c.get("opts", {}))
    if "h" in c:
        kw["h"] = c["h"]
    if kind in ("explicit", "implicit"):
        kw["first_stepper_cls"] = c["first"]
    if kind == "fehlberg":
        ns = {k: np.array(getattr(cls, k)) for k in ("A", "B", "B2", "C")}
        c = dict(c, p=cls.error_estimator_order)
    try:
        with under_test(f"{kind}: constructing", allow=(RuntimeError, np.linalg.LinAlgError)):
            s = cls(p.rhs(100000), p.t0, p.y0, **kw)
    except (RuntimeError, np.linalg.LinAlgError):
        return False, labels + ["no start"]
    nodes = [(float(s.t), np.array(s.y), np.array(s.f))]
    if kind in ("explicit", "implicit"):
        k = depth(c)
        if k > 1 and c["first"] is not None:
            check(abs(nodes[0][0] - (p.t0 + (k - 1) * c["h"])) <= 1e-12 * (1 + abs(p.t0)), f"{kind} with {k} steps starts at {nodes[0][0]!r}, t0={p.t0!r}, h={c['h']!r}")
            nodes = [(t, np.array(s.interpolate(t)), None) for t in (np.clip(p.t0 + j * c["h"], p.t0, float(s.t)) for j in range(k - 1))] + nodes
            nodes = [(t, y, p.f(t, y)) for t, y, _ in nodes]
        else:
            nodes = [(p.t0, p.y0, p.f(p.t0, p.y0))] * k
    made = 0
    first = len(nodes) - 1
    for i in range(c["n"]):
        t, y, f = nodes[-1]
        h = float(s.h)
        try:
            with under_test(f"{kind}: step", allow=(RuntimeError, np.linalg.LinAlgError)):
                s.skip(n=1)
        except np.linalg.LinAlgError:
            break
        except RuntimeError:
            check(kind in ("implicit", "fsal", "pair", "fehlberg"), f"{kind}: step raises")
            break
        tn, yn, fn = float(s.t), np.array(s.y), np.array(s.f)
        if not finite(yn) or amax(yn) > 1e8:
            break
        ref = fnote = None
        scale = max(amax(y), h * p.fscale(t, y), amax(yn))
        if kind == "erk":
            K = stages(p.f, t, y, f, h, c["A"], c["C"])
            ref = y + h * sum(b * k for b, k in zip(c["B"], K))
            scale = max(scale, h * max(map(amax, K)))
        elif kind in ("explicit", "implicit"):
            k = depth(c)
            hist = nodes[-k:]
            ref = h * sum(b * n[2] for b, n in zip(c["B"], nodes[-len(c["B"]):])) - sum(a * n[1] for a, n in zip(c["A"], nodes[-len(c["A"]):]))
            scale = max(max(amax(n[1]), h * p.fscale(n[0], n[1])) for n in hist)
            if kind == "implicit":
                res = yn - h * c["Bn"] * p.f(tn, yn) - ref
                check(amax(res) <= 2e-8 * max(1.0, amax(yn)) * (1 + 1e-6) + 1e-10 * scale, lambda: f"{c}: step from {t!r} gives {yn.tolist()}, which misses the implicit formula by {res.tolist()}")
                ref = None
        else:
            out = adaptive(c, ns, p, t, y, f, h, kw)
            if out is None:
                nodes.append((tn, yn, fn))
                continue
            rt, ref, rh, tried, scale2, noise = out
            scale = max(scale, scale2)
            check(abs(tn - rt) <= 1e-6 * abs(rt - t) * tried + 8 * np.spacing(abs(t) + h), lambda: f"{c}: step from {t!r} with h={h!r} goes to {tn!r}, by its coefficients to {rt!r}")
            if tried == 0:
                check(abs(float(s.h) - rh) <= 1e-4 * rh + noise * rh, lambda: f"{c}: step from {t!r} with h={h!r} sets h to {float(s.h)!r}, by its coefficients {rh!r}")
            else:
                ref = None  # of a step size that is known to rounding only
            if tried:
                labels.append("rejected")
        if "h" in c:
            check(abs(tn - (t + h)) <= 4 * np.spacing(abs(t) + h), f"{c}: step from {t!r} to {tn!r} with h={h!r}")
        if ref is not None:
            check(amax(ref - yn) <= 1e-9 * scale + 1e-290, lambda: f"{c}: step from {t!r}, {y.tolist()} gives {yn.tolist()}, by its coefficients {ref.tolist()}")
        check(amax(fn - p.f(tn, yn)) <= 1e-12 * p.fscale(tn, yn) + 1e-290, lambda: f"{c}: f is {fn.tolist()} after the step, the right-hand side {p.f(tn, yn).tolist()}")
        # between the steps: the cubic through both ends
        for th in (0.25, 0.75):
            tau = t + th * (tn - t)
            if t < tau < tn:
                got = np.array(s.interpolate(tau))
                want = hermite(t, y, f, tn, yn, fn, tau)
                check(amax(got - want) <= 1e-8 * max(scale, h * amax(fn)), lambda: f"{c}: interpolate({tau!r}) is {got.tolist()}, the cubic of the step {want.tolist()}")
        nodes.append((tn, yn, fn))
        made += 1
    # the recorded history
    length = ns.get("LEN_HISTORY", 2)
    if made and "h" in c:
        for t, y, f in nodes[max(0, len(nodes) - length):]:
            if t >= nodes[first][0]:
                got = np.array(s.interpolate(t))
                check(amax(got - y) <= 1e-12 * amax(y), lambda: f"{c}: interpolate({t!r}) is {got.tolist()}, the state there was {y.tolist()}")
    return made >= 1 and p.nontrivial, labels + (["longer history"] if c.get("more") else [])


def adaptive(c, ns, p, t, y, f, h, kw):
    """(time, state, next h, rejected attempts, scale, relative noise of h) of the next step; None if rounding decides."""
    A, B, B2, C = ns["A"], ns["B"], ns["B2"], ns["C"]
    o = dict(atol=1e-6, rtol=1e-3, max_step=np.inf, min_factor=0.2, max_factor=10.0, safety_factor=0.9)
    o.update({k: v for k, v in kw.items() if k in o})
    expo = 1 / (c["p"] + 1)
    tried = 0
    while True:
        K = stages(p.f, t, y, f, h, A, C)
        yn = y + h * sum(b * k for b, k in zip(B, K))
        big = max(map(amax, K))
        if c["kind"] == "fsal":
            E = np.append(B, 0.0) - B2
            K.append(p.f(t + h, yn))
        else:
            E = B - B2
        err = h * sum(e * k for e, k in zip(E, K))
        tol = o["atol"] + o["rtol"] * np.maximum(np.abs(y), np.abs(yn))
        norm = float(np.sqrt(np.mean((err / tol) ** 2)))
        noise = 1e-13 * h * big * float(np.sum(np.abs(E))) / float(np.min(tol)) + 1e-12
        if not np.isfinite(norm) or noise > 1e-6 or amax(yn) > 1e8 or tried > 30:
            return None
        if norm < 3 * noise:
            return None
        if abs(norm - 1) < 1e-4:
            return None
        factor = min(o["max_factor"], max(o["min_factor"], o["safety_factor"] * norm ** -expo))
        if tried and norm < 1:
            factor = min(1.0, factor)
        rel = 10 * noise / norm
        if norm < 1:
            return t + h, yn, min(h * factor, o["max_step"]), tried, max(amax(yn), h * big), rel
        h = min(h * factor, o["max_step"])
        tried += 1
        if t + h <= t:
            return None


# -- registration -----------------------------------------------------------------------------------------
def strategy_reg():
    @st.composite
    def cases(draw):
        return dict(kind=draw(st.sampled_from(["erk", "fsal", "pair", "explicit", "implicit"])), aliases=draw(st.integers(0, 2)),
                    group=draw(st.sampled_from([None, "new", "bdf", "Euler", "shared"])), bits=draw(st.integers(0, 2 ** 16 - 1)),
                    bad=draw(st.sampled_from(["none", "none", "name", "alias", "alias2", "alias of alias", "own name", "own alias", "tableau", "diagonal", "history", "history type"])),
                    victim=draw(st.sampled_from(ALL)))

    return cases()


GOOD = dict(erk=dict(A=[[0.0, 0.0], [0.5, 0.0]], B=[0.0, 1.0], C=[0.0, 0.5]),
            fsal=dict(A=[[0.0, 0.0], [0.5, 0.0]], B=[0.0, 1.0], C=[0.0, 0.5], B2=[1.0, 0.0, 0.0], error_estimator_order=1),
            pair=dict(A=[[0.0, 0.0], [1.0, 0.0]], B=[0.5, 0.5], C=[0.0, 1.0], B2=[1.0, 0.0], error_estimator_order=1),
            explicit=dict(A=[0.0, -1.0], B=[-0.5, 1.5]), implicit=dict(A=[0.0, -1.0], B=[0.0, 0.5], Bn=0.5))


def recase(name, bits):
    return "".join(ch.upper() if bits >> (i % 16) & 1 else ch.lower() for i, ch in enumerate(name))


def good(kind):
    return {k: (np.array(v) if isinstance(v, list) else v) for k, v in GOOD[kind].items()}


def snapshot():
    import nbkode

    return (tuple(nbkode.get_solvers()), tuple(nbkode.list_solvers()), tuple(nbkode.get_groups()), tuple(tuple(nbkode.get_solvers(g)) for g in nbkode.get_groups()))


def run_reg(c):
    import nbkode

    kind, bad, bits = c["kind"], c["bad"], c["bits"]
    name = fresh("User")
    aliases = tuple(fresh("other") for _ in range(c["aliases"]))
    ns = good(kind)
    if c["group"]:
        ns["GROUP"] = dict(new=fresh("group"), shared="my group").get(c["group"], c["group"])
    if aliases:
        ns["ALIASES"] = aliases
    mine = fresh("Earlier")
    mine_alias = fresh("before")
    if bad in ("own name", "own alias"):
        define(kind, dict(good(kind), ALIASES=(mine_alias,)), mine)
    use = name
    if bad == "name":
        use = recase(c["victim"], bits)
    elif bad == "own name":
        use = recase(mine, bits)
    elif bad in ("alias", "alias2"):
        ns["ALIASES"] = ((fresh("ok"),) if bad == "alias2" else ()) + (recase(c["victim"], bits),) + aliases
    elif bad == "own alias":
        ns["ALIASES"] = aliases + (recase(mine_alias, bits),)
    elif bad == "alias of alias":
        use = recase("euler", bits) if c["aliases"] else use
        if not c["aliases"]:
            ns["ALIASES"] = (recase("Euler", bits),)
    elif bad in ("tableau", "diagonal"):
        if kind in ("explicit", "implicit"):
            return False, ["no tableau"]
        ns["A"][0, 1] = 0.25 if bad == "tableau" else 0.0
        if bad == "diagonal":
            ns["A"][1, 1] = -0.5
    elif bad == "history":
        ns["LEN_HISTORY"] = 1 - c["aliases"]
    elif bad == "history type":
        ns["LEN_HISTORY"] = 3.0
    before = snapshot()
    what = f"defining {use} with {({k: ns[k] for k in ns if k in ('ALIASES', 'GROUP', 'LEN_HISTORY')})} ({kind}, {bad})"
    if bad != "none":
        try:
            define(kind, ns, use)
        except Exception as e:
            err = e
        else:
            err = None
        check(err is not None, f"{what}: accepted")
        check(snapshot() == before, f"{what}: rejected with {err!r}, but the registered solvers changed")
        for n in {use, *ns.get("ALIASES", ())}:
            known = {x.lower() for x in before_names(before)}
            if n.lower() not in known:
                try:
                    got = nbkode.get_solver(n)
                except ValueError:
                    pass
                else:
                    check(False, f"{what}: rejected, but get_solver({n!r}) gives {got}")
        return True, [kind, bad]
    with under_test(what):
        cls = define(kind, ns, use)
    for n in (use, *aliases):
        for spelled in (n, recase(n, bits)):
            with under_test(f"{what}, get_solver({spelled!r})"):
                got = nbkode.get_solver(spelled)
            check(got is cls, f"{what}: get_solver({spelled!r}) gives {got}")
    check(getattr(nbkode, use) is cls, f"{what}: nbkode.{use} is {getattr(nbkode, use)}")
    solvers = nbkode.get_solvers()
    check(solvers.count(cls) == 1 and set(solvers) - {cls} == set(before[0]), f"{what}: get_solvers() has it {solvers.count(cls)} times")
    check(use in nbkode.list_solvers(include_alias=False) and all(a in nbkode.list_solvers(alias_fmt_string="{name}") for a in aliases), f"{what}: missing in list_solvers()")
    group = ns.get("GROUP")
    if group:
        check(group.lower() in [g.lower() for g in nbkode.get_groups()], f"{what}: its group is not in {nbkode.get_groups()}")
        check(nbkode.get_solvers(recase(group, bits)).count(cls) == 1, f"{what}: not found once in its group")
    others = [g for g in nbkode.get_groups() if cls in nbkode.get_solvers(g)]
    check(len(others) == 1, f"{what}: found in groups {others}")
    truth = dict(implicit=kind == "implicit", fixed_step=kind not in ("fsal", "pair"), runge_kutta=kind in ("erk", "fsal", "pair"), multistep=kind in ("explicit", "implicit"))
    for k, v in truth.items():
        check((cls in nbkode.get_solvers(**{k: True})) is v and (cls in nbkode.get_solvers(**{k: False})) is not v, f"{what}: filter {k} does not say {v}")
    return True, [kind, "accepted"]


def before_names(snap):
    return [c.__name__ for c in snap[0]] + ["Euler"] + [a for c in snap[0] for a in c.ALIASES]


# -- solvers derived from existing ones ---------------------------------------------------------------------
def strategy_derived():
    @st.composite
    def cases(draw):
        kind = draw(st.sampled_from(["built-in", "built-in", "fsal", "pair", "erk", "explicit", "implicit"]))
        c = dict(kind=kind, prob=draw(problems(amp=1.0, yamp=2.0, max_n=3)), n=draw(st.integers(2, 6)), twice=draw(st.booleans()))
        c["base"] = draw(st.sampled_from(ALL + ADAPTIVE * 8)) if kind == "built-in" else None
        c["read"] = draw(st.lists(st.sampled_from(["A", "B", "C", "B2", "E", "P", "E3", "E5", "D", "Bn", "stages", "error_exponent", "consistent", "ORDER", "LEN_HISTORY"]), max_size=4))
        return c

    return cases()


def coefficients(cls):
    out = {}
    for k in ("A", "B", "C", "B2", "E", "P", "E3", "E5", "D", "Bn", "A_EXTRA", "C_EXTRA", "LEN_HISTORY", "error_exponent"):
        v = getattr(cls, k, None)
        if v is not None:
            out[k] = np.array(v)
    return out


def trace(cls, p, n):
    kw = dict(h=0.125) if cls.FIXED_STEP else dict(first_step=0.125, rtol=1e-4)
    out = []
    try:
        s = cls(p.rhs(100000), p.t0, p.y0, **kw)
        for _ in range(n):
            s.step()
            out.append((float(s.t), float(s.h), s.y.tolist(), s.f.tolist(), s.interpolate((float(s.t) + float(s.cache.ts[-2])) / 2).tolist()))
    except (RuntimeError, np.linalg.LinAlgError) as e:
        out.append(type(e).__name__)
    return out


def run_derived(c):
    p = Problem(c["prob"])
    if c["base"]:
        import nbkode

        base = nbkode.get_solver(c["base"])
        arrays = {}
    else:
        arrays = good(c["kind"])
        base = define(c["kind"], arrays)
    given = {k: np.array(v) for k, v in arrays.items()}
    coefs = coefficients(base)
    want = trace(base, p, c["n"])
    what = f"a solver derived from {base.__name__} ({c['kind']})"
    derived = []
    for _ in range(1 + c["twice"]):
        ns = {}
        if base.ALIASES:
            ns["ALIASES"] = ()
        with under_test(f"defining {what}"):
            derived.append(type(base)(fresh("Derived"), (derived[-1] if derived else base,), ns))
        for k in c["read"]:
            try:
                getattr(derived[-1], k)
            except AttributeError:
                pass
    for cls in derived:
        got = trace(cls, p, c["n"])
        check(repr(got) == repr(want), lambda: f"{what}: without changes of its own it steps to {got}, {base.__name__} to {want}")
    again = trace(base, p, c["n"])
    check(repr(again) == repr(want), lambda: f"{base.__name__}: steps to {again} after a solver was derived from it, before to {want}")
    for cls in [base] + derived:
        now = coefficients(cls)
        for k, v in coefs.items():
            check(k in now and np.array_equal(now[k], v), lambda: f"{what}: {cls.__name__}.{k} is {now.get(k)}, {base.__name__}.{k} was {v}")
    for k, v in given.items():
        check(np.array_equal(arrays[k], v), lambda: f"{what}: the array {k} given in the class body changed from {v} to {arrays[k]}")
    return len(want) >= 2 and p.nontrivial, [c["kind"] if not c["base"] else base.__name__]


FACETS = [
    Facet("coefficients", strategy, run, quick=4000, thorough=200000, shards=6, rule="at least one step was compared and f(t0, y0) != 0"),
    Facet("derived", strategy_derived, run_derived, quick=800, thorough=20000, shards=2, rule="at least two steps were compared and f(t0, y0) != 0"),
    Facet("registration", strategy_reg, run_reg, quick=800, thorough=12000, shards=2, rule="a definition was accepted and looked up, or rejected"),
]
