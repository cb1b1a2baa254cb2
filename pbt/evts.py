"""Event functions, and what run_events should report for them, from the steps of a twin solver."""
import warnings

import numpy as np

from .core import check, under_test
from .prob import ADAPTIVE, Problem, amax, finite, get, startup_kwargs, ulp
from . import jitlib, traj


class Walk:
    """The problem, the solver class and the nodes of its steps after an initial stretch."""

    def __init__(self, case):
        self.p = Problem(case["prob"])
        self.name = case["solver"]
        kw = dict(startup_kwargs(self.name, case.get("first", "default")))
        kw.update(case.get("opts", {}))
        if "h" in case:
            kw["h"] = case["h"]
        self.kw = kw
        self.skip = case["skip"]
        self.slot = 0  # event functions made so far
        self.twin = self.new()
        self.nodes = [self._node()]

    def new(self):
        p = self.p
        s = get(self.name)(p.rhs(500000), p.t0, p.y0, **self.kw)
        s.skip(n=self.skip)
        return s

    def _node(self):
        return float(self.twin.t), np.array(self.twin.y)

    def extend(self, n):
        """At least n steps; False if the solver cannot make them."""
        while len(self.nodes) <= n:
            try:
                self.twin.skip(n=1)
            except (RuntimeError, np.linalg.LinAlgError):
                return False
            if not finite(self.twin.y) or amax(self.twin.y) > 1e9:
                return False
            self.nodes.append(self._node())
        return True

    def at(self, x):
        k = int(np.floor(x))
        if k < 0 or not self.extend(k + 1):
            return None
        a, b = self.nodes[k][0], self.nodes[k + 1][0]
        return a + (x - k) * (b - a)

    def tulp(self):
        return ulp(max(abs(self.p.t0), abs(self.nodes[-1][0])))


def make_event(d, w):
    """The event function described by d (positions are in steps of the walk w); None if it is out of reach."""
    kind, s = d["kind"], d["s"]
    q = dict(s=s, t0=w.nodes[0][0])
    if kind == "time":
        c = w.at(d["x"])
        if c is None:
            return None
        q["c"] = c + d["ulp"] * float(np.spacing(abs(c)))
    elif kind == "sin":
        q.update(om=d["om"], ph=d["ph"])
    elif kind == "state":
        k = d["k"] % w.p.n
        j = d["x"]
        if not w.extend(int(np.floor(j)) + 1):
            return None
        a, b = w.nodes[int(np.floor(j))][1][k], w.nodes[int(np.floor(j)) + 1][1][k]
        c = a + (j - np.floor(j)) * (b - a)
        q.update(i=k, c=float(c + d["ulp"] * np.spacing(abs(c))))
    elif kind == "mixed":
        q.update(i=d["k"] % w.p.n, om=d["om"], c=d["c"])
    elif kind == "double":
        c1, c2 = w.at(d["x"]), w.at(d["x"] + d["gap"])
        if c1 is None or c2 is None:
            return None
        q.update(c=c1, ph=c2)
    else:
        raise AssertionError(kind)
    w.slot += 1
    form = FORMS.get(d.get("form"), lambda x: x)
    return jitlib.event(w.slot - 1, kind, direction=attr(d["dir"], form), terminal=attr(d["term"], form), **q)


#: the attributes may be given as any number or truth value
FORMS = {"numpy": lambda x: np.bool_(x) if isinstance(x, bool) else np.float64(x), "int": lambda x: int(x) if int(x) == x else x, "zerod": np.array}


def attr(x, form):
    return None if x is None else form(x)


def event_strategy(terminal=(None, None, False), ulps=(0,)):
    from hypothesis import strategies as st

    @st.composite
    def strat(draw):
        d = dict(kind=draw(st.sampled_from(["time", "time", "sin", "state", "state", "mixed", "double"])),
                 s=draw(st.sampled_from([1.0, 1.0, -1.0, 1e-3, 1e6, -1e12, 0.01, 1e-60, -1e80])),
                 dir=draw(st.sampled_from([None, None, 0, 1, -1, 1.0, -0.5, 7])), term=draw(st.sampled_from(list(terminal))))
        form = draw(st.sampled_from([None, None, None, *FORMS]))
        if form:
            d["form"] = form
        if d["kind"] in ("time", "state", "double"):
            d["x"] = draw(st.one_of(st.integers(0, 7).map(float), st.integers(1, 63).map(lambda k: k / 8), st.integers(1, 700).map(lambda k: k / 97)))
        if d["kind"] in ("time", "state"):
            d["ulp"] = draw(st.sampled_from(list(ulps)))
        if d["kind"] in ("sin", "mixed"):
            d["om"] = draw(st.sampled_from([0.5, 1.0, 3.0, 7.0, 20.0]))
        if d["kind"] == "sin":
            d["ph"] = draw(st.sampled_from([0.0, 0.5, 1.0, 2.0, -1.0, 3.0]))
        if d["kind"] in ("mixed",):
            d["c"] = draw(st.integers(-16, 16)) / 8
        if d["kind"] in ("state", "mixed"):
            d["k"] = draw(st.integers(0, 2))
        if d["kind"] == "double":
            d["gap"] = draw(st.sampled_from([0.25, 0.5, 1.0, 1.5, 2.5, 1e-2, 1e-3, 1e-4]))
            if d["gap"] < 0.1:
                # on both sides of the end of a step
                d["x"] = max(1.0, np.floor(d["x"])) - d["gap"] * draw(st.sampled_from([0.5, 0.25]))
        return d

    return strat()


def case_strategy(terminal=(None, None, False), ulps=(0, 0, 0, 1, -1), max_events=4, hi=7):
    from hypothesis import strategies as st

    @st.composite
    def strat(draw):
        c = draw(traj.cases(dict(run=1), bound=0.0, max_ops=3))
        del c["ops"]
        c["skip"] = draw(st.sampled_from([0, 0, 1, 2, 5]))
        c["events"] = draw(st.lists(event_strategy(terminal, ulps), min_size=1, max_size=max_events))
        c["pos"] = draw(st.lists(traj.position(0, hi), min_size=1, max_size=6))
        if draw(st.integers(0, 4)):
            c["pos"].append(float(draw(st.integers(2, hi))) - draw(st.sampled_from([0, 0.5, 0.25])))
        c["form"] = draw(st.sampled_from(["sorted", "sorted", "as is", "reversed"]))
        c["past"] = draw(st.sampled_from([0, 0, 0, 1]))
        return c

    return strat()


def requested(c, w):
    ts = [w.at(x) for x in c["pos"]]
    if any(t is None for t in ts):
        return None
    if c["past"] and w.skip >= 1:
        ts.append(w.nodes[0][0])
    if c["form"] == "sorted":
        ts.sort()
    elif c["form"] == "reversed":
        ts.sort(reverse=True)
    return ts


def steps_made(w, tmax):
    """Index of the node where a run up to tmax ends; None if it cannot be reached."""
    i = 0
    while w.nodes[i][0] < tmax:
        i += 1
        if not w.extend(i):
            return None
    return i


def call(s, ts, events, what):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with under_test(what):
            return s.run_events(np.array(ts), events)


def noise(w, d, i):
    """Values of the event function below this may have either sign at node i: rounding errors of the solution and of
    the times, which decide whether a zero that close to a step end lies before or after it."""
    t, y = w.nodes[i]
    ut = 4 * ulp(max(abs(w.p.t0), abs(w.nodes[-1][0])))
    dt = 64 * ut
    dy = 1e-12 * max(amax(n[1]) for n in w.nodes) + dt * w.p.fscale(t, y)
    s = abs(d["s"])
    if d["kind"] == "time":
        return s * (dt if w.name in ADAPTIVE else ut)
    if d["kind"] == "sin":
        return s * (dt * d["om"] + 1e-14)
    if d["kind"] == "state":
        return s * dy
    if d["kind"] == "mixed":
        return s * (dy + abs(d["c"]) * (dt * d["om"] + 1e-14))
    return s * dt * (abs(w.nodes[-1][0] - w.nodes[0][0]) + 1)


def allowed(direction, prev, nxt):
    up = prev < 0 < nxt
    down = prev > 0 > nxt
    sgn = np.sign(direction or 0)
    return (up and sgn >= 0) or (down and sgn <= 0)


def check_event(w, end, g, d, te, ye, what):
    """The times te and states ye reported for event g over the steps to node end. Returns the number of crossings."""
    nodes = w.nodes[:end + 1]
    vals = [float(g(t, y)) for t, y in nodes]
    te = [float(t) for t in te]
    check(len(te) == len(ye), f"{what}: {len(te)} event times, {len(ye)} event states")
    check(all(a < b for a, b in zip(te, te[1:])), f"{what}: event times {te} are not increasing")
    must = 0
    where = []
    eps = 8 * w.tulp()
    sure = [i for i in range(len(nodes)) if abs(vals[i]) > noise(w, d, i)]
    # stretches between nodes where the sign of g is certain
    ends = sorted({0, len(nodes) - 1, *sure})
    left = list(te)
    for i, k in zip(ends, ends[1:]):
        a, b = nodes[i][0], nodes[k][0]
        inside = [t for t in left if a - eps <= t <= b + eps]
        left = [t for t in left if t not in inside]
        for t in inside:
            # the step it belongs to
            j = next((j for j in range(i + 1, k + 1) if t <= nodes[j][0]), k)
            where.append((t, j))
        stretch = lambda: f"g={vals[i]!r} at {a!r}, g={vals[k]!r} at {b!r}, {k - i} step(s)"
        if i in sure and k in sure and np.sign(vals[i]) != np.sign(vals[k]):
            if allowed(d["dir"], vals[i], vals[k]):
                if k - i <= 2:
                    check(len(inside) == 1, lambda: f"{what}: g changes sign ({stretch()}), {len(inside)} events are reported there: {te}")
                else:
                    check(1 <= len(inside) <= k - i, lambda: f"{what}: g changes sign ({stretch()}), {len(inside)} events are reported there: {te}")
                must += 1
            elif k - i <= 2:
                check(not inside, lambda: f"{what}: reported against direction {d['dir']} ({stretch()}): {te}")
            else:
                check(len(inside) < k - i, lambda: f"{what}: {len(inside)} events reported ({stretch()}): {te}")
        elif k == i + 1 and i in sure and k in sure:
            check(not inside, lambda: f"{what}: reported although g does not change sign ({stretch()}): {te}")
        else:
            check(len(inside) <= k - i + 1, lambda: f"{what}: {len(inside)} events reported ({stretch()}): {te}")
    if len(nodes) == 1:
        check(not te, f"{what}: events reported at {te} although no step was made")
    check(not left, lambda: f"{what}: events at {left} outside the steps made, from {nodes[0][0]!r} to {nodes[-1][0]!r}")
    # accuracy: on a twin, right after the step with the event
    s = w.new()
    i = 0
    for (t, j) in sorted(where):
        y = np.asarray(ye[te.index(t)])
        if j > i:
            s.skip(n=j - i)
            i = j
        yr = np.array(s.interpolate(min(max(t, nodes[j - 1][0]), float(s.t))))
        sc = max(amax(yr), amax(nodes[j][1]), amax(nodes[max(0, j - 1)][1]))
        check(y.shape == (w.p.n,) and amax(y - yr) <= 1e-11 * sc + 1e-290, lambda: f"{what}: state at the event at {t!r} is {y.tolist()}, the solution there is {yr.tolist()}")
        v = float(g(t, yr))
        if abs(v) <= 1.49e-8:
            continue
        # steep function: the sign must change within the last bracket
        a, b = nodes[max(0, j - 1)][0], nodes[j][0]
        eps = (b - a) * 2.0 ** -48 + 4 * w.tulp()
        vs = [float(g(x, np.array(s.interpolate(x)))) for x in (max(a, t - eps), min(b, float(s.t), t + eps))]
        if min(map(abs, vs)) <= noise(w, d, j):
            continue
        check(np.sign(vs[0]) != np.sign(vs[1]), lambda: f"{what}: g={v!r} at the reported time {t!r} and does not change sign within {eps:.3g} of it ({vs})")
    return must
