"""Model of advancing a solver: one sequence of steps, and where each call must stop on it.

The model is a second solver of the same class, advanced one step at a time.  The engine interprets a list of
operations on the solver under test and compares every return value, exception and the solver's state.
"""
import warnings
from fractions import Fraction

import numpy as np

from .core import Violation, check, under_test
from . import jitlib
from .prob import ADAPTIVE, DEPTH, FIXED, Problem, amax, dyadic, firsts, get, hermite, only, problems, startup_kwargs, ulp

MAX_NODES = 400


class Ref:
    """The sequence of steps (nodes) and the continuous solution between them."""

    def __init__(self, make, p, name, first):
        self.make, self.p, self.name = make, p, name
        self.sol = make()
        self.depth = DEPTH.get(name, 1)
        self.len_history = max(self.depth, 2)
        self.nodes, self.h = [], []
        self.start = 0
        if first not in ("none", "default") and self.depth > 1:
            t_start = float(self.sol.t)
            hh = (t_start - p.t0) / (self.depth - 1)
            for j in range(self.depth - 1):
                tj = min(p.t0 + j * hh, t_start)
                yj = np.array(self.sol.interpolate(tj))
                self.nodes.append((tj, yj, p.f(tj, yj)))
                self.h.append(float(self.sol.h))
            self.start = self.depth - 1
        self._record()
        self.walker, self.wi = None, 0
        self.ended = None

    def _record(self):
        s = self.sol
        self.nodes.append((float(s.t), np.array(s.y), np.array(s.f)))
        self.h.append(float(s.h))

    def node(self, i):
        """Node i, or None if stepping there fails (the error is in self.ended)."""
        while len(self.nodes) <= i:
            if self.ended is not None:
                return None
            try:
                self.sol.skip(n=1)
            except RuntimeError as e:
                self.ended = e
                return None
            if not np.all(np.isfinite(self.sol.y)) or amax(self.sol.y) > 1e9:
                self.ended = OverflowError("solution too large")
                return None
            self._record()
        return self.nodes[i]

    def t(self, i):
        n = self.node(i)
        return None if n is None else n[0]

    def last_upto(self, i, upto, n=None):
        """All acceptable indices where a call starting at i and limited by upto (and n steps) may stop."""
        out = []
        while True:
            ti = self.t(i)
            if ti is None:
                return None
            if ti > upto + 4 * self.tulp(upto):
                return out
            if n == 0:
                return out + [i] if out == [] or True else out
            nxt = self.t(i + 1)
            if nxt is None:
                return None
            pred = ti + self.h[i]
            edge = 0.0 if self.exact(i) else 4 * self.tulp(upto)
            if ti <= upto and (pred > upto - edge or nxt > upto - edge):
                out.append(i)
                if pred > upto + edge and nxt > upto + edge:
                    return out
            i += 1
            if n is not None:
                n -= 1
            if i > MAX_NODES:
                return None

    def exact(self, i):
        """Are the times of all steps to node i + 1 free of rounding, however they are added up?"""
        if self.name in ADAPTIVE or self.depth > 1 and self.start == 0 and self.nodes[0][0] != self.p.t0:
            return False
        t0, h = Fraction(self.p.t0), Fraction(float(self.h[0]))
        return all(Fraction(self.nodes[j][0]) == t0 + j * h for j in range(i + 2))

    def tulp(self, t):
        return ulp(max(abs(t), abs(self.p.t0), abs(self.h[0])))

    def segment(self, tau, i):
        """Smallest index j with nodes[j].t >= tau (j <= i)."""
        for j in range(i + 1):
            if self.nodes[j][0] >= tau:
                return j
        return None

    def value(self, tau):
        """Continuous solution at tau, as the solver gives it right after the step that reaches tau."""
        j = 0
        while True:
            nd = self.node(j)
            if nd is None:
                return None
            if nd[0] >= tau:
                break
            j += 1
        if nd[0] == tau or j == 0:
            return nd[1]
        a, b = self.nodes[j - 1], nd
        if self.name not in ADAPTIVE:
            return hermite(*a, *b, tau)
        if self.walker is None or self.wi > j:
            self.walker, self.wi = self.make(), 0
        if j > self.wi:
            self.walker.skip(n=j - self.wi)
            self.wi = j
        return np.array(self.walker.interpolate(tau))

    def scale(self, i):
        lo = max(0, i - self.len_history)
        return max(max(amax(n[1]), abs(self.h[0]) * self.p.fscale(n[0], n[1])) for n in self.nodes[lo:i + 1])


class Engine:
    def __init__(self, case, trunc_known=None):
        self.case = case
        p = self.p = Problem(case["prob"])
        self.name = case["solver"]
        self.first = case.get("first", "default")
        self.trunc_known = trunc_known
        kw = dict(startup_kwargs(self.name, self.first))
        kw.update(case.get("opts", {}))
        if "h" in case:
            kw["h"] = case["h"]
        self.kw = kw
        rhs = p.rhs(2000000)
        cls = get(self.name)
        self.ref = Ref(lambda: cls(rhs, p.t0, p.y0, **kw), p, self.name, self.first)
        self.t_bound = np.inf
        if case.get("bound") is not None:
            # in units of the reference's own steps, beyond the start-up
            k, fr = case["bound"]
            a = self.ref.t(self.ref.start + k)
            b = self.ref.t(self.ref.start + k + 1)
            if a is not None and b is not None:
                self.t_bound = a + fr * (b - a)
        start = self.ref.nodes[self.ref.start][0]
        if p.t0 < start and self.t_bound != np.inf and abs(self.t_bound - start) <= 16 * self.ref.tulp(start):
            # whether a start-up ending at t_bound fits is a matter of rounding
            self.t_bound = start + 0.5 * abs(self.ref.h[-1])
        with under_test(f"constructing {self.name}"):
            self.sol = cls(p.rhs(2000000), p.t0, p.y0, t_bound=self.t_bound, **kw)
        self.known_hit = None
        self.i = self.ref.start
        self.labels = [self.name]
        self.moves = 0
        self.keep = []  # results returned earlier, with copies
        self.state_ok("after construction")

    # -- checks -------------------------------------------------------------------------------------------
    def tol(self, i, t=None):
        s = self.ref.scale(i)
        n = self.ref.nodes[i]
        return 1e-9 * s + 16 * self.ref.tulp(n[0]) * self.p.fscale(n[0], n[1]) + 1e-290

    def near_t(self, a, b):
        return abs(a - b) <= 4 * self.ref.tulp(b)

    def state_ok(self, what):
        s = self.sol
        t, y, f = self.ref.nodes[self.i]
        check(self.near_t(float(s.t), t) and amax(s.y - y) <= self.tol(self.i),
              lambda: f"{self.name} {what}: solver is at t={float(s.t)!r}, y={np.asarray(s.y).tolist()}; step {self.i} of the sequence is t={t!r}, y={y.tolist()}")
        fr = self.p.f(float(s.t), np.array(s.y))
        check(amax(s.f - fr) <= 1e-12 * self.p.fscale(t, y) + 1e-290,
              lambda: f"{self.name} {what}: f={np.asarray(s.f).tolist()} but the right-hand side at (t, y) is {fr.tolist()}")
        check(np.shape(s.y) == (self.p.n,) and np.shape(s.f) == (self.p.n,), f"{self.name} {what}: shapes of y, f: {np.shape(s.y)}, {np.shape(s.f)}")
        check(float(s.t) <= self.t_bound, lambda: f"{self.name} {what}: t={float(s.t)!r} is beyond t_bound={self.t_bound!r}")
        for arr, copy in self.keep:
            check(np.array_equal(arr, copy, equal_nan=True), lambda: f"{self.name} {what}: an array returned earlier changed from {copy.tolist()} to {arr.tolist()}")

    def remember(self, *arrs):
        for a in arrs:
            a = np.asarray(a)
            self.keep.append((a, a.copy()))

    def find(self, cands, what):
        """Which of the acceptable indices the solver stopped at."""
        t = float(self.sol.t)
        for j in cands:
            if self.near_t(t, self.ref.nodes[j][0]):
                return j
        raise Violation(f"{self.name} {what}: stopped at t={t!r}; it should be at one of {[self.ref.nodes[j][0] for j in cands]} "
                        f"(steps around: {[n[0] for n in self.ref.nodes[max(0, min(cands) - 2):max(cands) + 3]]}, t_bound={self.t_bound!r})")

    def outputs_ok(self, ts, ys, i0, i1, what):
        want = self.ref.nodes[i0 + 1:i1 + 1]
        ts, ys = np.asarray(ts), np.asarray(ys)
        if not want:
            check(ts.size == 0 and ys.size == 0, lambda: f"{self.name} {what}: returned {ts.tolist()}, {ys.tolist()} although no step was made")
            return
        check(ts.shape == (len(want),) and ys.shape == (len(want), self.p.n),
              lambda: f"{self.name} {what}: returned shapes {ts.shape}, {ys.shape} for {len(want)} steps")
        for k, (t, y, f) in enumerate(want):
            check(self.near_t(float(ts[k]), t) and amax(ys[k] - y) <= self.tol(i0 + 1 + k),
                  lambda: f"{self.name} {what}: output {k} is t={float(ts[k])!r}, y={ys[k].tolist()}; the step made is t={t!r}, y={y.tolist()}")

    # -- operations ---------------------------------------------------------------------------------------
    def expected_n(self, n):
        """(index after n steps limited by t_bound, whether all were made), or None if unknown."""
        c = self.ref.last_upto(self.i, self.t_bound, n) if self.t_bound < np.inf else None
        if self.t_bound == np.inf:
            return None if self.ref.t(self.i + n) is None else [self.i + n]
        return c

    def advance(self, kind, n=None, upto=None):
        """step / skip in all their forms."""
        s, ref = self.sol, self.ref
        what = f"{kind}({', '.join(f'{k}={v!r}' for k, v in (('n', n), ('upto_t', upto)) if v is not None)}) from t={float(s.t)!r}"
        i0 = self.i
        kw = {}
        if n is not None:
            kw["n"] = n
        if upto is not None:
            kw["upto_t"] = upto
        count = 1 if not kw else n
        noop = bad = False
        if upto is not None and upto < float(s.t):
            noop, cands = True, [i0]
        elif upto is not None and upto > self.t_bound:
            bad, cands = True, [i0]
        else:
            lim = self.t_bound if upto is None else upto
            if lim < np.inf:
                cands = ref.last_upto(i0, lim, count)
            else:
                cands = None if ref.t(i0 + count) is None else [i0 + count]
        if not cands:
            return False
        err = res = None
        try:
            res = getattr(s, kind)(**kw)
        except (ValueError, RuntimeError) as e:
            err = e
        except Exception as e:
            raise Violation(f"{self.name} {what}: unexpected {type(e).__name__}: {e}")
        self.i = self.find(cands, what + ("" if err is None else f" raising {type(err).__name__}"))
        if bad:
            check(isinstance(err, ValueError), f"{self.name} {what}: upto_t is beyond t_bound={self.t_bound!r}, got {err!r} instead of ValueError")
            self.labels.append("beyond t_bound")
        elif upto is None and self.i < i0 + count:
            check(isinstance(err, RuntimeError), f"{self.name} {what}: only {self.i - i0} of {count} steps fit before t_bound={self.t_bound!r}, got {err!r} instead of RuntimeError")
            self.labels.append("t_bound reached")
        else:
            if err is not None:
                raise Violation(f"{self.name} {what}: unexpected {type(err).__name__}: {err}")
            if kind == "step":
                check(isinstance(res, tuple) and len(res) == 2, f"{self.name} {what}: returned {res!r}")
                ts, ys = res
                if not kw:
                    check(np.shape(ys) in ((self.p.n,), (1, self.p.n)), f"{self.name} {what}: state of shape {np.shape(ys)}")
                    self.remember(ts, ys)
                    ys = np.reshape(ys, (1, self.p.n))
                else:
                    self.remember(ts, ys)
                self.outputs_ok(ts, ys, i0, self.i, what)
            else:
                check(res is None, f"{self.name} {what}: returned {res!r}")
            if noop:
                self.labels.append("upto_t in the past")
        self.moves += self.i - i0
        self.state_ok("after " + what)
        return True

    def history_start(self):
        return self.ref.nodes[max(0, self.i - self.ref.len_history + 1)][0]

    def on_edge(self, tau, edge):
        """Is it a matter of rounding on which side of the edge tau is?  Times of the start-up are known to rounding."""
        ref = self.ref
        exact = tau == edge and any(n[0] == edge for n in ref.nodes[ref.start:self.i + 1])
        exact = exact or tau == edge == self.p.t0
        return abs(tau - edge) <= 4 * ref.tulp(edge) and not exact

    def run(self, ts, scalar=False, events=None, as_list=False):
        s, ref = self.sol, self.ref
        i0 = self.i
        req = np.array(ts, dtype=float)
        arg = float(req[0]) if scalar else (list(map(float, req)) if as_list else req.copy())
        what = f"run({np.asarray(arg).tolist()!r}) from t={float(s.t)!r}"
        tmax, tmin = float(np.max(req)), float(np.min(req))
        hs = self.history_start()
        if self.on_edge(tmin, hs):
            return False
        bad = tmin < hs or tmax > self.t_bound
        if not bad:
            # steps needed, and whether they fit
            j = i0
            while ref.nodes[j][0] < tmax:
                if ref.t(j + 1) is None or j > MAX_NODES:
                    return False
                if ref.nodes[j][0] + ref.h[j] > self.t_bound or ref.nodes[j + 1][0] > self.t_bound:
                    break
                j += 1
            end = j
            short = ref.nodes[j][0] < tmax
        err = res = None
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                res = s.run(arg) if events is None else s.run_events(arg, events)
        except (ValueError, RuntimeError) as e:
            err = e
        except Exception as e:
            raise Violation(f"{self.name} {what}: unexpected {type(e).__name__}: {e}")
        if not scalar and not as_list:
            check(np.array_equal(arg, req), f"{self.name} {what}: the array of times given was modified to {arg.tolist()}")
        if bad:
            check(isinstance(err, ValueError), f"{self.name} {what}: times outside [{hs!r}, {self.t_bound!r}] accepted, got {err!r} instead of ValueError")
            self.state_ok("after refused " + what)
            self.labels.append("refused")
            return True
        if err is not None:
            raise Violation(f"{self.name} {what}: unexpected {type(err).__name__}: {err}")
        if short and self.name in ADAPTIVE:
            # an adaptive solver can be stopped by an attempt that does not fit
            self.i = self.find(list(range(i0, end + 1))[-1:], what)
        else:
            self.i = self.find([end], what)
        tt, yy = np.asarray(res[0]), np.asarray(res[1])
        self.remember(tt, yy)
        reach = ref.nodes[self.i][0]
        keep = req <= reach if short else np.ones(req.shape, bool)
        want = req[keep]
        check(tt.shape == want.shape and np.array_equal(tt, want), f"{self.name} {what}: returned times {tt.tolist()}")
        check(yy.shape == (want.size, self.p.n) or want.size == 0, f"{self.name} {what}: returned states of shape {yy.shape}")
        for k, tau in enumerate(want):
            v = ref.value(float(tau))
            if v is None:
                return False
            j = ref.segment(float(tau), self.i)
            check(amax(yy[k] - v) <= 4 * self.tol(j), lambda: f"{self.name} {what}: state at {float(tau)!r} is {yy[k].tolist()}, on the steps of this solver it is {v.tolist()}")
        self.state_ok("after " + what)
        self.moves += self.i - i0
        if short:
            self.labels.append("stopped at t_bound")
            if self.trunc_known and self.name in ADAPTIVE:
                # exactly what the listed finding describes, see below; reported at the end of the case
                self.known_hit = f"{self.name} {what}: times {req[~keep].tolist()} up to t_bound={self.t_bound!r} are left out"
        return True

    def interpolate(self, tau):
        s, ref = self.sol, self.ref
        what = f"interpolate({tau!r}) at t={float(s.t)!r}"
        hs, t = self.history_start(), float(s.t)
        if self.on_edge(tau, hs) or self.on_edge(tau, t):
            return False
        err = res = None
        try:
            res = s.interpolate(tau)
        except ValueError as e:
            err = e
        except Exception as e:
            raise Violation(f"{self.name} {what}: unexpected {type(e).__name__}: {e}")
        if tau < hs or tau > t:
            check(err is not None, f"{self.name} {what}: outside the recorded history [{hs!r}, {t!r}], got {res!r} instead of ValueError")
            self.labels.append("interpolate outside")
        else:
            if err is not None:
                raise Violation(f"{self.name} {what}: unexpected ValueError: {err}, the history is [{hs!r}, {t!r}]")
            v = ref.value(tau)
            j = ref.segment(tau, self.i)
            check(np.shape(res) == (self.p.n,) and amax(res - v) <= 4 * self.tol(j),
                  f"{self.name} {what}: {np.asarray(res).tolist()}, on the steps of this solver it is {v.tolist()}")
            self.remember(res)
        self.state_ok("after " + what)
        return True

    # -- interpretation of generated operations -------------------------------------------------------------
    def time_at(self, x):
        """Time at position x (in steps, fractional, may be negative) from the current one, on the sequence."""
        k = int(np.floor(x))
        j = self.i + k
        if j < 0:
            return self.ref.nodes[0][0] + x * abs(self.ref.h[0]) - 0.5 * abs(self.ref.h[0])
        a = self.ref.t(j)
        if a is None:
            return None
        fr = x - k
        if fr == 0:
            return a
        b = self.ref.t(j + 1)
        return None if b is None else a + fr * (b - a)

    def do(self, op):
        kind = op[0]
        if kind in ("step", "skip"):
            n, x = op[1], op[2]
            upto = None
            if x is not None:
                upto = self.time_at(x)
                if upto is None:
                    return False
                if x < 0 and upto >= float(self.sol.t):
                    return False
            return self.advance(kind, n, upto)
        if kind in ("run", "runev"):
            ts = [self.time_at(x) for x in op[1]]
            if any(t is None for t in ts):
                return False
            if op[2] == "bound" and self.t_bound < np.inf:
                ts.append(self.t_bound)
            if op[2] == "beyond" and self.t_bound < np.inf:
                ts.append(self.t_bound + abs(self.ref.h[0]) * 0.25)
            ev = None
            if kind == "runev":
                c = self.p.d["y0"][0]
                ev = [jitlib.event(0, "state", c=c + 0.125), jitlib.event(1, "sin", om=3.0, ph=0.03125)]
            return self.run(ts, scalar=op[2] == "scalar", events=ev, as_list=op[2] == "list")
        if kind == "interp":
            tau = self.time_at(op[1])
            return False if tau is None else self.interpolate(tau)
        raise AssertionError(op)


# ---------------------------------------------------------------------------------------------------------
# strategies


def position(lo=-2, hi=12):
    """Positions on the sequence, in eighths of a step; whole steps are frequent."""
    from hypothesis import strategies as st

    return st.one_of(st.integers(max(lo, -2), hi).map(float), dyadic(lo, hi, 8), st.sampled_from([0.5, 1.5, 2.25, 0.125, 0.0]))


def op_strategy(weights):
    from hypothesis import strategies as st

    n = st.sampled_from([1, 1, 2, 3, 5, 8, 0])
    ups = position(-3, 8)
    table = dict(
        step0=st.just(["step", None, None]), skip0=st.just(["skip", None, None]),
        stepn=n.map(lambda k: ["step", k, None]), skipn=n.map(lambda k: ["skip", k, None]),
        stepu=ups.map(lambda x: ["step", None, x]), skipu=ups.map(lambda x: ["skip", None, x]),
        stepnu=st.tuples(n, ups).map(lambda a: ["step", a[0], a[1]]), skipnu=st.tuples(n, ups).map(lambda a: ["skip", a[0], a[1]]),
        run=st.tuples(st.lists(position(-1, 8), min_size=1, max_size=6), st.sampled_from(["", "", "list"])).map(lambda a: ["run", a[0], a[1]]),
        runs=st.lists(position(0, 8), min_size=1, max_size=6).map(lambda a: ["run", sorted(a), ""]),
        run1=position(-1, 8).map(lambda x: ["run", [x], "scalar"]),
        runb=st.tuples(st.lists(position(0, 8), min_size=1, max_size=4), st.sampled_from(["bound", "beyond"])).map(lambda a: ["run", a[0], a[1]]),
        runold=st.tuples(st.lists(position(0, 3), max_size=2), dyadic(-9, -1)).map(lambda a: ["run", a[0] + [a[1]], ""]),
        runev=st.lists(position(0, 8), min_size=1, max_size=6).map(lambda a: ["runev", sorted(a), ""]),
        interp=dyadic(-1, 0, 8).map(lambda x: ["interp", x]),
        interpx=dyadic(-7, 1, 8).map(lambda x: ["interp", x]),
    )
    pick = [k for k, w in weights.items() for _ in range(w)]
    return st.sampled_from(pick).flatmap(lambda k: table[k])


def cases(weights, bound=0.5, solvers=FIXED + ADAPTIVE * 3, max_ops=8, forms=("lin", "time", "nonlin", "full")):
    from hypothesis import strategies as st

    @st.composite
    def strat(draw):
        name = draw(st.sampled_from(only(solvers)))
        p = draw(problems(amp=1.0, yamp=2.0, max_n=3, forms=forms))
        c = dict(solver=name, prob=p)
        if name in ADAPTIVE:
            o = {}
            if draw(st.booleans()):
                o["rtol"] = draw(st.sampled_from([1e-2, 1e-5]))
                o["atol"] = draw(st.sampled_from([1e-3, 1e-7]))
            if draw(st.integers(0, 2)) == 0:
                o["first_step"] = draw(st.sampled_from([0.125, 0.5, 2.0]))
            if draw(st.integers(0, 3)) == 0:
                o["max_step"] = draw(st.sampled_from([0.25, 0.1]))
            c["opts"] = o
            p["t0"] = max(min(p["t0"], 100.0), -100.0)
        else:
            c["h"] = draw(st.sampled_from([0.125, 0.25, 0.0625, 0.1, 0.03, 1 / 7]))
            if DEPTH[name] > 1:
                c["first"] = draw(st.sampled_from(firsts(["none", "auto", "RungeKutta4"])))
        if draw(st.integers(0, 99)) < 100 * bound:
            c["bound"] = [draw(st.integers(0, 10)), draw(st.sampled_from([0.0, 0.5, 0.25, 0.875]))]
        c["ops"] = draw(st.lists(op_strategy(weights), min_size=3, max_size=max_ops))
        return c

    return strat()


def run_case(case, trunc_known=None, want=None):
    try:
        e = Engine(case, trunc_known)
    except (RuntimeError, np.linalg.LinAlgError):
        return False, ["start-up equation without solution"]
    done = 0
    for op in case["ops"]:
        try:
            ok = e.do(op)
        except np.linalg.LinAlgError:
            break
        if not ok:
            break
        done += 1
    labels = sorted(set(e.labels))
    if e.known_hit:
        raise Violation(e.known_hit, known=trunc_known)
    return done >= 2 and e.moves >= 2 and e.p.nontrivial, labels
