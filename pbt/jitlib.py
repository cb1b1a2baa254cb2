"""Right-hand sides and event functions that are compiled once and read their coefficients from a fixed buffer.

Every new compiled function makes numba compile the whole solver again (about 10 s).  One right-hand side and a pool of
event functions therefore serve all cases of a process.  The same code runs uncompiled with NBKODE_NONUMBA=1.
"""
import os

import numpy as np


class Budget(Exception):
    """The right-hand side was evaluated more often than any correct call could."""


NO_NUMBA = bool(os.environ.get("NBKODE_NONUMBA"))
BUF = np.zeros(1024)
NE = 12
# layout
COUNT, LIMIT, NOISE, NAN_T, NAN_KIND, N, KINK, KINK_T = range(8)
A, B, G, W, Q, R, C = 16, 80, 88, 96, 104, 112, 120
EV, EV_SIZE = 256, 16
MAXN = 8




if NO_NUMBA:
    def njit(f):
        return f

    def buf():
        return BUF
else:
    from numba import carray, njit, types
    from numba.core import cgutils
    from numba.extending import intrinsic

    ADDR = BUF.ctypes.data

    @intrinsic
    def _as_pointer(typingctx, src):
        sig = types.CPointer(types.float64)(types.intp)

        def codegen(context, builder, signature, args):
            return builder.inttoptr(args[0], context.get_value_type(types.CPointer(types.float64)))

        return sig, codegen

    @njit
    def buf():
        return carray(_as_pointer(ADDR), (1024,))


@njit
def rhs(t, y):
    b = buf()
    b[0] += 1.0
    if b[0] > b[1]:
        raise Budget("too many evaluations of the right-hand side")
    n = y.size
    out = np.empty(n)
    for i in range(n):
        s = b[80 + i] + b[112 + i] * t
        if b[88 + i] != 0.0:
            s += b[88 + i] * np.sin(b[96 + i] * t)
        if b[104 + i] != 0.0:
            s += b[104 + i] * np.sin(y[(i + 1) % n])
        if b[120 + i] != 0.0:
            s += b[120 + i] * y[i] * y[i]
        for j in range(n):
            s += b[16 + 8 * i + j] * y[j]
        if b[2] != 0.0:
            s *= 1.0 + 2e-16 * np.sin(b[2] * (1e3 * s + i))
        out[i] = s
        if t > b[7]:
            out[i] += b[6]
    if t > b[3]:
        for i in range(n):
            out[i] = np.nan if b[4] == 0.0 else np.inf
    return out


def make_event(k):
    base = EV + EV_SIZE * k

    @njit
    def event(t, y):
        b = buf()
        kind = b[base]
        s = b[base + 1]
        c = b[base + 2]
        om = b[base + 3]
        ph = b[base + 4]
        i = int(b[base + 5])
        t0 = b[base + 6]
        if kind == 0.0:
            return s * (t - c)
        elif kind == 1.0:
            return s * np.sin(om * (t - t0) + ph)
        elif kind == 2.0:
            return s * (y[i] - c)
        elif kind == 3.0:
            return s * (y[i] - c * np.cos(om * (t - t0)))
        return s * (t - c) * (t - ph)

    return event


EVENTS = []


def event(k, kind, s=1.0, c=0.0, om=0.0, ph=0.0, i=0, t0=0.0, direction=None, terminal=None):
    """The event function of slot k, with these coefficients and attributes."""
    while len(EVENTS) <= k:
        EVENTS.append(make_event(len(EVENTS)))
    b = EV + EV_SIZE * k
    BUF[b:b + 7] = [dict(time=0, sin=1, state=2, mixed=3, double=4)[kind], s, c, om, ph, i, t0]
    g = EVENTS[k]
    for name, v in (("direction", direction), ("terminal", terminal)):
        if v is not None:
            setattr(g, name, v)
        elif hasattr(g, name):
            delattr(g, name)
    return g


def load(d, limit=1e9, noise=0.0):
    """Coefficients of the problem d (see prob.Problem), plus c (quadratic terms) and nan_t."""
    n = d["n"]
    BUF[:EV] = 0.0
    BUF[LIMIT], BUF[NOISE], BUF[N] = limit, noise, n
    BUF[NAN_T] = d.get("nan_t", np.inf)
    BUF[NAN_KIND] = d.get("nan_kind", 0.0)
    BUF[KINK_T] = np.inf
    if "kink" in d:
        BUF[KINK], BUF[KINK_T] = d["kink"][0], d["t0"] + d["kink"][1] + 0.0123456789
    if "A" in d:
        for i in range(n):
            BUF[A + 8 * i:A + 8 * i + n] = d["A"][i]
    for key, base in zip("bgwqrc", (B, G, W, Q, R, C)):
        if key in d:
            BUF[base:base + n] = d[key]


def count():
    return int(BUF[COUNT])


# -- functions for the root finders: coefficients from 512 on ------------------------------------------------
FN = 512


@njit
def _value(x, j):
    b = buf()
    b[FN + 15] += 1.0
    if b[FN + 15] > 20000.0:
        raise Budget("too many evaluations")
    kind = b[FN]
    s = b[FN + 1]
    r = 0.0
    if kind == 0.0:
        c4, c3, c2, c1, c0 = b[FN + 6], b[FN + 5], b[FN + 4], b[FN + 3], b[FN + 2]
        if j == 0:
            r = (((c4 * x + c3) * x + c2) * x + c1) * x + c0
        elif j == 1:
            r = ((4 * c4 * x + 3 * c3) * x + 2 * c2) * x + c1
        else:
            r = (12 * c4 * x + 6 * c3) * x + 2 * c2
    elif kind == 1.0:
        r = np.exp(x)
    elif kind == 2.0:
        if j == 0:
            r = np.arctan(x)
        elif j == 1:
            r = 1.0 / (1.0 + x * x)
        else:
            r = -2.0 * x / (1.0 + x * x) ** 2
    elif kind == 3.0:
        if j == 0:
            r = np.abs(x)
        elif j == 1:
            r = np.sign(x)
    elif kind == 4.0:
        if j == 0:
            r = np.sign(x)
    return s * r


@njit
def fn0(x, a):
    return _value(x, 0) - buf()[FN + 1] * a


@njit
def fn1(x, a):
    return _value(x, 1)


@njit
def fn2(x, a):
    return _value(x, 2)


@njit
def fnv(y, shift):
    """Vector function for newton_hd."""
    b = buf()
    b[FN + 15] += 1.0
    if b[FN + 15] > 20000.0:
        raise Budget("too many evaluations")
    n = y.size
    kind = b[FN]
    x = y - shift
    out = np.empty(n)
    for i in range(n):
        s = -b[FN + 8 + i]
        for j in range(n):
            z = x[j]
            if kind == 1.0:
                z = np.sin(x[j])
            elif kind == 2.0:
                z = x[j] * x[j]
            elif kind == 3.0:
                z = x[j] * np.abs(x[j])
            s += b[FN + 16 + 8 * i + j] * z
        if kind == 1.0:
            s += x[i]
        out[i] = s
    return out


def load_fn(kind, s, c, A=None, b=None):
    BUF[FN:] = 0.0
    BUF[FN], BUF[FN + 1] = kind, s
    BUF[FN + 2:FN + 2 + len(c)] = c
    if A is not None:
        n = len(A)
        BUF[FN + 8:FN + 8 + n] = b
        for i in range(n):
            BUF[FN + 16 + 8 * i:FN + 16 + 8 * i + n] = A[i]
