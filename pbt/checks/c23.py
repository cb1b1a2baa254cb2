"""C23: CaseInsensitiveDict is a dict with case-insensitive keys."""
from hypothesis import strategies as st

from ..core import Facet, check

TITLE = "CaseInsensitiveDict is a dict with case-insensitive keys"
KEYS = ["a", "A", "b", "B", "ab", "aB", "AB", "Ab", "", "1", "É", "é", "x y", "X Y", "ß", "Σ", "σ"]


def strategy():
    few = st.sampled_from(["a", "A", "aB", "AB", "Ab"])
    key = st.one_of(few, few, few, st.sampled_from(KEYS), st.text(max_size=3))
    val = st.one_of(st.integers(-3, 3), st.none(), st.sampled_from(["v", ""]))
    pairs = st.lists(st.tuples(key, val).map(list), max_size=4)
    op = st.one_of(
        st.tuples(st.just("set"), key, val), st.tuples(st.just("set"), key, val), st.tuples(st.just("del"), key),
        st.tuples(st.just("get"), key), st.tuples(st.just("getd"), key, val), st.tuples(st.just("in"), key),
        st.tuples(st.just("pop"), key), st.tuples(st.just("popd"), key, val), st.tuples(st.just("setdefault"), key, val),
        st.tuples(st.just("update"), pairs, st.sampled_from(["dict", "pairs", "kwargs", "cid"])), st.tuples(st.just("popitem")),
        st.tuples(st.just("clear")), st.tuples(st.just("copy"), key, val), st.tuples(st.just("eq"), st.sampled_from(["swap", "drop", "change", "same", "reversed"])),
        st.tuples(st.just("new"), pairs, st.sampled_from(["dict", "pairs", "cid"])), st.tuples(st.just("iter")))
    return st.lists(op.map(list), min_size=4, max_size=24)


class Model:
    """List of (key, value), keys compared by their lower() form."""

    def __init__(self):
        self.items = []

    def find(self, k):
        for i, (kk, v) in enumerate(self.items):
            if kk.lower() == k.lower():
                return i
        return None

    def set(self, k, v):
        i = self.find(k)
        if i is None:
            self.items.append((k, v))
        else:
            self.items[i] = (k, v)


def attempt(fn):
    try:
        return ("value", fn())
    except KeyError:
        return ("KeyError", None)
    except Exception as e:
        return (type(e).__name__, str(e))


def dedupe(pairs):
    """Only the last of keys that are equal up to case (the others are documented as undefined)."""
    out = {}
    for k, v in pairs:
        out[k.lower()] = (k, v)
    return list(out.values())


def run(ops):
    from nbkode.util import CaseInsensitiveDict as D

    d, m = D(), Model()
    collided = False
    log = []

    def same(what):
        check(len(d) == len(m.items), lambda: f"{what} after {log}: len {len(d)}, expected {len(m.items)}")
        check(list(d) == [k for k, v in m.items], lambda: f"{what} after {log}: keys {list(d)}, expected {[k for k, v in m.items]}")
        check(list(d.items()) == m.items and list(d.keys()) == [k for k, v in m.items] and list(d.values()) == [v for k, v in m.items],
              lambda: f"{what} after {log}: items {list(d.items())}, expected {m.items}")
        check(list(d.lower_items()) == [(k.lower(), v) for k, v in m.items], lambda: f"{what} after {log}: lower_items {list(d.lower_items())}")
        for k, v in m.items:
            for kk in {k, k.lower(), k.upper() if k.upper().lower() == k.lower() else k, k.swapcase() if k.swapcase().lower() == k.lower() else k}:
                check(kk in d and d[kk] == v and d.get(kk, "?") == v, lambda: f"{what} after {log}: d[{kk!r}] is {d.get(kk)!r}, expected {v!r}")

    def expect(what, got, want):
        check(got == want, lambda: f"{what} after {log}: {got}, expected {want}")

    for o in ops:
        kind = o[0]
        what = f"{o}"
        if kind in ("set", "setdefault", "del", "get", "getd", "in", "pop", "popd"):
            k = o[1]
            i = m.find(k)
            if i is not None and m.items[i][0] != k:
                collided = True
            val = None if i is None else m.items[i][1]
            if kind == "set":
                d[k] = o[2]
                m.set(k, o[2])
            elif kind == "setdefault":
                expect(what, d.setdefault(k, o[2]), o[2] if i is None else val)
                if i is None:
                    m.set(k, o[2])
            elif kind == "del":
                expect(what, attempt(lambda: d.__delitem__(k)), ("KeyError", None) if i is None else ("value", None))
                if i is not None:
                    del m.items[i]
            elif kind == "get":
                expect(what, attempt(lambda: d[k]), ("KeyError", None) if i is None else ("value", val))
                expect(what, d.get(k), val)
            elif kind == "getd":
                expect(what, d.get(k, o[2]), o[2] if i is None else val)
            elif kind == "in":
                expect(what, k in d, i is not None)
            elif kind == "pop":
                expect(what, attempt(lambda: d.pop(k)), ("KeyError", None) if i is None else ("value", val))
                if i is not None:
                    del m.items[i]
            elif kind == "popd":
                expect(what, attempt(lambda: d.pop(k, o[2])), ("value", o[2] if i is None else val))
                if i is not None:
                    del m.items[i]
        elif kind == "update":
            pairs = dedupe(o[1])
            if o[2] == "dict":
                d.update(dict(pairs))
            elif o[2] == "pairs":
                d.update([tuple(x) for x in pairs])
            elif o[2] == "kwargs":
                pairs = [(k, v) for k, v in pairs if k.isidentifier() and k not in ("self", "other")]
                import unicodedata
                pairs = [(k, v) for k, v in pairs if unicodedata.normalize("NFKC", k) == k]
                d.update(**dict(pairs))
            else:
                d.update(D(pairs))
            for k, v in pairs:
                m.set(k, v)
        elif kind == "popitem":
            got = attempt(d.popitem)
            if not m.items:
                expect(what, got, ("KeyError", None))
            else:
                check(got[0] == "value" and got[1] in m.items, lambda: f"{what} after {log}: {got}, the items are {m.items}")
                m.items.remove(got[1])
        elif kind == "clear":
            d.clear()
            m.items = []
        elif kind == "copy":
            c = d.copy()
            check(type(c) is D and c == d and list(c.items()) == m.items, lambda: f"copy after {log}: {list(c.items())}, expected {m.items}")
            c[o[1]] = o[2]
            c["added by copy"] = 1
            same("changing a copy")
            c = d.copy()
            old = list(c.items())
            d["Added To Original"] = 1
            check(list(c.items()) == old, lambda: f"after {log}: a copy changed with the original to {list(c.items())}")
            del d["added to original"]
        elif kind == "eq":
            other = [(k.swapcase() if k.swapcase().lower() == k.lower() else k, v) for k, v in m.items]
            equal = True
            if o[1] == "drop" and other:
                other, equal = other[1:], False
            elif o[1] == "change" and other:
                other[-1], equal = (other[-1][0], "changed"), False
            elif o[1] == "same":
                other = list(m.items)
            elif o[1] == "reversed":
                other.reverse()
            expect(what + " dict", d == dict(other), equal)
            expect(what + " CaseInsensitiveDict", d == D(other), equal)
            expect(what + " !=", d != D(other), not equal)
            expect(what + " other types", (d == 3, d == other, d == None), (False, False, False))  # noqa: E711
        elif kind == "new":
            pairs = dedupe(o[1])
            d = D(dict(pairs)) if o[2] == "dict" else D([tuple(x) for x in pairs]) if o[2] == "pairs" else D(D(pairs))
            m = Model()
            for k, v in pairs:
                m.set(k, v)
        elif kind == "iter":
            expect(what, [k for k in d], [k for k, v in m.items])
            expect(what, sorted(map(str, d)), sorted(k for k, v in m.items))
        same(what)
        log.append(o)
    return collided, sorted({o[0] for o in ops})


FACETS = [Facet("operations", strategy, run, quick=6000, thorough=300000, shards=4,
                rule="an operation used a key in a spelling that differs from the stored one")]
