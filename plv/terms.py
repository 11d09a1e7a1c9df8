"""Interned terms: the values of the abstract domain.

A term stands for where a value came from (provenance), not for a number: an argument, a field of
one, the result of a call, the element of a sequence, or a structure built from such things.
"""

_tab = {}


class T:
    __slots__ = ("k", "a", "id")

    def __repr__(self):
        return show(self)

    def __reduce__(self):
        return (mk, (self.k,) + self.a)


def mk(k, *a):
    key = (k,) + a
    t = _tab.get(key)
    if t is None:
        t = T()
        t.k = k
        t.a = a
        t.id = len(_tab)
        _tab[key] = t
    return t


UNIT = mk("tup", ())
TRUE = mk("bool", True)
FALSE = mk("bool", False)
MOVED = mk("moved")
NOISE = mk("noise")
UNSET = mk("unset")

# kinds that stand for an unknown value; the last component is its type (or None)
SYMLIKE = {"sym", "fld", "drf", "elt", "op", "phi", "mval", "ord"}


def tup(*xs):
    return mk("tup", tuple(xs))


def boolt(b):
    return TRUE if b else FALSE


def intt(n):
    return mk("int", n)


def show(t, d=0):
    if isinstance(t, tuple):
        return "(" + ", ".join(show(x, d + 1) for x in t) + ")"
    if not isinstance(t, T):
        return str(t)
    if d > 14:
        return "…"
    k, a = t.k, t.a
    s = lambda x: show(x, d + 1)
    if k == "sym":
        return s(a[0])
    if k == "fld":
        return f"{s(a[0])}.{a[1]}.{a[2]}" if a[1] else f"{s(a[0])}.{a[2]}"
    if k == "drf":
        return f"*{s(a[0])}"
    if k == "elt":
        return f"elem<{s(a[1])}>({s(a[0])})"
    if k == "op":
        return f"{a[0]}({', '.join(s(x) for x in a[1])})"
    if k == "phi":
        return f"phi({s(a[1])})"
    if k == "mval":
        return f"{s(a[0])}[{s(a[1])}]"
    if k == "ord":
        return f"cmp({s(a[0])}, {s(a[1])})"
    if k == "adt":
        return f"{SHOWTY(a[0], a[1])}({', '.join(s(x) for x in a[2])})"
    if k in ("tup", "arr"):
        return "(" + ", ".join(s(x) for x in a[0]) + ")"
    if k == "clo":
        return "closure(" + ", ".join(s(x) for x in a[1]) + ")"
    if k in ("int", "bool"):
        return str(a[0])
    if k == "str":
        return repr(a[0])
    if k == "ref":
        return ("&mut " if a[2] else "&") + s(a[0]) + "".join(pstep(x, d) for x in a[1])
    if k in ("arc", "box"):
        return f"{k}→{s(a[0])}"
    if k == "loc":
        return f"local{a[1]}"
    if k == "heap":
        return "heap@" + s(a[0]) + ("" if a[1] == 0 else f"#{a[1]}")
    if k == "deref":
        return f"[{s(a[0])}]"
    if k == "fn":
        return "fn"
    if k == "seq":
        return "[" + ", ".join(s(x) for x in a[0]) + "]"
    if k == "e":
        return s(a[0])
    if k == "s":
        return ".." + s(a[0])
    if k == "tr":
        return "trace"
    if k == "fr":
        return "fr" + str(t.id)
    return f"{k}({', '.join(s(x) for x in a)})"


def pstep(p, d=0):
    if p[0] == "f":
        return f".{p[2]}" if not p[1] else f"@{p[1]}.{p[2]}"
    return f".{p[0]}({show(p[1], d + 1) if len(p) > 1 else ''})"


def SHOWTY(ty, v):
    return f"T{ty}#{v}"


def set_show(f):
    global SHOWTY
    SHOWTY = f


def subterms(t, seen=None):
    """All terms contained in t (through tuples)."""
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, (tuple, frozenset)):
            st.extend(x)
        elif isinstance(x, T):
            if x.id in seen:
                continue
            seen.add(x.id)
            yield x
            st.extend(x.a)


def contains(t, sub):
    return any(x is sub for x in subterms(t))


def subst(t, m):
    """Replace terms by m (dict term -> term), rebuilding."""
    if isinstance(t, tuple):
        return tuple(subst(x, m) for x in t)
    if not isinstance(t, T):
        return t
    if t in m:
        return m[t]
    na = tuple(subst(x, m) if isinstance(x, (T, tuple)) else x for x in t.a)
    if na == t.a:
        return t
    return mk(t.k, *na)


def untyped(t, memo=None):
    """Without the type annotations of unknown values (they depend on where a value is looked at)."""
    if memo is None:
        memo = {}
    if isinstance(t, tuple):
        return tuple(untyped(x, memo) for x in t)
    if not isinstance(t, T):
        return t
    r = memo.get(t)
    if r is None:
        a = list(untyped(x, memo) if isinstance(x, (T, tuple)) else x for x in t.a)
        if t.k in SYMLIKE:
            a[-1] = None
        r = memo[t] = mk(t.k, *a)
    return r
