"""Looking at the results of the analysis: normal forms, effects of a path, short descriptions."""
import re
from .terms import *
from . import engine as _eng

FULL = frozenset("<=>")


def brief(t, n=170):
    s = show(t) if not isinstance(t, str) else t
    s = re.sub(r"heap@site\([^()]*(\([^()]*\)[^()]*)*\)(#\d+)?", "heap", s)
    s = re.sub(r"lp\(fr\d+, (\d+), \d+\)", r"loop", s)
    s = re.sub(r"havoc\(lockat\([^()]*(\([^()]*\)[^()]*)*\), \(([^()]*), \d+\), \[\]\)", r"⟨recorded during \2⟩", s)
    return s if len(s) <= n else s[:n] + "…"


def fact_s(k, v):
    if k[0] == "rel":
        return f"{brief(k[1], 60)} {''.join(sorted(v))} {brief(k[2], 60)}"
    if k[0] == "pz":
        return f"{'poisoned' if v else 'not poisoned'} {brief(k[1], 60)}"
    return f"{k[0]} {', '.join(brief(x, 80) for x in k[1:])} = {v}"


def sites(ev):
    return sorted(_eng.SITES.get(ev, ()))


def ev_s(ev):
    k = ev.k
    if k == "client":
        return f"calls {ev.a[0]}({', '.join(brief(x, 60) for x in ev.a[1])})"
    if k == "unwind":
        return f"{ev.a[0]} panics"
    if k in ("acq", "rel"):
        return f"{'takes' if k == 'acq' else 'releases'} the {ev.a[4]} lock ({ev.a[0]})" + (" while unwinding" if k == "rel" and ev.a[5] else "")
    if k == "mw":
        return f"map {ev.a[1]} {brief(ev.a[2], 80)} → {brief(ev.a[3], 80)}"
    if k == "sw":
        return f"sequence {ev.a[1]} {brief(ev.a[2], 120)}"
    if k == "loop":
        return f"loop in {ev.a[3]} with {len(ev.a[1])} case(s)"
    if k == "panic":
        return f"panics: {ev.a[0]}"
    return brief(ev, 150)


def trace_lines(events, ind=""):
    out = []
    for ev in events:
        w = sites(ev)
        out.append(ind + ev_s(ev) + (f"    [{w[0][0]} {w[0][1]}]" if w else ""))
        if ev.k == "loop":
            for c in ev.a[1]:
                out.append(ind + "  case " + "; ".join(fact_s(k, v) for k, v in c.a[0]))
                out += trace_lines(c.a[1], ind + "    ")
                for u in c.a[2]:
                    out.append(ind + "    " + brief(u))
    return out


# ---- normal form ---------------------------------------------------------------------------------


def norm(t, facts=None, memo=None):
    """References looked through where the view keeps both, eta-expanded values contracted."""
    if memo is None:
        memo = {}
    if isinstance(t, tuple):
        return tuple(norm(x, facts, memo) for x in t)
    if not isinstance(t, T):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    r = t
    a = tuple(norm(x, facts, memo) if isinstance(x, (T, tuple)) else x for x in t.a)
    if a != t.a:
        r = mk(t.k, *a)
    if r.k == "drf" and r.a[0].k == "ref" and False:
        pass
    if r.k == "ref" and not r.a[1] and r.a[0].k == "deref":
        r = r.a[0].a[0]
    elif r.k == "deref" and r.a[0].k == "ref" and not r.a[0].a[1]:
        r = r.a[0].a[0]
    elif r.k == "adt":
        r = eta(r, r.a[1], r.a[2])
    elif r.k in ("tup",) and r.a[0]:
        r = eta(r, 0, r.a[0])
    memo[t] = r
    return r


def eta(t, v, fs):
    if not fs:
        return t
    b = None
    for i, f in enumerate(fs):
        if f.k != "fld" or f.a[1] != v or f.a[2] != i:
            return t
        if b is None:
            b = f.a[0]
        elif f.a[0] is not b:
            return t
    return b


def same(a, b, facts=None):
    return norm(a, facts) is norm(b, facts)


def strip_pt(t):
    """Deep view without the pointer wrappers."""
    if isinstance(t, tuple):
        return tuple(strip_pt(x) for x in t)
    if not isinstance(t, T):
        return t
    if t.k == "pt":
        return strip_pt(t.a[2])
    a = tuple(strip_pt(x) if isinstance(x, (T, tuple)) else x for x in t.a)
    return mk(t.k, *a) if a != t.a else t


# ---- templates -----------------------------------------------------------------------------------


def instantiate(t, elem, template, memo=None):
    """t with elem replaced by template, projections of known structures resolved."""
    if memo is None:
        memo = {}
    if isinstance(t, tuple):
        return tuple(instantiate(x, elem, template, memo) for x in t)
    if not isinstance(t, T):
        return t
    if t is elem:
        return template
    r = memo.get(t)
    if r is not None:
        return r
    a = tuple(instantiate(x, elem, template, memo) if isinstance(x, (T, tuple)) else x for x in t.a)
    r = mk(t.k, *a) if a != t.a else t
    if r.k == "fld":
        b = r.a[0]
        if b.k == "adt":
            r = b.a[2][r.a[2]] if b.a[1] == r.a[1] else mk("absurd")
        elif b.k == "tup":
            r = b.a[0][r.a[2]]
    elif r.k == "drf" and r.a[0].k == "ref" and not r.a[0].a[1]:
        c = r.a[0].a[0]
        if c.k == "deref":
            r = mk("drf", c.a[0], r.a[1])
        elif c.k == "idof":
            r = c.a[1]
        elif c.k == "val":
            r = c.a[0]
    elif r.k == "op" and r.a[0] == "id":
        r = mk("op", "id", r.a[1], None)
    memo[t] = r
    return r


def fact_holds(facts, elem, template):
    """Are these (key, value) facts about elem compatible with it being template?"""
    for k, v in facts:
        if k[0] == "var":
            x = instantiate(k[1], elem, template)
            if x.k == "absurd":
                return False
            if x.k == "adt" and x.a[1] != v:
                return False
        if k[0] == "val":
            x = instantiate(k[1], elem, template)
            if x.k == "bool" and x.a[0] != v:
                return False
    return True


# ---- paths ---------------------------------------------------------------------------------------


def held_walk(events, held=()):
    """(event, locks held when it happens)."""
    held = list(held)
    for ev in events:
        yield ev, tuple(held)
        if ev.k == "acq":
            held.append(ev)
        elif ev.k == "rel":
            held = [h for h in held if not (h.a[1] is ev.a[1] and h.a[2] == ev.a[2] and h.a[3] == ev.a[3])]


def flat(events):
    """All events, those of loop bodies included."""
    for ev in events:
        yield ev
        if ev.k == "loop":
            for c in ev.a[1]:
                yield from flat(c.a[1])


def is_call(ev, *names):
    """A call of client code by (a prefix of) one of these names."""
    return ev.k == "client" and any(ev.a[0] == n or ev.a[0].startswith(n + " ") for n in names)


def decided(path, *key):
    return path.st.facts.get(tuple(key))


VAGUE_OPS = ("ext", "changed", "setindex", "seqins", "seqrem", "slice", "transmute", "cast", "index")


def vague(*ts):
    """Does this involve something the analysis keeps no precise account of?"""
    for t in subterms(tuple(x for x in ts if isinstance(x, (T, tuple)))):
        if t.k == "phi" or t.k == "op" and t.a[0] in VAGUE_OPS and not cut_short(t):
            return t
    return None


def cut_short(t):
    """A part of a sequence that leaves some of its elements out if only it has enough of them."""
    if t.a[0] != "slice":
        return False
    n, lo, hi = t.a[1]
    for x, first in ((lo, True), (hi, False)):
        if x.k == "int" and (x.a[0] > 0 or not first):
            return True
        if x.k == "op" and x.a[0] in ("Div", "Shr") and x.a[1][1].k == "int" and x.a[1][0].k == "op" and x.a[1][0].a[0] in ("len", "seqlen"):
            return True
    return False


def is_lock_ty(h):
    return "RwLock" in h or "Mutex" in h or "RefCell" in h


def locks_in(e, ev, cls):
    """(cell, content) of the locks of a class that the arguments of a call refer to, be they fields of what they refer to."""
    from .models import lock_class
    out = []

    def walk(cell, v):
        if v.k != "adt":
            return
        if is_lock_ty(e.head(v.a[0])) and len(v.a[2]) == 1:
            if lock_class(e, v.a[0]) == cls and cell not in [c for c, _ in out]:
                out.append((cell, v.a[2][0]))
            return
        for x in v.a[2]:
            walk(cell, x)

    for t in subterms(ev.a[2]):
        if t.k == "pt" and t.a[1].k in ("arc", "ref", "box"):
            walk(t.a[1].a[0], t.a[2])
    return out


def log_cells(e, ev):
    """Cells of the operation logs reachable from the arguments of a call."""
    return [c for c, _ in locks_in(e, ev, "log")]
