"""What the rules have in common: running entries, recording obligations, violations and doubts."""
import os, time

from .terms import *
from . import engine as _eng
from .engine import Engine, Undecided, St
from .models import Models, MAPS
from . import text as _text
from .explore import explore
from .view import *


class Session:
    """One run of the analysis over the current source."""

    def __init__(self, prog, missing=None):
        self.P = prog
        self.missing = missing or {}
        self.runs = {}
        self._pz = None
        self._templates = None

    def run(self, entry, poison=None, **kw):
        """Explores an entry function.  poison: classes of locks that may be poisoned."""
        key = (entry, poison, repr(sorted(kw.items(), key=lambda x: x[0])))
        r = self.runs.get(key)
        if r is None:
            e = Engine(self.P, Models())
            e.poisonable = frozenset(poison) if poison is not None else self.poisonable()
            e.assume["dyntype"] = dyn_type
            for k, v in kw.items():
                if k == "setup":
                    continue
                setattr(e, k, v)
            try:
                r = explore(self.P, entry, engine=e, setup=kw.get("setup"))
            except Undecided as x:
                r = _Failed(entry, str(x))
            except (RecursionError, KeyError, IndexError, AttributeError, TypeError, ValueError) as x:
                r = _Failed(entry, f"internal: {type(x).__name__}: {x}")
            self.runs[key] = r
        return r

    POISON_ENTRIES = ("bg_with", "fg_with", "ctx_fg_with", "ctx_save", "ctx_delete", "ctx_get", "ctx_contains",
                      "schema_read_use", "schema_write_use", "save_bg", "save_fg", "delete_bg", "delete_fg",
                      "with_target", "with_mut_target", "with_res", "with_mut_res", "peek_target", "peek_res")

    def poisonable(self):
        """The classes of locks a panic can leave poisoned: those some operation holds exclusively
        while it calls code that may panic (least fixpoint)."""
        if self._pz is None:
            cur = frozenset()
            for _ in range(6):
                new = set(cur)
                for n in self.POISON_ENTRIES:
                    r = self.run(n, poison=cur)
                    new |= set(r.e.poisoned_classes) if r.e is not None else set()
                if frozenset(new) == cur:
                    break
                cur = frozenset(new)
            self._pz = cur
        return self._pz

    def templates(self):
        """What recording a save and a delete adds to a log: [(name, argument, value)]."""
        if self._templates is None:
            out = []
            for entry, kind in (("ctx_save", "save"), ("ctx_delete", "delete")):
                r = self.run(entry, poison=frozenset())
                vals = set()
                for p in r.paths:
                    for ev in flat(p.events):
                        if ev.k == "sw" and ev.a[1] == "push":
                            vals.add((r.args[1], ev.a[2]))
                out += [(kind, a, v) for a, v in vals]
            self._templates = out
        return self._templates


def dyn_type(e, st, t, cell, proj):
    """The concrete type of a resource.  Assumed here, checked with C12: what is registered under a type
    is of that type, and so is what a handle for a type refers to."""
    x = cell
    while isinstance(x, T):
        if x.k == "mval" and x.a[1].k == "op" and x.a[1].a[0] == "typeid":
            return x.a[1]
        if x.k in SYMLIKE:
            ty = e.tyof(x)
            if ty is not None:
                d = e.ty(ty)
                if d.get("def", "").endswith("resource::Res") and d.get("args"):
                    return mk("op", "typeid", (d["args"][-1],), None)
        if x.k in ("deref", "fld", "drf") or x.k == "op" and x.a[0] in ("havoc", "cont") and x.a[1]:
            if x.k == "op":
                x = x.a[1][0].a[0]
            else:
                x = x.a[0]
        else:
            return None
    return None


def unboxed(p, t):
    """What is in the box or the shared pointer, if the value is one."""
    while True:
        if t.k in ("box", "arc") and p.st.mem.get(t.a[0]) is not None:
            t = p.st.mem[t.a[0]]
        elif t.k == "ref" and not t.a[1] and t.a[0].k == "heap" and p.st.mem.get(t.a[0]) is not None:
            t = p.st.mem[t.a[0]]
        elif t.k in ("deref", "drf"):
            t = t.a[0]
        else:
            return t


class _Failed:
    def __init__(self, name, error):
        self.name, self.error, self.paths, self.e, self.args = name, error, [], None, []


class Report:
    """Collects what a check of one property found."""

    def __init__(self, s, pid):
        self.s, self.pid = s, pid
        self.obligations = 0
        self.violations = []
        self.undecided = []
        self.entries = {}
        self.insts = set()
        self.calls = 0
        self.samples = []
        self.rules = []
        self.inductive = False # the rule knows what the functions that call themselves do
        self.unmapped = None    # a set of things under keys that is something else than a map
        self.keyed = False      # going through the entries of a map instead of asking it for a key is beyond the rules

    def needs_map(self, *names):
        """The rules are about these types keeping what they have in maps; with anything else they are undecided."""
        for d in self.s.P.types:
            n = next((n for n in names if d.get("def", "").endswith(n)), None)
            if n is not None and not self.mapped(d, 0):
                self.unmapped = n

    def mapped(self, d, depth):
        if d.get("def") in MAPS:
            return True
        inner = [t for v in d.get("variants", ()) for _, t in v["fields"]] + [a for a in d.get("args", ()) if isinstance(a, int)]
        return depth < 5 and any(self.mapped(self.s.P.types[t], depth + 1) for t in inner)

    def rule(self, text):
        self.rules.append(text)

    def run(self, entry, **kw):
        r = self.s.run(entry, **kw)
        if r.e is not None:
            self.insts |= r.e.stats["insts"]
            if entry not in self.entries:
                self.calls += r.e.stats["calls"]
        self.entries[entry] = max(self.entries.get(entry, 0), len(r.paths))
        if r.error:
            self.doubt(entry, "not analysable: " + r.error)
        elif not r.paths:
            self.doubt(entry, "no path")
        return r

    def doubt(self, entry, why, path=None):
        self.undecided.append((entry, why))

    def fail(self, run, path, what, ev=None, terms=()):
        """A violated obligation; a doubt instead if it hinges on something imprecise."""
        name = run if isinstance(run, str) else run.name
        if self.unmapped is not None:
            self.doubt(name, what + f" (undetermined: {self.unmapped} is not a map)")
            return
        v = vague(*terms) if terms else None
        if v is not None:
            self.doubt(name, what + f" (undetermined: {brief(v, 80)})")
            return
        v = elsewhere(run, path, terms)
        if v is not None:
            self.doubt(name, what + f" (undetermined: the rest of {brief(v, 60)})")
            return
        x = unmodelled(path)
        if x is not None:
            self.doubt(name, what + f" (undetermined: what {x} does)")
            return
        x = recursive(path) if not self.inductive else None
        if x is not None:
            self.doubt(name, what + f" (undetermined: what {x.split('::')[-1]} does, which calls itself)")
            return
        x = carried(path)
        if x is not None:
            self.doubt(name, what + f" (undetermined: what {brief(x, 60)} is after the loop)")
            return
        x = skipped(path)
        if x is not None:
            self.doubt(name, what + f" (undetermined: how far a loop goes through {brief(x, 60)})")
            return
        if self.keyed and path is not None and any(x.k == "loop" and any(y.k == "from" and y.a[0].k == "op" and y.a[0].a[0] == "entries" for y in x.a[2])
                                                   for x in path.events):
            self.doubt(name, what + " (undetermined: what is found by going through a map)")
            return
        self.violations.append((name, what, path, ev))

    def check(self, cond, run, path, what, ev=None, terms=()):
        self.obligations += 1
        if not cond:
            self.fail(run, path, what, ev, terms)
        elif len(self.samples) < 6 and path is not None and path.events:
            self.samples.append({"entry": run.name, "obligation": what,
                                 "path": [fact_s(k, v) for k, v in list(path.st.facts.items())[:6]]})
        return cond


HARMLESS = ("anyhow::", "clap_builder::", "core::io::", "std::io::", "std::fs::", "alloc::fmt::", "core::fmt::")


def elsewhere(run, path, terms):
    """A sequence of which one part is at stake while the function has to do with the part next to it, too."""
    def parts(x):
        return {t for t in subterms(x) if t.k == "op" and t.a[0] == "slice"}
    mine = parts(tuple(x for x in terms if isinstance(x, (T, tuple))))
    if not mine or path is None:
        return None
    others = run.__dict__.get("slices") if not isinstance(run, str) else None
    if others is None:
        others = set()
        for p in [path] if isinstance(run, str) else run.paths:
            others |= parts(tuple(p.events))
        if not isinstance(run, str):
            run.__dict__["slices"] = others
    for q in others:
        for t in mine:
            if q is not t and untyped(q.a[1][0]) is untyped(t.a[1][0]) and (
                    untyped(q.a[1][1]) is untyped(t.a[1][2]) or untyped(q.a[1][2]) is untyped(t.a[1][1])):
                return t
    return None


def recursive(path):
    """A function that calls itself, other than the look-ups through the enclosing contexts."""
    if path is None:
        return None
    return next((x.a[0] for x in flat(path.events) if x.k == "rec" and not (
        "context::Context" in x.a[0] and x.a[0].endswith(("::get", "::contains")))), None)


def carried(path):
    """An unknown alternative a loop leaves behind and the path depends on."""
    if path is None:
        return None
    for k in path.st.facts:
        if k[0] == "var":
            t = k[1]
            while t.k in ("fld", "drf"):
                t = t.a[0]
            if t.k == "phi":
                return k[1]
        if k[0] == "val" and any(t.k in ("phi", "macc") for t in subterms(k[1])):
            return k[1]
    return None


def skipped(path):
    """What a loop on the path goes through with the help of a loop within it, by any number a turn."""
    if path is None:
        return None
    for x in flat(path.events):
        if x.k == "loop":
            for c in x.a[1]:
                for u in c.a[2]:
                    if u.k == "skipped":
                        return u.a[0]
    return None


def unmodelled(path):
    """A library function without a model that is handed something it may call or change on the path."""
    if path is None:
        return None
    for x in flat(path.events):
        if x.k == "ext" and not x.a[0].startswith(HARMLESS) and (
                any(a.k == "ref" and a.a[2] for a in x.a[1] if isinstance(a, T)) or any(t.k in ("clo", "iter") for t in subterms(x.a[2]))):
            return x.a[0]
    return None


def funcs(s, insts):
    """Names of the analysed functions of the repository."""
    out = set()
    for i in insts:
        x = s.P.insts[i]
        if x and x["crate"].startswith(("plotline",)):
            out.add(x["path"])
    return sorted(out)


# ---- pieces used by several rules ----------------------------------------------------------------


def closed(R, run, p):
    """Every lock taken is given back."""
    R.check(not p.st.locks, run, p, "a lock is still held at the end: " + ", ".join(l.a[4] for l in p.st.locks))


def no_panic(R, run, p, what="panics by itself"):
    if p.kind == "deadlock":
        return R.check(False, run, p, "waits forever for a lock it holds itself", p.events[-1] if p.events else None)
    ev = next((x for x in flat(p.events) if x.k in ("panic", "abort", "exit")), None)
    return R.check(ev is None, run, p, what, ev)


def dirtied(run, p, but=()):
    """The cells that existed before the call, other than `but`, that hold something else at the end."""
    e = run.e
    out = []
    for c, v in p.st.mem.items():
        if c.k != "deref" or untyped(c) in but:
            continue
        old = e.read(St(), c, ())
        if untyped(norm(v)) is not untyped(norm(old)):
            out.append((c, v))
    return out


def client_res(ev):
    return ev.a[3]


def returns(R, run, p, ev, what):
    """The path returns exactly what the client code called at ev returned."""
    got = norm(p.value)
    exp = norm(client_res(ev))
    if ev.a[3] is UNIT:
        return True
    ok = untyped(got) is untyped(exp)
    if not ok and got.k == "adt" and exp.k in SYMLIKE and not got.a[2]:
        ok = p.st.facts.get(("var", exp)) == got.a[1]
    return R.check(ok, run, p, what + f": returns {brief(p.value, 100)}", ev, () if surely_other(run, p, got, exp) else (p.value,))


def surely_other(run, p, got, exp):
    """Do the two differ for some value of exp, whatever is inside of got?"""
    if got.k != "adt" or exp.k not in SYMLIKE:
        return False
    v = variant_of(p, exp)
    if v is None:
        return len(run.e.ty(got.a[0]).get("variants") or ()) > 1
    if v != got.a[1]:
        return True
    return any(surely_other(run, p, x, mk("fld", exp, v, i, None)) for i, x in enumerate(got.a[2]))


def variant_of(p, t):
    if t.k == "adt":
        return t.a[1]
    v = p.st.facts.get(("var", t))
    if v is None:
        for k, x in p.st.facts.items():
            if k[0] == "var" and untyped(k[1]) is untyped(t):
                return x
    return v


def graph_cell(cell):
    return mk("deref", cell)


def map_writes(events):
    """Events changing a map that is not private to the path."""
    for ev in flat(events):
        if ev.k == "mw" and ev.a[0].a[0].k not in ("heap", "loc"):
            yield ev
