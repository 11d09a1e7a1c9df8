"""Path-sensitive dataflow over resolved MIR.

Every function is interpreted over provenance terms (see terms.py); branches whose condition is not
determined by what is already known on the path are followed both ways, each remembering what it
assumed; equal states meeting at a block are merged; loops are summarised by a fixpoint over a
widened state; calls into the analysed crates and into small library adaptors are analysed in
place; client code (type-parameter closures, trait methods of type parameters, trait objects) is an
opaque event.  Nothing is executed and no solver is involved.
"""
import sys

from .terms import *
from .model import strip_generics

sys.setrecursionlimit(20000)

FULL = frozenset("<=>")
OPREL = {"Eq": frozenset("="), "Ne": frozenset("<>"), "Lt": frozenset("<"),
         "Le": frozenset("<="), "Gt": frozenset(">"), "Ge": frozenset(">=")}
FLIP = {"<": ">", ">": "<", "=": "="}


class Fork(Exception):
    def __init__(self, key, options):
        self.key, self.options = key, options


class Undecided(Exception):
    pass


class Infeasible(Exception):
    pass


SITES = {}          # event -> places in the analysed crates it was seen at
CUR = [None]


class St:
    __slots__ = ("mem", "facts", "trace", "locks", "poison", "escaped", "epoch", "unwinding",
                 "cnt", "sn", "cn", "nz")

    def __init__(self):
        self.mem = {}
        self.facts = {}
        self.trace = None
        self.locks = ()
        self.poison = frozenset()
        self.escaped = frozenset()
        self.epoch = 0
        self.unwinding = False
        self.cnt = {}
        self.sn = 0
        self.cn = 0
        self.nz = 0

    def copy(self):
        n = St.__new__(St)
        n.mem = dict(self.mem)
        n.facts = dict(self.facts)
        n.trace = self.trace
        n.locks = self.locks
        n.poison = self.poison
        n.escaped = self.escaped
        n.epoch = self.epoch
        n.unwinding = self.unwinding
        n.cnt = dict(self.cnt)
        n.sn = self.sn
        n.cn = self.cn
        n.nz = self.nz
        return n

    def key(self):
        return (frozenset(self.mem.items()), frozenset(self.facts.items()), self.trace, self.locks,
                self.poison, self.escaped, self.epoch, self.unwinding)

    def event(self, ev):
        if CUR[0] is not None:
            SITES.setdefault(ev, set()).add(CUR[0])
        self.trace = mk("tr", self.trace, ev)

    def events(self, base=None):
        out = []
        t = self.trace
        while t is not None and t is not base:
            out.append(t.a[1])
            t = t.a[0]
        out.reverse()
        return out

    def count(self, key):
        n = self.cnt.get(key, 0)
        self.cnt[key] = n + 1
        return n


class Frame:
    __slots__ = ("fid", "inst", "body", "info", "stack")


PSEUDO = {  # library types modelled as holding just their content
    "std::sync::poison::rwlock::RwLock", "std::sync::poison::mutex::Mutex",
    "std::sync::once_lock::OnceLock", "core::cell::once::OnceCell", "core::cell::RefCell",
    "core::cell::Cell", "std::sync::poison::PoisonError",
}
TRANSPARENT = {  # wrappers that are their content
    "core::mem::manually_drop::ManuallyDrop", "core::mem::maybe_uninit::MaybeUninit",
    "core::mem::maybe_dangling::MaybeDangling", "alloc::boxed::Box", "alloc::boxed::BoxRaw",
    "core::ptr::unique::Unique", "core::ptr::non_null::NonNull", "core::cell::UnsafeCell", "core::cell::SyncUnsafeCell",
}

INLINE = ("core::option", "core::result", "core::ops::", "core::bool", "core::convert",
          "core::iter", "core::cmp", "core::clone", "core::default", "core::tuple",
          "core::mem::drop", "core::num::", "core::borrow", "core::array::equality",
          "core::ptr::drop_in_place", "core::mem::replace", "core::unit::", "core::slice::<impl core::default::Default",
          "core::array::<impl core::default::Default", "core::task::poll")
REPO = ("plotline", "plv_")
NOISE_CRATES = ("tracing", "tracing_core", "tracing_subscriber", "log")


def is_repo(crate):
    return crate.startswith(REPO)


class Engine:
    def __init__(self, prog, models):
        self.P = prog
        self.types = prog.types
        self.models = models
        self.info = {}
        self.loopty = {}
        self.counters = {}          # what loops count the positions of a sequence with
        self.vts = []
        self.poisonable = None      # lock classes that may be poisoned (None: any)
        self.concurrent = False     # other threads may fill shared write-once cells
        self.pure_traits = set()    # unresolved trait methods to treat as pure
        self.assume = {}            # hooks
        self.exits = []             # states in which the process was ended, or blocked forever
        self.pure = {}              # functions of the caller's types that depend on the value only: path -> name
        self.opaque = {}            # functions of the repository not looked into: path -> name
        self.stats = {"insts": set(), "calls": 0, "forks": 0, "loops": 0, "states": 0,
                      "merged": 0, "ext": set(), "client": set()}
        self.max_states = 60000
        self.acquired = set()
        self.poisoned_classes = set()
        set_show(self.show_ty)

    # ---- types -------------------------------------------------------------------------------

    def show_ty(self, ty, v):
        if ty is None:
            return "?"
        t = self.types[ty]
        n = t["s"].split("<")[0].split("::")[-1]
        if t.get("k") == "enum":
            return n + "::" + t["variants"][v]["name"]
        return n

    def ty(self, i):
        return self.types[i] if i is not None else {"k": "?", "s": "?"}

    def head(self, i):
        t = self.ty(i)
        return t.get("def") or t["k"]

    def fields(self, ty, v):
        t = self.ty(ty)
        h = t.get("def")
        if h in PSEUDO:
            return [t["args"][0]] if t["args"] else [None]
        k = t["k"]
        if k in ("struct", "enum"):
            return [f[1] for f in t["variants"][v]["fields"]]
        if k == "tuple":
            return t["ts"]
        if k == "closure":
            return t["upvars"]
        raise Undecided(f"fields of {t['s']}")

    def pointee(self, ty):
        t = self.ty(ty)
        if t["k"] in ("ref", "ptr"):
            return t["t"]
        if t.get("args"):
            return t["args"][0]
        return None

    def tyof(self, t):
        if t.k in SYMLIKE:
            return t.a[-1]
        if t.k in ("adt", "clo"):
            return t.a[0]
        return None

    def inhabited(self, ty):
        if ty is None:
            return True
        t = self.types[ty]
        if t["k"] == "never":
            return False
        if t["k"] == "enum":
            return any(all(self.inhabited_f(f[1]) for f in v["fields"]) for v in t["variants"])
        return True

    def inhabited_f(self, ty):
        t = self.types[ty]
        return not (t["k"] == "never" or (t["k"] == "enum" and not t["variants"]))

    # ---- memory ------------------------------------------------------------------------------

    def root(self, st, cell):
        v = st.mem.get(cell)
        if v is not None:
            return v
        k = cell.k
        if k == "deref":
            return mk("drf", cell.a[0], self.pointee(self.tyof(cell.a[0])))
        if k == "idof":
            return cell.a[1]
        if k == "cs":
            return mk("str", cell.a[0])
        if k == "val":
            return cell.a[0]
        if k == "static":
            return mk("op", "static", (cell.a[0],), None)
        if k == "noisecell":
            return NOISE
        if k == "loc":
            return MOVED
        raise Undecided(f"unknown cell {cell}")

    def deref(self, st, v):
        k = v.k
        if k == "ref":
            return v.a[0], v.a[1]
        if k in ("box", "arc"):
            return v.a[0], ()
        if k in SYMLIKE:
            return mk("deref", v), ()
        if k == "noise":
            return mk("noisecell"), ()
        raise Undecided(f"dereference of {v}")

    def expand(self, st, t, v):
        """A symbolic value as an explicit constructor."""
        ty = self.tyof(t)
        if ty is None:
            raise Undecided(f"expansion of untyped {t}")
        fs = self.fields(ty, v)
        k = self.ty(ty)["k"]
        vals = tuple(mk("fld", t, v, i, f) for i, f in enumerate(fs))
        if k == "tuple":
            return mk("tup", vals)
        if k == "closure":
            return mk("clo", ty, vals)
        return mk("adt", ty, v, vals)

    def proj1(self, st, t, s):
        k = t.k
        if s[0] == "f":
            v, i = s[1], s[2]
            if k == "adt":
                if t.a[1] != v:
                    raise Undecided(f"variant {v} of {t}")
                return t.a[2][i]
            if k in ("tup", "arr"):
                return t.a[0][i]
            if k == "clo":
                return t.a[1][i]
            if k == "set":
                return t.a[0]
            if k in SYMLIKE:
                ty = self.tyof(t)
                return mk("fld", t, v, i, self.fields(ty, v)[i] if ty is not None else None)
            if k in ("noise", "moved"):
                return t
            if k in ("box", "arc", "ref"):
                return t
            raise Undecided(f"field of {t}")
        if s[0] == "at":
            if k == "op" and t.a[0] == "setelem" and t.a[1][1] is s[1]:
                return t.a[1][2]
            return s[1]
        if s[0] == "sub":
            return s[1]
        if s[0] == "ix":
            if k in ("seq", "arr", "tup") and s[1].k == "int":
                r = self.seq_index(t, s[1].a[0])
                if r is not None:
                    if k == "seq" and st is not None:
                        st.cn += 1
                    return r
            el = self.counted_elt(t, s[1])
            if el is None:
                el = self.end_elt(t, s[1])
            if el is not None:
                return el
            return mk("op", "index", (t, s[1]), self.elemty(t))
        if s[0] == "mk":
            return self.map_at(t, s[1])
        raise Undecided(f"projection {s}")

    def counted_elt(self, t, i):
        """S[i], i being what a loop counts the positions of S with."""
        ety = self.elemty(t)
        t = catof(t)
        if i.k == "elt":
            S = countof(i.a[0])
            if S is not None and untyped_eq(S, t):
                return mk("elt", S, i.a[1], ety)
            return None
        c = self.counters.get(untyped(i)) if i.k == "phi" else None
        if c is None and i.k == "op" and i.a[0].startswith("Sub") and i.a[1][1] is mk("int", 1):
            c = self.counters.get(untyped(i.a[1][0]))
            if c is not None and c[2] != "b":
                c = None
        elif c is not None and c[2] != "f":
            c = None
        if c is not None and untyped_eq(c[0], t):
            return mk("elt", c[0], (c[1], 0), ety)
        return None

    def end_elt(self, t, i):
        """S[k] or S[len - k] for a number k, counted from an end that is known."""
        back, n = False, None
        if i.k == "int":
            n = i.a[0]
        elif i.k == "fromend":
            back, n = True, i.a[0] - 1
        elif i.k == "op" and i.a[0].startswith("Sub") and i.a[1][1].k == "int" and i.a[1][1].a[0] > 0:
            ln = i.a[1][0]
            if ln is self.models.seq_len(self, None, t) if t.k in ("seq", "arr") or t.k in SYMLIKE else False:
                back, n = True, i.a[1][1].a[0] - 1
        if n is None:
            return None
        if t.k == "arr":
            return t.a[0][-1 - n if back else n] if n < len(t.a[0]) else None
        if t.k == "seq":
            sg = t.a[0]
        elif t.k in SYMLIKE:
            sg = (mk("s", t, self.elemty(t)),)
        else:
            return None
        for x in reversed(sg) if back else sg:
            if x.k == "e":
                if n == 0:
                    return x.a[0]
                n -= 1
                continue
            X, rv = unreversed(x.a[0])
            ty = x.a[-1] if x.a[-1] is not None else self.elemty(t)
            if x.k == "s" or x.k == "drop" and back or x.k == "dropb" and not back:
                return mk("elt", X, ("b" if back != rv else "f", n), ty)
            if x.k == "drop" or x.k == "dropb":
                return mk("elt", X, ("b" if (x.k == "dropb") != rv else "f", n + x.a[1]), ty)
            if x.k == "tail" and x.a[2] == ("b" if back else "f"):
                return mk("elt", X, (x.a[1], x.a[3] + n), ty)
            return None
        return None

    def cut(self, sg, k, l):
        """What is left of a sequence without its first k and last l elements, which it has."""
        sg = list(sg)
        for n, back in ((k, False), (l, True)):
            while n:
                if not sg:
                    raise Infeasible("slice of too short a sequence")
                i = -1 if back else 0
                x = sg[i]
                if x.k == "e":
                    del sg[i]
                    n -= 1
                    continue
                if x.k == "s":
                    sg[i] = mk("dropb" if back else "drop", x.a[0], n, x.a[-1])
                elif x.k == ("dropb" if back else "drop"):
                    sg[i] = mk(x.k, x.a[0], x.a[1] + n, x.a[-1])
                elif x.k == "tail" and x.a[2] == ("b" if back else "f"):
                    sg[i] = mk("tail", x.a[0], x.a[1], x.a[2], x.a[3] + n, x.a[4])
                else:
                    raise Undecided("slice of a sequence from both ends")
                n = 0
        return tuple(sg)

    def elemty(self, t):
        ty = self.tyof(t)
        if ty is None:
            return None
        d = self.ty(ty)
        if d["k"] in ("slice", "array"):
            return d["t"]
        if d.get("args"):
            return d["args"][0]
        return None

    def seq_index(self, t, n):
        if t.k in ("arr", "tup"):
            return t.a[0][n] if n < len(t.a[0]) else None
        for i, s in enumerate(t.a[0]):
            if s.k != "e":
                return None
            if i == n:
                return s.a[0]
        return None

    def map_at(self, t, key):
        if t.k == "map":
            for o in reversed(t.a[1]):
                if o.k == "ins" and o.a[0] is key:
                    return o.a[1]
            base, ty = t.a[0], t.a[2]
            if base is None:
                raise Undecided(f"{key} not in {t}")
            return mk("mval", base, key, ty)
        if t.k in SYMLIKE:
            ty = self.tyof(t)
            a = self.ty(ty).get("args") if ty is not None else None
            return mk("mval", t, key, a[1] if a and len(a) > 1 else None)
        raise Undecided(f"map entry of {t}")

    def read(self, st, cell, proj):
        t = self.root(st, cell)
        for s in proj:
            t = self.proj1(st, t, s)
        return t

    def update(self, st, t, proj, val):
        if not proj:
            return val
        s = proj[0]
        if s[0] == "f":
            v, i = s[1], s[2]
            if t.k in SYMLIKE:
                t = self.expand(st, t, v)
            if t.k == "adt":
                if t.a[1] != v:
                    # writing a field before the discriminant is set
                    raise Undecided(f"write to variant {v} of {t}")
                fs = list(t.a[2])
                fs[i] = self.update(st, fs[i], proj[1:], val)
                return mk("adt", t.a[0], v, tuple(fs))
            if t.k in ("tup", "arr"):
                fs = list(t.a[0])
                while len(fs) <= i:
                    fs.append(MOVED)
                fs[i] = self.update(st, fs[i], proj[1:], val)
                return mk(t.k, tuple(fs))
            if t.k == "clo":
                fs = list(t.a[1])
                fs[i] = self.update(st, fs[i], proj[1:], val)
                return mk("clo", t.a[0], tuple(fs))
            if t.k == "set":
                return mk("set", self.update(st, t.a[0], proj[1:], val))
            if t.k == "noise":
                return t
            if t.k in ("box", "arc", "ref") or t.k == "moved":
                if t.k == "moved":
                    # piecewise initialisation
                    fs = [MOVED] * (i + 1)
                    fs[i] = self.update(st, MOVED, proj[1:], val)
                    return mk("tup", tuple(fs))
                return self.update(st, t, proj[1:], val)
            raise Undecided(f"write to field of {t}")
        if s[0] == "at":
            old = self.proj1(st, t, s)
            new = self.update(st, old, proj[1:], val)
            if new is old:
                return t
            return mk("op", "setelem", (t, s[1], new), self.tyof(t))
        if s[0] == "ix":
            old = self.proj1(st, t, s)
            new = self.update(st, old, proj[1:], val)
            if new is old:
                return t
            if t.k == "seq" and s[1].k == "int" and self.seq_index(t, s[1].a[0]) is not None:
                segs = list(t.a[0])
                segs[s[1].a[0]] = mk("e", new)
                return mk("seq", tuple(segs))
            if t.k == "arr" and s[1].k == "int":
                fs = list(t.a[0])
                fs[s[1].a[0]] = new
                return mk("arr", tuple(fs))
            return mk("op", "setindex", (t, s[1], new), self.tyof(t))
        if s[0] == "mk":
            old = self.proj1(st, t, s)
            new = self.update(st, old, proj[1:], val)
            if new is old:
                return t
            return self.models.map_put(self, t, s[1], new)
        raise Undecided(f"write through {s}")

    def write(self, st, cell, proj, val):
        if not proj:
            st.mem[cell] = val
            return
        st.mem[cell] = self.update(st, self.root(st, cell), proj, val)

    def load(self, st, ptr):
        c, p = self.deref(st, ptr)
        return self.read(st, c, p)

    def store(self, st, ptr, val):
        c, p = self.deref(st, ptr)
        self.write(st, c, p, val)

    def put(self, st, cell, proj, val):
        """Writes a value the program hands over; replacing the value of an entry of a map is an insertion."""
        self.write(st, cell, proj, val)
        if proj and proj[-1][0] == "mk":
            st.event(mk("mw", mk("at", cell, proj[:-1]), "ins", proj[-1][1], val))

    def alloc(self, st, fid, tag, val, ty=None):
        site = mk("site", fid, tag)
        c = mk("heap", site, st.count(("heap", site)))
        st.mem[c] = val
        if ty is not None:
            st.mem[mk("cty", c)] = mk("ty", ty)
        return c

    def place(self, st, fr, p):
        cell, proj = mk("loc", fr.fid, p[0]), ()
        ty = fr.body["locals"][p[0]]
        var = 0
        for e in p[1:]:
            if e == "*":
                v = self.read(st, cell, proj)
                if v.k in SYMLIKE and v.a[-1] is None and ty is not None:
                    v = mk(v.k, *v.a[:-1], ty)
                if v is MOVED:
                    raise Undecided("dereference of a moved value")
                cell, proj = self.deref(st, v)
                ty = self.pointee(ty)
                var = 0
            elif e[0] == "f":
                h = self.head(ty) if ty is not None else None
                if h in TRANSPARENT:
                    ty = e[2]
                    continue
                proj = proj + (("f", var, 0 if h in PSEUDO else e[1]),)
                ty = e[2]
                var = 0
            elif e[0] == "d":
                var = e[1]
            elif e[0] in ("i", "ci"):
                if e[0] == "i":
                    ix = self.read(st, mk("loc", fr.fid, e[1]), ())
                elif e[3]:
                    ix = mk("fromend", e[1])
                else:
                    ix = mk("int", e[1])
                if ix.k == "fromend" or proj and proj[-1][0] == "sub":
                    t = self.read(st, cell, proj)
                    x = self.proj1(st, t, ("ix", ix))
                    proj = (proj[:-1] if proj and proj[-1][0] == "sub" else proj) + (("at", x),)
                else:
                    proj = proj + (("ix", ix),)
                ty = self.ty(ty).get("t") if ty is not None else None
            elif e[0] == "ss":
                t = self.typed(self.read(st, cell, proj), ty)
                if not e[3] or not (t.k in ("seq", "arr") or t.k in SYMLIKE):
                    raise Undecided(f"place element {e}")
                sg = self.models.segs_of(self, t)
                if proj and proj[-1][0] == "sub":
                    proj = proj[:-1]
                r = self.cut(sg, e[1], e[2])
                if len(r) < len(sg):
                    st.cn += 1
                elif r != sg:
                    st.sn += 1
                proj = proj + (("sub", mk("seq", r)),)
            elif e[0] == "cast":
                pass
            else:
                raise Undecided(f"place element {e}")
        return cell, proj, ty

    # ---- knowledge about the path ------------------------------------------------------------

    def decide(self, st, key, options):
        v = st.facts.get(key)
        if v is not None:
            return v
        if len(options) == 1:
            return options[0]
        if not options:
            raise Infeasible("no option")
        self.stats["forks"] += 1
        raise Fork(key, options)

    def nondet(self, st, options):
        """A choice nothing is known about and that is not remembered."""
        n = st.nz
        st.nz += 1
        return self.decide(st, ("nz", n), options)

    def relkey(self, a, b):
        return ("rel", a, b) if a.id < b.id else ("rel", b, a)

    def rel_get(self, st, a, b):
        a, b = bare(a), bare(b)
        if a is b:
            return frozenset("=")
        if a.k == "int" and b.k == "int":
            x, y = a.a[0], b.a[0]
            return frozenset("<" if x < y else ">" if x > y else "=")
        if a.k in ("str", "bool") and b.k == a.k:
            return frozenset("=") if a is b else frozenset("<" if a.a[0] < b.a[0] else ">")
        v = st.facts.get(self.relkey(a, b))
        if v is None:
            # a number of a range is not above what it goes up to, nor below what it starts at
            for x, y, above in ((a, b, "<"), (b, a, ">")):
                if x.k == "elt" and x.a[0].k == "op" and x.a[0].a[0] == "range" and len(x.a[0].a[1]) == 2:
                    lo, hi = x.a[0].a[1]
                    if untyped(hi) is untyped(y) or y.k == "op" and y.a[0] == "const" and self.of_length(lenof(hi), y):
                        return frozenset(above)
                    if untyped(lo) is untyped(y):
                        return frozenset(">=" if above == "<" else "<=")
            return FULL
        return v if a.id < b.id else frozenset(FLIP[x] for x in v)

    def of_length(self, S, n):
        """Is S an array of n elements?"""
        ty = self.tyof(S) if S is not None else None
        t = self.ty(ty) if ty is not None else {}
        return t.get("k") == "array" and t["s"].endswith("; " + str(n.a[1][0]) + "]")

    def rel_implied(self, st, a, b):
        """What transitivity says about a and b."""
        r = self.rel_get(st, a, b)
        if len(r) == 1:
            return r
        adj = {}
        for k, v in st.facts.items():
            if k[0] == "rel":
                adj.setdefault(k[1], []).append((k[2], v))
                adj.setdefault(k[2], []).append((k[1], frozenset(FLIP[x] for x in v)))

        def reach(x, y):  # strongest of: None, 'le', 'lt' for x<=y / x<y
            best = {x: "le"}
            todo = [x]
            while todo:
                u = todo.pop()
                for w, v in adj.get(u, ()):
                    if ">" in v:
                        continue
                    s = "lt" if (best[u] == "lt" or v == frozenset("<")) else "le"
                    if w not in best or (best[w] == "le" and s == "lt"):
                        best[w] = s
                        todo.append(w)
            return best.get(y)
        f, g = reach(a, b), reach(b, a)
        if f == "lt":
            r = r & frozenset("<")
        elif f == "le":
            r = r & frozenset("<=")
        if g == "lt":
            r = r & frozenset(">")
        elif g == "le":
            r = r & frozenset(">=")
        return r

    def counted_rel(self, st, a, b):
        """What is known of a length and a number without deciding anything (None: nothing)."""
        S = lenof(a)
        if S is not None:
            if b.k == "elt":
                X = countof(b.a[0])
                return frozenset(">") if X is not None and untyped_eq(X, S) else None
            c = self.counters.get(untyped(b)) if b.k == "phi" else None
            if c is not None and c[2] == "f" and untyped_eq(c[0], S):
                v = st.facts.get(("more", c[0], c[1], 0))
                if v is not None:
                    return frozenset(">" if v else "=")
        return None

    def longer(self, st, S, n):
        """Has S more than n elements?"""
        if n < 0:
            return True
        S = seqof(S)
        if n == 0:
            return not self.decide(st, ("empty", S), [True, False])
        if st.facts.get(("empty", S)) is True:
            return False
        for k, v in st.facts.items():
            if k[0] == "longer" and k[1] is S and (v is True and k[2] >= n or v is False and k[2] <= n):
                return v
        r = self.decide(st, ("longer", S, n), [True, False])
        if r and st.facts.get(("empty", S)) is None:
            st.facts[("empty", S)] = False
        return r

    def more_than(self, st, sg, k):
        """Has a sequence more than k elements? (None: not known how to tell)"""
        n = sum(1 for s in sg if s.k == "e")
        rest = [s for s in sg if s.k != "e"]
        k -= n
        if k < 0:
            return True
        if not rest:
            return False
        if len(rest) != 1:
            return None
        s = rest[0]
        if s.k == "s":
            return self.longer(st, s.a[0], k)
        if s.k in ("drop", "dropb"):
            return self.longer(st, s.a[0], k + s.a[1])
        if s.k == "tail":
            return self.decide(st, ("more", seqof(s.a[0]), s.a[1], s.a[3] + k), [True, False])
        return None

    def len_rel(self, st, x, k, sat):
        """Whether a length relates to a number as wanted (None: not known how to tell)."""
        if x.a[0] == "len":
            sg = (mk("s", x.a[1][0], None),)
        elif x.a[0] == "seqlen":
            sg = x.a[1][0].a[0]
        else:
            return None
        if k > 8 or st.facts.get(self.relkey(x, mk("int", k))) is not None:
            return None
        lt, eq, gt = "<" in sat, "=" in sat, ">" in sat
        if lt == eq == gt:
            return lt
        if lt != eq:
            m = self.more_than(st, sg, k - 1) if k > 0 else True
            if m is None:
                return None
            if not m:
                return lt
            if eq == gt:
                return eq
        m = self.more_than(st, sg, k)
        if m is None:
            return None
        return gt if m else eq

    def decide_rel(self, st, a, b, sat):
        a, b = bare(a), bare(b)
        for x, y, f in ((a, b, False), (b, a, True)):
            r = self.counted_rel(st, x, y)
            if r is not None:
                r = frozenset(FLIP[z] for z in r) if f else r
                return r <= sat
            if x.k == "op" and x.a[0] in ("len", "seqlen") and y.k == "int" and y.a[0] >= 0:
                r = self.len_rel(st, x, y.a[0], frozenset(FLIP[z] for z in sat) if f else sat)
                if r is not None:
                    return r
        r = self.rel_implied(st, a, b)
        if not r:
            raise Infeasible("contradictory order")
        if r <= sat:
            return True
        if not (r & sat):
            return False
        key = self.relkey(a, b)
        o1, o2 = r & sat, r - sat
        if a.id > b.id:
            o1, o2 = (frozenset(FLIP[x] for x in o) for o in (o1, o2))
        self.stats["forks"] += 1
        raise Fork(key, [o1, o2])

    def decide_ord(self, st, a, b):
        """One of '<', '=', '>'."""
        for c in "<=>":
            if self.decide_rel(st, a, b, frozenset(c)):
                return c
        raise Infeasible("contradictory order")

    def truth(self, st, t):
        k = t.k
        if k == "bool":
            return t.a[0]
        if k == "int":
            return t.a[0] != 0
        if k == "noise":
            return self.nondet(st, [True, False])
        if k == "not":
            return not self.truth(st, t.a[0])
        if k == "and":
            return self.truth(st, t.a[0]) and self.truth(st, t.a[1])
        if k == "or":
            return self.truth(st, t.a[0]) or self.truth(st, t.a[1])
        if k == "xor":
            return self.truth(st, t.a[0]) != self.truth(st, t.a[1])
        if k == "cmp":
            return self.decide_rel(st, t.a[1], t.a[2], OPREL[t.a[0]])
        if k in SYMLIKE:
            return self.decide(st, ("val", t), [True, False])
        raise Undecided(f"truth of {t}")

    def variant(self, st, t):
        """The variant of an enum value, deciding it if necessary."""
        if t.k == "adt":
            return t.a[1]
        if t.k == "noise":
            raise Undecided("variant of noise")
        if t.k == "ord":
            return "<=>".index(self.decide_ord(st, t.a[0], t.a[1]))
        if t.k in SYMLIKE:
            ty = self.tyof(t)
            d = self.ty(ty)
            if d["k"] != "enum":
                raise Undecided(f"variant of {t}: {d['s']}")
            opts = [i for i, v in enumerate(d["variants"])
                    if all(self.inhabited_f(f[1]) for f in v["fields"])]
            h = self.assume.get("variant")
            if h is not None:
                r = h(self, st, t, opts)
                if r is not None:
                    opts = r
            return self.decide(st, ("var", t), opts)
        raise Undecided(f"variant of {t}")

    def is_some(self, st, t):
        return self.variant(st, t) == 1

    def enum_field(self, st, t, v, i=0):
        return self.proj1(st, t, ("f", v, i))

    # ---- constructors by type ----------------------------------------------------------------

    def some(self, ty, v):
        return mk("adt", ty, 1, (v,))

    def none(self, ty):
        return mk("adt", ty, 0, ())

    def ok(self, ty, v):
        return mk("adt", ty, 0, (v,))

    def err(self, ty, v):
        return mk("adt", ty, 1, (v,))

    # ---- operands and rvalues ----------------------------------------------------------------

    def const(self, st, fr, k):
        if "promoted" in k:
            i = k["promoted"]
            fid = mk("fr", None, "promoted", i)
            r = mk("loc", fid, 0)
            if r not in st.mem:
                outs = self.exec_inst(i, [], st.copy(), fid, (), pop=False)
                outs = [o for o in outs if o[0] == "ret"]
                if len(outs) != 1:
                    return NOISE
                st.mem.update(outs[0][2].mem)
            return st.mem[r]
        ty = k["ty"]
        t = self.ty(ty)
        kd = t["k"]
        if kd == "fndef":
            return mk("fn", ty)
        if "str" in k:
            return mk("ref", mk("cs", k["str"]), (), False)
        if "static" in k:
            return mk("ref", mk("static", k["static"]), (), False)
        if "adt" in k:
            return mk("adt", ty, k["adt"]["v"], tuple(self.constval(f) for f in k["adt"]["f"]))
        if "v" in k:
            if kd == "bool":
                return boolt(bool(k["v"]))
            if kd == "enum":
                for i, v in enumerate(t["variants"]):
                    if v["discr"] == k["v"] and not v["fields"]:
                        return mk("adt", ty, i, ())
            if kd == "prim":
                return mk("int", k["v"])
        if "mem" in k and kd == "ref":
            return mk("ref", mk("cs", raw_bytes(k)), (), False)
        if kd == "tuple" and not t["ts"]:
            return UNIT
        if kd == "closure" and not t["upvars"]:
            return mk("clo", ty, ())
        if kd == "struct" and k.get("zst"):
            return self.zst(ty)
        if kd == "enum" and len(t["variants"]) and k.get("s", "").rstrip(">").split("::")[-1] == "None":
            return mk("adt", ty, 0, ())
        return mk("op", "const", (k.get("uneval") or k.get("s", "?"),), ty)

    def constval(self, k):
        """A field of a constant."""
        ty = k["ty"]
        if "adt" in k:
            return mk("adt", ty, k["adt"]["v"], tuple(self.constval(f) for f in k["adt"]["f"]))
        if "v" in k and self.ty(ty)["k"] == "bool":
            return boolt(bool(k["v"]))
        if "v" in k and self.ty(ty)["k"] == "prim":
            return mk("int", k["v"])
        if "zst" in k:
            return self.zst(ty)
        return mk("op", "const", ("?",), ty)

    def zst(self, ty):
        t = self.ty(ty)
        if t["k"] == "struct":
            return mk("adt", ty, 0, tuple(self.zst(f[1]) for f in t["variants"][0]["fields"]))
        if t["k"] == "tuple":
            return mk("tup", tuple(self.zst(x) for x in t["ts"]))
        if t["k"] == "closure":
            return mk("clo", ty, ())
        if t["k"] == "fndef":
            return mk("fn", ty)
        return mk("op", "zst", (), ty)

    def operand(self, st, fr, o):
        if "c" in o:
            c, p, ty = self.place(st, fr, o["c"])
            v = self.read(st, c, p)
            return self.typed(v, ty)
        if "m" in o:
            c, p, ty = self.place(st, fr, o["m"])
            v = self.read(st, c, p)
            # moving out: the old place no longer owns anything
            if v.k not in ("int", "bool", "str", "fn", "ref", "noise", "moved", "cmp", "not", "discr"):
                if not (c.k == "deref" and not p):
                    try:
                        self.write(st, c, p, MOVED)
                    except Infeasible:
                        pass
            return self.typed(v, ty)
        if "rc" in o:
            return FALSE
        return self.const(st, fr, o["k"])

    def typed(self, v, ty):
        if v.k in SYMLIKE and v.a[-1] is None and ty is not None and not (v.k == "op" and v.a[0] == "typeid"):
            return mk(v.k, *v.a[:-1], ty)
        return v

    def inhabited(self, ty, deep=4):
        """Can there be a value of the type?"""
        t = self.ty(ty)
        if t["k"] == "never" or t.get("variants") == []:
            return False
        if t["k"] in ("enum", "struct") and deep and t.get("variants"):
            return any(all(self.inhabited(f, deep - 1) for f in self.fields(ty, n)) for n in range(len(t["variants"])))
        return not (t["k"] == "tuple" and deep) or all(self.inhabited(f, deep - 1) for f in t["ts"])

    def operand_ty(self, fr, o):
        p = o.get("c") or o.get("m")
        if p is None:
            return o["k"]["ty"] if "k" in o else None
        ty = fr.body["locals"][p[0]]
        for e in p[1:]:
            if e == "*":
                ty = self.pointee(ty)
            elif e[0] == "f":
                ty = e[2]
            elif e[0] in ("i", "ci"):
                ty = self.ty(ty).get("t") if ty is not None else None
        return ty

    def binop(self, st, op, a, b):
        if a.k == "discr":
            a = self.discr_int(st, a)
        if b.k == "discr":
            b = self.discr_int(st, b)
        if a is NOISE or b is NOISE:
            return tup(NOISE, FALSE) if op.endswith("WithOverflow") else NOISE
        if op in OPREL:
            if a.k == "bool" and b.k == "bool":
                x, y = a.a[0], b.a[0]
                return boolt({"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[op])
            for x, y in ((a, b), (b, a)):
                if y.k == "bool" and op in ("Eq", "Ne") and x.k != "bool":
                    return x if y.a[0] == (op == "Eq") else mk("not", x)
            if a.k in ("ref", "box", "arc") and b.k == a.k and op in ("Eq", "Ne"):
                same = a.a[0] is b.a[0] and a.a[1:2] == b.a[1:2]
                return boolt(same == (op == "Eq"))
            r = self.rel_get(st, a, b)
            if r <= OPREL[op]:
                return TRUE
            if not (r & OPREL[op]):
                return FALSE
            return mk("cmp", op, a, b)
        if op == "Cmp":
            return mk("ord", a, b, None)
        if op in ("BitAnd", "BitOr", "BitXor"):
            bl = lambda x: x.k in ("bool", "cmp", "not", "and", "or", "xor")
            if bl(a) or bl(b):
                nm = {"BitAnd": "and", "BitOr": "or", "BitXor": "xor"}[op]
                if a.k == "bool" and b.k == "bool":
                    return boolt({"and": a.a[0] and b.a[0], "or": a.a[0] or b.a[0], "xor": a.a[0] != b.a[0]}[nm])
                return mk(nm, a, b)
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        if a.k == "int" and b.k == "int":
            x, y = a.a[0], b.a[0]
            r = {"Add": lambda: x + y, "Sub": lambda: x - y, "Mul": lambda: x * y,
                 "Div": lambda: x // y if y else 0, "Rem": lambda: x % y if y else 0,
                 "BitAnd": lambda: x & y, "BitOr": lambda: x | y, "BitXor": lambda: x ^ y,
                 "Shl": lambda: x << y, "Shr": lambda: x >> y}.get(base)
            if r is not None:
                v = mk("int", r())
                return tup(v, FALSE) if op.endswith("WithOverflow") else v
        v = mk("op", base, (a, b), None)
        return tup(v, FALSE) if op.endswith("WithOverflow") else v

    def discr_int(self, st, d):
        t = d.a[0]
        v = self.variant(st, t)
        if t.k == "ord":
            return mk("int", v - 1)
        ty = self.tyof(t)
        return mk("int", self.ty(ty)["variants"][v]["discr"])

    def rvalue(self, st, fr, r, dty):
        k = r["r"]
        if k == "use":
            return self.operand(st, fr, r["o"])
        if k in ("ref", "reborrow"):
            c, p, _ = self.place(st, fr, r["p"])
            if not p and c.k == "deref" and not r.get("raw"):
                # &*sym is sym itself
                if self.ty(self.tyof(c.a[0]))["k"] == "ref" and c not in st.mem:
                    return c.a[0]
            return mk("ref", c, p, bool(r.get("mut")))
        if k == "discr":
            c, p, ty = self.place(st, fr, r["p"])
            v = self.typed(self.read(st, c, p), ty)
            if v.k == "adt":
                return mk("int", self.ty(v.a[0])["variants"][v.a[1]]["discr"])
            if v is NOISE:
                return NOISE
            if v.k == "ord":
                return mk("discr", v)
            if v.k in SYMLIKE:
                return mk("discr", v)
            if v is MOVED:
                # an enumeration with only one possible variant needs no value to be known
                vs = [n for n in range(len(self.ty(ty).get("variants") or ())) if all(self.inhabited(f) for f in self.fields(ty, n))]
                if len(vs) == 1:
                    return mk("int", self.ty(ty)["variants"][vs[0]]["discr"])
                raise Undecided("discriminant of a moved value")
            raise Undecided(f"discriminant of {v}")
        if k == "bin":
            return self.binop(st, r["op"], self.operand(st, fr, r["a"]), self.operand(st, fr, r["b"]))
        if k == "un":
            a = self.operand(st, fr, r["a"]) if "a" in r else self.operand(st, fr, r["o"])
            if a is NOISE:
                return NOISE
            if r["op"] == "Not":
                if a.k == "bool":
                    return boolt(not a.a[0])
                return mk("not", a)
            if r["op"] == "PtrMetadata":
                return self.models.seq_len(self, st, self.load(st, a), a)
            if a.k == "int":
                return mk("int", -a.a[0])
            return mk("op", r["op"], (a,), dty)
        if k == "cast":
            return self.cast(st, fr, r)
        if k == "tuple":
            return mk("tup", tuple(self.operand(st, fr, x) for x in r["fs"]))
        if k == "array":
            return mk("arr", tuple(self.operand(st, fr, x) for x in r["fs"]))
        if k == "adt":
            t = r["t"]
            h = self.head(t)
            fs = tuple(self.operand(st, fr, x) for x in r["fs"])
            if h in TRANSPARENT:
                return fs[0]
            if self.ty(t)["k"] == "union" or h in PSEUDO:
                return mk("adt", t, 0, fs[-1:])
            return mk("adt", t, r["v"], fs)
        if k == "closure":
            return mk("clo", r["t"], tuple(self.operand(st, fr, x) for x in r["fs"]))
        if k == "repeat":
            return mk("op", "repeat", (self.operand(st, fr, r["o"]),), dty)
        raise Undecided(f"rvalue {k}")

    def cast(self, st, fr, r):
        v = self.operand(st, fr, r["o"])
        kind = r["kind"]
        if "vt" in r and self.ty(r["vt"]["ty"])["k"] == "dyn":
            return v
        if "vt" in r and v.k in ("ref", "box", "arc") or ("vt" in r and v.k in SYMLIKE):
            try:
                c, p = self.deref(st, v)
                st.mem[mk("vt", c, p)] = mk("vtab", self.vt_id(r["vt"]))
            except Undecided:
                pass
            return v
        if kind.startswith("PointerCoercion") or kind in ("PtrToPtr", "Subtype") or "BoxDeref" in kind:
            return v
        if v.k == "int" and kind.startswith("Transmute") and self.head(r["ty"]) == "core::option::Option":
            return mk("adt", r["ty"], 1, (v,)) if v.a[0] else mk("adt", r["ty"], 0, ())
        if v is NOISE or v.k in ("int", "bool"):
            if v.k == "bool":
                return mk("int", int(v.a[0]))
            return v
        tt = self.ty(r["ty"])
        if v.k == "discr":
            return v
        if kind.startswith("Transmute"):
            if v.k in ("ref", "box", "arc", "fn"):
                return v
            if tt["k"] in ("ref", "ptr") or tt.get("box"):
                return v
            return v if v.k not in SYMLIKE else mk("op", "transmute", (v,), r["ty"])
        if kind == "IntToInt":
            return v
        return mk("op", "cast", (v,), r["ty"])

    def vt_id(self, vt):
        for i, x in enumerate(self.vts):
            if x is vt or x == vt:
                return i
        self.vts.append(vt)
        return len(self.vts) - 1

    # ---- bodies ------------------------------------------------------------------------------

    def body_info(self, i):
        inf = self.info.get(i)
        if inf is None:
            inf = self.info[i] = BodyInfo(self.P.insts[i]["body"])
        return inf

    def exec_inst(self, i, args, st, fid, stack, pop=True):
        x = self.P.insts[i]
        if not x or "body" not in x:
            raise Undecided(f"no body for {x and x['path']}")
        if len(stack) > 120:
            raise Undecided("call depth")
        self.stats["insts"].add(i)
        fr = Frame()
        fr.fid, fr.inst, fr.body = fid, i, x["body"]
        fr.info = self.body_info(i)
        fr.stack = stack + (i,)
        b = fr.body
        if len(args) != b["argc"]:
            raise Undecided(f"argument count of {x['path']}: {len(args)} for {b['argc']}")
        for n, a in enumerate(args):
            st.mem[mk("loc", fid, n + 1)] = a
        outs = []
        for o in self.region(fr, 0, st, None):
            if o[0] == "ret":
                s = o[2]
                v = s.mem.get(mk("loc", fid, 0), UNIT)
                v = self.typed(v, b["locals"][0])
                if pop:
                    self.pop(s, fr)
                outs.append(("ret", v, s))
            elif o[0] == "unwind":
                if pop:
                    self.pop(o[2], fr)
                outs.append(("unwind", None, o[2]))
            else:
                raise Undecided(f"body ended with {o[0]}")
        return self.dedupe(outs)

    def pop(self, s, fr):
        for n in range(len(fr.body["locals"])):
            s.mem.pop(mk("loc", fr.fid, n), None)

    def dedupe(self, outs):
        if len(outs) < 2:
            return outs
        seen = set()
        res = []
        for o in outs:
            k = (o[0], o[1], o[2].key())
            if k in seen:
                self.stats["merged"] += 1
                continue
            seen.add(k)
            res.append(o)
        return res

    def region(self, fr, start, st, loop):
        """Runs from block `start`; with `loop` (head, blocks) stops at the loop's edges.

        Outcomes: ('ret', _, st), ('unwind', _, st), ('goto', block, st)."""
        order = fr.info.order
        pending = {}
        outs = []

        def push(b, s, first=False):
            if loop is not None and not first:
                if b == loop[0] or b not in loop[1]:
                    outs.append(("goto", b, s))
                    return
            d = pending.setdefault(b, {})
            k = s.key()
            if k in d:
                self.stats["merged"] += 1
            else:
                d[k] = s
        push(start, st, True)
        first = True
        while pending:
            b = min(pending, key=lambda x: order[x])
            states = list(pending.pop(b).values())
            for s in states:
                self.stats["states"] += 1
                if self.stats["states"] > self.max_states:
                    raise Undecided("too many states")
                lp = fr.info.loops.get(b)
                if lp is not None and not (loop is not None and b == loop[0] and first):
                    for o in self.loop(fr, b, lp, s):
                        if o[0] == "goto":
                            push(o[1], o[2])
                        else:
                            outs.append(o)
                    continue
                for o in self.block(fr, b, s):
                    if o[0] == "goto":
                        push(o[1], o[2])
                    else:
                        outs.append(o)
            first = False
        return outs

    def block(self, fr, b, st):
        stmts, term, _ = fr.body["blocks"][b]
        work = [(st, 0)]
        outs = []
        while work:
            s, n = work.pop()
            try:
                while n < len(stmts):
                    self.stmt(s, fr, stmts[n])
                    self.clear_nz(s)
                    n += 1
                for o in self.term(s.copy() if term["t"] in ("call", "switch", "drop") else s, fr, b, term):
                    self.clear_nz(o[2])
                    outs.append(o)
            except Fork as f:
                for o in f.options:
                    s2 = s.copy()
                    s2.facts[f.key] = o
                    s2.nz = 0
                    work.append((s2, n))
            except Infeasible:
                pass
        return outs

    def clear_nz(self, s):
        if s.nz or any(k[0] == "nz" for k in s.facts):
            s.nz = 0
            for k in [k for k in s.facts if k[0] == "nz"]:
                del s.facts[k]

    def stmt(self, st, fr, x):
        k = x[0]
        if k == "=":
            p = x[1]
            saved = None
            if x[2]["r"] not in ("ref", "reborrow"):
                saved = dict(st.mem)
            try:
                v = self.rvalue(st, fr, x[2], fr.body["locals"][p[0]] if len(p) == 1 else None)
                c, pr, ty = self.place(st, fr, p)
                v = self.typed(v, ty)
                self.put(st, c, pr, v)
            except Fork:
                if saved is not None:
                    st.mem = saved
                raise
        elif k == "dead":
            st.mem.pop(mk("loc", fr.fid, x[1]), None)
        elif k == "sd":
            c, pr, ty = self.place(st, fr, x[1])
            v = self.read(st, c, pr)
            if v.k == "adt" and v.a[1] == x[2]:
                return
            n = len(self.fields(ty, x[2]))
            fs = [MOVED] * n
            if v.k == "tup":
                for i, f in enumerate(v.a[0]):
                    fs[i] = f
            self.write(st, c, pr, mk("adt", ty, x[2], tuple(fs)))
        elif k == "assume":
            if not self.truth(st, self.operand(st, fr, x[1])):
                raise Infeasible("assume")
        else:
            raise Undecided(f"statement {k}")

    def term(self, st, fr, b, t):
        k = t["t"]
        if is_repo(self.P.insts[fr.inst]["crate"]) and "sp" in t:
            CUR[0] = (self.P.insts[fr.inst]["path"], t["sp"])
        if k == "goto":
            return [("goto", t["b"], st)]
        if k == "return":
            return [("ret", None, st)]
        if k == "resume":
            return [("unwind", None, st)]
        if k == "unreachable":
            return []
        if k == "abort":
            st.event(mk("abort"))
            return []
        if k == "switch":
            return self.switch(st, fr, t)
        if k == "assert":
            if t["m"].startswith(("MisalignedPointer", "NullPointer", "InvalidEnum")):
                return [("goto", t["b"], st)]
            c = self.operand(st, fr, t["o"])
            if self.truth(st, c) == t["e"]:
                return [("goto", t["b"], st)]
            st.event(mk("panic", "assert: " + t["m"].split(" {")[0].split("(")[0], self.where(fr)))
            return self.unwind_to(st, t["u"])
        if k == "drop":
            outs = []
            c, p, ty = self.place(st, fr, t["p"])
            ty = t["ty"] if ty is None else ty
            v = self.typed(self.read(st, c, p), ty)
            for o in self.drop(st, fr, b, v, ty, c, p):
                if o[0] == "ret":
                    s = o[2]
                    try:
                        self.write(s, c, p, MOVED)
                    except (Undecided, Infeasible):
                        pass
                    outs.append(("goto", t["b"], s))
                else:
                    outs += self.unwind_to(o[2], t["u"])
            return outs
        if k == "call":
            return self.call_term(st, fr, b, t)
        raise Undecided(f"terminator {k}")

    def where(self, fr):
        return self.P.insts[fr.inst]["path"]

    def unwind_to(self, st, u):
        if u == "unreachable":
            return []
        if u == "terminate":
            st.event(mk("abort"))
            return []
        st.unwinding = True
        if u == "continue":
            return [("unwind", None, st)]
        return [("goto", u, st)]

    def switch(self, st, fr, t):
        v = self.operand(st, fr, t["o"])
        ts = t["ts"]
        if v is NOISE:
            ds = {b for _, b in ts} | {t["else"]}
            return [("goto", b, st.copy()) for b in sorted(ds)]
        if v.k == "discr":
            v = self.discr_int(st, v)
        if v.k == "int":
            n = v.a[0]
        elif v.k == "bool":
            n = int(v.a[0])
        elif self.ty(t["ty"])["k"] == "bool":
            n = int(self.truth(st, v))
        else:
            for n, b in ts:
                if self.decide_rel(st, v, mk("int", n), OPREL["Eq"]):
                    return [("goto", b, st)]
            return [("goto", t["else"], st)]
        for x, b in ts:
            if x == n:
                return [("goto", b, st)]
        return [("goto", t["else"], st)]

    # ---- drop --------------------------------------------------------------------------------

    def drop(self, st, fr, b, v, ty, c=None, p=None, depth=0):
        """Drops a value: releases guards and runs destructors of the analysed crates."""
        if depth > 12:
            return [("ret", None, st)]
        if ty is not None and self.head(ty) in ("core::mem::manually_drop::ManuallyDrop", "core::mem::maybe_uninit::MaybeUninit"):
            return [("ret", None, st)]
        k = v.k
        if k == "guard":
            self.models.release(self, st, v)
            return [("ret", None, st)]
        if k in ("int", "bool", "str", "fn", "ref", "noise", "moved", "ord", "unset", "map", "iter"):
            return [("ret", None, st)]
        if k in ("adt", "tup", "clo", "arr", "set") or k in SYMLIKE:
            vty = self.tyof(v)
            if vty is None:
                vty = ty
            t = self.ty(vty) if vty is not None else {"k": "?"}
            outs = [("ret", None, st)]
            dt = t.get("dtor")
            if dt and dt[1] is not None:
                if c is None:
                    c, p = self.alloc(st, fr.fid, ("drop", b, depth), v), ()
                outs = self.exec_inst(dt[1], [mk("ref", c, p, True)], st, mk("fr", fr.fid, ("drop", b, depth), dt[1]), fr.stack)
                outs = [(o[0], None, o[2]) for o in outs]
            if k in SYMLIKE:
                if t.get("k") == "alias":
                    for o in outs:
                        o[2].event(mk("drop", v))
                return outs
            fs = {"adt": lambda: v.a[2], "tup": lambda: v.a[0], "clo": lambda: v.a[1],
                  "arr": lambda: v.a[0], "set": lambda: (v.a[0],)}[k]()
            fts = None
            try:
                if k == "adt":
                    fts = self.fields(vty, v.a[1])
                elif k in ("tup", "clo") and vty is not None:
                    fts = self.fields(vty, 0)
            except Undecided:
                pass
            for i, f in enumerate(fs):
                if f.k in ("int", "bool", "str", "fn", "ref", "noise", "moved"):
                    continue
                nx = []
                for o in outs:
                    if o[0] != "ret":
                        nx.append(o)
                        continue
                    fc, fp = (c, p + (("f", v.a[1] if k == "adt" else 0, i),)) if c is not None and p is not None else (None, None)
                    nx += self.drop(o[2], fr, b, f, fts[i] if fts and i < len(fts) else None, fc, fp, depth + 1)
                outs = nx
            return outs
        if k == "box":
            inner = st.mem.get(v.a[0])
            if inner is None:
                return [("ret", None, st)]
            cty = st.mem.get(mk("cty", v.a[0]))
            return self.drop(st, fr, b, inner, cty.a[0] if cty is not None else None, v.a[0], (), depth + 1)
        if k == "seq":
            outs = [("ret", None, st)]
            for s in v.a[0]:
                if s.k == "e" and s.a[0].k in ("adt", "tup", "guard", "box"):
                    nx = []
                    for o in outs:
                        nx += self.drop(o[2], fr, b, s.a[0], None, None, None, depth + 1) if o[0] == "ret" else [o]
                    outs = nx
            return outs
        return [("ret", None, st)]

    # ---- calls -------------------------------------------------------------------------------

    def call_term(self, st, fr, b, t):
        self.stats["calls"] += 1
        args = [self.operand(st, fr, a) for a in t["a"]]
        atys = [self.operand_ty(fr, a) for a in t["a"]]
        if "f" in t:
            callee = self.types[t["f"]]["callee"]
            gen = lambda s: self.call_fn(s, callee, args, atys, t["dty"], fr, ("c", b))
        else:
            fv = self.operand(st, fr, t["fo"])
            gen = lambda s: self.call_value(s, fv, args, atys, t["dty"], fr, ("c", b))
        outs = []
        for o in self.forking(st, gen):
            if o[0] == "ret":
                s = o[2]
                if t["b"] is None:
                    continue
                try:
                    c, p, ty = self.place(s, fr, t["d"])
                    self.write(s, c, p, self.typed(o[1], t["dty"]))
                except Infeasible:
                    continue
                outs.append(("goto", t["b"], s))
            else:
                outs += self.unwind_to(o[2], t["u"])
        return outs

    def forking(self, st, gen):
        work = [st]
        outs = []
        while work:
            s = work.pop()
            try:
                outs += gen(s.copy())
            except Fork as f:
                for o in f.options:
                    s2 = s.copy()
                    s2.facts[f.key] = o
                    s2.nz = 0
                    work.append(s2)
            except Infeasible:
                pass
        for o in outs:
            self.clear_nz(o[2])
        return self.dedupe(outs)

    def call_value(self, st, fv, args, atys, retty, fr, tag):
        if fv.k == "fn":
            return self.call_fn(st, self.types[fv.a[0]]["callee"], args, atys, retty, fr, tag)
        if fv.k == "clo":
            i = self.types[fv.a[0]]["inst"]
            return self.call_closure(st, i, fv, args, fr, tag)
        if fv.k in ("ref", "box"):
            c, p = self.deref(st, fv)
            v = self.read(st, c, p)
            if v.k == "clo":
                return self.call_closure(st, self.types[v.a[0]]["inst"], fv, args, fr, tag)
            return self.call_value(st, v, args, atys, retty, fr, tag)
        return self.client(st, "fn " + show(fv), args, atys, retty)

    def call_closure(self, st, i, env, args, fr, tag):
        x = self.P.insts[i]
        if not x or "body" not in x:
            raise Undecided("closure without body")
        b = x["body"]
        byref = self.ty(b["locals"][1])["k"] == "ref"
        if byref and env.k == "clo":
            env = mk("ref", self.alloc(st, fr.fid, ("env",) + tag, env), (), True)
        elif not byref and env.k in ("ref", "box"):
            env = self.load(st, env)
        return self.exec_inst(i, [env] + list(args), st, mk("fr", fr.fid, tag, i), fr.stack)

    def inlinable(self, i):
        x = self.P.insts[i]
        if not x or "body" not in x:
            return False
        if is_repo(x["crate"]):
            return True
        p = x["path"].lstrip("<&").replace("mut ", "")
        if p.startswith(INLINE):
            return True
        if " as " in p:
            return p.split(" as ", 1)[1].startswith(INLINE)
        return False

    def call_fn(self, st, c, args, atys, retty, fr, tag):
        if "ctor" in c:
            ty, v = c["ctor"]
            return [("ret", mk("adt", ty, v, tuple(args)), st)]
        if self.pure and c["def"] in self.pure and c.get("kind") == "unresolved":
            return [("ret", mk("op", self.pure[c["def"]], (self.load(st, args[0]),), retty), st)]
        if self.opaque:
            d = strip_generics(c.get("rdef") or c["def"])
            if d in self.opaque:
                return self.client(st, "op " + self.opaque[d], args, atys, retty)
        h = self.models.lookup(self, c)
        if h is not None:
            r = h(Call(self, st, c, args, atys, retty, fr, tag))
            if r is not None:
                return r if isinstance(r, list) else [("ret", r, st)]
        crate = c.get("rcrate") or c["crate"]
        if crate in NOISE_CRATES:
            return [("ret", self.noise_of(retty), st)]
        kind = c.get("kind")
        # rust-call: the arguments come as one tuple
        if c.get("trait", "").startswith("core::ops::function::Fn") and len(args) == 2:
            return self.call_fntrait(st, c, args, atys, retty, fr, tag)
        selfty = c["args"][0] if c.get("args") and "trait" in c else None
        if selfty is not None and (self.ty(selfty)["k"] == "dyn" or kind == "virtual"):
            return self.call_virtual(st, c, args, atys, retty, fr, tag)
        n = None
        if c.get("shim") is not None:
            n = c["shim"]
        elif c.get("default") is not None and c["def"].startswith("core::iter"):
            n = c["default"]
            if c.get("inst") is not None and c.get("rdef", "").lstrip("<").startswith(ADAPTORS) and not self.plain_iter(st, args):
                n = c["inst"]
        elif c.get("inst") is not None:
            n = c["inst"]
        elif kind == "unresolved" and c.get("default") is not None:
            n = c["default"]
        if kind == "clone_shim":
            return [("ret", self.load(st, args[0]), st)]
        if n is not None and self.inlinable(n):
            if n in fr.stack and is_repo(self.P.insts[n]["crate"]):
                return self.recursive(st, n, args, atys, retty)
            return self.exec_inst(n, args, st, mk("fr", fr.fid, tag, n), fr.stack)
        if kind == "unresolved":
            if c["def"].startswith(SPECIALIZED):
                return self.external(st, c, args, atys, retty)
            return self.client(st, (c["def"], self.ty(selfty)["s"] if selfty is not None else ""), args, atys, retty)
        return self.external(st, c, args, atys, retty)

    def noise_of(self, retty):
        if retty is None:
            return NOISE
        t = self.ty(retty)
        if t["k"] == "tuple" and not t["ts"]:
            return UNIT
        return NOISE

    def call_fntrait(self, st, c, args, atys, retty, fr, tag):
        f = args[0]
        tu = args[1]
        if tu.k == "tup":
            rest = list(tu.a[0])
        else:
            n = len(self.fields(self.tyof(tu) if self.tyof(tu) is not None else atys[1], 0))
            rest = [self.proj1(st, tu, ("f", 0, i)) for i in range(n)]
        rtys = None
        tt = self.ty(atys[1]) if len(atys) > 1 and atys[1] is not None else None
        rtys = tt["ts"] if tt and tt["k"] == "tuple" else [None] * len(rest)
        if c.get("inst") is not None and self.P.insts[c["inst"]] and self.P.insts[c["inst"]].get("closure"):
            return self.call_closure(st, c["inst"], f, rest, fr, tag)
        if c.get("inst") is not None and self.inlinable(c["inst"]):
            return self.exec_inst(c["inst"], args, st, mk("fr", fr.fid, tag, c["inst"]), fr.stack)
        v = f
        if f.k in ("ref", "box"):
            try:
                v = self.load(st, f)
            except Undecided:
                v = f
        if v.k in ("fn", "clo"):
            return self.call_value(st, f if v.k == "clo" else v, rest, rtys, retty, fr, tag)
        if v.k == "noise":
            return [("ret", self.noise_of(retty), st)]
        name = self.ty(c["args"][0])["s"] if c["args"] and c["args"][0] is not None else "?"
        return self.client(st, ("call", name), [f] + rest, [atys[0]] + list(rtys), retty, fnval=v)

    def call_virtual(self, st, c, args, atys, retty, fr, tag):
        try:
            cell, p = self.deref(st, args[0])
            vt = st.mem.get(mk("vt", cell, p))
        except Undecided:
            vt = None
        if vt is not None:
            for name, m in self.vts[vt.a[0]]["methods"]:
                if name == c["def"]:
                    return self.call_fn(st, m, args, atys, retty, fr, tag)
        return self.client(st, (c["def"], "dyn"), args, atys, retty)

    def recursive(self, st, n, args, atys, retty):
        path = self.P.insts[n]["path"]
        deep = tuple(self.deep(st, a) for a in args)
        idx = st.count(("rec", path))
        self.__dict__.setdefault("rec_seen", set()).add(path)
        res = mk("op", "rec", (path, tuple(args), deep, idx), retty)
        st.event(mk("rec", path, tuple(args), deep, res))
        for a, ty in zip(args, atys):
            self.havoc_mut(st, a, ty, ("rec", idx))
        return [("ret", res, st)]

    # ---- opaque code -------------------------------------------------------------------------

    def deep(self, st, t, seen=(), d=0):
        """The value with everything it points to, as one term."""
        k = t.k
        if d > 20:
            return t
        if k in ("ref", "box", "arc"):
            c, p = self.deref(st, t)
            key = (c, p)
            if key in seen:
                return mk("cyc", c)
            try:
                v = self.read(st, c, p)
            except (Undecided, Infeasible):
                return t
            return mk("pt", k, t, self.deep(st, v, seen + (key,), d + 1))
        if k == "adt":
            return mk("adt", t.a[0], t.a[1], tuple(self.deep(st, x, seen, d + 1) for x in t.a[2]))
        if k == "clo":
            return mk("clo", t.a[0], tuple(self.deep(st, x, seen, d + 1) for x in t.a[1]))
        if k in ("tup", "arr"):
            return mk(k, tuple(self.deep(st, x, seen, d + 1) for x in t.a[0]))
        if k == "set":
            return mk("set", self.deep(st, t.a[0], seen, d + 1))
        if k in SYMLIKE and t.a[-1] is not None and self.ty(t.a[-1])["k"] == "ref" or (k in SYMLIKE and t.a[-1] is not None and self.ty(t.a[-1]).get("def", "").endswith(("::Arc", "::Box"))):
            c = mk("deref", t)
            if (c, ()) in seen:
                return t
            if c in st.mem:
                return mk("pt", "ref", t, self.deep(st, st.mem[c], seen + ((c, ()),), d + 1))
            if self.ty(t.a[-1])["k"] == "ref":
                try:
                    v = self.read(st, c, ())
                except (Undecided, Infeasible):
                    return t
                return mk("pt", "ref", t, v)
        return t

    def reach(self, st, t, out, seen):
        stack = [t]
        while stack:
            x = stack.pop()
            if isinstance(x, tuple):
                stack.extend(x)
                continue
            if not isinstance(x, T) or x.id in seen:
                continue
            seen.add(x.id)
            if x.k in ("ref", "box", "arc"):
                out.add((x.k, x.a[0]))
                v = st.mem.get(x.a[0])
                if v is not None:
                    stack.append(v)
                if x.k == "ref":
                    stack.append(x.a[1])
                continue
            if x.k in SYMLIKE:
                c = mk("deref", x)
                if c in st.mem:
                    out.add(("ref", c))
                    stack.append(st.mem[c])
                continue
            if x.k == "guard":
                continue
            stack.extend(x.a)

    def plain_iter(self, st, args):
        """An adaptor known by the elements it hands out: its own functions do not apply."""
        if not args:
            return False
        v = args[0]
        if v.k == "ref":
            v = self.read(st, v.a[0], v.a[1])
        return v.k in ("iter", "zip")

    def client(self, st, what, args, atys, retty, fnval=None, unwinds=None, havoc=True):
        """Code the crates do not control: it may return anything, or unwind."""
        name = " ".join(what) if isinstance(what, tuple) else what
        self.stats["client"].add(name)
        idx = st.count(("client", name))
        deep = tuple(self.deep(st, a) for a in args)
        res = mk("op", "ret", (name, tuple(args), idx), retty)
        if retty is not None:
            t = self.ty(retty)
            if t["k"] == "tuple" and not t["ts"]:
                res = UNIT
        st.event(mk("client", name, tuple(args), deep, res, st.locks, idx))
        if havoc:
            self.havoc(st, args, atys, (name, idx))
        outs = [("ret", res, st)]
        if unwinds is None:
            unwinds = True
        if unwinds:
            s2 = st.copy()
            s2.event(mk("unwind", name, idx))
            s2.unwinding = True
            outs.append(("unwind", None, s2))
        return outs

    def havoc(self, st, args, atys, tag):
        st.epoch += 1
        cells = set()
        seen = set()
        for a in args:
            self.reach(st, a, cells, seen)
        for c in st.mem:
            # what is reachable from everywhere
            if c.k == "static" or c.k == "deref" and c.a[0].k == "op" and c.a[0].a[0] == "tls":
                cells.add(("static", c))
        for c in st.escaped:
            cells.add(("arc", c))
            if c in st.mem:
                self.reach(st, st.mem[c], cells, seen)
        st.escaped = st.escaped | {c for k, c in cells if k == "arc"}
        held = {(l.a[1], l.a[2]) for l in st.locks}
        for k, c in sorted(cells, key=lambda x: x[1].id):
            if c in st.mem:
                st.mem[c] = self.havoc_locks(st, st.mem[c], c, (), held, tag)
        for a, ty in zip(args, atys):
            self.havoc_mut(st, a, ty, tag)

    def havoc_locks(self, st, v, cell, proj, held, tag):
        """Lock-protected contents that are not held may have been changed."""
        if v.k == "adt":
            h = self.head(v.a[0])
            if h in ("std::sync::poison::rwlock::RwLock", "std::sync::poison::mutex::Mutex", "core::cell::RefCell", "core::cell::Cell"):
                if (cell, proj) in held:
                    return v
                content = v.a[2][0]
                st.poison = st.poison - {("clean", cell, proj)}
                cty = self.ty(v.a[0])["args"][0]
                return mk("adt", v.a[0], 0, (mk("op", "havoc", (mk("lockat", cell, proj), tag, content), cty),))
            return mk("adt", v.a[0], v.a[1], tuple(
                self.havoc_locks(st, x, cell, proj + (("f", v.a[1], i),), held, tag) for i, x in enumerate(v.a[2])))
        if v.k in ("tup",):
            return mk("tup", tuple(self.havoc_locks(st, x, cell, proj + (("f", 0, i),), held, tag) for i, x in enumerate(v.a[0])))
        return v

    def havoc_mut(self, st, a, ty, tag):
        if a.k == "ref" and a.a[2]:
            c, p = self.deref(st, a)
            try:
                old = self.read(st, c, p)
                if old.k in ("guard",):
                    return
                pty = self.tyof(old)
                if pty is None and ty is not None:
                    pty = self.pointee(ty)
                self.write(st, c, p, mk("op", "changed", (old, tag), pty))
            except (Undecided, Infeasible):
                pass
        elif a.k in SYMLIKE and ty is not None and self.ty(ty)["k"] == "ref" and self.ty(ty)["mut"]:
            old = self.load(st, a)
            self.store(st, a, mk("op", "changed", (old, tag), self.pointee(ty)))
        elif a.k in ("tup", "arr"):
            tt = self.ty(ty) if ty is not None else None
            for i, x in enumerate(a.a[0]):
                self.havoc_mut(st, x, tt["ts"][i] if tt and tt["k"] == "tuple" else None, tag)
        elif a.k == "clo":
            for x in a.a[1]:
                self.havoc_mut(st, x, None, tag)

    def external(self, st, c, args, atys, retty):
        """A library function without a model."""
        name = c.get("rdef") or c["def"]
        self.stats["ext"].add(name)
        idx = st.count(("ext", name))
        deep = tuple(self.deep(st, a) for a in args)
        res = mk("op", "ext", (name, deep, idx), retty)
        st.event(mk("ext", name, tuple(args), deep, res))
        for a, ty in zip(args, atys):
            self.havoc_mut(st, a, ty, (name, idx))
        return [("ret", res, st)]

    # ---- loops -------------------------------------------------------------------------------

    def loop(self, fr, head, blocks, s0, depth=0):
        self.stats["loops"] += 1
        if depth > 64:
            raise Undecided("loop unrolling")
        outs = self.region(fr, head, s0.copy(), (head, blocks))
        back = [o[2] for o in outs if o[0] == "goto" and o[1] == head]
        rest = [o for o in outs if not (o[0] == "goto" and o[1] == head)]
        if not back:
            return rest
        sym = any(s.sn > s0.sn for s in back)
        conc = all(s.cn > s0.cn for s in back)
        nofork = len(back) == 1 and not rest and back[0].facts == s0.facts
        if not sym and (conc or nofork):
            for s in back:
                rest += self.loop(fr, head, blocks, s, depth + 1)
            return rest
        # generalise
        lid = mk("lp", fr.fid, head, s0.count(("lp", fr.fid, head)))
        w = Widen(self, lid)
        star = s0
        for rnd in range(8):
            new = star
            w.first = rnd == 0
            for s in back:
                new = w.join(new, s)
            changed = new.key() != star.key()
            star = new
            if not changed and rnd:
                break
            outs = self.region(fr, head, star.copy(), (head, blocks))
            back = [o[2] for o in outs if o[0] == "goto" and o[1] == head]
            rest = [o for o in outs if not (o[0] == "goto" and o[1] == head)]
        else:
            raise Undecided("loop does not stabilise in " + self.where(fr))
        ctrs, rest = self.counted(w, s0, star, back, rest)
        cases = []
        for s in back:
            cases.append(self.case(w, star, s, ctrs))
        res = []
        seen = set()
        uniq = []
        for c in cases:
            if c not in seen:
                seen.add(c)
                uniq.append(c)
        ev = mk("loop", lid, tuple(uniq), self.counted_starts(w.starts(s0, star), ctrs), self.where(fr)) if uniq else None
        cp = self.copyloop(lid, ev) if ev is not None else None
        for o in rest:
            s = o[2]
            if cp is not None and s.facts.get(("more", cp[0], lid, 0)) is False:
                delta = s.events(star.trace)
                s.trace = star.trace
                for x in cp[3]:
                    s.event(x)
                for d in delta:
                    s.event(d)
                del s.facts[("more", cp[0], lid, 0)]
                for c, v in list(s.mem.items()):
                    n = self.splice(v, cp)
                    if n is not v:
                        s.mem[c] = n
                if o[1] is not None and isinstance(o[1], T):
                    o = (o[0], self.splice(o[1], cp), s)
                res.append(o)
                continue
            delta = s.events(star.trace)
            if ev is not None:
                s.trace = mk("tr", star.trace, ev)
                for d in delta:
                    s.event(d)
            res.append(o)
        return res

    def counted(self, w, s0, star, back, rest):
        """Loops that count through the positions of a sequence, as loops through its elements.

        A number that starts at 0, grows by one in every iteration and stays below the length of S
        (or starts at the length, shrinks by one and stays above 0): S[i] is the next element.
        Rewrites the states in place; ({number: (S, direction, element type, whether it is used otherwise)}, rest)."""
        lid = w.lid
        cand = {}
        for x in w.starts(s0, star):
            if x.k == "init" and x.a[0].k == "phi":
                v = x.a[1]
                if v.k == "int" and v.a[0] == 0:
                    cand[untyped(x.a[0])] = ("f", None)
                elif lenof(v) is not None:
                    cand[untyped(x.a[0])] = ("b", lenof(v))
        if not cand:
            return {}, rest
        for s in back:
            upd = []
            for c, v in star.mem.items():
                n = s.mem.get(c)
                if n is not None and n is not v:
                    w.updates(v, n, upd)
            new = {}
            for u in upd:
                if u.k == "upd":
                    new.setdefault(untyped(u.a[0]), set()).add(u.a[1])
            for x in list(cand):
                op = "Add" if cand[x][0] == "f" else "Sub"
                if not (len(new.get(x, ())) == 1 and all(n.k == "op" and n.a[0].startswith(op) and untyped(n.a[1][0]) is x and n.a[1][1] is mk("int", 1)
                                                        for n in new[x])):
                    del cand[x]
        out = {}
        zero = mk("int", 0)
        for x, (d, S0) in cand.items():
            Ss = None
            for s in back:
                here = set()
                for k, v in s.facts.items():
                    if k[0] != "rel" or x not in untyped(k[1:]):
                        continue
                    o, y = (k[2], k[1]) if untyped(k[1]) is x else (k[1], k[2])
                    r = self.rel_get(s, o, y)
                    if d == "f" and lenof(o) is not None and "=" not in r:
                        here.add(lenof(o))
                    elif d == "b" and o is zero and "=" not in r:
                        here.add(S0)
                Ss = here if Ss is None else Ss & here
            for S in sorted(Ss or (), key=lambda t: t.id):
                if any(y.k in ("phi", "acc", "mapacc") and y.a[0] is lid for y in subterms(S)):
                    continue
                if any(n == x for n in out):
                    break
                out[x] = (S, d)
        if not out:
            return {}, rest
        res = {}
        for x, (S, d) in out.items():
            at = x if d == "f" else None
            self.counters[x] = (S, lid, d)
            ety = self.elemty(S)
            states = back + [o[2] for o in rest]
            ix = set()
            for s in states:
                for y in self.state_terms(s, star):
                    if y.k == "op" and y.a[0] == "index" and untyped_eq(catof(y.a[1][0]), S):
                        i = y.a[1][1]
                        if untyped(i) is x if d == "f" else (i.k == "op" and i.a[0].startswith("Sub") and untyped(i.a[1][0]) is x and i.a[1][1] is mk("int", 1)):
                            ix.add(y)
                            if y.a[2] is not None:
                                ety = y.a[2]
            pos = x if d == "f" else mk("op", "Sub", (x, mk("int", 1)), None)
            el = mk("elt", S, (lid, 0), ety)
            m = {untyped(y): mk("elt", S, (lid, 0), y.a[2] if y.a[2] is not None else ety) for y in ix}
            ln = mk("op", "len", (S,), None) if S.k != "op" or S.a[0] != "cat" else mk("op", "seqlen", S.a[1], None)
            keep = []
            dead = set()
            for s in states:
                facts = {}
                more = None
                for k, v in s.facts.items():
                    if k[0] == "rel" and x in untyped(k[1:]):
                        o, y = (k[2], k[1]) if untyped(k[1]) is x else (k[1], k[2])
                        r = self.rel_get(s, o, y)
                        if d == "f" and lenof(o) is not None and untyped_eq(lenof(o), S):
                            r = r & frozenset("=>")
                            if not r:
                                dead.add(id(s))
                            if r == frozenset("=") or r == frozenset(">"):
                                more = r == frozenset(">")
                                continue
                        if d == "b" and o is zero:
                            r = r & frozenset("<=")
                            if not r:
                                dead.add(id(s))
                            if r == frozenset("=") or r == frozenset("<"):
                                more = r == frozenset("<")
                                continue
                    if d == "b" and k[0] == "rel" and any(y.k == "op" and y.a[0].startswith("Sub") and untyped(y.a[1][0]) is x for y in k[1:]):
                        o = k[2] if k[1].k == "op" and k[1].a[0].startswith("Sub") else k[1]
                        y = k[1] if o is k[2] else k[2]
                        if lenof(o) is not None and untyped_eq(lenof(o), S):
                            if ">" not in self.rel_get(s, o, y):
                                dead.add(id(s))
                            continue
                    facts[k] = v
                if more is not None:
                    facts[("more", S, lid, 0)] = more
                s.facts = facts
                mm = dict(m)
                if more is False:
                    mm[x] = ln if d == "f" else zero
                self.rewrite(s, star, mm, (pos, el))
            rest = [o if not isinstance(o[1], T) else (o[0], self.rewritten(o[1], m, (pos, el)), o[2]) for o in rest if id(o[2]) not in dead]
            back[:] = [s for s in back if id(s) not in dead]
            used = False
            for s in back:
                for y in subterms(tuple(s.events(star.trace))):
                    used = used or y.k == "phi" and untyped(y) is x
                for k in s.facts:
                    if any(y.k == "phi" and untyped(y) is x for y in subterms(k)):
                        used = True
                for c, v in star.mem.items():
                    n = s.mem.get(c)
                    if n is not None and n is not v and n.k != "op" and uses(n, x) and not uses(v, x):
                        used = True
            for o in rest:
                if o[2].facts.get(("more", S, lid, 0)) is not False and uses(tuple(o[2].events(star.trace)), x):
                    used = True
            res[x] = (S, d, ety, used)
        return res, rest

    def state_terms(self, s, star):
        seen = set()
        for c, v in s.mem.items():
            if star.mem.get(c) is not v:
                yield from subterms((c, v), seen)
        for k in s.facts:
            yield from subterms(k, seen)
        yield from subterms(tuple(s.events(star.trace)), seen)

    def rewritten(self, t, m, at):
        """Substitutes m, and the position at[0] in places by the element at[1]."""
        memo = {}

        def go(t):
            if isinstance(t, tuple):
                if len(t) == 2 and t[0] == "ix" and isinstance(t[1], T) and (t[1] is at[0] or untyped_eq(t[1], at[0])):
                    return ("at", at[1])
                return tuple(go(x) for x in t)
            if isinstance(t, frozenset) or not isinstance(t, T):
                return t
            r = memo.get(t)
            if r is None:
                r = m.get(untyped(t)) if t.k in ("phi", "op") else None
                if r is None:
                    a = tuple(go(x) if isinstance(x, (T, tuple)) else x for x in t.a)
                    r = t if a == t.a else mk(t.k, *a)
                memo[t] = r
            return r
        return go(t)

    def rewrite(self, s, star, m, at):
        s.mem = {self.rewritten(c, m, at): self.rewritten(v, m, at) for c, v in s.mem.items()}
        s.facts = {self.rewritten(k, m, at): v for k, v in s.facts.items()}
        delta = s.events(star.trace)
        s.trace = star.trace
        for d in delta:
            n = self.rewritten(d, m, at)
            if n is not d:
                SITES.setdefault(n, set()).update(SITES.get(d, ()))
            s.trace = mk("tr", s.trace, n)

    def counted_starts(self, starts, ctrs):
        out = []
        for x in starts:
            c = ctrs.get(untyped(x.a[0])) if x.k == "init" else None
            if c is not None:
                out.append(mk("from", c[0], c[1], mk("s", c[0], c[2])))
                if not c[3]:
                    continue
            out.append(x)
        return tuple(sorted(set(out), key=lambda t: t.id))

    def copyloop(self, lid, ev):
        """Recognises a loop that appends every element of a sequence, in order, to another one.

        (S, widened term, what it stands for, events) or None."""
        if len(ev.a[1]) != 1:
            return None
        c = ev.a[1][0]
        took = [u for u in c.a[2] if u.k == "took"]
        upd = [u for u in c.a[2] if u.k == "upd"]
        if len(took) != 1 or len(upd) != 1 or took[0].a[1] not in ("f", "b") or took[0].a[2] != 1:
            return None
        S = took[0].a[0]
        if [k for k, v in c.a[0]] != [("more", S, lid, 0)]:
            return None
        X, n = upd[0].a
        if n.k != "seq":
            return None
        segs = list(n.a[0])
        front = X.k == "acc" and X.a[1].k == "p" and X.a[1].a[-1] == "front"
        if segs and segs[0].k == "s" and segs[0].a[0] is X:
            segs = segs[1:]
        elif segs and segs[-1].k == "s" and segs[-1].a[0] is X:
            segs = segs[:-1]
            front = True
        elif X.k != "acc":
            return None
        if len(segs) != 1 or segs[0].k != "e" or segs[0].a[0].k != "elt" or segs[0].a[0].a[0] is not S or segs[0].a[0].a[1] != (lid, 0):
            return None
        init = [x for x in ev.a[2] if x.k == "init" and x.a[0] is X]
        frm = [x for x in ev.a[2] if x.k == "from" and x.a[0] is S]
        if len(init) != 1 or len(frm) != 1 or frm[0].a[1] != took[0].a[1] or frm[0].a[2].k != "s" or len(ev.a[2]) != 2:
            return None
        if S.k == "op" and S.a[0] == "cat":
            parts = S.a[1][0].a[0]
        else:
            parts = (frm[0].a[2],)
        if (took[0].a[1] == "b") != front:
            parts = backwards(parts)
            if parts is None:
                return None
        evs = []
        for x in c.a[1]:
            if x.k != "sw" or x.a[1] != ("pushf" if front else "push") or x.a[2] is not segs[0].a[0]:
                return None
            evs.append(mk("sw", x.a[0], "prepend" if front else "append", mk("seq", parts)))
        if len(evs) > 1:
            return None
        iv = init[0].a[1]
        if iv.k != "seq" and iv.k not in SYMLIKE:
            return None
        before = iv.a[0] if iv.k == "seq" else (mk("s", iv, self.elemty(iv)),)
        return S, X, parts if X.k == "acc" else parts + before if front else before + parts, tuple(evs)

    def splice(self, t, cp):
        S, X, segs, _ = cp
        if not any(y is X for y in subterms(t)):
            return t

        def go(t):
            if isinstance(t, tuple):
                return tuple(go(x) for x in t)
            if not isinstance(t, T):
                return t
            if t is X:
                return mk("seq", segs)
            if t.k == "seq":
                out = []
                for x in t.a[0]:
                    if x.k == "s" and x.a[0] is X:
                        out += segs
                    else:
                        out.append(go(x))
                return mk("seq", tuple(out))
            a = tuple(go(x) if isinstance(x, (T, tuple)) else x for x in t.a)
            return mk(t.k, *a) if a != t.a else t
        return go(t)

    def case(self, w, star, s, ctrs={}):
        facts = tuple(sorted(((k, v) for k, v in s.facts.items() if star.facts.get(k) != v and k[0] != "nz"),
                             key=lambda x: repr(x[0])))
        evs = tuple(s.events(star.trace))
        upd = []
        for c, v in star.mem.items():
            n = s.mem.get(c)
            if n is not None and n is not v:
                w.updates(v, n, upd)
        for x, (S, d, _, used) in ctrs.items():
            if not used:
                upd = [u for u in upd if not (u.k == "upd" and untyped(u.a[0]) is x)]
            upd.append(mk("took", S, d, 1))
        return mk("case", facts, evs, tuple(sorted(set(upd), key=lambda t: t.id)))


class BodyInfo:
    """Reverse postorder and natural loops of a body."""

    def __init__(self, body):
        blocks = body["blocks"]
        n = len(blocks)
        self.succ = [self.succs(b[1]) for b in blocks]
        order = []
        seen = [False] * n
        stack = [(0, iter(self.succ[0]))]
        seen[0] = True
        on = {0}
        back = []
        while stack:
            b, it = stack[-1]
            for x in it:
                if not seen[x]:
                    seen[x] = True
                    on.add(x)
                    stack.append((x, iter(self.succ[x])))
                    break
                elif x in on:
                    back.append((b, x))
            else:
                stack.pop()
                on.discard(b)
                order.append(b)
        order.reverse()
        self.order = {b: i for i, b in enumerate(order)}
        pred = {}
        for b in range(n):
            for x in self.succ[b]:
                pred.setdefault(x, []).append(b)
        self.loops = {}
        for t, h in back:
            blk = self.loops.setdefault(h, {h})
            todo = [t]
            while todo:
                x = todo.pop()
                if x in blk:
                    continue
                blk.add(x)
                todo += [p for p in pred.get(x, ()) if p in self.order]

    @staticmethod
    def succs(t):
        k = t["t"]
        r = []
        if k == "goto":
            r = [t["b"]]
        elif k == "switch":
            r = [b for _, b in t["ts"]] + [t["else"]]
        elif k in ("call", "drop", "assert"):
            if t["b"] is not None:
                r = [t["b"]]
            if isinstance(t.get("u"), int):
                r.append(t["u"])
        return r


class Call:
    """What a library model is given."""
    __slots__ = ("e", "st", "c", "args", "atys", "retty", "fr", "tag")

    def __init__(self, e, st, c, args, atys, retty, fr, tag):
        self.e, self.st, self.c, self.args, self.atys = e, st, c, args, atys
        self.retty, self.fr, self.tag = retty, fr, tag


ZERO = mk("int", 0)


def uses(t, x):
    return any(y.k == "phi" and untyped(y) is x for y in subterms(t))


def lenof(t):
    """The sequence t is the length of."""
    if t.k == "op" and t.a[0] == "len":
        return t.a[1][0]
    if t.k == "op" and t.a[0] == "seqlen":
        return catof(t.a[1][0])
    return None


def catof(t):
    """A sequence of several parts, as one sequence."""
    return mk("op", "cat", (t,), None) if t.k == "seq" and len(t.a[0]) > 1 else t


def countof(t):
    """The sequence whose positions the range t consists of."""
    if t.k == "op" and t.a[0] == "range" and t.a[1][0] is ZERO:
        return lenof(t.a[1][1])
    return None


def seqof(t):
    """Going through the positions of a sequence is going through the sequence."""
    t = unreversed(t)[0]
    S = countof(t)
    return t if S is None else S


def unreversed(t):
    """The sequence t is the reverse of, and whether it is one."""
    rv = False
    while t.k == "op" and t.a[0] == "reversed":
        t, rv = t.a[1][0], not rv
    return t, rv


def seqdir(t, d):
    return d if not unreversed(t)[1] else {"f": "b", "b": "f"}.get(d, d)


def bare(t):
    """A number a loop develops, whether or not its type is noted."""
    if t.a and t.a[-1] is not None and (t.k == "phi" or t.k == "op" and t.a[0] in ("len", "seqlen")):
        return mk(t.k, *t.a[:-1], None)
    return t


def backwards(segs):
    """The elements from last to first; None if that is not known."""
    out = []
    for s in reversed(segs):
        if s.k == "e":
            out.append(s)
        elif s.k == "s":
            x = s.a[0]
            out.append(mk("s", x.a[1][0] if x.k == "op" and x.a[0] == "reversed" else mk("op", "reversed", (x,), None), s.a[1]))
        else:
            return None
    return tuple(out)


def isfront(s, lid):
    """What a loop puts before the elements of a sequence."""
    return s.k == "s" and s.a[0].k == "acc" and s.a[0].a[0] is lid and s.a[0].a[1].k == "p" and s.a[0].a[1].a[-1] == "front"


def unsub(proj):
    """A place without the selection of a part of its elements."""
    return proj[:-1] if proj and proj[-1][0] == "sub" else proj


def subof(e, st, r):
    """The elements a reference to a sequence or part of one designates, as a sequence."""
    try:
        t = e.read(st, *r.a[:2])
    except Undecided:
        return None
    if t.k == "arr":
        return mk("seq", e.models.segs_of(e, t))
    if t.k in SYMLIKE:
        ty = e.tyof(t)
        if ty is None or e.head(ty) not in SEQ_HEADS:
            return None
        return mk("seq", e.models.segs_of(e, t))
    return t if t.k == "seq" else None


def untyped_eq(a, b):
    return a is b or untyped(a) is untyped(b)


# the library's own traits, of which it picks an implementation only once all types are known
SPECIALIZED = ("core::iter::adapters::zip::", "core::iter::adapters::step_by::", "core::iter::adapters::skip::", "core::iter::adapters::fuse::",
               "core::slice::", "alloc::vec::spec", "alloc::slice::")

# adaptors whose own functions are followed
ADAPTORS = tuple("core::iter::adapters::" + x for x in ("map::", "filter::", "filter_map::", "rev::", "cloned::", "copied::", "inspect::", "chain::",
                                                         "peekable::", "enumerate::", "GenericShunt"))


def raw_bytes(k):
    """A constant byte string, one character per byte."""
    s = k.get("s", "")
    if s.startswith('b"'):
        try:
            import ast
            return ast.literal_eval(s).decode("latin-1")
        except (ValueError, SyntaxError):
            pass
    return k["mem"]


class Widen:
    def __init__(self, e, lid):
        self.e, self.lid = e, lid

    def join(self, a, b):
        self.sa, self.sb = a, b
        r = a.copy()
        for c, v in a.mem.items():
            n = b.mem.get(c)
            if n is None:
                if c.k == "loc":
                    r.mem.pop(c, None)
                continue
            if n is not v:
                r.mem[c] = self.gen(v, n, mk("at", c))
        # what lies behind references and was first touched inside the loop
        for c, n in b.mem.items():
            if c.k in ("deref", "static") and c not in a.mem and not self.own(c):
                v = self.e.root(a, c)
                if v is not n:
                    v = self.shape(v, n)
                    r.mem[c] = self.gen(v, n, mk("at", c))
        # facts about what has changed no longer hold; what was known before remains
        r.facts = {k: v for k, v in a.facts.items() if b.facts.get(k) == v}
        r.poison = a.poison & b.poison if True else a.poison
        r.escaped = a.escaped | b.escaped
        if a.locks != b.locks:
            raise Undecided("locks differ between loop iterations")
        r.sn = a.sn
        r.cn = a.cn
        return r

    def own(self, c):
        """Is this a place of the element an iteration has at hand?"""
        return any(t.k == "elt" and self.lid in t.a[1] for t in subterms(c))

    def shape(self, v, n):
        """v with the structure n has: an unknown structure is the structure of its parts."""
        if v is n:
            return v
        if v.k == "adt" and n.k == "iter" and self.e.head(v.a[0]) == "core::ops::range::Range" and len(v.a[2]) == 2:
            return mk("iter", "val", (mk("s", mk("op", "range", v.a[2], None), None),), n.a[2])
        if v.k not in SYMLIKE:
            return v
        if n.k == "adt" and (self.e.head(n.a[0]) in PSEUDO or self.e.ty(n.a[0])["k"] == "struct"):
            return mk("adt", n.a[0], n.a[1], tuple(
                self.shape(self.e.proj1(None, v, ("f", n.a[1], i)), x) for i, x in enumerate(n.a[2])))
        if n.k == "tup" and n.a[0]:
            return mk("tup", tuple(self.shape(self.e.proj1(None, v, ("f", 0, i)), x) for i, x in enumerate(n.a[0])))
        if n.k == "map" and n.a[0] is not None and untyped_eq(n.a[0], v):
            return mk("map", n.a[0], (), n.a[2])
        if n.k == "seq" and n.a[0] and n.a[0][0].k == "s" and untyped_eq(n.a[0][0].a[0], v):
            return mk("seq", (n.a[0][0],))
        if n.k == "seq" and n.a[0] and n.a[0][-1].k == "s" and untyped_eq(n.a[0][-1].a[0], v):
            return mk("seq", (n.a[0][-1],))
        return v

    def gen(self, a, b, path):
        if a is b:
            return a
        e = self.e
        if a.k == "phi" and a.a[0] is self.lid:
            return a
        if a.k != b.k:
            a = self.shape(a, b)
        if a.k != b.k and a.k == "seq":
            b = self.shape(b, a)
        if a.k == b.k:
            if a.k == "adt" and a.a[0] == b.a[0] and a.a[1] == b.a[1]:
                return mk("adt", a.a[0], a.a[1], tuple(self.gen(x, y, mk("p", path, i)) for i, (x, y) in enumerate(zip(a.a[2], b.a[2]))))
            if a.k in ("tup", "arr") and len(a.a[0]) == len(b.a[0]):
                return mk(a.k, tuple(self.gen(x, y, mk("p", path, i)) for i, (x, y) in enumerate(zip(a.a[0], b.a[0]))))
            if a.k == "clo" and a.a[0] == b.a[0]:
                return mk("clo", a.a[0], tuple(self.gen(x, y, mk("p", path, i)) for i, (x, y) in enumerate(zip(a.a[1], b.a[1]))))
            if a.k == "iter" and a.a[0] == b.a[0] and a.a[2] is b.a[2]:
                sg = self.segs(a.a[1], b.a[1])
                if sg is not None:
                    return mk("iter", a.a[0], sg, a.a[2])
            if a.k == "ref" and not a.a[2] and not b.a[2]:
                r = self.slices(a, b, path)
                if r is not None:
                    return r
            if a.k == "zip":
                x, y = self.gen(a.a[0], b.a[0], mk("p", path, 0)), self.gen(a.a[1], b.a[1], mk("p", path, 1))
                return mk("zip", x, y, *a.a[2:])
            if a.k == "seq":
                sa, sb = a.a[0], b.a[0]
                acc = mk("acc", self.lid, path)
                front = mk("acc", self.lid, mk("p", path, "front"))
                if sa and sa[-1].k == "s" and sa[-1].a[0] is acc:
                    if sb[:len(sa)] == sa or self.first and sb[:len(sa) - 1] == sa[:-1]:
                        return a
                    if len(sa) == 1 and sb[-1:] == sa and all(x.k == "e" for x in sb[:-1]):
                        return mk("seq", (mk("s", front, None),))
                elif sa and sa[0].k == "s" and sa[0].a[0] is front:
                    if sb[-len(sa):] == sa or self.first and sb[len(sb) - len(sa) + 1:] == sa[1:]:
                        return a
                elif sb[:len(sa)] == sa:
                    return mk("seq", sa + (mk("s", acc, None),))
                elif sb[-len(sa):] == sa and all(x.k == "e" for x in sb[:-len(sa)]):
                    return mk("seq", (mk("s", front, None),) + sa)
                sg = self.segs(sa, sb)
                if sg is not None:
                    return mk("seq", sg)
            if a.k == "map" and a.a[0] is b.a[0]:
                oa, ob = a.a[1], b.a[1]
                if oa and oa[-1].k == "macc" and oa[-1].a[0] is mk("mapacc", self.lid, path) and ob[:len(oa) - 1] == oa[:-1]:
                    return a
                if ob[:len(oa)] == oa:
                    acc = mk("mapacc", self.lid, path)
                    return mk("map", a.a[0], oa + (mk("macc", acc),), a.a[2])
        ty = e.tyof(a)
        if ty is None:
            ty = e.tyof(b)
        return mk("phi", self.lid, path, ty)

    def slices(self, a, b, path):
        """Two shared references to parts of the same sequence."""
        pa, pb = unsub(a.a[1]), unsub(b.a[1])
        if a.a[0] is not b.a[0] or pa != pb:
            return None
        x, y = subof(self.e, self.sa, a), subof(self.e, self.sb, b)
        if x is None or y is None:
            return None
        g = self.gen(x, y, path)
        return mk("ref", a.a[0], pa + (("sub", g),), False) if g.k == "seq" else None

    def segs(self, a, b):
        """Iteration progress on a symbolic sequence."""
        if a == b:
            return a
        if len(a) > 1 or len(a) == 1 and a[0].k == "tail" and a[0].a[0].k == "op" and a[0].a[0].a[0] == "cat" and a[0].a[1] is self.lid:
            m = self.mixed(a, b)
            if m is not None:
                return m
        if len(a) == len(b) and len(a) >= 1:
            out = []
            for x, y in zip(a, b):
                if x is y:
                    out.append(x)
                    continue
                g = self.seg(x, y)
                if g is None:
                    return None
                out.append(g)
            return tuple(out)
        return None

    def mixed(self, a, b):
        """Progress through a sequence of several parts: the parts as one sequence."""
        if len(a) == 1 and a[0].k == "tail" and a[0].a[1] is self.lid and a[0].a[0].k == "op" and a[0].a[0].a[0] == "cat":
            m = self.mixed(a[0].a[0].a[1][0].a[0], b)
            return a if m is not None and m[0].a[2] == a[0].a[2] else None
        if len(a) < 2 or len(b) > len(a) or all(x.k == "e" for x in a):
            return None
        n = len(b)
        rest = lambda x, y: x is y or (y.k in ("drop", "dropb", "tail") and x.k == ("s" if y.k != "tail" else "tail") and x.a[0] is y.a[0])
        first = rest
        rest = lambda x, y: first(x, y) or x.k == y.k and x.k in ("drop", "dropb") and x.a[0] is y.a[0] and y.a[1] >= x.a[1]
        d = None
        if n == 0 or (rest(a[len(a) - n], b[0]) and b[1:] == a[len(a) - n + 1:] and not b[0].k == "dropb"):
            d = "f"
        elif rest(a[n - 1], b[-1]) and b[:-1] == a[:n - 1] and not b[-1].k == "drop":
            d = "b"
        if d is None:
            return None
        ety = None
        for x in a:
            ety = x.a[-1] if x.k != "e" else self.e.tyof(x.a[0])
            if ety is not None:
                break
        S = mk("op", "cat", (mk("seq", a),), None)
        return (mk("tail", S, self.lid, d, 0, ety),)

    def seg(self, x, y):
        base = lambda s: s.a[0] if s.k in ("s", "drop", "dropb", "tail") else None
        if base(x) is None or base(x) is not base(y):
            return None
        if x.k == "tail":
            if x.a[1] is self.lid:
                if y.k == "tail" and y.a[1] is self.lid:
                    return x
                if y.k in ("drop", "dropb") or y.k == "tail" and y.a[2] == x.a[2]:
                    return x        # a loop within may have gone on by any number
                return None
            # progress of an outer loop's remainder: a remainder of the remainder
            if y.k == "tail" and y.a[1] is x.a[1]:
                return mk("tail", x.a[0], self.lid, x.a[2], 0, x.a[4])
            return None
        d = None
        if y.k == "drop":
            d = "f"
        elif y.k == "dropb":
            d = "b"
        elif y.k == "tail":
            d = y.a[2]
        if d is None:
            return None
        ety = y.a[-1]
        return mk("tail", x.a[0], self.lid, d, 0, ety)

    def updates(self, v, n, out):
        """How the widened value v develops in one iteration."""
        if v is n:
            return
        if v.k == "phi" and v.a[0] is self.lid:
            out.append(mk("upd", v, n))
            return
        if v.k == n.k:
            if v.k == "adt" and v.a[1] == n.a[1]:
                for x, y in zip(v.a[2], n.a[2]):
                    self.updates(x, y, out)
            elif v.k in ("tup", "arr"):
                for x, y in zip(v.a[0], n.a[0]):
                    self.updates(x, y, out)
            elif v.k == "clo":
                for x, y in zip(v.a[1], n.a[1]):
                    self.updates(x, y, out)
            elif v.k == "seq":
                if n.a[0][:len(v.a[0])] == v.a[0] and v.a[0] and v.a[0][-1].k == "s":
                    out.append(mk("upd", v.a[0][-1].a[0], mk("seq", n.a[0][len(v.a[0]):])))
                elif v.a[0] and n.a[0][-len(v.a[0]):] == v.a[0] and isfront(v.a[0][0], self.lid):
                    out.append(mk("upd", v.a[0][0].a[0], mk("seq", n.a[0][:-len(v.a[0])])))
                else:
                    for x, y in zip(v.a[0], n.a[0]):
                        if x is not y and x.k == "tail":
                            out.append(self.taken(x, y))
            elif v.k == "iter":
                for x, y in zip(v.a[1], n.a[1]):
                    if x is not y and x.k == "tail" and y.k == "tail":
                        out.append(self.taken(x, y))
            elif v.k == "ref":
                if v.a[1] and v.a[1][-1][0] == "sub" and n.a[1] and n.a[1][-1][0] == "sub":
                    self.updates(v.a[1][-1][1], n.a[1][-1][1], out)
            elif v.k == "zip":
                self.updates(v.a[0], n.a[0], out)
                self.updates(v.a[1], n.a[1], out)
            elif v.k == "map":
                if v.a[1] and v.a[1][-1].k == "macc":
                    out.append(mk("upd", v.a[1][-1].a[0], mk("mapops", n.a[1][len(v.a[1]):])))

    @staticmethod
    def taken(x, y):
        S, d = seqof(x.a[0]), seqdir(x.a[0], x.a[2])
        return mk("took", S, d, y.a[3]) if y.a[1] is x.a[1] else mk("skipped", S, d)

    @staticmethod
    def start(x, y):
        S = seqof(y.a[0])
        if S is not y.a[0] and x.k == "s":
            x = mk("s", S, x.a[1])
        return mk("from", S, seqdir(y.a[0], y.a[2]) if y.k == "tail" else "?", x)

    def starts(self, s0, star):
        """What the widened values were before the loop."""
        out = []

        def walk(a, v):
            if a is v:
                return
            if v.k == "phi" and v.a[0] is self.lid:
                out.append(mk("init", v, a))
                return
            if v.k != a.k:
                a = self.shape(a, v)
            if v.k == a.k:
                if v.k == "adt" and v.a[1] == a.a[1]:
                    for x, y in zip(a.a[2], v.a[2]):
                        walk(x, y)
                elif v.k in ("tup", "arr"):
                    for x, y in zip(a.a[0], v.a[0]):
                        walk(x, y)
                elif v.k == "clo":
                    for x, y in zip(a.a[1], v.a[1]):
                        walk(x, y)
                elif v.k == "iter":
                    if len(a.a[1]) > 1 and len(v.a[1]) == 1 and v.a[1][0].k == "tail":
                        out.append(mk("from", v.a[1][0].a[0], v.a[1][0].a[2], mk("s", v.a[1][0].a[0], v.a[1][0].a[4])))
                        return
                    for x, y in zip(a.a[1], v.a[1]):
                        if x is not y:
                            out.append(self.start(x, y))
                elif v.k == "ref":
                    if v.a[1] and v.a[1][-1][0] == "sub":
                        x = subof(self.e, s0, a)
                        if x is not None:
                            walk(x, v.a[1][-1][1])
                elif v.k == "zip":
                    walk(a.a[0], v.a[0])
                    walk(a.a[1], v.a[1])
                elif v.k == "seq":
                    if v.a[0] and isfront(v.a[0][0], self.lid):
                        out.append(mk("init", v.a[0][0].a[0], mk("seq", ())))
                    elif v.a[0] and v.a[0][-1].k == "s" and v.a[0][-1].a[0].k == "acc" and v.a[0][-1].a[0].a[0] is self.lid:
                        out.append(mk("init", v.a[0][-1].a[0], mk("seq", ())))
                    elif len(a.a[0]) > 1 and len(v.a[0]) == 1 and v.a[0][0].k == "tail":
                        t = v.a[0][0]
                        out.append(mk("from", t.a[0], t.a[2], mk("s", t.a[0], t.a[4])))
                    else:
                        for x, y in zip(a.a[0], v.a[0]):
                            if x is not y and y.k == "tail":
                                out.append(self.start(x, y))
        for c, v in star.mem.items():
            a = s0.mem.get(c)
            if a is None and c.k in ("deref", "static"):
                a = self.e.root(s0, c)
            if a is not None:
                walk(a, v)
        return tuple(sorted(set(out), key=lambda t: t.id))


SYM_CONT = "cont"
SEQ_HEADS = ("alloc::vec::Vec", "alloc::collections::vec_deque::VecDeque", "slice", "array")
