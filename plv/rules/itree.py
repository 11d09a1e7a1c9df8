"""The interval plugin's search tree and its intervals: C21, C22, C23."""
from ..base import *
from ..engine import Engine, St, Infeasible
from ..models import Models
from ..model import strip_generics
from ..explore import explore_inst
from ..order import sat, forces, lt, le, eq, ge, gt, maximum, neg
from ..base import _Failed

CRATE = "plotline_plugin_interval"
PURE = {CRATE + "::Interval::lo": "lo", CRATE + "::Interval::hi": "hi"}
TREE = "::tree::IntervalSearchTree::"


class Unclear(Undecided):
    """The analysis keeps no account of something a rule needs."""


class Iv:
    """The functions of the interval crate and how they are run."""

    def __init__(self, R):
        self.R, self.P = R, R.s.P
        self.roots = {}
        for r in self.P.roots:
            self.roots.setdefault(strip_generics(r["path"]), r)
        self.runs = {}

    def tree(self):
        """The rules about trees are undecided if there is no node of the shape they expect."""
        e = Engine(self.P, Models())
        for i, t in enumerate(self.P.types):
            if t.get("variants") and is_node(e, i):
                return Shape(e, i)
        raise Unclear("a node that is not an interval with a limit and two subtrees")

    def root(self, suffix):
        """The function whose path ends like this."""
        rs = [r for p, r in self.roots.items() if p.endswith(suffix)]
        return rs[0] if len(rs) == 1 else None

    def run(self, path, opaque=()):
        key = (path, tuple(sorted(opaque)))
        r = self.runs.get(key)
        if r is None:
            e = Engine(self.P, Models())
            e.pure = PURE
            e.opaque = {x: x for x in opaque}
            root = self.roots[path]
            name = path.replace(CRATE + "::", "")
            try:
                r = explore_inst(self.P, root["inst"], name, engine=e)
            except Undecided as x:
                r = _Failed(name, str(x))
            except (RecursionError, KeyError, IndexError, AttributeError, TypeError, ValueError) as x:
                r = _Failed(name, f"internal: {type(x).__name__}: {x}")
            r.rec_seen = set(e.__dict__.get("rec_seen") or ())
            self.runs[key] = r
            R = self.R
            if r.e is not None:
                R.insts |= r.e.stats["insts"]
                R.calls += r.e.stats["calls"]
        return r

    def used(self, path, opaque=()):
        """The run as a subject of the rule: counted, and a doubt if it failed."""
        r = self.run(path, opaque)
        self.R.entries[r.name] = len(r.paths)
        if r.error:
            self.R.doubt(r.name, "not analysable: " + r.error)
        elif not r.paths:
            self.R.doubt(r.name, "no path")
        return r

    def recursive(self, path):
        """The functions called recursively from this one."""
        seen, todo, rec = set(), [path], set()
        while todo:
            p = todo.pop()
            if p in seen or p not in self.roots:
                continue
            seen.add(p)
            r = self.run(p, rec)
            found = {strip_generics(ev.a[0]) for q in r.paths for ev in flat(q.events) if ev.k == "rec"}
            found |= {strip_generics(f) for f in r.rec_seen}
            if found - rec:
                rec |= found
                seen = set()
                todo = [path]
                continue
            todo += [strip_generics(f) for f in rec]
        return rec


# ---- the shape of a tree -------------------------------------------------------------------------


def is_node(e, ty):
    t = e.ty(ty)
    if t["k"] != "struct":
        return False
    return len(subtrees(e, ty)) == 2 and any(e.ty(f[1])["k"] == "param" for f in t["variants"][0]["fields"])


def boxed(e, ty):
    """T for Option<Box<T>>."""
    t = e.ty(ty)
    if t["k"] == "enum" and t.get("def") == "core::option::Option" and t["args"]:
        b = e.ty(t["args"][0])
        if b["k"] == "struct" and b.get("def") == "alloc::boxed::Box":
            return b["args"][0]
    return None


def subtrees(e, ty):
    t = e.ty(ty)
    return [i for i, f in enumerate(t["variants"][0]["fields"]) if boxed(e, f[1]) == ty]


def peeled(e, ty):
    """The type behind references and boxes."""
    n = 0
    while n < 6:
        t = e.ty(ty)
        if t["k"] == "ref":
            ty = t["t"]
        elif t.get("def") == "alloc::boxed::Box":
            ty = t["args"][0]
        else:
            return ty
        n += 1
    return ty


class Shape:
    """Which fields of a node play which part."""

    def __init__(self, e, ty):
        self.e, self.ty = e, ty
        fs = e.ty(ty)["variants"][0]["fields"]
        self.kids = subtrees(e, ty)
        names = [fs[i][0] for i in self.kids]
        if "right" in names[0] or "left" in names[1]:
            self.kids.reverse()
        vs = [i for i, f in enumerate(fs) if e.ty(f[1])["k"] == "param"]
        ms = [i for i, f in enumerate(fs) if e.ty(f[1])["k"] == "alias"]
        if len(vs) != 1 or len(ms) != 1:
            raise Unclear("a node that is not an interval with a limit and two subtrees")
        self.value, self.max = vs[0], ms[0]

    def field(self, st, n, i):
        return self.e.proj1(st, n, ("f", 0, i))


def shape_of(e, ty):
    """The node's shape, for a type a tree is behind of."""
    ty = peeled(e, ty)
    if is_node(e, ty):
        return Shape(e, ty)
    b = boxed(e, ty)
    if b is not None and is_node(e, b):
        return Shape(e, b)
    t = e.ty(ty)
    if t["k"] == "enum" and t.get("def") == "core::option::Option" and t["args"]:
        b = peeled(e, t["args"][0])
        return Shape(e, b) if is_node(e, b) else None
    if t["k"] == "struct" and t["variants"] and t.get("crate", "").startswith("plotline"):
        for f in t["variants"][0]["fields"]:
            b = boxed(e, f[1])
            if b is not None and is_node(e, b):
                return Shape(e, b)
    return None


class Spot:
    """A place where a tree hangs: a node, or an optional one."""

    def __init__(self, kind, term, side=None, parent=None):
        self.kind, self.term, self.side, self.parent = kind, term, side, parent


def tree_spots(e, st, arg, ty, sh):
    """The trees reachable from an argument."""
    v = arg
    n = 0
    while n < 6:
        t = e.ty(ty)
        if t["k"] == "ref":
            v, ty = e.load(st, v), t["t"]
        elif t.get("def") == "alloc::boxed::Box":
            v, ty = e.load(st, v), t["args"][0]
        else:
            break
        n += 1
    t = e.ty(ty)
    if ty == sh.ty:
        return [Spot("node", v)]
    if boxed(e, ty) == sh.ty or t.get("def") == "core::option::Option":
        return [Spot("opt", v)]
    out = []
    for i, f in enumerate(t["variants"][0]["fields"]):
        if boxed(e, f[1]) == sh.ty:
            out.append(Spot("opt", e.proj1(st, v, ("f", 0, i))))
    return out


def lo(v):
    return untyped(norm(mk("op", "lo", (v,), None)))


def hi(v):
    return untyped(norm(mk("op", "hi", (v,), None)))


def key(t):
    return untyped(norm(t))


def bound_facts(p):
    """The comparisons the path has decided."""
    out = []
    for k, v in p.st.facts.items():
        if k[0] == "rel":
            out.append((key(k[1]), frozenset(v), key(k[2])))
    return out


def some_of(e, st, p, o):
    """The content of an optional tree on this path: a node's value, None if there is none, or "?"."""
    v = p.st.facts.get(("var", o))
    if v is None:
        if o.k == "adt":
            v = o.a[1]
        else:
            return "?"
    if v == 0:
        return None
    b = e.proj1(st, o, ("f", 1, 0))
    n = 0
    while n < 4:
        ty = e.tyof(b)
        if ty is None or not (e.ty(ty)["k"] == "ref" or e.ty(ty).get("def") == "alloc::boxed::Box"):
            break
        b = e.load(st, b)
        n += 1
    return b


# ---- C23 -----------------------------------------------------------------------------------------


def truths(t):
    """The ways a boolean comes out: [(comparisons, results of opaque calls, value)]."""
    t = norm(t)
    if t.k == "bool":
        return [((), (), t.a[0])]
    if t.k == "cmp":
        from ..engine import OPREL
        a, b = key(t.a[1]), key(t.a[2])
        r = frozenset(OPREL[t.a[0]])
        return [(((a, r, b),), (), True), (((a, frozenset("<=>") - r, b),), (), False)]
    if t.k == "not":
        return [(c, o, not v) for c, o, v in truths(t.a[0])]
    if t.k in ("and", "or", "xor"):
        f = {"and": lambda x, y: x and y, "or": lambda x, y: x or y, "xor": lambda x, y: x != y}[t.k]
        return [(c + d, o + q, f(v, w)) for c, o, v in truths(t.a[0]) for d, q, w in truths(t.a[1])]
    if t.k == "op":
        return [((), ((key(t), True),), True), ((), ((key(t), False),), False)]
    raise Unclear(f"a result that is not followed: {brief(t, 60)}")


def understood(p):
    """Facts about anything but comparisons and the shape of the tree."""
    for k, v in p.st.facts.items():
        if k[0] == "rel":
            for x in k[1:]:
                if any(y.k == "op" and y.a[0] not in ("lo", "hi", "transmute", "ret", "const") for y in subterms(x)):
                    return k
        elif k[0] not in ("var", "val"):
            return k
    return None


def c23(R):
    R.inductive = True
    R.rule("On every path of the containment and the overlap predicate, the comparisons made and the answer given are checked against "
           "the definition in every total order of the bounds: contains iff lo <= b <= hi; overlap iff neither hi is below the other's lo.")
    R.assumptions = ["an interval's lower bound does not exceed its upper bound", "lo and hi answer the same each time they are asked",
                     "comparison of bounds is a total order (Ord)"]
    iv = Iv(R)
    for name, kind in (("contains", "in"), ("intersects", "over")):
        root = iv.root("::IntervalExt::" + name)
        if root is None:
            R.doubt(name, "no such function")
            continue
        path = strip_generics(root["path"])
        run = iv.used(path)
        if run.error:
            continue
        me, arg = (key(run.e.load(St(), run.args[0])), run.args[1])
        for p in run.paths:
            if [x for x in p.events if x.k in ("client", "loop", "rec", "ext")]:
                R.doubt(run.name, "calls code that is not followed")
                continue
            if not R.check(p.kind == "ret", run, p, "does not return"):
                continue
            bad = understood(p)
            if bad is not None:
                R.doubt(run.name, f"depends on {brief(bad[1], 60)}")
                continue
            base = bound_facts(p)
            try:
                for cs, ops, val in truths(p.value):
                    if ops:
                        raise Unclear("the answer is another call's")
                    c = base + list(cs)
                    if kind == "in":
                        b = key(arg)
                        yes = [le(lo(me), b), le(b, hi(me))]
                        no = [[gt(lo(me), b)], [gt(b, hi(me))]]
                    else:
                        ot = key(run.e.load(St(), arg))
                        c += [le(lo(me), hi(me)), le(lo(ot), hi(ot))]
                        yes = [le(lo(me), hi(ot)), le(lo(ot), hi(me))]
                        no = [[gt(lo(me), hi(ot))], [gt(lo(ot), hi(me))]]
                    wrong = sat(c, [no]) if val else sat(c + yes)
                    R.check(not wrong, run, p, ("says yes where it should say no" if val else "says no where it should say yes"))
            except Unclear as x:
                R.doubt(run.name, str(x))


# ---- C21 -----------------------------------------------------------------------------------------


def query_arg(e, run, skip):
    """The interval asked about: an argument that is a reference to the parameter's type."""
    b = e.P.insts[run.inst]["body"]
    out = []
    for n, a in enumerate(run.args):
        if n == skip:
            continue
        t = e.ty(b["locals"][n + 1])
        if t["k"] == "ref" and e.ty(peeled(e, b["locals"][n + 1]))["k"] == "param" and not t.get("mut"):
            out.append(n)
    return out


class Look:
    """One way through a function that looks at a tree without changing it."""

    def __init__(self, iv, run, p, sh, spots, q, kinds):
        self.iv, self.run, self.p, self.sh, self.spots, self.kinds = iv, run, p, sh, spots, kinds
        self.e, self.st = run.e, St()
        self.q = q
        self.base = bound_facts(p) + [le(lo(q), hi(q))]
        self.visits, self.asked, self.nothing = {}, {}, set()
        own = kinds.get("me") or ()
        self.closures = {self.closure(self.below(self.e.deep(St(), a))) for n, a in enumerate(run.args) if n not in own}
        self.collect()

    def closure(self, t):
        """A closure, whatever has happened to what it captures."""
        while True:
            if t.k == "op" and t.a[0] == "changed":
                t = t.a[1][0]
            elif t.k == "changed":
                t = t.a[0]
            elif t.k == "drf":
                t = t.a[0]
            else:
                return t

    def below(self, v):
        """The value an argument leads to, references looked through."""
        n = 0
        while v.k == "pt" and n < 6:
            v = v.a[2]
            n += 1
        return key(v)

    def collect(self):
        """What the path hands to the closure and to other functions of the tree."""
        for ev in self.p.events:
            if ev.k == "client":
                name = ev.a[0]
                deep = [self.below(x) for x in ev.a[2]]
                if name.startswith("op "):
                    d = name[3:]
                    k = self.kinds.get(d)
                    if k is None:
                        raise Unclear(f"calls {d}")
                    tn, qn = k[1], k[2]
                    if deep[qn] is not self.q:
                        raise Wrong(f"asks about another interval", ev)
                    if k[0] == "visit":
                        for i, x in enumerate(deep):
                            if i not in (tn, qn) and self.closure(x) not in self.closures:
                                raise Unclear("hands another closure on")
                    t = self.tree_of(ev.a[2][tn])
                    if t.k == "adt" and t.a[1] == 0 and not t.a[2] or self.p.st.facts.get(("var", t)) == 0:
                        # there is nothing in a tree that is not there
                        self.nothing.add(key(ev.a[3]))
                        continue
                    self.asked.setdefault(t, []).append((ev, k[0], key(ev.a[3])))
                elif name.startswith("call "):
                    self.visits.setdefault(deep[1] if len(deep) > 1 else None, []).append(ev)
                elif name.startswith("core::") or name.startswith("alloc::"):
                    raise Unclear(f"calls {name}")
                else:
                    raise Unclear(f"calls {name}")
            elif ev.k in ("ext", "loop", "rec", "sw", "mw"):
                raise Unclear(f"{ev.k} {brief(ev.a[0], 40) if ev.a and hasattr(ev.a[0], 'k') else ''}")

    def tree_of(self, v):
        """The tree an argument leads to: the node's value, or the optional tree."""
        n = 0
        while n < 8:
            if v.k == "pt":
                v = v.a[2]
            elif v.k == "adt" and v.a[1] == 1 and len(v.a[2]) == 1:
                v = v.a[2][0]
            else:
                break
            n += 1
        return key(v)

    def nodes(self):
        """Every position the path knows of: (spot, chain of constraints, node or None or "?")."""
        todo = [(s, []) for s in self.spots]
        while todo:
            s, chain = todo.pop()
            n = s.term if s.kind == "node" else some_of(self.e, self.st, self.p, s.term)
            yield s, chain, n
            if n is None or n == "?" or self.whole(s, n):
                continue
            if not self.opened(n):
                continue
            v = self.sh.field(self.st, n, self.sh.value)
            m = self.sh.field(self.st, n, self.sh.max)
            for side, i in zip("lr", self.sh.kids):
                todo.append((Spot("opt", self.sh.field(self.st, n, i), side, n), chain + [(side, key(v), key(m))]))

    def whole(self, s, n):
        """Calls the tree at this position is handed to."""
        out = []
        if n is not None and n != "?":
            out += self.asked.get(key(n), [])
        if s.kind == "opt":
            out += self.asked.get(key(s.term), [])
        return out

    def opened(self, n):
        """Does the path look inside the node?"""
        n = key(n)
        for i in [self.sh.value] + self.sh.kids:
            f = key(self.sh.field(self.st, n, i))
            for t in list(self.visits) + list(self.asked) + [key(x) for k in self.p.st.facts for x in k[1:] if hasattr(x, "k")] \
                    + ([key(self.p.value)] if self.p.value is not None else []):
                if t is not None and contains(t, f):
                    return True
        return False

    def member(self, w, chain, n):
        """What is known about an interval stored below a position."""
        cs = [le(lo(w), hi(w))]
        for side, v, m in chain:
            cs.append(lt(lo(w), lo(v)) if side == "l" else ge(lo(w), lo(v)))
            cs.append(le(hi(w), m))
        if n is not None and n != "?":
            cs.append(le(hi(w), key(self.sh.field(self.st, n, self.sh.max))))
        return cs

    def node_facts(self, n, chain):
        """What is known about a node the path looks at."""
        v = key(self.sh.field(self.st, n, self.sh.value))
        return self.member(v, chain, n)

    def overlap(self, w):
        return [le(lo(w), hi(self.q)), le(lo(self.q), hi(w))]

    def apart(self, w):
        return [[gt(lo(w), hi(self.q))], [gt(lo(self.q), hi(w))]]


class Wrong(Exception):
    def __init__(self, what, ev=None):
        Exception.__init__(self, what)
        self.ev = ev


def closure_kind(e, run):
    """Whether a function is given a closure to call."""
    b = e.P.insts[run.inst]["body"]
    for n in range(len(run.args)):
        ty = b["locals"][n + 1]
        t = e.ty(peeled(e, ty))
        if t["k"] == "param" and t["name"] not in ("Intv",) and n > 0:
            return n
    return None


def c21(R):
    R.inductive = True
    R.rule("Every function the queries run through is analysed on its own, calls to itself and to its like taken as keeping its promise "
           "(induction over the tree). On each path, the subtrees not searched must hold no interval that overlaps, in any total order of "
           "the bounds consistent with the comparisons made, the search order, and the recorded limits; every stored interval looked at is "
           "reported iff it overlaps, each subtree is searched at most once; an answer of yes rests on an overlap, an answer of no on none. "
           "Counting adds one for each node looked at and, once each, what the calls for the subtrees count.")
    R.assumptions = ["an interval's lower bound does not exceed its upper bound", "lo and hi answer the same each time they are asked",
                     "comparison of bounds is a total order (Ord)", "for answers of no: the recorded limits are exact"]
    iv = Iv(R)
    iv.tree()
    kinds, todo, done = {}, [], set()
    for name in ("intersects", "for_each_intersection"):
        root = iv.root(TREE + name)
        if root is None:
            R.doubt(name, "no such function of the tree")
            continue
        path = strip_generics(root["path"])
        for f in iv.recursive(path):
            if f not in kinds and f in iv.roots:
                kinds[f] = None
        todo.append(path)
    for f in list(kinds):
        k = describe(iv, f)
        if k is None:
            del kinds[f]
        else:
            kinds[f] = k
            todo.append(f)
    for f in todo:
        if f in done:
            continue
        done.add(f)
        run = iv.used(f, tuple(kinds))
        if run.error:
            continue
        d = kinds.get(f) or describe(iv, f, run)
        if d is None:
            R.doubt(run.name, "not a question about a tree and an interval")
            continue
        look_at(R, iv, run, d, kinds)
    counting(R, iv)


def describe(iv, f, run=None):
    """(answers or visits, the tree's argument, the interval's argument)."""
    run = run or iv.run(f, tuple(iv.recursive(f)))
    if run.e is None or not run.args:
        return None
    e = run.e
    b = iv.P.insts[run.inst]["body"]
    tys = [b["locals"][n + 1] for n in range(len(run.args))]
    ts = [n for n, ty in enumerate(tys) if shape_of(e, ty) is not None]
    if len(ts) != 1:
        return None
    qs = query_arg(e, run, ts[0])
    if len(qs) != 1:
        # a closure passed by reference is a parameter as well: the interval is the one whose type is stored
        sh = shape_of(e, tys[ts[0]])
        vt = e.ty(sh.ty)["variants"][0]["fields"][sh.value][1]
        qs = [n for n in qs if peeled(e, tys[n]) == vt]
    if len(qs) != 1:
        return None
    ret = e.ty(b["locals"][0])
    return ("ask" if ret["k"] == "bool" or ret.get("s") == "bool" else "visit", ts[0], qs[0])


def look_at(R, iv, run, d, kinds):
    kind, tn, qn = d
    e = run.e
    b = iv.P.insts[run.inst]["body"]
    try:
        sh = shape_of(e, b["locals"][tn + 1])
        spots = tree_spots(e, St(), run.args[tn], b["locals"][tn + 1], sh)
    except Unclear as x:
        R.doubt(run.name, str(x))
        return
    q = key(e.load(St(), run.args[qn]))
    R.check(True, run, None, "a tree and an interval")
    for p in run.paths:
        if p.kind != "ret":
            # only what the caller's closure or comparison does, or a call already accounted for
            R.check(any(x.k == "unwind" for x in p.events), run, p, "does not return")
            continue
        bad = strange(p)
        if bad is not None:
            R.doubt(run.name, f"depends on {brief(bad[1], 60)}")
            continue
        try:
            L = Look(iv, run, p, sh, spots, q, dict(kinds, me=(tn, qn)))
            (answers if kind == "ask" else visits)(R, L)
        except Wrong as x:
            R.fail(run, p, str(x), x.ev)
        except Unclear as x:
            R.doubt(run.name, str(x))


def strange(p):
    """A fact about something other than bounds, the shape of the tree and the answers of calls."""
    for k, v in p.st.facts.items():
        if k[0] == "rel":
            for x in k[1:]:
                for y in subterms(x):
                    if y.k == "op" and y.a[0] not in ("lo", "hi", "transmute", "const", "ret"):
                        return k
        elif k[0] not in ("var", "val"):
            return k
    return None


def visits(R, L):
    run, p = L.run, L.p
    counted = set()
    calls = set()
    known = {key(k[1]): v for k, v in p.st.facts.items() if k[0] == "val"}
    for s, chain, n in L.nodes():
        if n is None:
            continue
        ws = L.whole(s, n)
        calls |= {id(w) for w in ws}
        searched = [w for w in ws if w[1] == "visit"]
        no = any(w[1] == "ask" and known.get(w[2]) is False for w in ws)
        if searched or no:
            R.check(len(searched) <= 1, run, p, "searches a subtree more than once", ws[-1][0])
            continue
        if n == "?" or not L.opened(n):
            w = mk("someone", s.term, None)
            R.check(not sat(L.base + L.member(w, chain, n) + L.overlap(w)), run, p,
                    "leaves out a subtree that may hold an overlapping interval")
            continue
        v = key(L.sh.field(L.st, n, L.sh.value))
        cs = L.base + L.node_facts(n, chain)
        seen = L.visits.get(v, [])
        counted.add(v)
        if seen:
            R.check(len(seen) == 1, run, p, "reports an interval more than once", seen[-1])
            R.check(not sat(cs, [L.apart(v)]), run, p, "reports an interval that does not overlap", seen[0])
        else:
            R.check(not sat(cs + L.overlap(v)), run, p, "does not report an overlapping interval")
    for v, evs in L.visits.items():
        if v not in counted:
            R.fail(run, p, f"reports something that is not a stored interval: {brief(v, 60) if v is not None else '()'}", evs[0],
                   (v,) if v is not None else ())
    for t, ws in L.asked.items():
        for w in ws:
            if id(w) not in calls:
                R.fail(run, p, f"searches something that is not a subtree: {brief(t, 60)}", w[0], (t,))


def answers(R, L):
    run, p = L.run, L.p
    if L.visits:
        raise Unclear("calls a closure")
    known = {key(k[1]): v for k, v in p.st.facts.items() if k[0] == "val"}
    for cs, ops, val in truths(p.value):
        res = dict(known)
        res.update((o, False) for o in L.nothing)
        if any(known.get(o) or dict(ops).get(o) for o in L.nothing):
            continue
        if any(o in res and res[o] != v for o, v in ops):
            continue
        res.update(ops)
        base = L.base + list(cs)
        allocc = {id(w) for ws in L.asked.values() for w in ws}
        handled = set()
        positions = list(L.nodes())
        for s, chain, n in positions:
            if n is not None and n != "?" and L.opened(n) and not L.whole(s, n):
                base = base + L.node_facts(n, chain)
        if not sat(base):
            continue
        if val:
            ok = False
            for s, chain, n in positions:
                if n is None:
                    continue
                for w in L.whole(s, n):
                    handled.add(id(w))
                    if w[1] == "ask" and res.get(w[2]) is True:
                        ok = True
                if n != "?" and L.opened(n) and not L.whole(s, n):
                    v = key(L.sh.field(L.st, n, L.sh.value))
                    if not sat(base, [L.apart(v)]):
                        ok = True
            R.check(ok, run, p, "answers yes without an overlapping interval")
            continue
        # no: with exact limits, nothing anywhere overlaps
        clauses, wit = [], []
        for s, chain, n in positions:
            if n is None or n == "?":
                continue
            m = key(L.sh.field(L.st, n, L.sh.max))
            ws = L.whole(s, n)
            if L.opened(n) and not ws:
                # the limit is attained by the node or below it
                alts = [[eq(hi(key(L.sh.field(L.st, n, L.sh.value))), m)]]
                for i in L.sh.kids:
                    o = L.sh.field(L.st, n, i)
                    c = some_of(L.e, L.st, p, o)
                    if c == "?":
                        alts.append([])
                    elif c is not None:
                        alts.append([eq(key(L.sh.field(L.st, c, L.sh.max)), m)])
                if not any(a == [] for a in alts):
                    clauses.append(alts)
                continue
            w = mk("someone", n, "max")
            base = base + L.member(w, chain, n) + [eq(hi(w), m)]
            if any(x[1] == "ask" and res.get(x[2]) is False for x in ws):
                clauses.append(L.apart(w))
        for s, chain, n in positions:
            if n is None:
                continue
            ws = L.whole(s, n)
            handled |= {id(w) for w in ws}
            if any(w[1] == "ask" and res.get(w[2]) is False for w in ws):
                R.check(True, run, p, "a subtree that answered no")
                continue
            if n != "?" and L.opened(n):
                v = key(L.sh.field(L.st, n, L.sh.value))
                R.check(not sat(base + L.overlap(v), clauses), run, p, "answers no although an interval overlaps")
                continue
            w = mk("someone", s.term, None)
            R.check(not sat(base + L.member(w, chain, n) + L.overlap(w), clauses), run, p,
                    "answers no although a subtree left out may hold an overlapping interval")
        for t, ws in L.asked.items():
            for w in ws:
                if id(w) not in handled:
                    raise Unclear(f"asks about something that is not a subtree: {brief(t, 60)}")


class Counted(Look):
    """One way through a function that counts what a tree holds."""

    def __init__(self, iv, run, p, sh, spots, kinds):
        self.iv, self.run, self.p, self.sh, self.spots, self.kinds = iv, run, p, sh, spots, kinds
        self.e, self.st = run.e, St()
        self.visits, self.asked, self.nothing = {}, {}, set()
        for ev in p.events:
            if ev.k in ("acq", "rel", "drop"):
                continue
            k = kinds.get(ev.a[0][3:]) if ev.k == "client" and ev.a[0].startswith("op ") else None
            if k is None:
                raise Unclear(f"{ev.k} while counting")
            t = self.tree_of(ev.a[2][k])
            if t.k == "adt" and t.a[1] == 0 and not t.a[2] or p.st.facts.get(("var", t)) == 0:
                self.nothing.add(key(ev.a[3]))
                continue
            self.asked.setdefault(t, []).append((ev, "count", key(ev.a[3])))

    def opened(self, n):
        """Does the path look whether there is anything below the node?"""
        return not self.whole(None, n) if n is not None else False

    def whole(self, s, n):
        out = []
        if n is not None and n != "?":
            out += self.asked.get(key(n), [])
        if s is not None and s.kind == "opt":
            out += self.asked.get(key(s.term), [])
        return out


def summands(t):
    """A number as a constant and what is added to it; None if it is something else."""
    t = untyped(t)
    while t.k == "op" and t.a[0] in ("transmute",):
        t = t.a[1][0]
    if t.k == "int":
        return t.a[0], []
    if t.k == "op" and t.a[0] in ("Add", "AddUnchecked", "Add:checked", "wrapping_add", "saturating_add"):
        a, b = summands(t.a[1][0]), summands(t.a[1][1])
        return None if a is None or b is None else (a[0] + b[0], a[1] + b[1])
    return 0, [key(t)]


def counting(R, iv):
    """Every function of a single tree, named for counting, adds up one for each node and what it counts below."""
    for f in [x for x in iv.roots if x.split("::")[-1] == "count" and x.startswith(CRATE)]:
        if "::node::" not in f and "::tree::" not in f:
            continue
        rec = iv.recursive(f)
        run = iv.used(f, tuple(rec))
        if run.error:
            continue
        e = run.e
        b = iv.P.insts[run.inst]["body"]
        if len(run.args) != 1:
            continue
        kinds = {}
        for g in rec:
            r = iv.run(g, tuple(rec))
            if r.e is not None and r.args:
                bb = iv.P.insts[r.inst]["body"]
                ts = [n for n in range(len(r.args)) if shape_of(r.e, bb["locals"][n + 1]) is not None]
                if len(ts) == 1 and len(r.args) == 1:
                    kinds[g] = ts[0]
        for g in [f] + [x for x in rec if x != f]:
            count_one(R, iv, iv.used(g, tuple(rec)), kinds)


def count_one(R, iv, run, kinds):
    if run.error:
        return
    e, b = run.e, iv.P.insts[run.inst]["body"]
    try:
        sh = shape_of(e, b["locals"][1])
        spots = tree_spots(e, St(), run.args[0], b["locals"][1], sh)
    except Unclear as x:
        R.doubt(run.name, str(x))
        return
    for p in run.paths:
        if p.kind != "ret":
            if not any(x.k == "unwind" for x in p.events):
                if all(k[0] == "var" and contains(k[1], run.args[0]) and not any(x.k == "op" for x in subterms(k[1])) for k in p.st.facts):
                    R.check(False, run, p, "panics")
                else:
                    R.doubt(run.name, "may panic")
            continue            # or a call already accounted for
        bad = strange(p)
        if bad is not None:
            R.doubt(run.name, f"depends on {brief(bad[1], 60)}")
            continue
        try:
            L = Counted(iv, run, p, sh, spots, kinds)
        except Unclear as x:
            R.doubt(run.name, str(x))
            continue
        s = summands(p.value)
        n, rest = s[0], [x for x in s[1] if x not in L.nothing]
        for spot, chain, node in L.nodes():
            if node is None:
                continue
            ws = L.whole(spot, node)
            if ws:
                hit = [w for w in ws if w[2] in rest]
                R.check(len(hit) == 1, run, p, "what a subtree holds is not counted" if not hit else "a subtree is counted twice", ws[-1][0], (p.value,))
                for w in hit:
                    R.check(rest.count(w[2]) == 1, run, p, "a subtree is counted more than once", w[0], (p.value,))
                rest = [x for x in rest if x not in [w[2] for w in hit]]
            elif node == "?":
                R.check(False, run, p, "does not look whether there is a subtree to count", None, (p.value,))
            else:
                n -= 1
        if rest:
            R.doubt(run.name, f"adds {brief(rest[0], 60)}")
            continue
        R.check(n == 0, run, p, f"counts {abs(n)} too {'many' if n > 0 else 'few'}", None, (p.value,))
