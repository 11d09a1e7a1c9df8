"""C22: insertion and deletion keep the intervals, their order and the recorded limits.

Each function that changes a tree is analysed once.  Recursive functions are not entered when called;
what they promise is assumed instead (induction over the recursion, which is shown to descend): what
goes in comes out, less one interval equal to the one asked about if the function is given one, and the
trees that come out are in order with exact limits.
"""
from collections import Counter
from itertools import product
from .itree import *
from .itree import _Failed

NODE = CRATE + "::node::IntervalSearchTreeNode::"


class Sig:
    """What goes into a function and comes out of it, by type."""

    def __init__(self, iv, path):
        self.iv, self.path = iv, path
        run = iv.run(path, ())
        e = self.e = Engine(iv.P, Models())
        b = iv.P.insts[iv.roots[path]["inst"]]["body"]
        n = len(iv.P.insts[iv.roots[path]["inst"]]["body"]["locals"])
        self.tys = [b["locals"][i + 1] for i in range(b["argc"] if "argc" in b else len(run.args))]
        self.ret = b["locals"][0]
        self.kinds = [self.kind(t) for t in self.tys]
        self.out = self.kind(self.ret)
        self.changes = any(k in ("own", "mut") for k in self.kinds)
        self.queries = [i for i, k in enumerate(self.kinds) if k == "query"]
        self.pub = iv.roots[path].get("pub")

    def holds(self, ty, d=0):
        """Does a value of the type own intervals?"""
        if d > 6:
            return False
        t = self.e.ty(ty)
        if t["k"] == "param":
            return t["name"] != "F"
        if t["k"] == "tuple":
            return any(self.holds(x, d + 1) for x in t["ts"])
        if t["k"] in ("array", "slice"):
            return self.holds(t["t"], d + 1)
        if t["k"] in ("struct", "enum"):
            if t.get("def") in ("alloc::vec::Vec", "alloc::boxed::Box", "core::option::Option"):
                return self.holds(t["args"][0], d + 1)
            if is_tree(self.e, ty):
                return True
        return False

    def kind(self, ty):
        t = self.e.ty(ty)
        if t["k"] == "ref":
            if self.holds(t["t"]):
                if t.get("mut"):
                    return "mut"
                return "query" if self.e.ty(t["t"])["k"] == "param" else "look"
            return "other"
        return "own" if self.holds(ty) else "other"


def is_tree(e, ty):
    t = e.ty(ty)
    if t["k"] != "struct" or not t.get("variants"):
        return False
    return is_node(e, ty) or any(boxed(e, f[1]) is not None and is_node(e, boxed(e, f[1])) for f in t["variants"][0]["fields"])


def drf(t):
    return mk("drf", t, None)


def fld(t, v, i):
    return mk("fld", t, v, i, None)


class Call:
    def __init__(self, sig, ev):
        self.sig, self.ev = sig, ev
        self.ins, self.outs = [], []
        self.delete = bool(sig.queries)
        self.query = None


class Flow:
    """The intervals on one way through a function (or one round of a loop)."""

    def __init__(self, ck, run, p, events, facts, value_terms):
        self.ck, self.run, self.p = ck, run, p
        self.e, self.sh = run.e, ck.sh
        self.facts = facts
        self.kv, self.ke = {}, {}
        for k, v in facts.items():
            if k[0] == "var":
                self.kv[key(k[1])] = v
            elif k[0] == "empty":
                self.ke[key(k[1])] = v
        self.rels = [(key(k[1]), frozenset(v), key(k[2])) for k, v in facts.items() if k[0] == "rel"]
        self.calls, self.loops = [], []
        self.override = {}
        self.events = events
        self.gather(events, value_terms)

    # -- calls ------------------------------------------------------------------------------------

    def gather(self, events, values):
        changed = {}
        for t in values:
            for x in subterms(t):
                if x.k == "op" and x.a[0] == "changed":
                    changed.setdefault(x.a[1][1], set()).add(key(x))
        for ev in events:
            if ev.k == "client" and ev.a[0].startswith("op "):
                sig = self.ck.sigs.get(ev.a[0][3:])
                if sig is None:
                    raise Unclear(f"calls {ev.a[0][3:]}")
                if not sig.changes and sig.out != "own":
                    continue
                c = Call(sig, ev)
                for i, x in enumerate(ev.a[2]):
                    if sig.kinds[i] in ("own", "mut"):
                        c.ins += self.comps(self.inner(x, sig.tys[i]), self.innerty(sig.tys[i]))
                if c.delete:
                    if len(sig.queries) != 1:
                        raise Unclear("a call with several intervals to look for")
                    c.query = self.peel(ev.a[2][sig.queries[0]])
                self.every = True
                if sig.out == "own":
                    c.outs += self.comps(ev.a[3], sig.ret)
                tag = (ev.a[0], ev.a[5])
                for i, k in enumerate(sig.kinds):
                    if k == "mut":
                        for x in changed.get(tag, ()):
                            c.outs += self.comps(x, self.innerty(sig.tys[i]))
                self.every = False
                self.calls.append(c)
            elif ev.k == "client":
                if ev.a[0].startswith("call ") or not ev.a[0].startswith("op "):
                    raise Unclear(f"calls {ev.a[0]}")
            elif ev.k == "rec":
                raise Unclear("calls itself in a way that is not followed")
            elif ev.k == "loop":
                for st in ev.a[2]:
                    if st.k == "init" and (st.a[1].k == "ref" and st.a[1].a[2] or isinstance(st.a[0].a[-1], int) and
                                           self.e.ty(st.a[0].a[-1])["k"] == "ref" and self.e.ty(st.a[0].a[-1]).get("mut")):
                        raise Unclear("a place that moves through the tree")
                self.loops.append(ev)
            elif ev.k == "mw":
                raise Unclear("uses a map")

    def params(self):
        """What the function is given."""
        out = []
        sig = self.ck.sigs[self.ck.now]
        for i, x in enumerate(self.run.args):
            if sig.kinds[i] in ("own", "mut", "look"):
                out += self.comps(self.inner(key(x), sig.tys[i]), self.innerty(sig.tys[i]))
        return out

    def inner(self, x, ty):
        """What an argument leads to."""
        if self.e.ty(ty)["k"] == "ref":
            return x.a[2] if x.k == "pt" else drf(x)
        return x

    def innerty(self, ty):
        t = self.e.ty(ty)
        return t["t"] if t["k"] == "ref" else ty

    def peel(self, x):
        n = 0
        while x.k == "pt" and n < 6:
            x = x.a[2]
            n += 1
        else:
            if n == 0:
                x = drf(x)
        return key(x)

    # -- what a value holds --------------------------------------------------------------------------

    def comps(self, v, ty, d=0):
        """The parts of a value that hold intervals: ("one", t), ("tree", content), ("seq", S)."""
        e = self.e
        t = e.ty(ty)
        if v.k in ("moved", "unset"):
            return []
        if d > 40:
            raise Unclear("too deep")
        if t["k"] == "param":
            return [("one", key(v))]
        if t["k"] == "tuple":
            out = []
            for i, x in enumerate(t["ts"]):
                out += self.comps(v.a[0][i] if v.k == "tup" else fld(key(v), 0, i), x, d + 1)
            return out
        if t["k"] not in ("struct", "enum"):
            return []
        df = t.get("def")
        if df == "alloc::boxed::Box":
            c = v.a[2] if v.k == "pt" else drf(key(v))
            if v.k in ("box", "ref"):
                raise Unclear("a box that is not followed")
            return self.comps(c, t["args"][0], d + 1)
        if df == "core::option::Option":
            if v.k == "adt":
                return self.comps(v.a[2][0], t["args"][0], d + 1) if v.a[1] == 1 else []
            if self.kv.get(key(v)) == 0 and not self.every:
                return []
            return self.comps(fld(key(v), 1, 0), t["args"][0], d + 1)
        if df == "alloc::vec::Vec":
            if e.ty(t["args"][0])["k"] != "param":
                raise Unclear("a list of something else")
            return self.segs(v)
        if is_node(e, ty):
            sh = self.sh
            if v.k == "adt":
                fs = e.ty(ty)["variants"][0]["fields"]
                out = []
                for i in [sh.value] + sh.kids:
                    out += self.comps(v.a[2][i], fs[i][1], d + 1)
                return out
            return [("tree", key(v))]
        if t.get("variants") and is_tree(e, ty):
            out = []
            for i, f in enumerate(t["variants"][0]["fields"]):
                out += self.comps(v.a[2][i] if v.k == "adt" else fld(key(v), 0, i), f[1], d + 1)
            return out
        return []

    def segs(self, v):
        if v.k == "seq":
            out = []
            for s in v.a[0]:
                if s.k == "e":
                    out.append(("one", key(s.a[0])))
                elif s.k == "s":
                    out += self.segs(s.a[0])
                elif s.k in ("drop", "dropb"):
                    out.append(("seq", mk(s.k, key(s.a[0]), s.a[1])))
                elif s.k == "tail":
                    out.append(("seq", mk("tail", key(s.a[0]), s.a[1], s.a[2], s.a[3])))
                else:
                    raise Unclear("a list that is not followed")
            return out
        return [("seq", key(v))]

    # -- positions -----------------------------------------------------------------------------------

    def up(self, n):
        """The node a subtree hangs at, and on which side."""
        if n.k == "drf" and n.a[0].k == "fld" and n.a[0].a[1:3] == (1, 0):
            o = n.a[0].a[0]
            if o.k == "fld" and o.a[1] == 0 and o.a[2] in self.sh.kids and self.tree_like(o.a[0]):
                return o.a[0], "lr"[self.sh.kids.index(o.a[2])]
        return None

    def tree_like(self, n):
        """A content term of a node (rather than of something that holds one)."""
        if n in self.roots():
            return True
        u = n.k == "drf" and n.a[0].k == "fld"
        return u and self.up(n) is not None

    def roots(self):
        r = getattr(self, "_roots", None)
        if r is None:
            r = self._roots = {}
            for k, c in self.params():
                if k == "tree":
                    r[c] = None
            for c in self.calls:
                for k, x in c.outs:
                    if k == "tree":
                        r[x] = c
            for ph, (lp, cs) in self.phis().items():
                for k, x in cs:
                    if k == "tree":
                        r[x] = lp
        return r

    def phis(self):
        """The values a loop develops: phi -> (loop, what it holds)."""
        out = {}
        for lp in self.ck.all_loops(self.run):
            for st in lp.a[2]:
                if st.k == "init":
                    ph = st.a[0]
                    ty = ph.a[-1]
                    if not isinstance(ty, int):
                        ty = self.e.tyof(st.a[1])
                    if ty is None:
                        continue
                    if self.e.ty(ty)["k"] == "ref" and self.e.ty(ty).get("mut"):
                        raise Unclear("a place that moves through the tree")
                    out[key(ph)] = (lp, self.comps(key(ph), ty))
        return out

    def value(self, n):
        return fld(n, 0, self.sh.value)

    def limit(self, n):
        return fld(n, 0, self.sh.max)

    def kid(self, n, i):
        return drf(fld(fld(n, 0, self.sh.kids[i]), 1, 0))

    def there(self, n):
        """Is there a subtree at this position?  None: either way."""
        if n in self.override:
            return self.override[n]
        if n.k == "drf" and n.a[0].k == "fld" and n.a[0].a[1:3] == (1, 0):
            v = self.kv.get(n.a[0].a[0])
            return None if v is None else v == 1
        return True

    def empty(self, c):
        k, x = c
        if k == "tree":
            return self.there(x) is False
        if k == "seq":
            S = x
            if x.k == "tail":
                if any(f[0] == "more" and key(f[1]) is x.a[0] and f[2] == x.a[1] and not v and f[3] == x.a[3]
                       for f, v in self.facts.items()):
                    return True
            if self.ke.get(S):
                return True
        return False

    # -- conservation ----------------------------------------------------------------------------------

    def fold(self, out):
        """What went in, for what came out: parts are put together, results of calls traced back."""
        out = Counter(c for c in out if not self.empty(c))
        minus = []
        used = set()
        steps = 0
        while True:
            steps += 1
            if steps > 400:
                raise Unclear("does not settle")
            if self.fold_tree(out) or self.fold_call(out, used, minus) or self.fold_seq(out) or self.fold_loop(out, used):
                continue
            break
        return out, minus

    def take(self, out, cs):
        """Remove the parts if all of them are there."""
        need = Counter(c for c in cs if not self.empty(c))
        if any(out[c] < n for c, n in need.items()):
            return False
        out.subtract(need)
        for c in [c for c, n in out.items() if n == 0]:
            del out[c]
        return True

    def fold_tree(self, out):
        for k, x in list(out):
            if k == "one" and x.k == "fld" and x.a[1:3] == (0, self.sh.value) and self.tree_like(x.a[0]):
                n = x.a[0]
                if self.take(out, [("one", x), ("tree", self.kid(n, 0)), ("tree", self.kid(n, 1))]):
                    out[("tree", n)] += 1
                    return True
        return False

    def fold_call(self, out, used, minus):
        for c in self.calls:
            if id(c) in used or not c.outs:
                continue
            live = [o for o in c.outs if not self.empty(o)]
            if not live and not c.delete:
                continue
            if not self.take(out, c.outs):
                continue
            used.add(id(c))
            for x in c.ins:
                if not self.empty(x):
                    out[x] += 1
            if c.delete:
                minus.append(c)
            return True
        return False

    def fold_seq(self, out):
        for k, x in list(out):
            if k == "seq":
                if x.k in ("drop", "dropb") and x.a[1] >= 1:
                    S, n = x.a
                    el = self.element(out, S, "f" if x.k == "drop" else "b", n - 1)
                    if el is not None:
                        self.take(out, [(k, x), ("one", el)])
                        out[("seq", mk(x.k, S, n - 1) if n > 1 else S)] += 1
                        return True
                if x.k == "op" and x.a[0] == "slice":
                    S, a, b = x.a[1]
                    for k2, y in list(out):
                        if k2 == "seq" and y.k == "op" and y.a[0] == "slice" and y.a[1][0] is S and y.a[1][1] is b \
                                and a.k == "int" and a.a[0] == 0 and y.a[1][2].k == "end":
                            self.take(out, [(k, x), (k2, y)])
                            out[("seq", S)] += 1
                            return True
                    if a.k == "int" and a.a[0] == 0 and b.k == "end":
                        self.take(out, [(k, x)])
                        out[("seq", S)] += 1
                        return True
                    # a slice whose other part is known to be empty
                    if a.k == "int" and a.a[0] == 0:
                        rest = key(mk("op", "slice", (S, b, mk("end")), None))
                        if self.ke.get(rest):
                            self.take(out, [(k, x)])
                            out[("seq", S)] += 1
                            return True
                    elif b.k == "end" and self.ke.get(key(mk("op", "slice", (S, mk("int", 0), a), None))):
                        self.take(out, [(k, x)])
                        out[("seq", S)] += 1
                        return True
                if x.k == "op" and x.a[0] in ("without", "seqrem", "swaprem"):
                    S, i = x.a[1][0], x.a[1][1]
                    el = ("one", key(mk("op", "nth", (S, i), None)))
                    if out[el] >= 1:
                        self.take(out, [(k, x), el])
                        out[("seq", S)] += 1
                        return True
                if x.k == "op" and x.a[0] in ("reversed", "sorted"):
                    self.take(out, [(k, x)])
                    out[("seq", x.a[1][0])] += 1
                    return True
                if x.k == "seq" or x.k == "op" and x.a[0] == "cat":
                    self.take(out, [(k, x)])
                    for c in self.segs(x if x.k == "seq" else x.a[1][0]):
                        if not self.empty(c):
                            out[c] += 1
                    return True
            elif k == "one" and x.k == "elt":
                # the only element
                S, i = x.a[0], x.a[1]
                rest = [mk("drop", S, 1), mk("dropb", S, 1)]
                if any(self.ke.get(r) for r in rest):
                    self.take(out, [(k, x)])
                    out[("seq", S)] += 1
                    return True
        return False

    def element(self, out, S, d, n):
        for k, y in out:
            if k == "one" and y.k == "elt" and y.a[0] is S and tuple(y.a[1].a if hasattr(y.a[1], "a") else y.a[1])[:2] == (d, n):
                return y
        return None

    def fold_loop(self, out, used):
        for lp in self.ck.all_loops(self.run):
            if lp in used or lp not in self.loops:
                continue
            outs = []
            ins = []
            for ph, (l, cs) in self.phis().items():
                if l is lp:
                    outs += cs
            for st in lp.a[2]:
                if st.k == "init" and key(st.a[0]) in self.phis():
                    ty = st.a[0].a[-1] or self.e.tyof(st.a[1])
                    ins += self.comps(self.e.deep(self.p.st, st.a[1]), ty)
            lid = lp.a[0]
            for S, steps in self.ck.consumed(self, lp).items():
                # the rest of the source, and the element the loop ended at
                rest = [c for c in out if c[0] == "seq" and c[1].k == "tail" and c[1].a[0] is S and c[1].a[1] is lid]
                outs += rest[:1]
                if rest and rest[0][1].a[3] > 0:
                    outs += [c for c in out if c[0] == "one" and c[1].k == "elt" and c[1].a[0] is S][:rest[0][1].a[3]]
                elif not rest and not any(f[0] == "more" and key(f[1]) is S and not v for f, v in self.facts.items()):
                    outs = None
                    break
                ins.append(("seq", S))
            if outs is None or not outs:
                continue
            if self.take(out, outs):
                used.add(lp)
                for c in ins:
                    if not self.empty(c):
                        out[c] += 1
                return True
        return False

    def spread(self, cs, d=0):
        """The parts in terms of what went into the function: results of calls replaced by what went into them."""
        out = []
        for c in cs:
            if self.empty(c):
                continue
            src = self.source(c)
            if src is None or d > 30:
                out.append(c)
            else:
                out += self.spread(src, d + 1)
        return out

    def source(self, c):
        """What the parts come from, as a whole, if they are what a call or a loop produced."""
        k, x = c
        if k == "seq":
            if x.k in ("drop", "dropb", "tail"):
                return [("seq", x.a[0])]
            if x.k == "op" and x.a[0] in ("slice", "without", "seqrem", "swaprem", "reversed", "sorted"):
                return [("seq", x.a[1][0])]
            if x.k == "op" and x.a[0] == "cat":
                return self.segs(x.a[1][0])
            if x.k == "seq":
                return self.segs(x)
        if k == "one":
            if x.k == "elt":
                return [("seq", x.a[0])]
            if x.k == "op" and x.a[0] == "nth":
                return [("seq", x.a[1][0])]
        for cl in self.calls:
            if c in cl.outs:
                return cl.ins
        for ph, (lp, cs) in self.phis().items():
            if c in cs:
                out = []
                for st in lp.a[2]:
                    if st.k == "init" and key(st.a[0]) in self.phis():
                        ty = st.a[0].a[-1] or self.e.tyof(st.a[1])
                        out += [y for y in self.comps(self.e.deep(self.p.st, st.a[1]), ty) if y != c]
                out += [("seq", S) for S in self.ck.consumed(self, lp)]
                return out
        return None

    # -- bounds ----------------------------------------------------------------------------------------

    def mentioned(self):
        """The positions the path speaks of."""
        out = set()

        def add(n):
            while n is not None and n not in out:
                out.add(n)
                u = self.up(n)
                n = u[0] if u else None
        ts = set()
        for k, v in self.facts.items():
            for x in k[1:]:
                if hasattr(x, "k"):
                    ts.add(key(x))
        for c in self.extra:
            ts.add(c[1])
        for cl in self.calls:
            for c in cl.ins + cl.outs:
                ts.add(c[1])
        rs = self.roots()
        for t in ts:
            for x in subterms(t):
                if x in rs or (x.k == "drf" and self.up(x) is not None):
                    add(x)
                if x.k == "fld" and x.a[1] == 0 and x.a[2] in (self.sh.value, self.sh.max) and self.tree_like(x.a[0]):
                    add(x.a[0])
        return out

    extra = ()
    every = False

    def world(self):
        """The comparisons that hold because the trees given are in order, and alternatives of which one holds."""
        cs, clauses = list(self.rels), []
        ns = self.mentioned()
        opened = set()
        for n in ns:
            u = self.up(n)
            if u:
                opened.add(u[0])
        ts = [t for c in cs for t in (c[0], c[2])] + [c[1] for c in self.extra]
        for n in ns:
            if any(contains(t, self.value(n)) for t in ts):
                opened.add(n)
        for n in ns:
            if self.there(n) is False:
                continue
            u = self.up(n)
            if u:
                cs.append(le(self.limit(n), self.limit(u[0])))
            if n in opened:
                v = self.value(n)
                cs += self.about(v, n)
                alts = [[eq(self.limit(n), hi(v))]]
                for i in (0, 1):
                    k = self.kid(n, i)
                    if self.there(k) is not False:
                        cs.append(le(self.limit(k), self.limit(n)))
                        alts.append([eq(self.limit(k), self.limit(n))])
                clauses.append(alts)
            src = self.roots().get(n)
            if isinstance(src, Call):
                lims = self.limits(src.ins)
                if lims is not None:
                    if not src.delete and len(src.outs) == 1:
                        cs += [le(x, self.limit(n)) for x in lims]
                    clauses.append([[le(self.limit(n), x)] for x in lims] or [[]])
        return cs, clauses

    def limits(self, cs):
        """The upper limits of the parts; None if a list is among them."""
        out = []
        for k, x in cs:
            if self.empty((k, x)):
                continue
            if k == "one":
                out.append(hi(x))
            elif k == "tree":
                out.append(self.limit(x))
            else:
                return None
        return out

    def about(self, w, n):
        """What holds of an interval stored in the subtree at n (or at n itself)."""
        cs = [le(lo(w), hi(w)), le(hi(w), self.limit(n))]
        u = self.up(n)
        while u is not None:
            p, side = u
            v = self.value(p)
            cs.append(lt(lo(w), lo(v)) if side == "l" else ge(lo(w), lo(v)))
            cs.append(le(hi(w), self.limit(p)))
            u = self.up(p)
        return cs

    def someone(self, c):
        """An interval of the part, and what holds of it."""
        k, x = c
        if k == "one":
            if x.k == "fld" and x.a[1:3] == (0, self.sh.value) and self.tree_like(x.a[0]):
                return x, self.about(x, x.a[0])
            return x, [le(lo(x), hi(x))]
        w = mk("someone", x, None)
        if k == "tree":
            return w, self.about(w, x)
        return w, [le(lo(w), hi(w))]

    def cases(self, cs):
        """Every way the subtrees whose presence is open may be there."""
        open_ = [n for n in sorted({x for k, x in cs if k == "tree"} | self.mentioned(), key=lambda t: t.id) if self.there(n) is None]
        if len(open_) > 6:
            raise Unclear("too many subtrees that may or may not be there")
        for vals in product((True, False), repeat=len(open_)):
            self.override = dict(zip(open_, vals))
            ok = True
            for n in open_:
                u = self.up(n)
                if self.override[n] and u and self.there(u[0]) is False:
                    ok = False
            for cl in self.calls:
                if not cl.delete and len(cl.outs) == 1 and cl.outs[0][0] == "tree" and not any(k == "seq" for k, _ in cl.ins):
                    if self.there(cl.outs[0][1]) is False and [c for c in cl.ins if not self.empty(c)]:
                        ok = False
            if ok:
                yield
        self.override = {}

    # -- sizes -----------------------------------------------------------------------------------------

    def size(self, c, env):
        """How many intervals the part holds, given a choice for what is open; env collects the open ones."""
        k, x = c
        if self.empty(c):
            return 0
        if k == "one":
            return 1
        if k == "tree":
            for cl in self.calls:
                if c in cl.outs and len(cl.outs) == 1:
                    n = sum(self.size(i, env) for i in cl.ins)
                    return n - (env.get(("less", x), 0, 1) if cl.delete else 0)
            if x in self.opened_:
                return 1 + sum(self.size(("tree", self.kid(x, i)), env) for i in (0, 1))
            return env.get(x, 1 if self.there(x) else 0, 6)
        return self.length(x, env)

    def length(self, S, env):
        if S.k == "seq":
            return sum(self.size(c, env) for c in self.segs(S))
        if S.k in ("drop", "dropb"):
            return max(0, self.length(S.a[0], env) - S.a[1])
        if S.k == "op":
            o, a = S.a[0], S.a[1]
            if o == "slice":
                n = self.length(a[0], env)
                x = self.number(a[1], env, a[0])
                y = n if a[2].k == "end" else self.number(a[2], env, a[0])
                return max(0, min(y, n) - x)
            if o in ("without", "seqrem", "swaprem"):
                return max(0, self.length(a[0], env) - 1)
            if o in ("reversed", "sorted"):
                return self.length(a[0], env)
            if o == "cat":
                return self.length(a[0], env)
        for cl in self.calls:
            if ("seq", S) in cl.outs:
                if len(cl.outs) != 1 or cl.delete:
                    raise Unclear("a list whose length is open")
                return sum(self.size(i, env) for i in cl.ins)
        if S.k == "tail":
            raise Unclear("a list whose length is open")
        if S.k == "phi" or S.k == "sym" or S.k == "drf" and S.a[0].k == "sym":
            return env.get(S, 0, 12)
        raise Unclear(f"a list whose length is open: {brief(S, 60)}")

    def number(self, t, env, S=None):
        if t.k == "int":
            return t.a[0]
        if t.k == "end":
            return self.length(S, env)
        if t.k == "op":
            o, a = t.a[0], t.a[1]
            if o in ("len", "seqlen"):
                return self.length(a[0], env)
            if o in ("Add", "Sub", "Mul", "Div", "Rem"):
                x, y = self.number(a[0], env, S), self.number(a[1], env, S)
                if o == "Add":
                    return x + y
                if o == "Sub":
                    return x - y
                if o == "Mul":
                    return x * y
                if y == 0:
                    raise Unclear("division by nothing")
                return x // y if o == "Div" else x % y
        raise Unclear(f"a number that is not followed: {brief(t, 60)}")

    def holding(self, env):
        """Do the path's facts about numbers hold for this choice?"""
        for k, v in self.facts.items():
            if k[0] == "empty":
                if (self.length(key(k[1]), env) == 0) != v:
                    return False
            elif k[0] == "rel":
                a, b = key(k[1]), key(k[2])
                if self.numeric(a) and self.numeric(b):
                    x, y = self.number(a, env), self.number(b, env)
                    if ("<" if x < y else ">" if x > y else "=") not in v:
                        return False
        return True

    def numeric(self, t):
        return t.k == "int" or t.k == "op" and t.a[0] in ("len", "seqlen", "Add", "Sub", "Mul", "Div", "Rem")

    def choices(self, f):
        """f's value under every choice for what is open that agrees with the path's facts."""
        self.opened_ = {self.up(n)[0] for n in self.mentioned() if self.up(n)}
        todo, out = [{}], []
        n = 0
        while todo:
            got = todo.pop()
            n += 1
            if n > 20000:
                raise Unclear("too many choices")
            env = Env(got)
            try:
                if not self.holding(env):
                    continue
                out.append(f(env))
            except Open as x:
                for v in range(x.lo, x.hi + 1):
                    todo.append(dict(got, **{}) | {x.what: v})
        return out


class Open(Exception):
    def __init__(self, what, lo_, hi_):
        self.what, self.lo, self.hi = what, lo_, hi_


class Env:
    def __init__(self, got):
        self.got = got

    def get(self, what, lo_, hi_):
        if what not in self.got:
            raise Open(what, lo_, hi_)
        return self.got[what]


class Keep:
    def __init__(self, R):
        self.R = R
        self.iv = Iv(R)
        self.iv.tree()
        self.sigs = {}
        self.now = None
        self.sh = None
        self.loops_ = {}
        self.bad = set()
        self.loose = False      # equal lower bounds may lie on either side

    # -- what is looked at ---------------------------------------------------------------------------

    def subjects(self):
        iv, out = self.iv, []
        for p, r in sorted(iv.roots.items()):
            if not (p.startswith(CRATE + "::node::") or p.startswith(CRATE + "::tree::") or "IntervalSearchTree" in p):
                continue
            if not (r.get("pub") or r.get("in_trait") or r.get("trait")):
                continue
            sig = self.sig(p)
            if sig is None:
                continue
            if sig.changes or sig.out == "own" and "look" not in sig.kinds and "query" not in sig.kinds:
                out.append(p)
        return out

    def sig(self, p):
        if p not in self.sigs:
            try:
                self.sigs[p] = Sig(self.iv, p)
            except (KeyError, Undecided):
                self.sigs[p] = None
        return self.sigs[p]

    def all_loops(self, run):
        got = self.loops_.get(id(run))
        if got is None:
            got = []
            for p in run.paths:
                for ev in p.events:
                    if ev.k == "loop" and ev not in got:
                        got.append(ev)
            self.loops_[id(run)] = got
        return got

    def consumed(self, flow, lp):
        """The lists a loop takes the intervals out of."""
        out = {}
        for c in lp.a[1]:
            taken = {}
            for u in c.a[2]:
                if u.k == "took":
                    taken[key(u.a[0])] = u.a[2]
            for S, n in taken.items():
                for x in subterms((c.a[1], c.a[2])):
                    if x.k == "elt" and key(x.a[0]) is S:
                        out[S] = n
        return out

    # -- the check -----------------------------------------------------------------------------------

    def go(self):
        R, iv = self.R, self.iv
        subjects = self.subjects()
        for want in (CRATE + TREE + "insert", CRATE + TREE + "delete"):
            if want not in subjects:
                R.doubt(want.replace(CRATE + "::", ""), "no such function")
        rec = set()
        for p in subjects:
            rec |= {f for f in iv.recursive(p) if f in iv.roots}
        for f in rec:
            self.sig(f)
        self.rec = rec
        # what the public functions call themselves must work for whatever they pass on
        self.direct = set(subjects)
        for p in subjects:
            for q in iv.run(p, tuple(rec)).paths:
                self.direct |= {x.a[0][3:] for x in q.events if x.k == "client" and x.a[0].startswith("op ")}
        for p in subjects + sorted(rec - set(subjects)):
            if self.sig(p) is not None:
                self.function(p)
        self.descends(rec)
        # what nothing uses yet
        for p in self.unused(subjects):
            self.loose = True
            self.direct.add(p)
            self.function(p)
            self.loose = False

    def unused(self, subjects):
        """Functions of a node that rebuild it and that nothing public leads to."""
        iv = self.iv
        seen = set()
        for p in list(subjects) + sorted(self.rec):
            r = iv.run(p, tuple(self.rec))
            if r.e is None:
                return []
            seen |= r.e.stats["insts"]
        out = []
        for p, r in sorted(iv.roots.items()):
            if r["inst"] in seen or p in subjects or not p.startswith(CRATE + "::node::") or not p.split("::")[-1].startswith("rotate"):
                continue
            sig = self.sig(p)
            if sig is not None and len(sig.kinds) == 1 and sig.kinds[0] == "own" and not iv.recursive(p):
                out.append(p)
        return out

    def function(self, path):
        R = self.R
        self.now = path
        sig = self.sigs[path]
        run = self.iv.used(path, tuple(self.rec))
        if run.error:
            return
        if self.sh is None:
            self.sh = next((s for s in (shape_of(run.e, t) for t in sig.tys + [sig.ret]) if s is not None), None)
        if self.sh is None:
            for p in self.iv.roots:
                s2 = self.sig(p)
                if s2:
                    self.sh = next((s for s in (shape_of(s2.e, t) for t in s2.tys + [s2.ret]) if s is not None), None)
                    if self.sh:
                        break
        for p in run.paths:
            if p.kind == "unwind":
                if any(x.k == "unwind" for x in p.events):
                    continue
                self.panics(run, p)
                continue
            if p.kind != "ret":
                R.fail(run, p, "ends the process")
                continue
            if not sig.changes and "look" in sig.kinds:
                R.check(True, run, p, "reads only")
                continue
            try:
                self.path(run, p, sig)
            except Unclear as x:
                R.doubt(run.name, str(x))
        for lp in self.all_loops(run):
            try:
                self.loop(run, lp)
            except Unclear as x:
                R.doubt(run.name, str(x))

    def panics(self, run, p):
        R = self.R
        try:
            fl = Flow(self, run, p, p.events, p.st.facts, self.values(run, p))
            got = fl.choices(lambda env: True)
        except Unclear as x:
            if self.sigs[self.now].changes:
                R.doubt(run.name, f"may panic: {x}")
            return
        R.check(not got, run, p, "panics")

    def values(self, run, p):
        out = [run.e.deep(p.st, a) for a in run.args] + list(p.st.mem.values())
        if p.value is not None:
            out.append(run.e.deep(p.st, p.value))
        out += [ev.a[2] for ev in p.events if ev.k == "client"]
        out += [x for k in p.st.facts for x in k[1:] if hasattr(x, "k")]
        return out

    def path(self, run, p, sig):
        R, e = self.R, run.e
        fl = Flow(self, run, p, p.events, p.st.facts, self.values(run, p))
        outs, trees = [], []
        if p.value is not None:
            v = e.deep(p.st, p.value)
            outs += fl.comps(v, sig.ret)
            trees.append((v, sig.ret))
        ins = []
        for i, a in enumerate(run.args):
            if sig.kinds[i] in ("own", "mut"):
                ins += fl.comps(fl.inner(key(a), sig.tys[i]), fl.innerty(sig.tys[i]))
            if sig.kinds[i] == "mut":
                v = fl.inner(e.deep(p.st, a), sig.tys[i])
                outs += fl.comps(v, fl.innerty(sig.tys[i]))
                trees.append((v, fl.innerty(sig.tys[i])))
        self.kept(run, p, fl, ins, outs, sig)
        for v, ty in trees:
            self.valid(run, p, fl, v, ty)
        for c in fl.calls:
            for i, x in enumerate(c.ev.a[2]):
                if c.sig.kinds[i] in ("own", "mut"):
                    self.valid(run, p, fl, fl.inner(x, c.sig.tys[i]), fl.innerty(c.sig.tys[i]), c.ev)
        for lp in fl.loops:
            for st in lp.a[2]:
                if st.k == "init":
                    ty = st.a[0].a[-1] or e.tyof(st.a[1])
                    if ty is not None:
                        self.valid(run, p, fl, e.deep(p.st, st.a[1]), ty, lp)

    # -- nothing lost --------------------------------------------------------------------------------

    def kept(self, run, p, fl, ins, outs, sig, ev=None):
        R = self.R
        got, minus = fl.fold(outs)
        want = Counter(c for c in ins if not fl.empty(c))
        missing, extra = want - got, got - want
        # open what went in as far as what came out is parts of it
        n = 0
        while extra and n < 60:
            n += 1
            m = next((c for c in missing if c[0] == "tree" and any(x[1] is not c[1] and contains(x[1], c[1]) for x in extra)), None)
            if m is None:
                break
            missing[m] -= 1
            for c in [("one", fl.value(m[1])), ("tree", fl.kid(m[1], 0)), ("tree", fl.kid(m[1], 1))]:
                if fl.empty(c):
                    continue
                if extra[c] > 0:
                    extra[c] -= 1
                else:
                    missing[c] += 1
            missing, extra = +missing, +extra
        gone = sorted(missing.elements(), key=lambda c: c[1].id)
        new = sorted(extra.elements(), key=lambda c: c[1].id)
        delete = bool(sig is not None and sig.queries and sig.changes)
        if new:
            self.off(run, p, fl, gone, new, ev)
            return
        if not delete:
            if minus:
                raise Unclear("deletes without being asked to")
            R.check(not gone, run, p, "loses " + (self.say(gone[0]) if gone else "nothing"), ev)
            return
        q = key(fl.peel(run.args[sig.queries[0]])) if len(sig.queries) == 1 else None
        if q is None:
            raise Unclear("several intervals to look for")
        if len(minus) > 1:
            raise Unclear("deletes more than once")
        if minus:
            if not R.check(not gone, run, p, "loses " + (self.say(gone[0]) if gone else "nothing") + " besides the one deleted", minus[0].ev):
                return
            if not R.check(minus[0].query is q, run, p, "deletes another interval than the one given", minus[0].ev):
                return
        elif gone:
            gone = self.leaves(fl, gone, set())
            if not R.check(len(gone) == 1 and gone[0][0] == "one", run, p,
                           "loses " + " and ".join(self.say(c) for c in gone[:3]), ev):
                return
            x = gone[0][1]
            R.check(any({a, b} == {x, q} and r == frozenset("=") for a, r, b in fl.rels), run, p,
                    "deletes an interval that need not equal the given one")
            return
        away = Counter(minus[0].ins) if minus else Counter()
        for c in self.leaves(fl, ins, set(away)):
            if c in away:
                continue
            fl.extra = list(minus[0].ins) if minus else []
            for _ in fl.cases([c]):
                if fl.empty(c):
                    continue
                w, about = fl.someone(c)
                cs, clauses = fl.world()
                if any({a, b} == {w, q} and "=" not in r for a, r, b in fl.rels):
                    continue
                may = sat(cs + about + [le(lo(q), hi(q)), eq(lo(w), lo(q)), eq(hi(w), hi(q))], clauses)
                R.check(not may, run, p, "leaves an equal interval where it is, in " + self.say(c) if may else "looks where an equal interval may be")

    def leaves(self, fl, cs, stop):
        """The parts as far as the path has looked into them."""
        out, todo = [], [c for c in cs if not fl.empty(c)]
        ms = fl.mentioned()
        opened = {fl.up(n)[0] for n in ms if fl.up(n)} | {n for n in ms if any(contains(t, fl.value(n)) for a, r, b in fl.rels for t in (a, b))}
        while todo:
            c = todo.pop()
            if c in stop:
                out.append(c)
                continue
            if c[0] == "tree" and (c[1] in opened or any(x[0] == "tree" and contains(x[1], c[1]) for x in stop)):
                todo += [x for x in [("one", fl.value(c[1])), ("tree", fl.kid(c[1], 0)), ("tree", fl.kid(c[1], 1))] if not fl.empty(x)]
            else:
                out.append(c)
        return out

    def off(self, run, p, fl, gone, new, ev):
        """What came out is put together differently: the amounts decide."""
        R = self.R
        try:
            fl.extra = gone + new
            diff = fl.choices(lambda env: sum(fl.size(c, env) for c in gone) - sum(fl.size(c, env) for c in new))
        except Unclear as x:
            raise Unclear(f"what becomes of {self.say(new[0])} is not followed ({x})")
        if any(d > 0 for d in diff):
            R.fail(run, p, "loses intervals of " + (self.say(gone[0]) if gone else "?"), ev)
        else:
            raise Unclear(f"what becomes of {self.say(new[0])} is not followed")

    def say(self, c):
        k, x = c
        return {"one": "the interval ", "tree": "the subtree ", "seq": "the list "}[k] + brief(x, 60)

    # -- order and limits ----------------------------------------------------------------------------

    def valid(self, run, p, fl, v, ty, ev=None, d=0):
        e = run.e
        t = e.ty(ty)
        if d > 40 or v.k in ("moved", "unset"):
            return
        if t["k"] == "ref":
            if v.k == "pt":
                self.valid(run, p, fl, v.a[2], t["t"], ev, d + 1)
            return
        if t["k"] == "tuple":
            if v.k == "tup":
                for x, y in zip(v.a[0], t["ts"]):
                    self.valid(run, p, fl, x, y, ev, d + 1)
            return
        if t["k"] not in ("struct", "enum"):
            return
        df = t.get("def")
        if df == "alloc::boxed::Box":
            if v.k == "pt":
                self.valid(run, p, fl, v.a[2], t["args"][0], ev, d + 1)
            return
        if df == "core::option::Option":
            if v.k == "adt" and v.a[1] == 1:
                self.valid(run, p, fl, v.a[2][0], t["args"][0], ev, d + 1)
            return
        if is_node(e, ty):
            if v.k == "adt":
                self.node(run, p, fl, v, ty, ev)
                fs = t["variants"][0]["fields"]
                for i in self.sh.kids:
                    self.valid(run, p, fl, v.a[2][i], fs[i][1], ev, d + 1)
            return
        if t.get("variants") and is_tree(e, ty) and v.k == "adt":
            for i, f in enumerate(t["variants"][0]["fields"]):
                self.valid(run, p, fl, v.a[2][i], f[1], ev, d + 1)

    def node(self, run, p, fl, v, ty, ev):
        R, e, sh = self.R, run.e, self.sh
        fs = e.ty(ty)["variants"][0]["fields"]
        if v.a[2][sh.value].k == "moved" or any(v.a[2][i].k == "moved" for i in sh.kids):
            # taken apart
            return
        val = key(v.a[2][sh.value])
        m = key(v.a[2][sh.max])
        kids = [fl.comps(v.a[2][i], fs[i][1]) for i in sh.kids]
        fl.extra = [("one", val)] + kids[0] + kids[1]
        helper = self.now not in self.direct
        # the limit term of each child as a whole
        whole = []
        for i in sh.kids:
            x = v.a[2][i]
            if x.k == "adt":
                if x.a[1] == 0:
                    whole.append(None)
                    continue
                c = x.a[2][0]
                c = c.a[2] if c.k == "pt" else drf(key(c))
                whole.append((None, key(c.a[2][sh.max])) if c.k == "adt" else (key(c), fl.limit(key(c))))
            else:
                c = drf(fld(key(x), 1, 0))
                whole.append((c, fl.limit(c)))
        for _ in fl.cases(kids[0] + kids[1]):
            base, clauses = fl.world()
            base = base + fl.someone(("one", val))[1]
            if not sat(base, clauses):
                continue
            for side, cs in zip("lr", kids):
                for c in fl.spread(cs):
                    if fl.empty(c):
                        continue
                    w, about = fl.someone(c)
                    wrong = (gt if self.loose else ge)(lo(w), lo(val)) if side == "l" else lt(lo(w), lo(val))
                    may = sat(base + about + [wrong], clauses)
                    what = (f"puts {self.say(c)} on the left of one whose lower bound need not be above" if side == "l"
                            else f"puts {self.say(c)} on the right of one whose lower bound may be above") if may else "keeps the order"
                    if may and (c[0] == "seq" or helper or val.k == "op" and val.a[0] == "nth" or val.k == "elt"):
                        R.doubt(run.name, what)
                    else:
                        R.check(not may, run, p, what, ev)
            xs = [hi(val)] + [w[1] for w in whole if w is not None and (w[0] is None or fl.there(w[0]) is not False)]
            if not self.bound_like(m):
                R.doubt(run.name, f"a limit that is not followed: {brief(m, 60)}")
                continue
            low = any(sat(base + [lt(m, x)], clauses) for x in xs)
            high = sat(base + [(m, frozenset("<>"), x) for x in xs], clauses)
            what = ("records a limit that may be too low" if low else "records a limit that may be above every upper bound") if low or high else "an exact limit"
            if (low or high) and helper:
                R.doubt(run.name, what)
            else:
                R.check(not (low or high), run, p, what, ev)

    def bound_like(self, m):
        for x in subterms(m):
            if x.k == "phi" or x.k == "op" and x.a[0] not in ("lo", "hi", "ret", "changed", "nth", "slice", "without", "cat", "len", "seqlen",
                                                             "Div", "Add", "Sub", "Mul"):
                return False
        return True

    # -- loops ---------------------------------------------------------------------------------------

    def loop(self, run, lp):
        R, e = self.R, run.e
        if not lp.a[1]:
            return
        # a path for the state before the loop
        p = next(q for q in run.paths if lp in q.events)
        for c in lp.a[1]:
            facts = {k: v for k, v in p.st.facts.items() if not any(x.k == "phi" for y in k[1:] if hasattr(y, "k") for x in subterms(y))}
            facts = {k: v for k, v in facts.items() if k[0] not in ("more",)}
            facts.update({k: v for k, v in c.a[0]})
            vals = list(c.a[2]) + [ev.a[2] for ev in c.a[1] if ev.k == "client"]
            fl = Flow(self, run, p, c.a[1], facts, vals)
            if fl.loops:
                raise Unclear("a loop in a loop")
            phis = {ph: cs for ph, (l, cs) in fl.phis().items() if l is lp}
            outs, ins, done = [], [], set()
            for u in c.a[2]:
                if u.k == "upd" and key(u.a[0]) in phis:
                    ty = u.a[0].a[-1] or e.tyof(u.a[1])
                    outs += fl.comps(u.a[1], ty)
                    done.add(key(u.a[0]))
                    self.valid(run, p, fl, u.a[1], ty, lp)
            for ph, cs in phis.items():
                ins += cs
                if ph not in done:
                    outs += cs
            for S, n in self.consumed(fl, lp).items():
                d = next((u.a[1] for u in c.a[2] if u.k == "took" and key(u.a[0]) is S), None)
                if d is None:
                    continue
                for i in range(n):
                    ins.append(("one", key(mk("elt", S, (lp.a[0], i), None))))
            if not phis:
                if any(x.k == "client" for x in c.a[1]):
                    raise Unclear("a loop that changes something in place")
                continue
            self.kept(run, p, fl, ins, outs, None, lp)
        starts = [st for st in lp.a[2] if st.k == "from"]
        if not starts and not any(u.k == "upd" and u.a[1].k == "seq" and any(s.k in ("drop", "dropb") for s in u.a[1].a[0])
                                  for c in lp.a[1] for u in c.a[2]):
            R.doubt(run.name, "a loop that is not seen to end")

    # -- recursion descends --------------------------------------------------------------------------

    def descends(self, rec):
        R = self.R
        edges = {}
        for f in sorted(rec):
            run = self.iv.run(f, tuple(self.rec))
            if run.error or self.sigs.get(f) is None:
                continue
            for p in run.paths:
                for ev in p.events:
                    evs = [ev]
                    if ev.k == "loop":
                        evs = [x for c in ev.a[1] for x in c.a[1]]
                        loop = True
                    for x in evs:
                        if x.k == "client" and x.a[0].startswith("op ") and x.a[0][3:] in rec:
                            edges.setdefault(f, []).append((p, x, x.a[0][3:]))
        reach = {f: {f} for f in rec}
        changed = True
        while changed:
            changed = False
            for f in rec:
                for _, _, g in edges.get(f, ()):
                    if not reach[g] <= reach[f]:
                        reach[f] |= reach[g]
                        changed = True
        for f in sorted(rec):
            if self.sigs.get(f) is None:
                R.doubt(f, "a recursive function that is not followed")
                continue
            calls = [(p, x, g) for p, x, g in edges.get(f, ()) if f in reach[g]]
            if not calls:
                continue
            run = self.iv.run(f, tuple(self.rec))
            self.now = f
            sig = self.sigs[f]
            ks = [i for i, k in enumerate(sig.kinds) if k in ("own", "mut", "look")]
            shrinks = {i: True for i in ks}
            stays, why = None, None
            for p, x, g in calls:
                gs = self.sigs[g]
                any_less = False
                for i in ks:
                    if i >= len(gs.kinds) or gs.kinds[i] != sig.kinds[i]:
                        shrinks[i] = False
                        any_less = True
                        continue
                    try:
                        fl = Flow(self, run, p, p.events, p.st.facts, self.values(run, p))
                        mine = fl.comps(fl.inner(key(run.args[i]), sig.tys[i]), fl.innerty(sig.tys[i]))
                        given = fl.comps(fl.inner(x.a[2][i], gs.tys[i]), fl.innerty(gs.tys[i]))
                        fl.extra = mine + given
                        diff = fl.choices(lambda env: sum(fl.size(c, env) for c in mine) - sum(fl.size(c, env) for c in given))
                        if not diff or min(diff) < 1:
                            shrinks[i] = False
                        if not diff or max(diff) >= 1:
                            any_less = True
                    except Unclear as y:
                        shrinks[i] = False
                        any_less = True
                        why = str(y)
                if not any_less:
                    stays = (p, x)
            if any(shrinks.values()):
                R.check(True, run, calls[0][0], "descends")
            elif stays is not None:
                R.fail(run, stays[0], "calls itself with no less than it was given", stays[1])
            else:
                R.doubt(run.name, "not seen to end" + (f": {why}" if why else ""))


def c22(R):
    R.inductive = True
    R.rule("Every public function that changes a tree, and every recursive one below it, is analysed once; calls to recursive functions "
           "count as keeping their promise. On each path: what goes in comes out (deleting: less exactly one interval found equal, and none "
           "equal may remain elsewhere unlooked at); every node built or changed has only smaller lower bounds left and none right, and its "
           "limit is the greatest upper bound, in every total order consistent with the path; no panic; every recursion gets strictly less. "
           "A rotation that nothing uses is held to the same, equal lower bounds on either side.")
    R.assumptions = ["equal intervals have equal bounds, and an interval's lower bound does not exceed its upper bound",
                     "lo and hi answer the same each time they are asked", "comparison of bounds is a total order (Ord)"]
    try:
        Keep(R).go()
    except Unclear as x:
        R.doubt("interval", str(x))
