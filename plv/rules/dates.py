"""Dates: C24."""
from .itree import *

REL = {0: "<", 1: "=", 2: ">"}
FLIPD = {"f": "b", "b": "f"}


def side(t, A, B):
    """The component of one of the two dates a term is: (0 or 1, where)."""
    t = key(t)
    for n, S in ((0, A), (1, B)):
        if t.k == "elt" and t.a[0] is S:
            return n, t.a[1]
        if t.k == "op" and t.a[0] == "index" and t.a[1][0] is S:
            i = t.a[1][1]
            return n, i.a[1] if i.k == "elt" and places(key(i.a[0]), A, B) else i
    return None


def pairs(facts, A, B, whole=()):
    """What is known about corresponding components: [(where, relation of the first to the second)]."""
    out = []
    for k, v in facts:
        if k[0] != "rel":
            continue
        a, b = side(k[1], A, B), side(k[2], A, B)
        if (key(k[1]), key(k[2])) in (whole, whole[::-1]):
            out.append(("all", frozenset(v) if key(k[1]) is whole[0] else turned(v)))
        elif a and b:
            if a[1] != b[1] or a[0] == b[0]:
                raise Wrong("compares components at different places")
            out.append((a[1], frozenset(v) if a[0] == 0 else turned(v)))
    return out


def sides(ev, A, B):
    """The dates whose components the rounds look at."""
    return {x[0] for c in ev.a[1] for k, _ in c.a[0] if k[0] == "rel" for x in (side(k[1], A, B), side(k[2], A, B)) if x}


def places(S, A, B):
    """Is S the numbers of the components' places?"""
    if not (S.k == "op" and S.a[0] == "range" and len(S.a[1]) == 2):
        return False
    lo, n = S.a[1]
    if lo.k == "int" and lo.a[0] == 0 and n.k == "op" and (n.a[0] == "const" or n.a[0] == "len" and key(n.a[1][0]) in (A, B)):
        return True
    lows, highs = [amount(lo, i) for i in range(1, 9)], [amount(n, i) for i in range(1, 9)]
    if None not in lows + highs and any(x > 0 or y < i for i, (x, y) in enumerate(zip(lows, highs), 1)):
        raise Wrong("leaves out components")
    return False


def turned(v):
    return frozenset({"<": ">", ">": "<", "=": "="}[x] for x in v)


def outcome(e, v, A, B, r, whole=()):
    """The ordering a value stands for when the components compare like r; "phi" and "?" otherwise."""
    v = norm(v)
    if v.k == "adt" and len(v.a[2]) == 0:
        return REL[v.a[1]]
    if v.k == "ord":
        x, y = key(v.a[0]), key(v.a[1])
        if whole and (x, y) == whole:
            return r
        if whole and (y, x) == whole:
            return turned(r).__iter__().__next__()
        if whole and x is y and x in whole:
            raise Wrong("compares a date with itself")
        a, b = side(x, A, B), side(y, A, B)
        if a and b and a[1] == b[1] and a[0] != b[0]:
            return r if a[0] == 0 else next(iter(turned(r)))
        if a and b:
            raise Wrong("compares components at different places")
    if v.k == "phi":
        return "phi"
    raise Unclear(f"an order that is not followed: {brief(v, 60)}")


class Walk:
    """A loop over the components of both dates."""

    def __init__(self, e, ev, A, B, p):
        self.ev = ev
        self.limit = None
        ds = {}
        self.acc = None
        self.range = None
        for s in ev.a[2]:
            if s.k == "from":
                S = key(s.a[0])
                if places(S, A, B):
                    if s.a[2].k != "s":
                        raise Wrong("leaves out components")
                    ds[A] = ds[B] = s.a[1]
                    continue
                if S not in (A, B):
                    raise Unclear("goes over something else")
                if s.a[2].k != "s":
                    raise Wrong("leaves out components")
                ds[S] = s.a[1]
            elif s.k == "init":
                v = norm(s.a[1])
                if v.k == "adt" and e.head(v.a[0]).endswith("Range"):
                    self.range = (key(s.a[0]), v, "f")
                elif v.k == "adt" and e.head(v.a[0]).endswith("Rev"):
                    self.range = (key(s.a[0]), v, "b")
                elif v.k == "adt" and e.head(v.a[0]) == "core::cmp::Ordering" and self.acc is None:
                    self.acc = (key(s.a[0]), REL[v.a[1]])
                elif self.limit is None and counts_down(ev, key(s.a[0])):
                    self.limit = key(s.a[0])
                    enough(v, p)
                else:
                    raise Unclear("a loop with a state of its own")
        if self.range is None:
            if len(ds) == 1 and sides(ev, A, B) == {0, 1}:
                ds[A] = ds[B] = next(iter(ds.values()))     # the places of the one are those of the other
            if len(ds) == 1 and not contains(ev, B if A in ds else A) and not any(
                    contains(x, B if A in ds else A) for k in p.st.facts for x in k[1:] if hasattr(x, "k")):
                raise Wrong("looks at one of the dates only")
            if set(ds) != {A, B}:
                raise Unclear("a loop that does not go over both dates")
            if len(set(ds.values())) != 1:
                raise Wrong("goes over the two dates in opposite directions")
            self.dir = ds[A]
            if self.dir not in ("f", "b"):
                raise Unclear("goes from both ends")
        else:
            self.dir = None

    def first(self, where):
        """Is this the place the round is at?"""
        return True

    def ran_out(self, p):
        return any(k[0] == "more" and not v for k, v in p.st.facts.items()) or self.limit is not None and any(
            k[0] == "rel" and v == frozenset("=") and self.limit in (key(k[1]), key(k[2])) for k, v in p.st.facts.items())

    def lopsided(self, p):
        """One of two lists of the same length has ended and the other has not."""
        vs = {v for k, v in p.st.facts.items() if k[0] == "more"}
        return len(vs) > 1


def unequal(p, A, B):
    """The two lists do not have the same length: cannot be."""
    ls = {mk("op", "len", (A,), None), mk("op", "len", (B,), None)}
    return any(k[0] == "rel" and {key(k[1]), key(k[2])} == ls and "=" not in v for k, v in p.st.facts.items())


def place(R, w, where):
    """The direction of an index loop, from the index it uses."""
    ph = w.range[0]
    if not hasattr(where, "k"):
        raise Unclear("an index that is not followed")
    for x in subterms(where):
        if x is ph:
            break
    else:
        raise Unclear("an index that is not followed")
    if where.k == "op" and where.a[0] == "Sub":
        return "b"
    if where.k == "fld" and where.a[2] == 0:
        return "f"
    raise Unclear("an index that is not followed")


def c24(R):
    R.rule("Every path of the comparison of dates must answer with the first pair of components that differs, going from the most "
           "significant one (the first of a big-endian, the last of a little-endian date), over all components; equality must answer yes "
           "exactly if no pair differs; partial comparison must answer with the total one; a date must be its own bounds.")
    R.assumptions = ["comparison of components is a total order (Ord)"]
    iv = Iv(R)
    for name, want in (("LittleEndian", "b"), ("BigEndian", "f")):
        r = [p for p in iv.roots if "Date<" in p and p.endswith("Ord>::cmp") and "date::" + name in p]
        if len(r) != 1:
            R.doubt(name, "no comparison of its own")
            continue
        order(R, iv, r[0], want)
    for what, f in (("PartialOrd>::partial_cmp", partial), ("PartialEq>::eq", equal), ("Interval>::lo", itself), ("Interval>::hi", itself)):
        r = [p for p in iv.roots if "Date<" in p and p.endswith(what)]
        if not r:
            R.doubt(what, "no such function")
        for x in r:
            f(R, iv, x)


def dates(run):
    e = run.e
    a, b = (e.load(St(), x) for x in run.args[:2])
    t = e.ty(e.tyof(a))
    i = next(i for i, f in enumerate(t["variants"][0]["fields"]) if e.ty(f[1])["k"] == "array")
    return key(a), key(b), key(e.proj1(St(), a, ("f", 0, i))), key(e.proj1(St(), b, ("f", 0, i)))


def each(R, iv, path, f):
    run = iv.used(path)
    if run.error:
        return
    for p in run.paths:
        try:
            f(run, p)
        except Wrong as x:
            R.fail(run, p, str(x))
        except Unclear as x:
            R.doubt(run.name, str(x))


def the_loop(run, p, A, B):
    if [x for x in p.events if x.k in ("client", "rec", "ext", "sw", "mw")]:
        raise Unclear("calls code that is not followed")
    ls = [x for x in p.events if x.k == "loop"]
    if len(ls) > 1:
        raise Unclear("several loops")
    return Walk(run.e, ls[0], A, B, p) if ls else None


def counts_down(ev, phi):
    """Is this a count of the rounds left?"""
    us = [u.a[1] for c in ev.a[1] for u in c.a[2] if u.k == "upd" and key(u.a[0]) is phi]
    return len(us) == len(ev.a[1]) and all(u.k == "op" and u.a[0].startswith("Sub") and key(u.a[1][0]) is phi and u.a[1][1].k == "int" and u.a[1][1].a[0] == 1
                                           for u in us)


def amount(t, n):
    """The value of a number if there are n components."""
    t = norm(t)
    if t.k == "int":
        return t.a[0]
    if t.k == "op" and t.a[0] in ("const", "len"):
        return n
    if t.k == "op" and t.a[0][:3] in ("Add", "Sub", "Mul") and len(t.a[1]) == 2:
        x, y = (amount(z, n) for z in t.a[1])
        if x is None or y is None:
            return None
        return {"Add": x + y, "Sub": x - y, "Mul": x * y}[t.a[0][:3]]
    return None


def enough(t, p):
    """The rounds allowed by t are as many as there are components."""
    if t.k == "op" and t.a[0] in ("const", "len"):
        return
    for n in range(1, 9):
        known = True
        for k, v in p.st.facts.items():
            if k[0] == "rel":
                x, y = amount(k[1], n), amount(k[2], n)
                if x is not None and y is not None and ("<" if x < y else "=" if x == y else ">") not in v:
                    known = False
        x = amount(t, n)
        if known and x is not None and x < n:
            raise Wrong("leaves out components")
    raise Unclear("a loop with a state of its own")


def index_panic(R, run, p, w):
    """A panic of indexing, or of counting down: cannot happen if the loop goes over the components' indices."""
    st = w.range[1]
    r = st if len(st.a[2]) == 2 else norm(st.a[2][0])
    if not (len(r.a[2]) == 2 and r.a[2][0].k == "int" and r.a[2][0].a[0] == 0 and r.a[2][1].k == "op" and r.a[2][1].a[0] in ("const", "len")):
        R.doubt(run.name, "may panic")
    return True


def order(R, iv, path, want):
    def one(run, p):
        a, b, A, B = dates(run)
        if unequal(p, A, B):
            return
        w = the_loop(run, p, A, B)
        if p.kind != "ret":
            if w is not None and w.range is not None and index_panic(R, run, p, w):
                return
            R.fail(run, p, "does not return")
            return
        if w is None:
            ps = pairs(p.st.facts.items(), A, B, (A, B))
            if any(x != "all" for x, _ in ps):
                raise Unclear("compares single components")
            rs = frozenset.intersection(frozenset("<=>"), *[r for _, r in ps])
            for s in rs:
                R.check(outcome(run.e, p.value, A, B, s, (A, B)) == s, run, p, "orders the dates the other way round")
            R.check(want == "f", run, p, "orders the dates by the least significant component")
            return
        d = w.dir
        table = {}
        for c in w.ev.a[1]:
            ps = pairs(c.a[0], A, B)
            if w.range is not None:
                if not ps:
                    raise Unclear("a round that compares nothing")
                d = place(R, w, ps[0][0])
            elif any(u.k == "took" and u.a[2] != 1 for u in c.a[2]):
                raise Unclear("takes several components at a time")
            r = frozenset.intersection(frozenset("<=>"), *[x for _, x in ps])
            if w.acc is None:
                R.check(r == frozenset("="), run, p, "goes on past a pair of components that differs", w.ev)
                continue
            upd = next((u.a[1] for u in c.a[2] if u.k == "upd" and key(u.a[0]) is w.acc[0]), None)
            accs = "<=>"
            for k, v in c.a[0]:
                if k[0] == "var" and key(k[1]) is w.acc[0]:
                    accs = REL[v]
            for acc in accs:
                for s in r:
                    v = acc if upd is None else outcome(run.e, upd, A, B, s)
                    v = acc if v == "phi" else v
                    if table.setdefault((acc, s), v) != v:
                        raise Unclear("a round with several outcomes")
        if w.acc is not None:
            if len(table) < 9:
                raise Unclear("a round that is not followed")
            R.check(w.acc[1] == "=", run, p, "starts from an order")
            if all(v == (acc if acc != "=" else s) for (acc, s), v in table.items()):
                pass
            elif all(v == (s if s != "=" else acc) for (acc, s), v in table.items()):
                d = FLIPD[d]
            else:
                R.fail(run, p, "does not keep the order of the first pair that differs", w.ev)
                return
        if d is not None:
            R.check(d == want, run, p, "orders the dates by the least significant component", w.ev)
        # how the loop was left
        if w.lopsided(p):
            return
        out = w.ran_out(p)
        ps = pairs(p.st.facts.items(), A, B)
        if w.range is not None:
            out = not ps
            if ps:
                R.check(place(R, w, ps[0][0]) == want, run, p, "orders the dates by the least significant component", w.ev)
        if out:
            v = outcome(run.e, p.value, A, B, "=")
            R.check(v == ("phi" if w.acc is not None else "="), run, p, "does not call equal dates equal")
            return
        r = frozenset.intersection(frozenset("<=>"), *[x for _, x in ps])
        R.check("=" not in r, run, p, "answers although the components compared may be equal")
        for s in r - {"="}:
            v = outcome(run.e, p.value, A, B, s)
            R.check(v == s, run, p, "does not answer with the order of the components that differ")
    each(R, iv, path, one)


def partial(R, iv, path):
    def one(run, p):
        a, b, A, B = dates(run)
        if p.kind != "ret":
            if not [x for x in p.events if x.k == "client"]:
                R.fail(run, p, "does not return")
            return
        v = norm(p.value)
        if v.k != "adt":
            raise Unclear("an answer that is not followed")
        if v.a[1] == 0:
            R.fail(run, p, "does not compare some dates")
            return
        ps = pairs(p.st.facts.items(), A, B, (a, b))
        if any(x != "all" for x, _ in ps) or [x for x in p.events if x.k in ("loop", "client", "ext")]:
            raise Unclear("compares components itself")
        rs = frozenset.intersection(frozenset("<=>"), *[r for _, r in ps])
        for s in rs:
            R.check(outcome(run.e, v.a[2][0], A, B, s, (a, b)) == s, run, p, "does not agree with the total order")
    each(R, iv, path, one)


def equal(R, iv, path):
    def one(run, p):
        a, b, A, B = dates(run)
        if unequal(p, A, B):
            return
        w = the_loop(run, p, A, B)
        if p.kind != "ret":
            if w is not None and w.range is not None and index_panic(R, run, p, w):
                return
            R.fail(run, p, "does not return")
            return
        whole = (A, B)
        ps = pairs(p.st.facts.items(), A, B, whole)
        r = frozenset.intersection(frozenset("<=>"), *[x for _, x in ps])
        v = norm(p.value)

        def says(s):
            x = v
            neg_ = False
            while x.k == "not":
                x, neg_ = x.a[0], not neg_
            if x.k == "bool":
                return x.a[0] != neg_
            if x.k == "cmp" and x.a[0] in ("Eq", "Ne"):
                y = {key(x.a[1]), key(x.a[2])}
                sd = [side(t, A, B) for t in y]
                if y == set(whole) or len(sd) == 2 and all(sd) and sd[0][0] != sd[1][0] and sd[0][1] == sd[1][1]:
                    return ((x.a[0] == "Eq") == (s == "=")) != neg_
            raise Unclear(f"an answer that is not followed: {brief(x, 60)}")
        if w is None:
            if any(x != "all" for x, _ in ps):
                R.check(not says("="), run, p, "compares some components only") if r == frozenset("=") else None
                if v.k != "bool":
                    raise Wrong("compares some components only")
            for s in r:
                R.check(says(s) == (s == "="), run, p, "calls different dates equal" if s != "=" else "calls equal dates different")
            return
        for c in w.ev.a[1]:
            rr = frozenset.intersection(frozenset("<=>"), *[x for _, x in pairs(c.a[0], A, B)])
            R.check(rr == frozenset("="), run, p, "goes on past a pair of components that differs", w.ev)
        if w.acc is not None:
            raise Unclear("a loop with a state of its own")
        if w.lopsided(p):
            return
        if w.ran_out(p) or w.range is not None and not ps:
            R.check(says("="), run, p, "calls equal dates different")
            return
        R.check("=" not in r, run, p, "answers although the components compared may be equal")
        for s in r - {"="}:
            R.check(not says(s), run, p, "calls different dates equal")
    each(R, iv, path, one)


def itself(R, iv, path):
    def one(run, p):
        e = run.e
        me = key(e.load(St(), run.args[0]))
        if p.kind != "ret" or [x for x in p.events if x.k in ("client", "loop", "ext")]:
            raise Unclear("not followed")
        v = norm(p.value)
        ok = key(v) is me
        if not ok and v.k == "adt":
            t = e.ty(v.a[0])["variants"][0]["fields"]
            ok = all(e.ty(f[1])["k"] != "array" or key(v.a[2][i]) is key(e.proj1(St(), e.load(St(), run.args[0]), ("f", 0, i)))
                     for i, f in enumerate(t))
        if not ok and v.k not in ("adt",):
            raise Unclear("an answer that is not followed")
        R.check(ok, run, p, "a date is not its own bound")
    each(R, iv, path, one)
