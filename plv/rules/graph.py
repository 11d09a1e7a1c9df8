"""Graphs and node handles: C14, C15."""
from ..base import *
from ..engine import St
from .ops import behind


def idt(t):
    return untyped(mk("op", "id", (t,), None))


def same_term(a, b):
    return untyped(norm(a)) is untyped(norm(b))


def target_of(ptr):
    """What a pointer designates: the term of the place's content, for places not written to."""
    if ptr.k == "pt":
        return ptr.a[2]
    return None


def same_key(k, want):
    """A key is the wanted one: the id itself, or what the reference to it leads to."""
    k, want = untyped(norm(k)), untyped(norm(want))
    return k is want or k is untyped(mk("drf", want, None)) or untyped(mk("drf", k, None)) is want


def equal_key(p, k, want):
    """Likewise, or known to be equal to it on this path."""
    if same_key(k, want):
        return True
    return any(f[0] == "rel" and v == frozenset("=") and (same_key(f[1], k) and same_key(f[2], want) or same_key(f[2], k) and same_key(f[1], want))
               for f, v in p.st.facts.items())


def has_facts(p):
    return [(k, v) for k, v in p.st.facts.items() if k[0] == "has"]


def asked(R, run, p, key):
    """Whether the graph holds the key on this path; None if the path does not depend on it."""
    hs = has_facts(p)
    for f, v in p.st.facts.items():
        if f[0] == "val" and v and f[1].k == "op" and f[1].a[0] == "mapis_empty" and behind(f[1], run.args[0]) and not hs:
            return False
    mine = [v for k, v in hs if behind(k[1], run.args[0]) and equal_key(p, k[2], key)]
    if mine:
        return mine[0]
    for k, v in hs:
        R.fail(run, p, f"another id is looked up: {brief(k[2], 60)}", None, (k[2],))
    if hs:
        return hs[0][1]
    e = scanned(run, p, key)
    return e if e is None or e is False else True


def scanned(run, p, key):
    """Likewise for a path that goes through the nodes: the one whose id is the key, False if none is, None if that is not what it looks for.

    Nodes are kept under their own ids (insert, with_node and from_iter are held to that)."""
    lps = [x for x in p.events if x.k == "loop"]
    if len(lps) != 1:
        return None
    lp = lps[0]
    src = [x for x in lp.a[2] if x.k == "from" and x.a[0].k == "op" and x.a[0].a[0] == "entries" and behind(x.a[0], run.args[0])]
    if len(src) != 1 or src[0].a[2].k != "s":
        return None
    s = src[0].a[0]

    def is_key(t):
        return same_key(t, key)

    def elem(t):
        """The node whose id, or under whose key, the term is."""
        t = untyped(norm(t))
        while t.k == "drf":
            t = t.a[0]
        if t.k == "op" and t.a[0] == "id" and len(t.a[1]) == 1:
            t, n = t.a[1][0], 1
            while t.k == "drf":
                t = t.a[0]
        else:
            n = 0
        if t.k == "fld" and t.a[2] == n and t.a[0].k == "elt" and untyped(t.a[0].a[0]) is untyped(s):
            return t.a[0]
        return None

    def compared(facts):
        """(node, outcome) of comparing its id with the key."""
        out = []
        for f, v in facts.items():
            if f[0] != "rel":
                continue
            for a, b in ((f[1], f[2]), (f[2], f[1])):
                if is_key(a) and elem(b) is not None:
                    out.append((elem(b), v))
        return out

    for c in lp.a[1]:
        cs = compared(dict(c.a[0]))
        if len(cs) != 1 or "=" in cs[0][1] or not any(u.k == "took" and u.a[0] is s and u.a[2] == 1 for u in c.a[2]):
            return None
    more = [v for f, v in p.st.facts.items() if f[0] == "more" and f[1] is s]
    mine = compared(p.st.facts)
    if more == [False] and not mine:
        return False
    if more == [True] and len(mine) == 1 and mine[0][1] == frozenset("="):
        return mine[0][0]
    return None


def final_writes(R, run, p):
    """The changes to the graph's map on this path, in order."""
    ws = [x for x in flat(p.events) if x.k == "mw"]
    loops = [x for x in p.events if x.k in ("loop", "rec")]
    return ws, loops


def sole_write(R, run, p, key, val):
    """The map changes exactly at key, ending with val (None: removed)."""
    ws, loops = final_writes(R, run, p)
    last = None
    for w in ws:
        if w.a[1] == "clear":
            R.fail(run, p, "the other nodes are lost", w)
            return
        if w.a[1] not in ("ins", "del"):
            R.doubt(run.name, f"the map is changed in a way not followed: {w.a[1]}")
            return
        if not R.check(equal_key(p, w.a[2], key), run, p, f"the entry of another id is changed: {brief(w.a[2], 60)}", w, (w.a[2],)):
            return
        last = w
    if loops:
        R.doubt(run.name, "the map is changed by a loop")
        return
    has = asked(R, run, p, key)
    if val is None:
        R.check(last is not None and last.a[1] == "del" or last is None and has is False, run, p, "the node is not removed", last)
    else:
        if R.check(last is not None and last.a[1] == "ins", run, p, "the node is not stored", last):
            R.check(same_term(last.a[3], val), run, p, f"something else than the node is stored: {brief(last.a[3], 60)}", last, (last.a[3],))
    left(R, run, p, key, val)
    return has


def left(R, run, p, key, val):
    """The graph ends up as it was, apart from the entry of key."""
    e = run.e
    a0 = run.args[0]
    if e.ty(e.tyof(a0))["k"] != "ref":
        return
    g = e.read(p.st, mk("deref", a0), ())
    old = e.read(St(), mk("deref", a0), ())
    if untyped(norm(g)) is untyped(norm(old)):
        return
    ms = [t for t in subterms(g) if t.k == "map"]
    if not R.check(len(ms) == 1 and ms[0].a[0] is not None and behind(ms[0].a[0], a0), run, p, "the graph loses its other nodes", None, (g,)):
        return
    for o in ms[0].a[1]:
        R.check(o.k in ("ins", "del") and equal_key(p, o.a[0], key), run, p, "the entry of another id is changed", None, (o,))




def displaced(R, run, p, has, key, what):
    v = p.value
    if has is None:
        R.check(False, run, p, f"whether there was {what} is not reported", None, (v,))
        return
    if not has:
        R.check(v.k == "adt" and v.a[1] == 0 and not v.a[2], run, p, f"reports {what} although there was none", None, (v,))
        return
    if R.check(v.k == "adt" and v.a[1] == 1 and len(v.a[2]) == 1, run, p, f"does not report {what}", None, (v,)):
        x = v.a[2][0]
        found = scanned(run, p, key) if not has_facts(p) else None
        if found:
            u = untyped(norm(x))
            R.check(u.k == "fld" and u.a[2] == 1 and u.a[0] is found, run, p, f"reports {brief(x, 60)} instead of {what}", None, (x,))
            return
        R.check(x.k == "mval" and behind(x.a[0], run.args[0]) and equal_key(p, x.a[1], key), run, p,
                f"reports {brief(x, 60)} instead of {what}", None, (x,))


def result_map(p):
    return [t for t in subterms(p.value) if t.k == "map"]


def c14(R):
    R.rule("insert, with_node: the only entry of the graph's map changed is that of the node's own id, which ends up holding the node; remove: only that of the "
           "id given, which ends up absent; the displaced node is returned. get and contains answer from the entry of exactly the id given. from_iter: "
           "starting from nothing, one insertion per item in the order given, of the item under its id. Iteration: each entry once, with its value.")
    # insert
    run = R.run("graph_insert")
    node = run.args[1] if run.args else None
    for p in run.paths:
        if not no_panic(R, run, p) or not R.check(p.kind == "ret", run, p, "unwinds"):
            continue
        has = sole_write(R, run, p, idt(node), node)
        displaced(R, run, p, has, idt(node), "the node replaced")
    # with_node
    run = R.run("graph_with_node")
    for p in run.paths:
        node = run.args[1]
        if not no_panic(R, run, p) or not R.check(p.kind == "ret", run, p, "unwinds"):
            continue
        sole_write(R, run, p, idt(node), node)
        ms = result_map(p)
        if not R.check(len(ms) == 1, run, p, "the graph returned is not the one with the node", None, (p.value,)):
            continue
        m = ms[0]
        R.check(m.a[0] is not None and behind(m.a[0], run.args[0]), run, p, "the other nodes are lost", None, (p.value,))
        last = m.a[1][-1] if m.a[1] else None
        R.check(last is not None and last.k == "ins" and same_key(last.a[0], idt(node)) and same_term(last.a[1], node), run, p,
                "the graph returned does not hold the node under its id", None, (p.value,))
    # remove
    run = R.run("graph_remove")
    for p in run.paths:
        if not no_panic(R, run, p) or not R.check(p.kind == "ret", run, p, "unwinds"):
            continue
        has = sole_write(R, run, p, run.args[1], None)
        displaced(R, run, p, has, run.args[1], "the node removed")
    # get, contains
    run = R.run("graph_get")
    for p in run.paths:
        if not no_panic(R, run, p) or not R.check(p.kind == "ret", run, p, "unwinds"):
            continue
        unchanged(R, run, p)
        for c, v in dirtied(run, p):
            R.fail(run, p, "reading changes the graph", None, (v,))
        has = asked(R, run, p, run.args[1])
        displaced(R, run, p, has, run.args[1], "the node of that id")
    run = R.run("graph_contains")
    for p in run.paths:
        if not no_panic(R, run, p) or not R.check(p.kind == "ret", run, p, "unwinds"):
            continue
        unchanged(R, run, p)
        for c, v in dirtied(run, p):
            R.fail(run, p, "reading changes the graph", None, (v,))
        has = asked(R, run, p, run.args[1])
        R.check(has is not None and p.value.k == "bool" and p.value.a[0] == has, run, p,
                "says a node is not there although it is" if has else "says a node is there although it is not", None, (p.value,))
    # from a sequence
    run = R.run("graph_from_iter")
    for p in run.paths:
        if not no_panic(R, run, p):
            continue
        if p.kind != "ret":
            continue
        built(R, run, p)
    # default
    run = R.run("graph_default")
    for p in run.paths:
        if no_panic(R, run, p) and R.check(p.kind == "ret", run, p, "unwinds"):
            ms = result_map(p)
            R.check(len(ms) == 1 and ms[0].a[0] is None and not ms[0].a[1], run, p, "a new graph has nodes", None, (p.value,))
    # iteration
    run = R.run("graph_visit")
    for p in run.paths:
        if not no_panic(R, run, p):
            continue
        visited(R, run, p)


def unchanged(R, run, p):
    w = next((x for x in flat(p.events) if x.k in ("mw", "sw")), None)
    R.check(w is None, run, p, "reading changes the graph", w)


def feeding(lp):
    """(sequence, direction, count or None) for each sequence a loop takes from, by case."""
    frm = {x.a[0]: x for x in lp.a[2] if x.k == "from"}
    out = {}
    for s, f in frm.items():
        out[s] = [[u for u in c.a[2] if u.k == "took" and u.a[0] is s] for c in lp.a[1]]
    return frm, out


def drained(R, run, p, lp, seq, what):
    """The loop runs over the whole of seq, one element a turn, in order; what is left when it ends is nothing."""
    frm, took = feeding(lp)
    s = next((x for x in frm if x is seq or untyped(x) is untyped(seq)), None)
    if not R.check(s is not None, run, p, f"not all of {what} is gone through", lp):
        return None
    f = frm[s]
    whole = f.a[2].k == "s" and f.a[2].a[0] is s
    R.check(whole, run, p, f"part of {what} is left out", lp)
    for ts in took[s]:
        R.check(len(ts) == 1 and ts[0].a[2] == 1, run, p, f"not each one of {what} is treated", lp)
    left = [v for k, v in p.st.facts.items() if k[0] == "more" and k[1] is s]
    if p.kind == "ret":
        R.check(bool(left) and left[-1] is False, run, p, f"stops before the end of {what}", lp)
    return f.a[1]


def elems(lp, s, n=0):
    """Terms standing for the element of s taken by a turn of the loop."""
    return [t for c in lp.a[1] for t in subterms(c) if t.k == "elt" and untyped(t.a[0]) is untyped(s)]


def built(R, run, p):
    ms = result_map(p)
    if not R.check(len(ms) == 1, run, p, "no graph is built", None, (p.value,)):
        return
    m = ms[0]
    if not R.check(m.a[0] is None, run, p, "the graph does not start empty", None, (p.value,)):
        return
    lps = [x for x in p.events if x.k == "loop"]
    if len(m.a[1]) == 0 and not lps:
        empty = any(k[0] in ("more", "empty") and behind(k[1], run.args[0]) for k, v in p.st.facts.items())
        R.check(empty, run, p, "the nodes given are left out", None, (p.value,))
        return
    if len(m.a[1]) != 1 or m.a[1][0].k != "macc" or len(lps) != 1:
        other = [o for o in m.a[1] if o.k in ("ins", "del")]
        if other and len(lps) == 1:
            R.fail(run, p, "one entry is changed besides those of the nodes given", None, (p.value,))
        else:
            R.doubt(run.name, "the graph is built in a way not followed")
        return
    lp = lps[0]
    d = drained(R, run, p, lp, run.args[0], "the nodes given")
    if d is None:
        return
    R.check(d == "f", run, p, "the nodes are put in from last to first, so that the first one of an id remains", lp)
    acc = m.a[1][0].a[0]
    for c in lp.a[1]:
        es = {t for t in subterms(c) if t.k == "elt" and behind(t.a[0], run.args[0])}
        ops = [u for u in c.a[2] if u.k == "upd" and u.a[0] is acc]
        ins = [o for u in ops for o in u.a[1].a[0]] if ops else []
        if not R.check(bool(ins), run, p, "a node given is left out", lp):
            continue
        if not R.check(len(ins) == 1 and ins[0].k == "ins", run, p, "not exactly the node given is put in", lp, tuple(ins)):
            continue
        key, val = ins[0].a[0], ins[0].a[1]
        R.check(any(same_term(val, x) for x in es), run, p, f"something else than the node is stored: {brief(val, 60)}", lp, (val,))
        R.check(any(same_key(key, idt(x)) for x in es), run, p, f"a node is stored under {brief(key, 60)}, not its id", lp, (key,))


def visited(R, run, p):
    unchanged_others(R, run, p)
    lps = [x for x in p.events if x.k == "loop"]
    if len(lps) == 2:
        listed(R, run, p, *lps)
        return
    if not R.check(len(lps) == 1, run, p, "the nodes are not gone through", lps[0] if lps else None):
        return
    lp = lps[0]
    frm, _ = feeding(lp)
    s = next((x for x in frm if x.k == "op" and x.a[0] == "entries"), None)
    if s is None:
        R.doubt(run.name, "iterates over something that is not followed")
        return
    R.check(behind(s, run.args[0]), run, p, "other nodes are gone through", lp, (s,))
    drained(R, run, p, lp, s, "the nodes")
    for c in lp.a[1]:
        cs = [x for x in c.a[1] if is_call(x, "call F")]
        if not R.check(len(cs) == 1, run, p, f"a node is yielded {len(cs)} times", lp):
            continue
        args = [t for t in subterms(cs[0].a[1]) if t.k in ("at", "mval") or t.k == "elt"]
        ok = any(t.k == "fld" and t.a[2] == 1 and t.a[0].k == "elt" and t.a[0].a[0] is s for t in subterms(cs[0].a[1])) or \
            any(t.k == "elt" and t.a[0] is s for t in args)
        R.check(ok, run, p, "something else than the node is yielded", cs[0], tuple(cs[0].a[1]))
        key_only = any(t.k == "fld" and t.a[2] == 0 and t.a[0].k == "elt" and t.a[0].a[0] is s for t in subterms(cs[0].a[1]))
        R.check(not key_only, run, p, "a key is yielded", cs[0])


def listed(R, run, p, one, two):
    """The first loop lists the nodes, the second one yields what was listed."""
    frm, _ = feeding(one)
    s = next((x for x in frm if x.k == "op" and x.a[0] == "entries"), None)
    acc = next((x for x in feeding(two)[0] if x.k == "acc" and x.a[0] is one.a[0]), None)
    if s is None or acc is None or not any(x.k == "init" and x.a[0] is acc and x.a[1].k == "seq" and not x.a[1].a[0] for x in one.a[2]):
        R.doubt(run.name, "iterates over something that is not followed")
        return
    R.check(behind(s, run.args[0]), run, p, "other nodes are gone through", one, (s,))
    drained(R, run, p, one, s, "the nodes")
    drained(R, run, p, two, acc, "the nodes")
    for c in one.a[1]:
        R.check(not [x for x in c.a[1] if x.k == "client"], run, p, "a node is yielded while they are listed", one)
        new = [u.a[1] for u in c.a[2] if u.k == "upd" and u.a[0] is acc]
        xs = [y.a[0] if y.k == "e" else y for u in new if u.k == "seq" for y in u.a[0]]
        ok = len(xs) == 1 and any(t.k == "fld" and t.a[2] == 1 and t.a[0].k == "elt" and t.a[0].a[0] is s for t in subterms(xs[0]))
        R.check(ok, run, p, "something else than the node is listed", one, tuple(xs))
    for c in two.a[1]:
        cs = [x for x in c.a[1] if is_call(x, "call F")]
        if R.check(len(cs) == 1, run, p, f"a node is yielded {len(cs)} times", two):
            R.check(cs[0].a[1][-1].k == "elt" and cs[0].a[1][-1].a[0] is acc, run, p, "something else than the node is yielded", cs[0], tuple(cs[0].a[1]))


def unchanged_others(R, run, p):
    w = next((x for x in flat(p.events) if x.k in ("mw", "sw") and x.a[0].a[0].k not in ("heap", "loc")), None)
    R.check(w is None, run, p, "iterating changes the graph", w)


# ---- C15 -----------------------------------------------------------------------------------------


def handle_parts(e, t):
    """(source, id, rest) of a handle, by the types of its fields."""
    d = e.ty(t.a[0])
    src = idf = None
    rest = []
    names = field_names(e, t)
    for i, f in enumerate(t.a[2]):
        if names[i] == "source":
            src = f
        elif names[i] == "id":
            idf = f
        else:
            rest.append(f)
    return src, idf, rest


def field_names(e, t):
    return [f[0] for f in e.ty(t.a[0])["variants"][0]["fields"]]


SRC_GET = "Source::get"
SRC_HAS = "Source::contains"


def source_calls(p, name):
    return [x for x in flat(p.events) if x.k == "client" and name in x.a[0]]


def asks(R, run, p, ev, src, key):
    """A call on the source concerns this source and this id."""
    a = ev.a[2]
    ok = len(a) == 2 and a[0].k == "pt" and a[1].k == "pt"
    if not R.check(ok, run, p, "the source is called in a way not followed", ev):
        return False
    R.check(same_key(a[0].a[2], src) or same_term(a[0].a[2], src), run, p, f"another source is asked: {brief(a[0].a[2], 60)}", ev, (a[0].a[2],))
    return R.check(same_term(a[1].a[2], key), run, p, f"the source is asked for another id: {brief(a[1].a[2], 60)}", ev, (a[1].a[2],))


def truth(p, t):
    """The truth value of a boolean term given the facts of the path; None if open."""
    if t.k == "bool":
        return t.a[0]
    if t.k == "not":
        v = truth(p, t.a[0])
        return None if v is None else not v
    return p.st.facts.get(("val", t))


def equals_not(v, r):
    return v.k == "not" and untyped(v.a[0]) is untyped(r)


def virtual(R, n, src, key):
    run = R.run(n)
    for p in run.paths:
        if not no_panic(R, run, p) or p.kind != "ret":
            continue
        s, k = src(run), key(run)
        hs, gs = source_calls(p, SRC_HAS), source_calls(p, SRC_GET)
        if not R.check(len(hs) + len(gs) >= 1, run, p, "whether a handle is virtual is answered without asking its source", None, (p.value,)):
            continue
        for ev in hs + gs:
            asks(R, run, p, ev, s, k)
        ok = False
        for ev in hs:
            r = ev.a[3]
            tv = p.st.facts.get(("val", r))
            ok = ok or equals_not(p.value, r) or tv is not None and p.value.k == "bool" and p.value.a[0] == (not tv)
        for ev in gs:
            v = variant_of(p, ev.a[3])
            ok = ok or v is not None and p.value.k == "bool" and p.value.a[0] == (v == 0)
        R.check(ok, run, p, f"a handle is said to be virtual if {brief(p.value, 80)}", (hs + gs)[0], (p.value,))


def is_result(p, v, ev):
    """v is (a copy of) what the source returned."""
    r = ev.a[3]
    x = variant_of(p, r)
    if same_term(v, r):
        return True
    if v.k != "adt" or x is None or v.a[1] != x:
        return False
    return x == 0 and not v.a[2] or x == 1 and same_term(v.a[2][0], mk("fld", r, 1, 0, None))


def derefs(R, n, parts=1):
    run = R.run(n)
    for p in run.paths:
        if not no_panic(R, run, p) or p.kind != "ret":
            continue
        gs = source_calls(p, SRC_GET)
        hs = source_calls(p, SRC_HAS)
        if not R.check(bool(gs) or bool(hs), run, p, "a handle dereferences without asking its source", None, (p.value,)):
            continue
        for ev in gs + hs:
            asks(R, run, p, ev, run.args[0], run.args[1])
        vals = list(p.value.a[0]) if parts > 1 and p.value.k == "tup" else [p.value]
        for v in vals:
            ok = any(is_result(p, v, ev) for ev in gs)
            if not ok and not gs and v.k == "adt" and v.a[1] == 0:
                ok = any(p.st.facts.get(("val", ev.a[3])) is False for ev in hs)
            R.check(ok, run, p, f"a handle dereferences to {brief(v, 80)} instead of its source's node", (gs + hs)[0], (v,))


def memo(p, run):
    """Variants of the value a handle may have remembered."""
    return [(k[1], v) for k, v in p.st.facts.items() if k[0] == "var" and k[1].k == "op" and k[1].a[0] == "loaded" and behind(k[1], run.args[0])]


def handle_ok(R, run, p, t, src, key, ev=None):
    e = run.e
    d = e.ty(t.a[0])
    if not R.check(d.get("def", "").endswith("NodeProxy"), run, p, "no handle is returned", ev, (t,)):
        return
    s, k, rest = handle_parts(e, t)
    if not R.check(s is not None and k is not None, run, p, "a handle has no source or id", ev, (t,)):
        return
    R.check(same_term(s, src) or same_key(s, src), run, p, f"a handle is on another source: {brief(s, 60)}", ev, (s,))
    R.check(same_term(k, key), run, p, f"a handle has another id: {brief(k, 60)}", ev, (k,))
    for x in rest:
        odd = next((y for y in subterms(x) if y.k in SYMLIKE and y.k != "phi"), None)
        if odd is None:
            R.check(not any(y.k == "adt" and e.head(y.a[0]).endswith("Option") for y in subterms(x)), run, p,
                    "a handle remembers something its source was not asked for", ev, (x,))
            continue
        gs = [g for g in source_calls(p, SRC_GET) if any(y is g.a[3] for y in subterms(x))]
        same_id = [g for g in gs if len(g.a[2]) == 2 and g.a[2][1].k == "pt" and same_term(g.a[2][1].a[2], key)]
        R.check(bool(same_id), run, p, f"a new handle remembers the value of another id: {brief(odd, 60)}", ev, (x,))


def successors(R, n, src, key, fresh):
    run = R.run(n)
    for p in run.paths:
        if not no_panic(R, run, p) or p.kind != "ret":
            continue
        s, k = src(run), key(run)
        gs = source_calls(p, SRC_GET)
        for ev in gs + source_calls(p, SRC_HAS):
            asks(R, run, p, ev, s, k)
        node, there = None, None
        for ev in gs:
            v = variant_of(p, ev.a[3])
            if v is not None:
                node, there = mk("fld", ev.a[3], 1, 0, None), v == 1
        if node is None and not fresh:
            for t, v in memo(p, run):
                node, there = mk("fld", t, 1, 0, None), v == 1
        for ev in source_calls(p, SRC_HAS):
            if p.st.facts.get(("val", ev.a[3])) is False and there is None:
                there = False
        if not R.check(there is not None, run, p, "the successors do not depend on whether the node is there", None, (p.value,)):
            continue
        alls = [x for x in flat(p.events) if x.k == "client" and "Property::all" in x.a[0]]
        v = p.value
        if not R.check(v.k == "seq", run, p, "the successors are not a list", None, (v,)):
            continue
        if not there:
            R.check(not v.a[0], run, p, "a handle on a missing node has successors", None, (v,))
            continue
        if not R.check(len(alls) >= 1, run, p, "the successors do not come from the node's edges", None, (v,)):
            continue
        for ev in alls:
            c = ev.a[2][0]
            R.check(c.k == "pt" and (same_term(c.a[2], node) or same_term(unboxed(p, c.a[2]), node)), run, p, "the edges are those of another node", ev, (c,))
        S = alls[-1].a[3]
        es = [x for x in alls]
        lps = [x for x in p.events if x.k == "loop" and any(y.k == "from" and any(y.a[0] is a.a[3] for a in es) for y in x.a[2])]
        if not lps:
            empties = [kk for kk, vv in p.st.facts.items() if kk[0] in ("more", "empty") and kk[1] is S]
            R.check(bool(empties) and not v.a[0], run, p, "the successors do not come from the node's edges", alls[0], (v,))
            continue
        if not R.check(len(lps) == 1, run, p, "the edges are gone through more than once", lps[-1]):
            continue
        lp = lps[0]
        d = drained(R, run, p, lp, S, "the edges")
        if d is None:
            continue
        if len(v.a[0]) != 1 or v.a[0][0].k != "s" or v.a[0][0].a[0].k != "acc":
            R.fail(run, p, "the successors are not exactly those of the edges", lp, (v,)) if v.a[0] else R.fail(run, p, "the edges are left out", lp, (v,))
            continue
        acc = v.a[0][0].a[0]
        init = [x for x in lp.a[2] if x.k == "init" and x.a[0] is acc]
        R.check(not init or init[0].a[1].k == "seq" and not init[0].a[1].a[0], run, p, "there are successors besides those of the edges", lp)
        for c in lp.a[1]:
            ups = [u for u in c.a[2] if u.k == "upd" and u.a[0] is acc]
            if not R.check(len(ups) == 1, run, p, "an edge is left out", lp):
                continue
            seq = ups[0].a[1]
            R.check(seq.k == "seq" and len(seq.a[0]) == 1 and seq.a[0][0].k == "e", run, p, "an edge does not give exactly one successor", lp, (seq,))
            if seq.k == "seq" and len(seq.a[0]) == 1 and seq.a[0][0].k == "e":
                h = seq.a[0][0].a[0]
                els = [t for t in subterms(h) if t.k == "elt" and t.a[0] is S]
                if not R.check(h.k == "adt" and bool(els), run, p, "a successor is not that of its edge", lp, (h,)):
                    continue
                handle_ok(R, run, p, h, s, idt(els[0]), lp)
        front = [x for x in lp.a[3:] if x == "front"]
        R.check(d == "f" and not front, run, p, "the successors are in another order than the edges", lp)


def c15(R):
    R.rule("is_virtual answers the negation of what the handle's own source says about the handle's own id when asked at that moment; dereferencing gives what that "
           "source returned for that id (or what was remembered of it); successors, in order and one for one, are handles on the same source for the ids of the "
           "edges of the node dereferenced to, remembering nothing else; none if there is no node. Clones behave the same.")
    virtual(R, "proxy_is_virtual", lambda r: r.args[0], lambda r: r.args[1])
    virtual(R, "proxy_clone_is_virtual", lambda r: r.args[0], lambda r: r.args[1])
    virtual(R, "proxy_of_is_virtual", own("source"), own("id"))
    derefs(R, "proxy_try_deref")
    derefs(R, "proxy_clone_try_deref")
    derefs(R, "proxy_try_deref_twice", 2)
    run = R.run("proxy_id")
    for p in run.paths:
        if no_panic(R, run, p) and R.check(p.kind == "ret", run, p, "unwinds"):
            R.check(same_term(p.value, run.args[1]), run, p, "a handle reports another id", None, (p.value,))
    for n in ("graph_node", "ctx_node"):
        run = R.run(n)
        for p in run.paths:
            if no_panic(R, run, p) and R.check(p.kind == "ret", run, p, "unwinds"):
                handle_ok(R, run, p, p.value, mk("ref", mk("deref", run.args[0]), (), False), run.args[1])
    successors(R, "proxy_successors_new", lambda r: r.args[0], lambda r: r.args[1], True)
    successors(R, "proxy_successors", own("source"), own("id"), False)


def own(name):
    """A field of the handle given."""
    def f(r):
        for t in r.e.P.types:
            if t and t.get("def", "").endswith("::NodeProxy"):
                i = [x[0] for x in t["variants"][0]["fields"]].index(name)
                return mk("fld", mk("drf", r.args[0], None), 0, i, None)
    return f
