"""Transactions: C01 to C07."""
from ..base import *
from ..engine import St
from ..models import lock_class


def calls(p, *names):
    return [i for i, ev in enumerate(p.events) if is_call(ev, *names)]


def inner_calls(p, *names):
    """Calls inside loops."""
    return [x for ev in p.events if ev.k == "loop" for x in flat([ev]) if is_call(x, *names)]


def once(R, run, p, what="the closure", *names):
    """The client closure is called exactly once on this path; returns its index."""
    names = names or ("call F",)
    cs = calls(p, *names)
    if not R.check(len(cs) == 1 and not inner_calls(p, *names), run, p,
                   f"{what} is called {len(cs)} times on a path" if not inner_calls(p, *names) else f"{what} is called in a loop"):
        return None
    return cs[0]


def unwound(p, i):
    """Did the call at index i panic?"""
    return any(ev.k == "unwind" and ev.a[0] == p.events[i].a[0] and ev.a[1] == p.events[i].a[5] for ev in p.events[i + 1:])


def graph_place(e, schema_ref):
    """Where the graph of a schema is: (cell, projection to the lock, projection to the graph)."""
    cell = mk("deref", schema_ref)
    ty = e.pointee(e.tyof(schema_ref))
    for i, f in enumerate(e.fields(ty, 0)):
        h = e.head(f)
        if ("RwLock" in h or "Mutex" in h) and lock_class(e, f) == "graph":
            return cell, (("f", 0, i),), (("f", 0, i), ("f", 0, 0))
    raise Undecided("no graph in the schema")


def graph_before(e, place):
    return e.read(St(), place[0], place[2])


def graph_after(e, p, place):
    return e.read(p.st, place[0], place[2])


def unchanged_graph(R, run, p, place, what):
    a, b = graph_before(run.e, place), graph_after(run.e, p, place)
    w = next(map_writes(p.events), None)
    R.check(w is None and untyped(norm(a)) is untyped(norm(b)), run, p, what, w, (b,))


def bg(R, entry="bg_with", **kw):
    run = R.run(entry, **kw)
    for p in run.paths:
        yield run, p


def closure_outcome(p, i):
    """'panic', 'ok', 'err' or None for the closure called at index i."""
    if unwound(p, i):
        return "panic"
    res = p.events[i].a[3]
    v = variant_of(p, res)
    return {0: "ok", 1: "err"}.get(v)


def c01(R):
    R.inductive = True
    R.rule("On every path of Background::with on which the closure returns an error or unwinds, the graph behind the schema "
           "holds the term it held on entry and no write to its map happens; on every path no write precedes the return of the closure; "
           "the error returned is the closure's.")
    for run, p in bg(R):
        i = once(R, run, p)
        if i is None:
            continue
        w = next(map_writes(p.events[:i]), None)
        R.check(w is None, run, p, "the graph is written before the closure has run", w)
        place = graph_place(run.e, run.args[0])
        o = closure_outcome(p, i)
        if o == "panic":
            unchanged_graph(R, run, p, place, "the graph is changed although the closure panicked")
            R.check(p.kind == "unwind", run, p, "the closure's panic is swallowed")
        elif o == "err":
            unchanged_graph(R, run, p, place, "the graph is changed although the closure failed")
            if R.check(p.kind == "ret", run, p, "panics instead of returning the closure's error"):
                returns(R, run, p, p.events[i], "the closure's error is not what the caller gets")
        elif o is None:
            if p.kind == "ret":
                returns(R, run, p, p.events[i], "the result of the closure is not returned")
            unchanged_graph(R, run, p, place, "the graph is changed without regard to the closure's result")


def apply_loop(R, run, p, ev, S, templates, what):
    """The loop ev applies every element of S, first to last, to a map: a save inserts the node under
    its id, a delete removes the id."""
    lid = ev.a[0]
    elem = None
    took_all = [u for x in ev.a[2] if x.k == "from" and x.a[0] is S for u in (x,)]
    if took_all and took_all[0].a[1] == "b" and any(
            k[0] == "has" and any(t.k == "map" and t.a[0] is None and any(x.k in ("mapacc", "macc") for x in subterms(t)) for t in subterms(k[1:]))
            for c in ev.a[1] for k, _ in c.a[0]):
        R.doubt(run.name, f"{what} are applied from last to first, each depending on the ones before")
        return
    R.check(len(took_all) == 1 and took_all[0].a[1] == "f" and took_all[0].a[2].k == "s", run, p,
            f"{what} are not applied from first to last", ev, (S,))
    R.check(p.st.facts.get(("more", S, lid, 0)) is False, run, p, f"applying {what} may stop before the last one", ev, (S,))
    used = {k: 0 for k, _, _ in templates}
    for c in ev.a[1]:
        took = [u for u in c.a[2] if u.k == "took"]
        R.check(len(took) == 1 and took[0].a[0] is S and took[0].a[1] == "f" and took[0].a[2] == 0 + took[0].a[2], run, p,
                f"an iteration does not consume exactly one of {what}", ev, (S,))
        n = took[0].a[2] if took else 1
        R.check(n == 1, run, p, f"an iteration consumes {n} of {what}", ev, (S,))
        elems = [x for x in subterms((c.a[0], c.a[1])) if x.k == "elt" and x.a[0] is S]
        elem = elems[0] if elems else None
        writes = [x for x in c.a[1] if x.k in ("mw",) and x.a[0].a[0].k not in ("heap", "loc")]
        nested = [x for x in c.a[1] if x.k == "loop"]
        R.check(not any(list(map_writes([x])) for x in nested), run, p, f"{what} are applied in a nested loop", ev)
        for kind, arg, val in templates:
            if elem is not None and not fact_holds(c.a[0], elem, val):
                continue
            used[kind] += 1
            es = set(elems)
            got = []
            for w in writes:
                k, v = w.a[2], w.a[3]
                for x in es:
                    k, v = instantiate(k, x, val), instantiate(v, x, val)
                got.append((w.a[1], untyped(norm(k)), untyped(norm(v))))
            got = [x for n, x in enumerate(got) if n + 1 == len(got) or got[n + 1][1] is not x[1]]
            if kind == "delete" and not got and any(k[0] == "val" and v and k[1].k == "op" and k[1].a[0] == "mapis_empty" for k, v in c.a[0]):
                continue
            if kind == "save":
                exp = [("ins", untyped(mk("op", "id", (arg,), None)), untyped(arg))]
                got = [(o, k, v) for o, k, v in got]
            else:
                exp = [("del", untyped(arg), UNIT)]
            exp = [(o, untyped(norm(k)), untyped(norm(v))) for o, k, v in exp]
            R.check(got == exp, run, p,
                    f"a recorded {kind} is applied as {', '.join(f'{o} {brief(k, 60)} → {brief(v, 60)}' for o, k, v in got) or 'nothing'}"
                    , writes[0] if writes else ev, tuple(x for g in got for x in g[1:]))
    for kind, n in used.items():
        R.check(n > 0, run, p, f"no iteration handles a recorded {kind}", ev)


def c02(R):
    R.inductive = True
    R.rule("On every path of Background::with on which the closure returns Ok, the only writes to the graph are made by one loop that runs "
           "over the content of the log handed to the closure as it was when the closure returned, from first to last, without early exit, "
           "one element per iteration; the loop body maps the value recorded by Context::save to an insertion under the node's id and the "
           "value recorded by Context::delete to a removal of that id; the closure's value is returned.")
    ts = templates(R)
    recording(R)
    for run, p in bg(R):
        i = once(R, run, p)
        if i is None:
            continue
        o = closure_outcome(p, i)
        if o not in ("ok", None):
            continue
        if not R.check(p.kind == "ret", run, p, "panics although the closure succeeded",
                       next((x for x in p.events if x.k == "panic"), None)):
            continue
        returns(R, run, p, p.events[i], "the closure's value is not what the caller gets")
        if o is None:
            R.fail(run, p, "the operations are not applied: the closure's result is not looked at")
            continue
        ev = p.events[i]
        logs = log_cells(run.e, ev)
        if not R.check(len(logs) == 1, run, p, f"the context given to the closure has {len(logs)} logs", ev):
            continue
        ws = [x for x in p.events[i + 1:] if x.k in ("mw", "loop") and list(map_writes([x]))]
        loops = [x for x in ws if x.k == "loop"]
        if not ws and nothing_recorded(p, logs[0]):
            continue
        if in_pieces(ws, logs[0]):
            R.doubt(run.name, "what was recorded is applied in pieces", p)
            continue
        if not R.check(len(ws) == 1 and len(loops) == 1, run, p,
                       "the recorded operations are applied nowhere" if not ws else
                       "the graph is written outside of one pass over the recorded operations", ws[0] if ws else ev):
            continue
        S = next((x.a[0] for x in loops[0].a[2] if x.k == "from" and is_content(x.a[0], logs[0])), None)
        if not R.check(S is not None, run, p, "what is applied is not what was recorded", loops[0],
                       tuple(x.a[0] for x in loops[0].a[2] if x.k == "from")):
            continue
        apply_loop(R, run, p, loops[0], S, ts, "the recorded operations")
        place = graph_place(run.e, run.args[0])
        g = graph_after(run.e, p, place)
        g0 = graph_before(run.e, place)
        R.check(only_loop(run.e, g, g0, loops[0].a[0]), run, p, "the graph holds more changes than the recorded operations", loops[0], (g,))
        locked = all(any(h.a[4] == "graph" and h.a[0] == "W" for h in held) for x, held in held_walk(p.events) if x is loops[0])
        R.check(locked, run, p, "the operations are applied without holding the graph", loops[0])


def is_content(S, cell):
    """Is S what was in the log `cell` when the closure returned?"""
    return S.k == "op" and S.a[0] == "havoc" and S.a[1][0].k == "lockat" and S.a[1][0].a[0] is cell or \
        S.k == "op" and S.a[0] == "cont" and S.a[1][0].a[0] is cell


def in_pieces(ws, cell):
    """Are there loops that write and whose elements are parts of what was in the log, or come from an
    iterator that moves on from one part to the next?"""
    loops = [x for x in flat(ws) if x.k == "loop" and list(map_writes([x]))]
    for x in loops:
        seqs = {u.a[0] for u in x.a[2] if u.k == "from"} | {u.a[0] for c in x.a[1] for u in c.a[2] if u.k == "took"}
        whole = {u.a[0] for u in x.a[2] if u.k == "init" and is_content(u.a[1], cell)}
        if any(t.k == "elt" and t.a[0].k == "phi" and t.a[0] not in whole for t in subterms(x.a[1])):
            return True
        if len(loops) > 1 and any(not is_content(S, cell) and any(t is not S and is_content(t, cell) for t in subterms(S)) for S in seqs):
            return True
    return False


def only_loop(e, g, g0, lid):
    """g is g0 except for its map, which only the loop lid has changed."""
    if g.k != "adt":
        return False
    ok = False
    for i, x in enumerate(g.a[2]):
        x0 = e.proj1(None, g0, ("f", g.a[1], i))
        if x.k == "map":
            b = x.a[0]
            ok = b is not None and untyped(b) is untyped(x0) and all(o.k == "macc" and o.a[0].a[0] is lid for o in x.a[1])
            if not ok:
                return False
        elif x.k == "adt" and any(t.k == "map" for t in subterms(x)):
            ok = only_loop(e, x, x0, lid)
            if not ok:
                return False
    return ok


def templates(R):
    for n in ("ctx_save", "ctx_delete"):
        R.run(n, poison=frozenset())
    return R.s.templates()


def parent_log(R, run):
    """The cell of the log of the context behind the first argument (as seen by recording to it)."""
    r = R.s.run("ctx_save", poison=frozenset())
    for p in r.paths:
        for ev in flat(p.events):
            if ev.k == "sw":
                return untyped(subst(ev.a[0], {r.args[0]: run.args[0]}))
    raise Undecided("saving records nothing")


def c03(R):
    R.inductive = True
    R.rule("Context::get and Context::contains walk the log of the context from newest to oldest and stop at the first operation whose id "
           "equals the one asked for; what the recorded save and delete values become on that path is the saved node / presence, and "
           "nothing / absence; only when the walk is exhausted do they ask the parent context for the same id, or the graph if there is none.")
    ts = templates(R)
    recording(R)
    for entry in ("ctx_get", "ctx_contains"):
        lookup(R, entry, ts)
    for entry in ("bg_with", "fg_with", "ctx_fg_with"):
        run = R.run(entry)
        for p in run.paths:
            i = once(R, run, p)
            if i is not None:
                handed(R, run, p, p.events[i], outer=entry != "bg_with")


def found_value(run, p, entry):
    """What the path answers: None (absent), True (present) or the node."""
    v = p.value
    if entry == "ctx_contains":
        if v.k == "bool":
            return True if v.a[0] else None
        if v.k == "op" and v.a[0] == "rec":
            return v
        return v
    if v.k == "adt":
        return v.a[2][0] if v.a[1] == 1 else None
    return v


def lookup(R, entry, ts):
    run = R.run(entry)
    idt = None
    for p in run.paths:
        if not no_panic(R, run, p):
            continue
        if not R.check(p.kind == "ret", run, p, "unwinds"):
            continue
        idv = untyped(mk("drf", run.args[1], None))
        log = parent_log(R, run)
        loops = [x for x in p.events if x.k == "loop" and any(y.k == "from" for y in x.a[2])]
        f = p.st.facts
        empty = [k for k, v in f.items() if k[0] == "empty" and v]
        if not loops and not empty:
            R.fail(run, p, "answers without looking at what the context recorded", None, (p.value,))
            continue
        matched = None
        ok = True
        for lp in loops:
            S = next(y.a[0] for y in lp.a[2] if y.k == "from")
            ok &= R.check(any(untyped(x) is log or same_log(x, log, run) for x in [S]), run, p, "searches something else than the context's log", lp, (S,))
            frm = next(y for y in lp.a[2] if y.k == "from")
            fwd = frm.a[1] == "f"
            if fwd:
                R.doubt(run.name, "searches oldest first") if has_phi(lp) else \
                    R.fail(run, p, "the oldest matching operation is found instead of the latest", lp)
                ok = False
                break
            ok &= R.check(frm.a[2].k == "s", run, p, "the latest operations are not searched", lp, (S,))
            for c in lp.a[1]:
                for kind, arg, val in ts:
                    skip_case(R, run, p, lp, c, S, kind, arg, val, idv)
            if f.get(("more", S, lp.a[0], 0)) is not False:
                matched = (S, lp)
        if not ok:
            continue
        if matched:
            match_exit(R, run, p, entry, matched, ts, idv)
        else:
            outer(R, run, p, entry, idv)


def same_log(S, log, run):
    """Is S the content of the lock at `log` (an untyped at-term: cell and projection to the content)?"""
    u = untyped(S)
    cell, proj = log.a[0], log.a[1]
    t = mk("drf", cell.a[0], None) if cell.k == "deref" else None
    for s in proj:
        t = mk("fld", t, s[1], s[2], None)
    if t is not None and u is untyped(t):
        return True
    return S.k == "op" and S.a[0] in ("cont", "havoc") and untyped(S.a[1][0]).a[0] is cell


def has_phi(lp):
    return any(u.k == "upd" for c in lp.a[1] for u in c.a[2])


def id_of(kind, arg):
    return untyped(mk("op", "id", (arg,), None)) if kind == "save" else untyped(arg)


def elems_in(x, S):
    return [t for t in subterms(x) if t.k == "elt" and t.a[0] is S]


def inst_u(t, elems, val):
    for x in elems:
        t = instantiate(t, x, val)
    return untyped(norm(t))


def skip_case(R, run, p, lp, c, S, kind, arg, val, idv):
    """An operation is only passed over if its id differs from the one asked for."""
    elems = elems_in((tuple(k for k, v in c.a[0]), c.a[1]), S)
    if any(not fact_holds(c.a[0], x, val) for x in elems):
        return
    want = id_of(kind, arg)
    differs = False
    for k, v in c.a[0]:
        if k[0] == "rel":
            a, b = inst_u(k[1], elems, val), inst_u(k[2], elems, val)
            if {a, b} == {want, idv} and "=" not in v:
                differs = True
    R.check(differs, run, p, f"a recorded {kind} of that id may be passed over", lp,
            tuple(k[1] for k, v in c.a[0] if k[0] == "val"))


def match_exit(R, run, p, entry, matched, ts, idv):
    S, lp = matched
    f = p.st.facts
    elems = [t for k in f for t in elems_in(k[1:], S)] + elems_in((p.value,), S)
    elems = list(dict.fromkeys(elems))
    facts = [(k, v) for k, v in f.items()]
    for kind, arg, val in ts:
        if any(not fact_holds(facts, x, val) for x in elems):
            continue
        want = id_of(kind, arg)
        eq = False
        for k, v in facts:
            if k[0] == "rel" and v == frozenset("="):
                a, b = inst_u(k[1], elems, val), inst_u(k[2], elems, val)
                if {a, b} == {want, idv}:
                    eq = True
        R.check(eq, run, p, f"stops at a recorded {kind} of another id", lp)
        got = found_value(run, p, entry)
        gv = inst_u(got, elems, val) if isinstance(got, T) else got
        if kind == "save":
            exp = untyped(arg) if entry == "ctx_get" else True
            R.check(gv is exp, run, p, f"a recorded save is answered with {brief(p.value, 80)}", lp, (p.value,))
        else:
            R.check(gv is None, run, p, f"a recorded delete is answered with {brief(p.value, 80)}", lp, (p.value,))


def outer(R, run, p, entry, idv):
    """Nothing recorded here: the parent context decides, else the graph."""
    e = run.e
    f = p.st.facts
    recs = [ev for ev in p.events if ev.k == "rec"]
    opts = [k for k in f if k[0] == "var" and is_parent_field(e, run, k[1])]
    if not R.check(len(opts) == 1, run, p, "the enclosing context is not considered", None, (p.value,)):
        return
    parent = f[opts[0]]
    got = found_value(run, p, entry)
    if parent == 1:
        if not R.check(len(recs) == 1, run, p, "the enclosing context is not asked", None, (p.value,)):
            return
        rec = recs[0]
        src, idarg = rec.a[1][0], rec.a[1][1]
        pr = untyped(norm(mk("fld", opts[0][1], 1, 0, None)))
        R.check(untyped(norm(src)) is pr, run, p, "asks something else than the enclosing context", rec, (src,))
        R.check(untyped(norm(strip_pt(rec.a[2][1]))) is idv, run, p, "asks the enclosing context for another id", rec, (idarg,))
        same_fn = rec.a[0].endswith("::get") if entry == "ctx_get" else rec.a[0].endswith(("::contains", "::get"))
        R.check(same_fn, run, p, f"asks the enclosing context something else ({rec.a[0]})", rec)
        if rec.a[0].endswith("::get") and entry == "ctx_contains":
            v = f.get(("var", rec.a[3]))
            R.check(p.value.k == "bool" and v is not None and p.value.a[0] == (v == 1), run, p,
                    "does not answer what the enclosing context answers", rec, (p.value,))
            return
        whole = untyped(norm(p.value)) is untyped(norm(rec.a[3]))
        if not whole and p.value.k == "bool":
            whole = f.get(("val", rec.a[3])) == p.value.a[0]
        if not whole and p.value.k == "adt" and not p.value.a[2]:
            whole = f.get(("var", rec.a[3])) == p.value.a[1]
        R.check(whole, run, p, "does not answer what the enclosing context answers", rec, (p.value,))
        return
    R.check(not recs, run, p, "recursive lookup without an enclosing context", recs[0] if recs else None)
    has = [(k, v) for k, v in f.items() if k[0] == "has"]
    if not R.check(len(has) == 1 and untyped(norm(has[0][0][2])) is idv and is_graph_map(e, run, has[0][0][1]), run, p,
                   "the graph is not asked for that id", None, (p.value,)):
        return
    if has[0][1]:
        if entry == "ctx_contains":
            R.check(got is True, run, p, "a node of the graph is reported as missing", None, (p.value,))
        else:
            R.check(isinstance(got, T) and got.k == "mval" and untyped(norm(got.a[0])) is untyped(norm(has[0][0][1])) and
                    untyped(norm(got.a[1])) is idv, run, p, f"a node of the graph is answered with {brief(p.value, 80)}", None, (p.value,))
    else:
        R.check(got is None, run, p, "a node the graph does not have is found", None, (p.value,))


def handed(R, run, p, ev, outer=None):
    """The context given to the closure called in ev refers to the context `outer` (the place the run's
    first argument refers to), if that is not None, or to none, and to the graph of that context or schema."""
    e = run.e
    ctxs = [t for t in subterms(ev.a[1]) if t.k == "adt" and e.head(t.a[0]).endswith("transaction::Context")]
    if len(ctxs) != 1:
        R.check(bool(ctxs), run, p, "the closure is not given a new context", ev, ev.a[1])
        return
    found = {"transaction::Context": [], "graph::Graph": []}

    def kind(ty):
        d = e.ty(ty) if ty is not None else {}
        if d.get("k") == "ref":
            return next((n for n in found if e.head(d["t"]).endswith(n)), None)
        if d.get("def") == "core::option::Option" and d.get("args"):
            return kind(d["args"][0])
        return None

    def walk(t):
        n = kind(e.tyof(t)) if t.k != "adt" else None
        if n:
            found[n].append(t)
        elif t.k == "adt":
            for x in t.a[2]:
                walk(x)

    for x in ctxs[0].a[2]:
        walk(x)
    up = [untyped(norm(x)) for x in found["transaction::Context"]]
    a0 = run.args[0]
    want = [untyped(norm(a0))] if outer else []
    up = [w if same_ref(x, a0) else x for x, w in zip(up, want or up)] if len(up) == 1 else up
    R.check(up == want, run, p, "the sub-transaction's context does not look further in the context it was opened in, but in "
            + (brief(up[0], 60) if up else "none") if outer else "a transaction's context refers to another one", ev, tuple(up))
    graphs = {untyped(norm(mk("drf", x, None))) for x in found["graph::Graph"] if x.k != "ref"} | \
             {untyped(x) for x in found["graph::Graph"] if x.k == "ref"}
    if outer:
        own = {untyped(norm(mk("drf", f, None))) for f in graph_fields(e, run)}
    else:
        place = graph_place(e, a0)
        own = {untyped(mk("ref", place[0], place[2], False, None)), untyped(mk("ref", place[0], place[2], True, None))}
        graphs = {mk("ref", g.a[0], g.a[1], False, None) if g.k == "ref" else g for g in graphs}
        own = {mk("ref", g.a[0], g.a[1], False, None) for g in own}
    bad = [g for g in graphs if g not in own]
    R.check(not bad, run, p, "the context looks into another graph", ev, tuple(bad))


def same_ref(x, a0):
    return x.k == "ref" and not x.a[1] and untyped(x.a[0]) is untyped(mk("deref", a0))


def graph_fields(e, run):
    """The references to a graph in the context behind the first argument."""
    ty = e.pointee(e.tyof(run.args[0]))
    out = []

    def walk(base, ty):
        for i, f in enumerate(e.fields(ty, 0)):
            d = e.ty(f)
            x = mk("fld", base, 0, i, f)
            if d["k"] == "ref" and e.head(d["t"]).endswith("graph::Graph"):
                out.append(x)
            elif d["k"] == "struct" and d.get("def", "").startswith("plotline"):
                walk(x, f)

    walk(mk("drf", run.args[0], ty), ty)
    return out


def in_context(run, t):
    """Is t a field of the context behind a0, or a field of such a field?"""
    n = 0
    while t.k == "fld":
        t = t.a[0]
        n += 1
    return n > 0 and untyped(t) is untyped(mk("drf", run.args[0], None))


def recording(R):
    """Saving and deleting through a context add exactly one operation to that context's log, and change nothing else."""
    for n in ("ctx_save", "ctx_delete"):
        run = R.run(n)
        log = parent_log(R, run)
        for p in run.paths:
            evs = [x for x in p.events if x.k in ("sw", "mw", "loop", "client", "rec") and not (
                x.k in ("sw", "mw") and x.a[0].a[0].k in ("heap", "loc"))]
            if not no_panic(R, run, p):
                continue
            R.check(len(evs) == 1 and evs[0].k == "sw" and evs[0].a[1] == "push" and untyped(evs[0].a[0]) is log, run, p,
                    "recording an operation does more than adding it to the context's log" if evs else "recording an operation adds nothing to the log",
                    evs[-1] if evs else None)
            for c, v in dirtied(run, p, (log.a[0],)):
                R.fail(run, p, "recording an operation changes something else than the context's log", None, (v,))
            final, _ = log_final(run, p, log)
            if final is not None and len(evs) == 1 and evs[0].k == "sw" and evs[0].a[1] == "push":
                segs = [x for x in (final.a[0] if final.k == "seq" else (mk("s", final, None),))]
                kept = segs[:-1]
                empty = any(k[0] == "empty" and v is True and is_content_of(k[1], log) for k, v in p.st.facts.items())
                R.check(len(kept) == 1 and kept[0].k == "s" and is_content_of(kept[0].a[0], log) or not kept and empty, run, p,
                        "recording an operation leaves " + brief(final, 160) + " instead of what was recorded before followed by it",
                        evs[0], (final,))


def is_parent_field(e, run, t):
    """An optional context reference of the context behind a0."""
    ty = e.tyof(t)
    d = e.ty(ty) if ty is not None else {}
    if d.get("def") != "core::option::Option" or not d.get("args"):
        return False
    a = e.ty(d["args"][0])
    return a["k"] == "ref" and e.head(a["t"]).endswith("transaction::Context") and \
        in_context(run, t)


def is_graph_map(e, run, t):
    """The map of the graph the context behind a0 refers to."""
    while t.k == "fld" and t.a[1] == 0:
        b = t.a[0]
        ty = e.tyof(b)
        if ty is not None and e.head(ty).endswith("graph::Graph"):
            return b.k == "drf" and in_context(run, b.a[0])
        t = b
    return False


def c04(R):
    R.inductive = True
    R.rule("Context::transaction().with(closure), on a context or a trigger's restricted context: the closure is called once with a context "
           "whose log is a fresh empty one; before it returns, on its errors and on its panics nothing is added to the parent's log; on Ok "
           "the parent's log becomes what it was followed by the whole content of the sub-transaction's log, in order; the closure's "
           "result is returned as is; the graph is not touched.")
    recording(R)
    merges(R, ("fg_with", "ctx_fg_with"))


def merges(R, entries):
    """The sub-transactions opened by the entries merge into the context behind their first argument."""
    for entry in entries:
        run = R.run(entry)
        for p in run.paths:
            i = once(R, run, p)
            if i is None:
                continue
            ev = p.events[i]
            log = parent_log(R, run)
            logs = locks_in(run.e, ev, "log")
            if not R.check(len(logs) == 1 and logs[0][0].k == "heap", run, p, "the sub-transaction records into a log that is not its own", ev):
                continue
            content = logs[0][1]
            logs = [logs[0][0]]
            R.check(content.k == "seq" and not content.a[0], run, p, "a sub-transaction starts with operations already recorded", ev)
            handed(R, run, p, ev, outer=True)
            w = next(map_writes(p.events), None)
            R.check(w is None, run, p, "a sub-transaction writes to the graph", w)
            o = closure_outcome(p, i)
            touched = [(j, x) for j, x in enumerate(p.events) for y in flat([x]) if y.k == "sw" and y.a[0].a[0].k not in ("heap", "loc")]
            for x in flat(p.events):
                if x.k == "sw" and x.a[1] == "insert" and x.a[0].a[0].k not in ("heap", "loc"):
                    at = x.a[2].a[0][0]
                    if at.k == "op" and at.a[0] == "Add" and at.a[1][1].k == "phi":
                        # counted from there on
                        at = at.a[1][0]
                    inside = at.k == "int" or at.k == "op" and len(at.a[1]) == 2 and at.a[1][1].k == "int" and at.a[1][0].k == "op" and \
                        at.a[1][0].a[0] in ("len", "seqlen") and (at.a[0] in ("Div", "Shr", "Sub", "satsub") and at.a[1][1].a[0] > 0)
                    none = any(k[0] == "empty" and v is True and is_content_of(k[1], log) for k, v in p.st.facts.items())
                    R.check(not inside or none, run, p, "an operation is merged in between earlier ones of the parent", x)
            early = [x for j, x in touched if j < i]
            R.check(not early, run, p, "the parent's log is changed before the closure has run", early[0] if early else None)
            if o == "panic":
                R.check(p.kind == "unwind", run, p, "the closure's panic is swallowed")
                R.check(not touched, run, p, "the parent's log is changed although the closure panicked", touched[0][1] if touched else None)
                continue
            if not R.check(p.kind == "ret", run, p, "panics instead of returning the closure's result",
                           next((x for x in p.events if x.k == "panic"), None)):
                continue
            returns(R, run, p, ev, "the closure's result is not what the caller gets")
            if o == "err":
                R.check(not touched, run, p, "the parent's log is changed although the closure failed", touched[0][1] if touched else None)
                continue
            if o is None:
                R.fail(run, p, "what the sub-transaction recorded is merged without regard to its result")
                continue
            final, before = log_final(run, p, log)
            if nothing_recorded(p, logs[0]) and not touched:
                continue
            if not R.check(final is not None, run, p, "the recorded operations do not reach the parent", touched[0][1] if touched else ev):
                continue
            segs = final.a[0] if final.k == "seq" else (mk("s", final, None),)
            segs = [x for x in segs]
            had_none = any(k[0] == "empty" and v is True and is_content_of(k[1], log) for k, v in p.st.facts.items())
            good = 1 <= len(segs) <= 2 and segs[-1].k == "s" and is_content(segs[-1].a[0], logs[0]) and \
                (len(segs) == 2 and segs[0].k == "s" and is_content_of(segs[0].a[0], log) or len(segs) == 1 and had_none)
            R.check(good, run, p, "the parent's log becomes " + brief(final, 160) + " instead of its own operations followed by the sub-transaction's",
                    touched[0][1] if touched else ev, (final,))


def nothing_recorded(p, cell):
    """Does the path know that the log `cell` was empty when the closure returned?"""
    return any(k[0] == "empty" and v is True and is_content(k[1], cell) for k, v in p.st.facts.items())


def is_content_of(S, log):
    return same_log(S, log, None)


def log_final(run, p, log):
    """The parent's log at the end of the path."""
    for c, v in p.st.mem.items():
        if c.k == "deref" and untyped(c) is log.a[0]:
            for x in log.a[1]:
                if v.k != "adt" or x[0] != "f" or v.a[1] != x[1]:
                    return None, None
                v = v.a[2][x[2]]
            return v, None
    return None, None


def of_schema(cell, schema):
    """Is the cell the schema, or something the schema has a pointer to?"""
    top = untyped(mk("deref", schema))
    x = untyped(cell)
    while x is not top and x is not untyped(schema) and x.k in ("fld", "drf", "deref"):
        x = x.a[0]
    return x is top or x is untyped(schema)


def c05(R):
    R.inductive = True
    R.rule("Background::with: exactly one acquisition of the graph lock, exclusive, before the closure is called, and exactly one release, after the "
           "last write to the graph, on every path including unwinding; no acquisition on creating or dropping a transaction value; "
           "Schema::read acquires in shared mode, Schema::write exclusively, and each releases when its guard goes.")
    for run, p in bg(R):
        i = once(R, run, p)
        if i is None:
            continue
        g = [(j, x) for j, x in enumerate(p.events) if x.k in ("acq", "rel") and x.a[4] == "graph"]
        acq = [(j, x) for j, x in g if x.k == "acq"]
        rel = [(j, x) for j, x in g if x.k == "rel"]
        if not R.check(len(acq) >= 1 and acq[0][0] < i, run, p, "the closure runs without holding the graph", p.events[i]):
            continue
        R.check(acq[0][1].a[0] == "W", run, p, "the closure runs with shared access to the graph only", acq[0][1])
        R.check(len(acq) == 1, run, p, "the graph is released and taken again within a transaction", acq[-1][1])
        R.check(of_schema(acq[0][1].a[1], run.args[0]), run, p, "the lock taken is not the schema's", acq[0][1])
        last = max([j for j, x in enumerate(p.events) if list(map_writes([x]))] + [i])
        R.check(len(rel) == 1 and rel[0][0] > last, run, p,
                "the graph is still locked at the end" if not rel else "the graph is released before the transaction is complete",
                rel[0][1] if rel else acq[0][1])
        R.check(not any(x.k == "forget" and contains(x, "guard") for x in p.events), run, p, "the access is never released")
        closed(R, run, p)
    for n in ("bg_new", "bg_unused"):
        run = R.run(n)
        for p in run.paths:
            ev = next((x for x in flat(p.events) if x.k == "acq"), None)
            R.check(ev is None, run, p, "creating a transaction locks", ev)
            no_panic(R, run, p)
    for n, mode in (("schema_read", "R"), ("schema_write", "W"), ("schema_read_use", "R"), ("schema_write_use", "W"), ("schema_write_read", "W")):
        run = R.run(n)
        for p in run.paths:
            acq = [x for x in p.events if x.k == "acq"]
            if not R.check(len(acq) == 1 and acq[0].a[4] == "graph", run, p, f"takes {len(acq)} locks", acq[0] if acq else None):
                continue
            R.check(acq[0].a[0] == mode, run, p, "read access is exclusive" if mode == "R" else "write access is shared", acq[0])
            R.check(of_schema(acq[0].a[1], run.args[0]), run, p, "the lock taken is not the schema's", acq[0])
            no_panic(R, run, p)
            if n.endswith("use") or n == "schema_write_read":
                i = once(R, run, p)
                if i is None:
                    continue
                held = [h for x, h in held_walk(p.events) if x is p.events[i]][0]
                R.check(any(h.a[4] == "graph" for h in held), run, p, "the graph is used without holding it", p.events[i])
                closed(R, run, p)
            else:
                gs = [t for t in subterms(p.value) if t.k == "guard"]
                R.check(len(gs) == 1 and len(p.st.locks) == 1, run, p, "the access handed out does not hold the lock", acq[0])


POISON_FREE = ("bg_with", "fg_with", "ctx_fg_with", "ctx_save", "ctx_delete", "ctx_get", "ctx_contains",
               "schema_read_use", "schema_write_use", "schema_write_read", "save_bg", "save_fg", "delete_bg", "delete_fg")


def pz_facts(run, p, classes):
    out = []
    for k, v in p.st.facts.items():
        if k[0] == "pz":
            out.append((k, v))
    return out


def pz_class(run, p, key):
    for ev in flat(p.events):
        if ev.k in ("acq",) and ev.a[1] is key[1] and ev.a[2] == key[2]:
            return ev.a[4]
    return None


def c06(R):
    R.inductive = True
    R.rule("The classes of locks that a panic can leave poisoned are computed as a fixpoint (locks held exclusively while code that may panic runs). "
           "For each operation of schema and context, the behaviours (result, effects, in order) under the assumption that the graph or a log "
           "was poisoned are exactly those without it, and contain no panic of the library's own.")
    classes = R.s.poisonable()
    R.coverage = {"poisonable_lock_classes": sorted(classes)}
    for n in POISON_FREE:
        run = R.run(n)
        groups = {}
        for p in run.paths:
            pz = [(k, v) for k, v in pz_facts(run, p, classes) if pz_class(run, p, k) in ("graph", "log", None)]
            rest = frozenset((kk, vv) for kk, vv in ((unkey(k), v) for k, v in p.st.facts.items() if (k, v) not in pz))
            bad = frozenset(k for k, v in pz if v)
            sig = (p.kind, None if p.value is None else untyped(norm(p.value)), rest, tuple(unepoch(ev) for ev in p.events))
            groups.setdefault(bool(bad), {}).setdefault(sig, p)
            ev = next((x for x in flat(p.events) if x.k in ("panic", "abort", "exit")), None)
            R.check(ev is None or not bad, run, p, "panics because of an earlier panic", ev)
        clean = groups.get(False, {})
        for sig, p in groups.get(True, {}).items():
            R.check(sig in clean, run, p, "behaves differently after an earlier panic: " + outcome(p))
        leftovers(R, run)


def leftovers(R, run):
    """What a panic of the client leaves changed, and the same call without a panic does not, decides nothing afterwards."""
    sure = [p for p in run.paths if p.kind == "ret" and any(x.k == "client" for x in p.events)]
    for p in run.paths:
        if p.kind != "unwind" or not any(x.k == "unwind" for x in p.events):
            continue
        left = marks(run, p)
        for q in sure:
            left = {k: v for k, v in left.items() if marks(run, q).get(k) is not v}
        for place in left:
            on = lambda k: any(untyped(t) is place for x in k[1:] if isinstance(x, T) for t in subterms(x))
            keys = {k for q in run.paths for k in q.st.facts if k[0] not in ("pz", "more", "empty") and on(k)}
            for k in keys:
                sides = {}
                for q in run.paths:
                    if k in q.st.facts:
                        rest = frozenset((unkey(kk), v) for kk, v in q.st.facts.items() if not on(kk))
                        sides.setdefault(q.st.facts[k], set()).add(
                            (q.kind, None if q.value is None else untyped(norm(q.value)), rest, tuple(unepoch(x) for x in q.events if x.k != "ext")))
                R.check(len(sides) < 2 or len({frozenset(x) for x in sides.values()}) == 1, run, p,
                        "a panic leaves behind what later decides what happens: " + brief(place, 60))


def marks(run, p):
    """What the path has changed, other than the graph and the logs: atomics by the calls that write them, the rest by value."""
    out = {}
    for x in flat(p.events):
        if x.k == "ext" and "sync::atomic::Atomic" in x.a[0] and not x.a[0].endswith(("::load", "::new")) and x.a[2] and isinstance(x.a[2][0], T):
            t = untyped(x.a[2][0])
            t = t.a[-1] if t.k == "pt" else t
            out[t] = mk("tup", (out[t].a[0] if t in out else ()) + (mk("str", x.a[0]),))
    for c, v in dirtied(run, p):
        leaves(run.e, untyped(norm(mk("drf", c.a[0], None))), run.e.read(St(), c, ()), v, out)
    return out


def leaves(e, place, old, new, out):
    if new.k == "adt":
        for i, x in enumerate(new.a[2]):
            o = e.proj1(None, old, ("f", new.a[1], i)) if old.k != "adt" else old.a[2][i]
            if untyped(norm(o)) is not untyped(norm(x)):
                leaves(e, untyped(norm(mk("fld", place, new.a[1], i, None))), o, x, out)
    elif new.k in ("int", "bool", "op", "str"):
        out[place] = untyped(norm(new))


def unkey(k):
    return k if k[0] != "rel" else (k[0],) + tuple(untyped(x) for x in k[1:])


def unepoch(ev):
    return untyped(ev)


def outcome(p):
    return f"{p.kind} {brief(p.value, 80) if p.value is not None else ''} after " + "; ".join(ev_s(x) for x in p.events[-3:])


CLIENTS = ("bg_with", "fg_with", "ctx_fg_with", "save_bg", "save_fg", "save_any", "delete_bg", "delete_fg", "delete_any",
           "trig_select_exec", "trig_add_exec", "trig_0", "trig_1", "trig_2", "trig_8", "schema_trig_exec")
OTHERS = ("ctx_save", "ctx_delete", "ctx_get", "ctx_contains", "ctx_with_target", "res_shared", "target_shared", "fg_ctx_get",
          "with_target", "with_mut_target", "with_res", "with_mut_res", "with_res_2", "res_from_exists", "schema_read_use", "schema_write_use")


def is_tx_client(ev):
    return ev.k == "client" and (ev.a[0].startswith("call ") or "Trigger::execute" in ev.a[0] or "Transaction::with" in ev.a[0])


def c07(R):
    R.inductive = True
    R.rule("At every call of a transaction's closure, of a trigger or of a conversion making a trigger's argument, the set of locks held is "
           "contained in {graph, exclusive}; no operation acquires a lock that is already held on its path.")
    for n in CLIENTS:
        run = R.run(n)
        for p in run.paths:
            deadlock(R, run, p)
            for ev, held in walk_deep(p.events):
                if is_tx_client(ev):
                    bad = [h for h in held if h.a[4] != "graph"]
                    R.check(not bad, run, p, f"calls {ev.a[0]} while holding the {', '.join(h.a[4] for h in bad)} lock", ev)
    for n in OTHERS:
        run = R.run(n)
        for p in run.paths:
            deadlock(R, run, p)


def deadlock(R, run, p):
    ev = next((x for x in flat(p.events) if x.k == "deadlock"), None)
    R.check(ev is None, run, p, "acquires a lock it already holds" + (f" ({ev.a[5]})" if ev is not None else ""), ev)


def walk_deep(events, held=()):
    held = list(held)
    for ev in events:
        yield ev, tuple(held)
        if ev.k == "loop":
            for c in ev.a[1]:
                yield from walk_deep(c.a[1], held)
        if ev.k == "acq":
            held.append(ev)
        elif ev.k == "rel":
            held = [h for h in held if not (h.a[1] is ev.a[1] and h.a[2] == ev.a[2] and h.a[3] == ev.a[3])]
