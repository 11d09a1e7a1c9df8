"""Resources and scoped access: C12, C13."""
from ..base import *
from .ops import behind, same_place, searched


def typeid(e, ty):
    return mk("op", "typeid", (ty,), None)


def lookups(p):
    return [(k, v) for k, v in p.st.facts.items() if k[0] == "has" and k[2].k == "op" and k[2].a[0] == "typeid"]


def set_empty(run, p):
    """Has the path found that the set of resources behind the argument is empty?"""
    e = run.e
    for k, v in p.st.facts.items():
        if k[0] == "val" and v and k[1].k == "op" and k[1].a[0] == "mapis_empty" and behind(k[1].a[1][0], run.args[0]):
            m = k[1].a[1][0]
            ty = e.tyof(m.a[0] if m.k == "map" and m.a[0] is not None and not m.a[1] else m)
            args = e.ty(ty).get("args") if ty is not None else None
            if args and len(args) > 1 and e.head(args[1]).endswith("::Arc"):
                return True
    return False


def some_of(p, res):
    """Is the value Some(res)?"""
    v = p.value
    if v.k == "adt" and v.a[1] == 1 and len(v.a[2]) == 1:
        return untyped(norm(v.a[2][0])) is untyped(norm(res)) or res is UNIT
    return False


def is_none(p):
    return p.value.k == "adt" and p.value.a[1] == 0 and not p.value.a[2]


def content(ev):
    """What the pointer given to the closure as last argument leads to when it is called."""
    for t in reversed(ev.a[2]):
        for x in ([t] + (list(t.a[0]) if t.k == "tup" else [])):
            if x.k == "pt":
                return x.a[2]
    return None


def boxed(p, cell):
    return [t.a[0] for t in subterms(p.st.mem.get(cell, UNIT)) if t.k in ("box", "arc")]


def inside(p, ptr, acq):
    """Does the pointer lead into what the lock taken at acq protects?"""
    if same_place(ptr, acq):
        return True
    if ptr.k != "ref":
        return False
    c = ptr.a[0]
    if c.k == "heap":
        return c in boxed(p, acq.a[1])
    if c.k != "deref" or acq.a[1].k != "deref":
        return False
    want = untyped(acq.a[1].a[0])
    return any(x.k == "drf" and untyped(x.a[0]) is want for x in subterms(c))


def poisoned_lock(p, cell=None):
    return any(k[0] == "pz" and v and (cell is None or k[1] is cell) for k, v in p.st.facts.items())


def called(R, run, p, name, want, registered, what):
    """On a path that returns: the closure `name` is called once with access to `registered` and its result
    returned, if `want`; otherwise it is not called and the result is None."""
    cs = [x for x in flat(p.events) if is_call(x, name)]
    if p.kind != "ret":
        R.check(len(cs) <= 1, run, p, "the closure is called more than once")
        R.check(any(x.k == "unwind" for x in p.events), run, p, "panics by itself", next((x for x in p.events if x.k == "panic"), None))
        return None
    if not want:
        R.check(not cs, run, p, f"the closure is called although {what}", cs[0] if cs else None)
        return None
    if not R.check(len(cs) == 1, run, p, f"the closure is called {len(cs)} times although {what}", cs[0] if cs else None,
                   (p.value,)):
        return None
    ev = cs[0]
    if registered is not None:
        c = content(ev)
        R.check(c is not None and untyped(norm(c)) is untyped(norm(registered)), run, p,
                f"the closure gets {brief(c, 60) if c is not None else 'something'} instead of what was registered", ev, (c,) if c is not None else ())
    return ev


def c12(R):
    R.needs_map("resource::ResourceSet")
    R.keyed = True
    R.rule("Registering changes exactly the entry of the resource's own type, to a lock around the value given (its dynamic type is the type it is "
           "registered under); a handle refers to the entry of exactly its own type, or to nothing if there is none; two handles lead to the same "
           "place; existence answers whether there is an entry. Reading after registering reaches the latest value registered.")
    e = None
    # what registering does to the set
    run = R.run("res_with")
    for p in run.paths:
        e = run.e
        if not no_panic(R, run, p) or not R.check(p.kind == "ret", run, p, "unwinds"):
            continue
        maps = [t for t in subterms(p.value) if t.k == "map"]
        if not maps:
            R.fail(run, p, "nothing is registered", None, (p.value,))
            continue
        key = typeid(e, e.tyof(run.args[1]))
        for m in maps:
            R.check(m.a[0] is not None and behind(m.a[0], run.args[0]),
                    run, p, "what was registered before is lost", None, (p.value,))
            R.check(len(m.a[1]) == 1 and m.a[1][0].k == "ins" and m.a[1][0].a[0] is key, run, p,
                    "the entries changed are not exactly that of the resource's type", None, (m,))
            for o in m.a[1]:
                if o.k == "ins":
                    typed_entry(R, run, p, o.a[0], o.a[1])
    run = R.run("res_default")
    for p in run.paths:
        R.check(p.kind == "ret" and all(t.a[0] is None and not t.a[1] for t in subterms(p.value) if t.k == "map"), run, p,
                "an empty set has resources", None, (p.value,) if p.value is not None else ())
    # what a handle refers to
    for n in ("res_from", "res_from_ctx"):
        run = R.run(n)
        for p in run.paths:
            if not no_panic(R, run, p) or not R.check(p.kind == "ret", run, p, "unwinds"):
                continue
            d = run.e.ty(run.e.tyof(p.value)) if run.e.tyof(p.value) is not None else {}
            ls = lookups(p)
            if not ls and set_empty(run, p):
                R.check(not any(t.k in ("mval", "arc", "box") for t in subterms(p.value)), run, p,
                        "the handle of a type never registered refers to something", None, (p.value,))
                continue
            if not searched(R, run, p, len(ls) == 1, "the set is not searched for the type"):
                continue
            k, v = ls[0]
            R.check(behind(k[1], run.args[0]), run, p, "another set is searched", None, (k[1],))
            if d.get("args"):
                R.check(k[2].a[1][0] == d["args"][-1], run, p, "the set is searched for another type")
            got = [t for t in subterms(p.value) if t.k == "mval"]
            own = [t for t in subterms(p.value) if t.k in ("arc", "box")]
            if v:
                R.check(bool(got) and all(t.a[0] is k[1] and t.a[1] is k[2] for t in got) and not own, run, p,
                        "the handle refers to something else than the registered resource", None, (p.value,))
            else:
                R.check(not got and not own, run, p, "the handle of a type never registered refers to something", None, (p.value,))
    # reading what was registered
    for n, f, want in (("res_reg_get", 2, 1), ("res_reg_twice_get", 3, 2), ("res_reg_get_mut", 2, 1), ("schema_res_get", 2, 1)):
        run = R.run(n)
        for p in run.paths:
            if not no_panic(R, run, p):
                continue
            ev = called(R, run, p, "call F", True, run.args[want], "the resource was registered")
            if ev is not None:
                R.check(some_of(p, ev.a[3]), run, p, "the closure's result is not returned", ev, (p.value,))
    # another type
    run = R.run("res_reg_other")
    for p in run.paths:
        if not no_panic(R, run, p):
            continue
        eq = [v for k, v in p.st.facts.items() if k[0] == "rel" and all(x.k == "op" and x.a[0] == "typeid" for x in k[1:])]
        q = closure_arg(run.e, p)
        asked = [(k, v) for k, v in lookups(p) if v is not None]
        if eq and eq[0] == frozenset("="):
            ev = called(R, run, p, "call F", True, run.args[1], "the type was registered")
        else:
            target = [(k, v) for k, v in asked if typeid_other(run, k[2])]
            if not target:
                searched(R, run, p, p.kind != "ret", "the set is not searched for the type asked for")
                continue
            k, v = target[0]
            want = v and not poisoned_lock(p)
            ev = called(R, run, p, "call F", want, None, "that type was registered" if want else "that type was never registered")
            if ev is not None:
                R.check(any(t.k == "mval" and t.a[0] is k[1] and t.a[1] is k[2] for t in subterms(ev.a[1][-1])), run, p,
                        "the closure gets a resource of another type", ev, (ev.a[1][-1],))
    # shared by all handles
    run = R.run("res_shared")
    for p in run.paths:
        if not no_panic(R, run, p):
            continue
        fs = [x for x in p.events if is_call(x, "call F")]
        gs = [x for x in p.events if is_call(x, "call G")]
        if p.kind != "ret":
            continue
        if R.check(len(fs) == 1 and len(gs) == (0 if poisoned_lock(p) else 1), run, p, "one of two handles to a registered resource is absent") and gs:
            a, b = fs[0].a[1][-1], gs[0].a[1][-1]
            R.check(a.k == b.k == "ref" and a.a[0] is b.a[0] and a.a[1] == b.a[1], run, p, "two handles lead to different values", gs[0], (a, b))
    # existence
    run = R.run("res_from_exists")
    for p in run.paths:
        if not no_panic(R, run, p) or p.kind != "ret":
            continue
        ls = lookups(p)
        empty = not ls and set_empty(run, p)
        if not empty and not searched(R, run, p, len(ls) == 1, "the set is not searched for the type"):
            continue
        v = not empty and ls[0][1]
        if v and poisoned_lock(p):
            continue
        R.check(p.value.k == "bool" and p.value.a[0] == v, run, p,
                "a registered resource is said not to exist" if v else "a resource never registered is said to exist", None, (p.value,))
    run = R.run("res_reg_exists")
    for p in run.paths:
        if no_panic(R, run, p) and p.kind == "ret":
            R.check(p.value.k == "bool" and p.value.a[0] is True, run, p, "a registered resource is said not to exist", None, (p.value,))
    run = R.run("schema_with_resource")
    for p in run.paths:
        if not no_panic(R, run, p) or p.kind != "ret":
            continue
        key = typeid(run.e, run.e.tyof(run.args[1]))
        ms = [t for t in subterms(p.value) if t.k == "map" and any(o.k == "ins" and o.a[0] is key for o in t.a[1])]
        R.check(len(ms) == 1 and len(ms[0].a[1]) == 1, run, p, "registering with a schema does not change exactly the entry of that type", None, (p.value,))


def closure_arg(e, p):
    return None


def typeid_other(run, key):
    """Is this the type the closure of res_reg_other asks for (not that of the resource registered)?"""
    return key is not typeid(run.e, run.e.tyof(run.args[1]))


def typed_entry(R, run, p, key, val):
    """The value registered under a type has that dynamic type and is the one given."""
    e = run.e
    cells = [t.a[0] for t in subterms(val) if t.k in ("arc", "box")]
    todo, seen = list(cells), set()
    ok = False
    while todo:
        c = todo.pop()
        if c in seen:
            continue
        seen.add(c)
        v = p.st.mem.get(c, UNIT)
        ct = p.st.mem.get(mk("cty", c))
        if untyped(norm(v)) is untyped(norm(run.args[1])):
            ok = ct is None or ct.a[0] == key.a[1][0]
        todo += [t.a[0] for t in subterms(v) if t.k in ("arc", "box")]
    R.check(ok, run, p, "what is registered under the type is not the value of that type", None, (val,))


# ---- C13 -----------------------------------------------------------------------------------------


def c13(R):
    R.rule("Every path of with and with_mut: the closure is called once, iff every component yielded its value, with those values in order; its result is "
           "returned, otherwise nothing; the components' guards are taken before and released after the call. For a target or resource: the closure is "
           "called iff there is one and it is not poisoned, with a pointer into the lock itself, held in shared mode for with and exclusively for with_mut; reading through an access held for writing gives that same value.")
    for m, tr, de in (("with", "ReadOnly::read", "TryDeref::try_deref"), ("with_mut", "ReadWrite::write", "TryDerefMut::try_deref_mut")):
        for n in ("one", 2, 3, 4, 5, 6):
            generic(R, f"{m}_{n}", n, tr, de)
    for n, mode in (("with_target", "R"), ("with_mut_target", "W"), ("with_res", "R"), ("with_mut_res", "W"), ("peek_target", "W"), ("peek_res", "W")):
        concrete(R, n, mode)
    for n, k in (("with_res_2", 2), ("with_res_3", 3)):
        tuples(R, n, k)


def generic(R, name, n, tr, de):
    run = R.run(name)
    k = 1 if n == "one" else n
    f = "call F" if n == "one" else "call _F"
    for p in run.paths:
        if not no_panic(R, run, p):
            continue
        e = p.events
        cs = [x for x in flat(e) if is_call(x, f)]
        reads = [x for x in e if x.k == "client" and tr in x.a[0]]
        tries = [x for x in e if x.k == "client" and de in x.a[0]]
        other = [x for x in flat(e) if x.k == "client" and x not in reads and x not in tries and x not in cs]
        R.check(not any(x.k in ("loop", "rec", "mw", "sw") for x in e), run, p, "does something else than accessing its components")
        place = {}
        for x in reads:
            i = component(run, x.a[1][0], n)
            if not R.check(i is not None and i not in place, run, p, "a component is acquired twice" if i is not None else "something else is acquired", x, (x.a[1][0],)):
                continue
            place[i] = x
        # every guard is released at the end
        for i, x in place.items():
            if any(y.k == "unwind" and y.a[1] == x.a[5] and y.a[0] == x.a[0] for y in e):
                continue
            j = e.index(x)
            drops = [d for d, y in enumerate(e) if y.k == "drop" and behind_ret(y.a[0], x.a[3])]
            R.check(len(drops) == 1 or not drops and forgot(e), run, p, "an access is not released", x)
            for c in cs:
                R.check(not drops or drops[0] > e.index(c), run, p, "an access is released before the closure is called", c)
        if not cs:
            if p.kind == "ret":
                R.check(is_none(p), run, p, "returns something without calling the closure", None, (p.value,))
                miss = any(variant_of(p, y.a[3]) == 0 for y in tries) or any(variant_of(p, y.a[3]) == 0 for y in other)
                R.check(miss, run, p, "the closure is not called although every component is there", None)
            continue
        if not R.check(len(cs) == 1 and cs[0] in e, run, p, "the closure is called more than once", cs[0]):
            continue
        ev = cs[0]
        vals = ev.a[1][1:]
        while len(vals) == 1 and vals[0].k == "tup" and n != "one":
            vals = vals[0].a[0]
        if not R.check(len(vals) == k, run, p, f"the closure gets {len(vals)} values", ev, tuple(vals)):
            continue
        for i, v in enumerate(vals):
            src = next((y for y in tries if v.k == "fld" and v.a[0] is y.a[3]), None)
            if not R.check(src is not None, run, p, f"value {i + 1} given to the closure is not that of its component", ev, (v,)):
                continue
            R.check(variant_of(p, src.a[3]) == 1, run, p, "the closure is called although a component is absent", ev)
            g = place.get(i)
            R.check(g is not None and any(t is g.a[3] for t in subterms(src.a[2])), run, p, f"value {i + 1} given to the closure is that of another component", ev,
                    (v,))
        if p.kind == "ret":
            R.check(some_of(p, ev.a[3]), run, p, "the closure's result is not returned", ev, (p.value,))


def forgot(e):
    return False


def behind_ret(t, ret):
    return any(x is ret for x in subterms(t))


def component(run, ptr, n):
    """Which component of the argument does the pointer designate?"""
    a = untyped(norm(run.args[0]))
    t = untyped(norm(ptr))
    if n == "one":
        return 0 if t is a else None
    if ptr.k == "ref" and ptr.a[0] is mk("deref", run.args[0]) and len(ptr.a[1]) == 1 and ptr.a[1][0][0] == "f":
        return ptr.a[1][0][2]
    return None


def present(run, p, roots):
    """Which options behind the argument are known to hold something."""
    return {untyped(k[1]): v for k, v in p.st.facts.items() if k[0] == "var"}


def concrete(R, name, mode):
    run = R.run(name)
    for p in run.paths:
        if not no_panic(R, run, p):
            continue
        cs = [x for x in flat(p.events) if is_call(x, "call F")]
        acq = [x for x in p.events if x.k == "acq"]
        opts = [v for k, v in p.st.facts.items() if k[0] == "var" and behind(k[1], run.args[0])]
        for x in acq:
            R.check(behind(x.a[1], run.args[0]), run, p, "another lock is taken", x, (x.a[1],))
        closed(R, run, p)
        if not R.check(len(opts) == 1, run, p, "does not look whether there is a value"):
            continue
        want = opts[0] == 1 and not poisoned_lock(p)
        if not want:
            R.check(not cs, run, p, "the closure is called although there is no value", cs[0] if cs else None)
            if p.kind == "ret":
                R.check(is_none(p), run, p, "returns something without calling the closure", None, (p.value,))
            continue
        if not R.check(len(cs) == 1 and cs[0] in p.events, run, p, f"the closure is called {len(cs)} times although there is a value", None,
                       (p.value,) if p.value is not None else ()):
            continue
        ev = cs[0]
        held = [h for x, h in held_walk(p.events) if x is ev][0]
        ok = [h for h in held if inside(p, ev.a[1][-1], h)]
        if R.check(bool(ok), run, p, "the closure gets something that is not protected by an access held during the call", ev, (ev.a[1][-1],)):
            R.check(ok[0].a[0] == mode, run, p, "access for reading is exclusive" if mode == "R" else "access for writing is shared", ok[0])
        if p.kind == "ret":
            R.check(some_of(p, ev.a[3]), run, p, "the closure's result is not returned", ev, (p.value,))


def tuples(R, name, k):
    run = R.run(name)
    for p in run.paths:
        if not no_panic(R, run, p):
            continue
        cs = [x for x in flat(p.events) if is_call(x, "call _F")]
        opts = {}
        for kk, v in p.st.facts.items():
            if kk[0] == "var" and behind(kk[1], run.args[0]):
                i = index_of(run, kk[1])
                if i is not None:
                    opts[i] = v
        closed(R, run, p)
        want = len(opts) == k and all(v == 1 for v in opts.values()) and not poisoned_lock(p)
        if not want:
            R.check(not cs, run, p, "the closure is called although a component is absent", cs[0] if cs else None)
            if p.kind == "ret":
                R.check(is_none(p), run, p, "returns something without calling the closure", None, (p.value,))
                R.check(any(v == 0 for v in opts.values()) or poisoned_lock(p), run, p, "the closure is not called although every component is there")
            continue
        if p.kind != "ret" and not cs:
            continue
        if not R.check(len(cs) == 1, run, p, f"the closure is called {len(cs)} times although every component is there"):
            continue
        ev = cs[0]
        vals = ev.a[1][1:]
        while len(vals) == 1 and vals[0].k == "tup":
            vals = vals[0].a[0]
        held = [h for x, h in held_walk(p.events) if x is ev][0]
        for i, v in enumerate(vals):
            ok = [h for h in held if inside(p, v, h)]
            R.check(bool(ok) and index_of(run, ok[0].a[1]) == i, run, p, f"value {i + 1} given to the closure is not that of its component", ev, (v,))
        if p.kind == "ret":
            R.check(some_of(p, ev.a[3]), run, p, "the closure's result is not returned", ev, (p.value,))


def index_of(run, t):
    """Which component of the argument this belongs to."""
    root = untyped(mk("drf", run.args[0], None))
    for x in subterms(t):
        if x.k == "fld" and untyped(x.a[0]) is root:
            return x.a[2]
    return None
