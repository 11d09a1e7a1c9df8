"""Configuring a schema: C17."""
from ..base import *
from .ops import behind
from .graph import same_term
from .res import typeid


def grown(R, run, p, t, orig, what, entry):
    """t is orig with at most entries added; entry(key, value, map) judges each one."""
    if same_term(t, orig):
        R.check(True, run, p, what)
        return 0
    if t.k == "adt" and t.a[2]:
        n = 0
        for i, f in enumerate(t.a[2]):
            n += grown(R, run, p, f, mk("fld", orig, t.a[1], i, None), what, entry)
        return n
    if t.k == "adt":
        return 0                          # a constant such as a marker
    if t.k == "map":
        if not R.check(t.a[0] is not None and same_term(t.a[0], orig), run, p, f"{what} is lost or replaced", None, (t,)):
            return 0
        for o in t.a[1]:
            if o.k != "ins":
                if o.k == "del":
                    R.fail(run, p, f"part of {what} is removed", None, (o,))
                else:
                    R.doubt(run.name, "registered in a way not followed")
            else:
                entry(o.a[0], o.a[1], t)
        return len(t.a[1])
    if t.k == "op" and t.a[0] == "typeid" or t is UNIT:
        return 0
    R.fail(run, p, f"{what} is not kept: {brief(t, 80)}", None, (t,))
    return 0


def parts(e, t):
    d = e.ty(t.a[0])
    return {f[0]: t.a[2][i] for i, f in enumerate(d["variants"][0]["fields"])}, [f[0] for f in d["variants"][0]["fields"]]


def keeps(R, n, entry, check_added):
    run = R.run(n)
    for p in run.paths:
        if not no_panic(R, run, p) or not R.check(p.kind == "ret", run, p, "unwinds"):
            continue
        w = next((x for x in flat(p.events) if x.k in ("loop", "rec", "client")), None)
        if w is not None:
            R.check(w.k != "client", run, p, "configuring calls the registered code", w)
            R.doubt(run.name, "a loop is not followed here")
            continue
        v = p.value
        seen = []
        if not R.check(v.k == "adt" or same_term(v, run.args[0]), run, p, "another schema is returned", None, (v,)):
            continue
        grown(R, run, p, v, run.args[0], "what the schema had", lambda k, x, m: seen.append((k, x, m)))
        for k, x, m in seen:
            entry(R, run, p, k, x, m)
        R.check(len(seen) == 1, run, p, "nothing is added" if not seen else "more than one thing is added", None, (v,))
        if len(seen) == 1:
            check_added(R, run, p, *seen[0])


def resource_entry(R, run, p, k, x, m):
    want = typeid(run.e, run.e.tyof(run.args[1]))
    R.check(k is want, run, p, "the resource of another type is replaced", None, (k,))


def resource_added(R, run, p, k, x, m):
    R.check(holds(p, x, run.args[1]), run, p, "the resource given is not what is registered", None, (x,))


def holds(p, t, val):
    """Does the value hold val, possibly in boxes?"""
    return any(same_term(s, val) for s in parts(p, t))


def parts(p, t):
    """The parts of a value, those in boxes included."""
    todo, seen = [t], set()
    while todo:
        y = todo.pop()
        for s in subterms(y):
            yield s
            if s.k in ("arc", "box") and s.a[0] not in seen:
                seen.add(s.a[0])
                c = p.st.mem.get(s.a[0])
                if c is not None:
                    todo.append(c)


def trigger_entry(R, run, p, k, x, m):
    has = [v for kk, v in p.st.facts.items() if kk[0] == "has" and same_term(kk[1], m.a[0]) and same_term(kk[2], k)]
    if not R.check(bool(has), run, p, "a list of triggers is replaced", None, (x,)):
        return
    if not has[0]:
        R.check(x.k == "seq" and len(x.a[0]) == 1, run, p, "not exactly the trigger is added", None, (x,))
        return
    if not R.check(x.k == "seq", run, p, "the triggers of that schedule are not kept", None, (x,)):
        return
    old = [s for s in x.a[0] if s.k == "s" and s.a[0].k == "mval" and same_term(s.a[0].a[0], m.a[0]) and same_term(s.a[0].a[1], k)]
    R.check(len(old) == 1, run, p, "the triggers scheduled before for the same event are lost" if not old else "triggers scheduled before are duplicated", None, (x,))
    R.check(len(x.a[0]) == len(old) + 1, run, p, "not exactly the trigger is added", None, (x,))


def trigger_added(R, run, p, k, x, m):
    tr = run.args[2]
    new = [s for s in (x.a[0] if x.k == "seq" else ()) if s.k == "e"]
    R.check(len(new) == 1 and holds(p, new[0].a[0], tr), run, p, "the trigger given is not what is scheduled", None, (x,))


def c17(R):
    R.rule("From a graph: exactly that graph, nothing registered. Adding a resource or a trigger: the result is the schema given, field by field, except one entry "
           "added: that of the resource's own type, or the trigger appended to the list of its schedule, the rest of that list kept. Installing: one call of the "
           "plugin with the schema as given, its result returned.")
    R.needs_map("trigger::TriggerSet", "resource::ResourceSet")
    run = R.run("schema_from")
    for p in run.paths:
        if not no_panic(R, run, p) or not R.check(p.kind == "ret", run, p, "unwinds"):
            continue
        v = p.value
        R.check(v.k == "adt" and any(t.k == "adt" and "Lock" in run.e.head(t.a[0]) and len(t.a[2]) >= 1 and any(same_term(f, run.args[0]) for f in t.a[2])
                                     for t in parts(p, v)), run, p, "the schema is not made of the graph given", None, (v,))
        for t in subterms(v):
            if t.k == "map":
                R.check(t.a[0] is None and not t.a[1], run, p, "a new schema has something registered", None, (t,))
    run = R.run("schema_install")
    for p in run.paths:
        if not no_panic(R, run, p):
            continue
        cs = [x for x in flat(p.events) if x.k == "client"]
        if p.kind != "ret":
            R.check(any(x.k == "unwind" for x in p.events), run, p, "unwinds by itself")
            continue
        ok = [x for x in cs if "Plugin::install" in x.a[0]]
        if not R.check(len(ok) == 1 and len(cs) == 1, run, p, f"the plugin is installed {len(ok)} times", ok[-1] if ok else None):
            continue
        a = ok[0].a[1]
        R.check(same_term(a[0], run.args[1]), run, p, "another plugin is installed", ok[0], tuple(a))
        R.check(same_term(a[1], run.args[0]), run, p, "the plugin is not handed the schema as it is", ok[0], tuple(a))
        R.check(same_term(p.value, ok[0].a[3]), run, p, "the schema the plugin returns is not what is returned", ok[0], (p.value,))
    keeps(R, "schema_with_resource", resource_entry, resource_added)
    keeps(R, "schema_with_trigger", trigger_entry, trigger_added)
    for n, f in (("schema_resources", "resource::ResourceSet"), ("schema_triggers", "trigger::TriggerSet")):
        run = R.run(n)
        for p in run.paths:
            if not no_panic(R, run, p) or not R.check(p.kind == "ret", run, p, "unwinds"):
                continue
            v = p.value
            R.check(v.k == "ref" and v.a[0].k == "deref" and same_term(v.a[0].a[0], run.args[0]), run, p,
                    "what is registered with another schema is given", None, (v,))
