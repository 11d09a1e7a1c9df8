"""Lazy documents: C16."""
from ..base import *
from .ops import behind
from .graph import same_term, idt

FIND = "DocumentRepository::find_by_id"


def finds(p):
    return [x for x in p.events if x.k == "client" and FIND in x.a[0]]


def asked_for(R, run, p, ev, repo, key):
    a = ev.a[2]
    if not R.check(len(a) == 2 and all(x.k == "pt" for x in a), run, p, "the repository is called in a way not followed", ev):
        return
    R.check(plain(a[0].a[2], repo), run, p, f"another repository is asked: {brief(a[0].a[2], 60)}", ev, (a[0].a[2],))
    if key is None:
        R.check(plain(a[1].a[2], repo), run, p, f"the repository is asked for another id: {brief(a[1].a[2], 60)}", ev, (a[1].a[2],))
    else:
        R.check(same_term(a[1].a[2], key), run, p, f"the repository is asked for another id: {brief(a[1].a[2], 60)}", ev, (a[1].a[2],))


def plain(t, root):
    """Reached from root by fields and references alone."""
    t, root = untyped(norm(t)), untyped(norm(root))
    while t is not root:
        if t.k in ("fld", "drf"):
            t = t.a[0]
        elif t.k == "op" and t.a[0] in ("cont",) and t.a[1] and isinstance(t.a[1][0], T) and t.a[1][0].a and isinstance(t.a[1][0].a[0], T):
            t = t.a[1][0].a[0]
        elif t.k == "ref":
            t = t.a[0]
        elif t.k == "deref":
            t = t.a[0]
        else:
            return False
    return True


def some(v):
    return v.a[2][0] if v.k == "adt" and v.a[1] == 1 and len(v.a[2]) == 1 else None


def none(v):
    return v.k == "adt" and v.a[1] == 0 and not v.a[2]


def loads(R, n, n_parts, repo, key, concurrent, shared=True):
    """Dereferencing, n_parts times in a row, something that may be loaded already."""
    run = R.run(n, **({"concurrent": True} if concurrent else {}))
    for p in run.paths:
        if not no_panic(R, run, p):
            continue
        rp, ky = repo(run), key(run) if key else None
        fs = finds(p)
        if next((x for x in flat(p.events) if x.k in ("loop", "rec")), None) is not None:
            R.doubt(run.name, "a loop is not followed here")
            continue
        nested = [x for x in flat(p.events) if x.k == "client" and FIND in x.a[0]]
        R.check(len(nested) == len(fs), run, p, "a lookup in a loop", None)
        start = [v for k, v in p.st.facts.items() if k[0] == "set" and behind(k[1], run.args[0])]
        loaded = next((mk("op", "loaded", (k[1],), None) for k, v in p.st.facts.items() if k[0] == "set" and v and behind(k[1], run.args[0])), None)
        if loaded is None:
            loaded = None
        else:
            loaded = untyped(loaded)
        here = loaded           # what is loaded so far
        fails = 0
        found = None
        for ev in p.events:
            if ev.k == "client" and FIND in ev.a[0]:
                asked_for(R, run, p, ev, rp, ky)
                R.check(here is None and found is None, run, p, "a document already loaded is looked up again", ev)
                v = variant_of(p, ev.a[3])
                if v == 0:
                    fails += 1
                elif v == 1:
                    found = untyped(mk("fld", ev.a[3], 1, 0, None))
            elif ev.k == "onceset":
                R.check(here is None or same_term(here, ev.a[1]), run, p, "what was loaded is replaced", ev)
                R.check(found is not None and same_term(found, unboxed(p, ev.a[1])) or here is not None, run, p,
                        f"something else than the document found is remembered: {brief(ev.a[1], 60)}", ev, (ev.a[1],))
                here = untyped(ev.a[1])
            elif ev.k == "others" and here is None:
                here = untyped(ev.a[0])
        if p.kind != "ret":
            R.check(any(x.k == "unwind" for x in p.events), run, p, "unwinds by itself")
            continue
        parts = list(p.value.a[0]) if n_parts > 1 and p.value.k == "tup" else [p.value]
        if not R.check(len(parts) == n_parts, run, p, "the result is not followed", None, (p.value,)):
            continue
        nones = 0
        seen = False
        for v in parts:
            x = some(v)
            if none(v):
                nones += 1
                R.check(not seen, run, p, "a document once loaded is lost", None, (p.value,))
                R.check(nones <= fails, run, p, "nothing is found without asking the repository", fs[-1] if fs else None, (p.value,))
            elif R.check(x is not None, run, p, "the result is not followed", None, (v,)):
                seen = True
                R.check(here is not None, run, p, "what the repository found is not remembered", fs[-1] if fs else None, (v,))
                if here is not None:
                    R.check(same_term(x, here) or same_term(unboxed(p, x), unboxed(p, here)), run, p, f"dereferences to {brief(x, 60)} instead of what is loaded", fs[-1] if fs else None, (x,))
        R.check(seen or found is None, run, p, "the document found is not given", fs[-1] if fs else None)


def c16(R):
    R.rule("On every path, with other threads possibly filling the cell at any time it is empty: a lookup happens only while nothing is loaded, asks the document's own "
           "repository for its own id, and what it finds is remembered; every dereference gives what is loaded; it gives nothing only if a lookup during it found "
           "nothing. A document made from content has it loaded from the start; a clone has the same repository, id and content.")
    run = R.run("lazy_new_deref")
    for p in run.paths:
        if not no_panic(R, run, p) or not R.check(p.kind == "ret", run, p, "unwinds"):
            continue
        f = next((x for x in flat(p.events) if x.k == "client"), None)
        R.check(f is None, run, p, "a document made from content is looked up", f)
        x = some(p.value)
        R.check(x is not None and same_term(x, run.args[1]), run, p, "a document made from content dereferences to something else", None, (p.value,))
    for n, want in (("lazy_new_id", lambda r: idt(r.args[1])), ("lazy_built_id", lambda r: r.args[1])):
        run = R.run(n)
        for p in run.paths:
            if no_panic(R, run, p) and R.check(p.kind == "ret", run, p, "unwinds"):
                R.check(same_term(p.value, want(run)), run, p, f"reports another id: {brief(p.value, 60)}", None, (p.value,))
    loads(R, "lazy_built_deref", 1, lambda r: r.args[0], lambda r: r.args[1], False)
    for con in (False, True):
        loads(R, "lazy_deref", 1, lambda r: r.args[0], None, con)
        loads(R, "lazy_deref_twice", 2, lambda r: r.args[0], None, con)
    loads(R, "lazy_deref_clone_deref", 2, lambda r: r.args[0], None, False)
    run = R.run("lazy_clone")
    for p in run.paths:
        if not no_panic(R, run, p) or not R.check(p.kind == "ret", run, p, "unwinds"):
            continue
        v = norm(p.value)
        src = mk("drf", run.args[0], None)
        if same_term(v, src):
            R.check(True, run, p, "clone")
            continue
        if not R.check(v.k == "adt", run, p, "a clone is something else", None, (v,)):
            continue
        for i, f in enumerate(p.value.a[2]):
            own = mk("fld", src, 0, i, None)
            if same_term(f, own) or plain(f, own):
                R.check(True, run, p, "clone")
                continue
            st = [(k[1], x) for k, x in p.st.facts.items() if k[0] == "set" and behind(k[1], own)]
            inner = [t for t in subterms(f) if t.k == "set"]
            if st and st[0][1] and inner:
                ok = untyped(inner[0].a[0]) is untyped(mk("op", "loaded", (st[0][0],), None))
            else:
                ok = bool(st) and not st[0][1] and any(t is UNSET for t in subterms(f))
            R.check(ok, run, p, f"a clone differs in what it holds: {brief(f, 60)}", None, (f,))
