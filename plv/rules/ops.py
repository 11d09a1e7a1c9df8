"""Saving, deleting and triggers: C08 to C11."""
from ..base import *
from ..models import VEC, DEQ
from .tx import once, calls, graph_place, is_graph_map, closure_outcome, templates, unwound, merges, same_ref

EXEC = "Trigger::execute"


def is_exec(ev):
    return ev.k == "client" and EXEC in ev.a[0]


def type_name(e, key):
    """The type a type id stands for."""
    if key.k == "op" and key.a[0] == "typeid":
        return e.ty(key.a[1][0]).get("def") or ""
    return ""


def typeid_of(e, ty):
    for k in ():
        pass
    return ty


def sched_lookup(run, p, pred):
    """(the list registered under the schedule, found?) of the lookups in trigger sets on this path."""
    out = []
    for k, v in p.st.facts.items():
        if k[0] == "has" and k[2].k == "op" and k[2].a[0] == "typeid" and pred(k[2]):
            out.append((k, v))
    return out


class Trig:
    """Follows the execution of a sequence of triggers through the events of a path."""

    def __init__(self, R, run, p, events):
        self.R, self.run, self.p, self.events = R, run, p, events

    def lists(self, ev):
        """Segments a loop of trigger calls runs over, or None."""
        frm = [x for x in ev.a[2] if x.k == "from"]
        return frm

    def match_box(self, ev, want):
        """Is this a call of the trigger `want` (an argument of the entry)?"""
        return any(t is want for t in subterms((ev.a[1][0], ev.a[2][0])))

    def content_has(self, seg, want):
        if any(t is want for t in subterms(seg)):
            return True
        for t in subterms(seg):
            if t.k in ("box", "arc", "ref") and any(x is want for x in subterms(self.p.st.mem.get(t.a[0], UNIT))):
                return True
        return False

    def same_list(self, S, want):
        return untyped(norm(S)) is untyped(norm(want))

    def run_all(self, exp, ctx_ok, what):
        """The expected triggers run in order from the first event on.

        exp: list of ("s", list term) and ("e", entry argument).  Returns (status, index of the event after),
        status: "ok", ("err", result, event), "panic" or None (a violation was reported)."""
        R, run, p = self.R, self.run, self.p
        exp = list(exp)
        evs = self.events
        j = 0
        while j < len(evs):
            ev = evs[j]
            exp = self.left(exp)
            if ev.k == "loop" and any(is_exec(x) for x in flat([ev])):
                if not exp:
                    R.fail(run, p, f"{what} that were not registered for it are run", ev)
                    return None, j
                r = self.loop(ev, exp, ctx_ok, what, evs, j)
                if r is None:
                    return None, j
                n, last = r
                if last is None:
                    exp = exp[n:]
                    j += 1
                    continue
                # left early: the call that ended it
                return self.ending(evs, last, what)
            if is_exec(ev):
                if not exp:
                    R.fail(run, p, f"a trigger that is none of the {what} is run", ev)
                    return None, j
                kind, want = exp[0][0], exp[0][1]
                if kind == "s":
                    # the elements of a list run one by one without a loop: only at its beginning
                    done = exp[0][2] if len(exp[0]) > 2 else 0
                    if any(t.k == "elt" and t.a[1] == ("f", done) and self.same_list(t.a[0], want) for t in subterms(ev.a[1][0])):
                        if not R.check(ctx_ok(ev), run, p, f"the {what} are run with another context", ev, tuple(ev.a[1][1:])):
                            return None, j
                        if self.outcome(ev, j, evs) != "ok":
                            return self.ending(evs, j, what)
                        exp = [("s", want, done + 1)] + exp[1:]
                        j += 1
                        continue
                    R.fail(run, p, f"the {what} are not run from first to last", ev, (ev.a[1][0],))
                    return None, j
                if not R.check(self.match_box(ev, want), run, p, f"the {what} are run out of order", ev, (ev.a[1][0],)):
                    return None, j
                if not R.check(ctx_ok(ev), run, p, f"the {what} are run with another context", ev, tuple(ev.a[1][1:])):
                    return None, j
                o = self.outcome(ev, j, evs)
                if o != "ok":
                    return self.ending(evs, j, what)
                exp = exp[1:]
                j += 1
                continue
            if not exp:
                return "ok", j
            if ev.k in ("acq", "sw", "mw") and ev.k == "sw" and ev.a[0].a[0].k != "loc":
                break
            j += 1
        exp = self.left(exp)
        if exp:
            R.fail(run, p, f"not all {what} are run", evs[j] if j < len(evs) else None, tuple(x[1] for x in exp))
            return None, j
        return "ok", j

    def left(self, exp):
        """The rest of what is expected, without what the path knows to be at its end."""
        exp = list(exp)
        while exp and exp[0][0] == "s" and self.at_end(exp[0][1], exp[0][2] if len(exp[0]) > 2 else 0):
            exp.pop(0)
        return exp

    def at_end(self, S, done):
        return any(v is True and k[0] == "empty" and self.same_list(k[1], S) or
                   v is False and k[0] == "longer" and k[2] <= done and self.same_list(k[1], S) for k, v in self.p.st.facts.items())

    def outcome(self, ev, j, evs):
        if any(x.k == "unwind" and x.a[0] == ev.a[0] and x.a[1] == ev.a[5] for x in evs[j + 1:]):
            return "panic"
        v = variant_of(self.p, ev.a[3])
        return {0: "ok", 1: "err"}.get(v, "?")

    def ending(self, evs, j, what):
        ev = evs[j]
        o = self.outcome(ev, j, evs)
        if o == "panic":
            return "panic", j + 1
        if o == "err":
            return ("err", ev.a[3], ev), j + 1
        if o == "?":
            # the result itself is handed on
            return ("any", ev.a[3], ev), j + 1
        self.R.fail(self.run, self.p, f"the remaining {what} are not run although none has failed", ev)
        return None, j

    def loop(self, ev, exp, ctx_ok, what, evs, j):
        """(number of expected segments this loop covers, index of the call that ended it or None)."""
        R, run, p = self.R, self.run, self.p
        frm = self.lists(ev)
        if not R.check(len(frm) == 1, run, p, f"a loop runs the {what} together with something else", ev):
            return None
        S, d, whole = frm[0].a[0], frm[0].a[1], frm[0].a[2]
        if not R.check(d == "f", run, p, f"the {what} are run in reverse order", ev):
            return None
        segs = S.a[1][0].a[0] if S.k == "op" and S.a[0] == "cat" else (whole,)
        if not R.check(whole.k == "s" or len(segs) == 1 and whole.k == "drop", run, p, f"some of the {what} are skipped", ev, (S,)):
            return None
        if not R.check(len(segs) <= len(exp), run, p, f"more than the {what} are run", ev, (S,)):
            return None
        for s, (k, want, *rest) in zip(segs, exp):
            ok = k == "s" and s.k in ("s", "drop") and self.same_list(s.a[0], want) or k == "e" and s.k == "e" and self.content_has(s, want)
            if not R.check(ok, run, p, f"something else than the {what} is run", ev, (s,)):
                return None
            done, start = rest[0] if rest else 0, s.a[1] if s.k == "drop" else 0
            if not R.check(done == start, run, p, f"some of the {what} are " + ("run again" if start < done else "skipped"), ev, (S,)):
                return None
        lid = ev.a[0]
        for c in ev.a[1]:
            ex = [x for x in c.a[1] if is_exec(x)]
            took = [u for u in c.a[2] if u.k == "took"]
            nested = [x for x in c.a[1] if x.k == "loop" and any(is_exec(y) for y in flat([x]))]
            ok = R.check(len(ex) == 1 and not nested, run, p, f"one of the {what} is run {len(ex)} times", ev) and \
                R.check(len(took) == 1 and took[0].a[0] is S and took[0].a[2] == 1, run, p, f"some of the {what} are skipped", ev, (S,))
            if not ok:
                return None
            x = ex[0]
            els = [t for t in subterms(x.a[1][0]) if t.k == "elt" and t.a[0] is S]
            if not R.check(bool(els), run, p, f"something else than the {what} is run", x, (x.a[1][0],)):
                return None
            if not R.check(ctx_ok(x), run, p, f"the {what} are run with another context", x, tuple(x.a[1][1:])):
                return None
            okf = any(k[0] == "var" and k[1] is x.a[3] and v == 0 for k, v in c.a[0])
            if not R.check(okf, run, p, f"the {what} go on after one has failed", x):
                return None
            others = [y for y in c.a[1] if y.k in ("sw", "mw") and y.a[0].a[0].k != "loc"]
            R.check(not others, run, p, f"something is recorded for each of the {what}", others[0] if others else None)
        more = p.st.facts.get(("more", S, lid, 0))
        if more is False:
            return len(segs), None
        for i in range(j + 1, len(evs)):
            if is_exec(evs[i]):
                x = evs[i]
                els = [t for t in subterms(x.a[1][0]) if t.k == "elt" and t.a[0] is S]
                if not R.check(bool(els), run, p, f"something else than the {what} is run", x, (x.a[1][0],)):
                    return None
                if not R.check(ctx_ok(x), run, p, f"the {what} are run with another context", x, tuple(x.a[1][1:])):
                    return None
                return len(segs), i
        R.fail(run, p, f"the remaining {what} are not run although none has failed", ev)
        return None


def only(R, run, p, evs, what):
    """No trigger is run, nothing is recorded in the rest."""
    for ev in evs:
        if any(is_exec(x) for x in flat([ev])):
            R.fail(run, p, f"triggers are run {what}", ev)
            return False
    return True


def err_of(p, res, kind):
    """Does the path return the failure of the trigger?"""
    v = p.value
    if v is None:
        return False
    if untyped(norm(v)) is untyped(norm(res)):
        return True
    if v.k == "adt" and v.a[1] == 1 and len(v.a[2]) == 1:
        return untyped(norm(v.a[2][0])) is untyped(mk("fld", res, 1, 0, None)) or \
            untyped(norm(v.a[2][0])) is untyped(norm(mk("fld", res, 1, 0, None)))
    return False


def ok_value(p):
    return p.value is not None and p.value.k == "adt" and p.value.a[1] == 0


def finish(R, run, p, status, what):
    """The path ends as the triggers say it must; True if it goes on."""
    if status == "panic":
        R.check(p.kind == "unwind", run, p, "a trigger's panic is swallowed")
        return False
    if isinstance(status, tuple):
        if status[0] == "any":
            R.check(err_of(p, status[1], "any"), run, p, f"the result of the {what} is not returned", status[2], (p.value,))
            return False
        R.check(p.kind == "ret" and err_of(p, status[1], "err"), run, p, f"the failure of one of the {what} is not returned", status[2],
                (p.value,) if p.value is not None else ())
        return False
    return status == "ok"


# ---- C10 -----------------------------------------------------------------------------------------


def same_ctx(run, n):
    want = untyped(norm(run.args[n]))

    def ok(ev):
        return untyped(norm(ev.a[1][1])) is want
    return ok


def c10(R):
    R.needs_map("trigger::TriggerSet")
    R.rule("Executing a selection is followed through every path: for the schedule's list found in the set (nothing if the set has none), followed by "
           "the triggers added by the entry under an equal schedule, each is called exactly once, from first to last, with the given context; the "
           "loop goes on only after an Ok, ends with the first Err and returns it; with none left the result is Ok. Registrations under an unequal "
           "schedule add nothing.")
    # base set found under the schedule asked for, plus what was added
    cases = [
        ("trig_select_exec", 2, lambda R, run, p: base(R, run, p, [])),
        ("trig_add_exec", 4, lambda R, run, p: base(R, run, p, [run.args[2]])),
        ("schema_trig_exec", 4, lambda R, run, p: base(R, run, p, [run.args[2]])),
        ("trig_other_exec", 4, lambda R, run, p: base(R, run, p, [run.args[2]] if equal_keys(run, p) else [])),
        ("trig_seq", 7, lambda R, run, p: [("e", run.args[3])] + ([("e", run.args[4])] if equal_keys(run, p) else []) + [("e", run.args[5])]),
    ]
    for name, ctx, want in cases:
        run = R.run(name)
        if not run.paths:
            continue
        if name != "trig_seq" and not any(k[0] == "has" and k[2].k == "op" and k[2].a[0] == "typeid" for p in run.paths for k in p.st.facts):
            R.doubt(name, "no lookup by schedule type was recognised")
            continue
        for p in run.paths:
            if p.kind == "ret" and not no_panic(R, run, p):
                continue
            if name in ("trig_other_exec", "trig_seq") and equal_keys(run, p) is None:
                # a panic before the schedules were looked at, or a registration or a selection that looks at none
                if p.kind == "ret":
                    R.doubt(name, "schedules are not compared")
                else:
                    only(R, run, p, p.events, "before they are looked up")
                continue
            exp = want(R, run, p)
            if exp is None:
                continue
            t = Trig(R, run, p, [x for x in p.events])
            status, j = t.run_all(exp, same_ctx(run, ctx), "triggers of the schedule")
            if status is None:
                continue
            only(R, run, p, p.events[j:], "after one has failed" if status != "ok" else "that are not scheduled")
            if finish(R, run, p, status, "triggers"):
                R.check(p.kind == "ret" and (ok_value(p) or last_result(run, p)), run, p, "fails although no trigger did", None,
                        (p.value,) if p.value is not None else ())


def last_result(run, p):
    cs = [x for x in p.events if is_exec(x)]
    return bool(cs) and untyped(norm(p.value)) is untyped(norm(cs[-1].a[3])) and variant_of(p, cs[-1].a[3]) in (0, None)


def equal_keys(run, p):
    for k, v in p.st.facts.items():
        if k[0] == "rel" and k[1].k == "op" and k[2].k == "op" and k[1].a[0] == k[2].a[0] == "typeid":
            return v == frozenset("=")
    return None


def base(R, run, p, added):
    """What the entry's own set holds under the schedule asked for, then what was added."""
    # the schedule selected by the entry: the type of the argument `sel`
    sel = {"trig_select_exec": 1}.get(run.name, 3)
    ty = run.e.tyof(run.args[sel])
    looks = [(k, v) for k, v in p.st.facts.items() if k[0] == "has" and k[2].k == "op" and k[2].a[0] == "typeid"]
    key = None
    for k, v in looks:
        if k[2].a[1][0] == ty:
            key = (k, v)
    if key is None and run.name == "trig_other_exec" and added:
        # the schedules are equal: the lookup may have been made under the other name
        key = looks[0] if looks else None
    if key is None:
        R.fail(run, p, "the schedule's triggers are not looked up")
        return None
    k, v = key
    out = []
    if v:
        vty = None
        for t in subterms(tuple(x for x in p.events)):
            if t.k == "mval" and untyped(t.a[0]) is untyped(k[1]) and t.a[1] is k[2]:
                vty = t
                break
        out.append(("s", vty if vty is not None else mk("mval", k[1], k[2], None)))
    return out + [("e", a) for a in added]


# ---- C11 -----------------------------------------------------------------------------------------


def c11(R):
    R.rule("For 0 to 8 arguments, every path of Trigger::execute of a function converts each argument type once from the given context, calls the "
           "function exactly once with the context's handle and those values in order, and returns its result; conversion of a context into a "
           "handle refers to that context, into a target to the context's own target, into a resource to the schema's set.")
    for n in range(9):
        run = R.run(f"trig_{n}")
        for p in run.paths:
            if not no_panic(R, run, p):
                continue
            fs = [j for j, x in enumerate(p.events) if is_call(x, "call _F")]
            conv = [x for x in p.events if x.k == "client" and x.a[0].startswith("core::convert::From::from ")]
            bad = next((x for x in p.events if x.k in ("loop", "rec", "mw", "sw") or x.k == "client" and x not in conv and not is_call(x, "call _F")), None)
            R.check(bad is None, run, p, "does something else than calling the function", bad)
            if p.kind == "unwind":
                R.check(len(fs) <= 1, run, p, "the function is called more than once")
                R.check(any(x.k == "unwind" for x in p.events), run, p, "panics by itself")
                continue
            if not R.check(len(fs) == 1, run, p, f"the function is called {len(fs)} times"):
                continue
            ev = p.events[fs[0]]
            returns(R, run, p, ev, "what the function returned is not returned")
            args = ev.a[1]
            if len(args) == 2 and args[1].k == "tup":
                args = (args[0],) + tuple(args[1].a[0])
            if not R.check(len(args) == n + 2, run, p, f"the function gets {len(args) - 2} arguments", ev):
                continue
            R.check(untyped(norm(args[0])) is untyped(norm(run.args[0])), run, p, "another function is called", ev, (args[0],))
            R.check(holds_ctx(run.e, args[1], run.args[1]), run, p, "the function's handle is on another context", ev, (args[1],))
            for i in range(n):
                name = "core::convert::From::from " + "ABCDEFGH"[i]
                cs = [x for x in conv if x.a[0] == name]
                if not R.check(len(cs) == 1, run, p, f"argument {i + 1} is built {len(cs)} times", ev, (args[i + 2],)):
                    continue
                R.check(untyped(norm(cs[0].a[1][0])) is untyped(norm(run.args[1])), run, p, f"argument {i + 1} is built from another context", cs[0],
                        (cs[0].a[1][0],))
                R.check(args[i + 2] is cs[0].a[3], run, p, f"argument {i + 1} is not the one built from the context", ev, (args[i + 2],))
    run = R.run("ctx_from")
    for p in run.paths:
        R.check(p.kind == "ret" and holds_ctx(run.e, p.value, run.args[0]), run, p, "the handle is on another context", None, (p.value,))
    merges(R, ("ctx_fg_with",))
    registered(R)
    targets(R)
    resources(R)


def registered(R):
    """A function registered under a schedule and executed through it."""
    run = R.run("trig_fn_exec")
    for p in run.paths:
        if not no_panic(R, run, p):
            continue
        fs = [x for x in p.events if is_call(x, "call _F")]
        R.check(not any(is_call(x, "call _F") for ev in p.events if ev.k == "loop" for x in flat([ev])), run, p, "a registered function is called in a loop")
        if p.kind == "unwind":
            R.check(len(fs) <= 1 and any(x.k == "unwind" for x in p.events), run, p, "panics by itself")
            continue
        if not R.check(len(fs) == 1, run, p, f"a registered function is called {len(fs)} times"):
            continue
        ev = fs[0]
        r = ev.a[3]
        v = variant_of(p, r)
        R.check(untyped(norm(p.value)) is untyped(norm(r)) or v == 0 and ok_value(p) or v == 1 and err_of(p, r, "err"), run, p,
                "what a registered function returned is not returned", ev, (p.value,))
        args = ev.a[1]
        if len(args) == 2 and args[1].k == "tup":
            args = (args[0],) + tuple(args[1].a[0])
        if not R.check(len(args) == 3, run, p, f"the function gets {len(args) - 2} arguments", ev):
            continue
        R.check(holds_ctx(run.e, args[1], run.args[3]), run, p, "a registered function's handle is on another context", ev, (args[1],))
        cs = [x for x in p.events if x.k == "client" and x.a[0] == "core::convert::From::from A"]
        if R.check(len(cs) == 1, run, p, f"a registered function's argument is built {len(cs)} times", ev, (args[2],)):
            R.check(untyped(norm(cs[0].a[1][0])) is untyped(norm(run.args[3])), run, p, "a registered function's argument is built from another context",
                    cs[0], (cs[0].a[1][0],))
            R.check(args[2] is cs[0].a[3], run, p, "a registered function's argument is not the one built from the context", ev, (args[2],))


def holds_ctx(e, t, want):
    """Does what the handle t holds refer to exactly that context?"""
    w = untyped(norm(want))
    if t.k != "adt":
        return any(untyped(norm(x)) is w for x in subterms(t))
    refs = []

    def walk(x):
        if x.k == "adt":
            for y in x.a[2]:
                walk(y)
            return
        ty = e.tyof(x)
        d = e.ty(ty) if ty is not None else {}
        if x is want or d.get("k") == "ref" and e.head(d["t"]).endswith("transaction::Context") or untyped(norm(x)) is w:
            refs.append(x)

    walk(t)
    return bool(refs) and all(untyped(norm(x)) is w or same_ref(x, want) for x in refs)


def targets(R):
    # a target made from a context, or cloned, has the very same lock, or none
    for n in ("target_from", "target_clone"):
        run = R.run(n)
        seen = set()
        for p in run.paths:
            if not no_panic(R, run, p) or not R.check(p.kind == "ret", run, p, "unwinds"):
                continue
            R.check(not elsewhere(run.e, p.value, run.args[0]), run, p, "yields the target of another context", None, (p.value,))
            opts = [(k, v) for k, v in p.st.facts.items() if k[0] == "var" and behind(k[1], run.args[0]) and not elsewhere(run.e, k[1], run.args[0])]
            whole = untyped(norm(p.value))
            if not opts:
                # handed over whole
                R.check(whole.k in SYMLIKE and behind(whole, run.args[0]), run, p, "does not look at the target", None, (p.value,))
                continue
            k, v = opts[0]
            seen.add(v)
            locks = [t for t in subterms(p.value) if t.k == "fld" and untyped(t.a[0]) is untyped(k[1])]
            fresh = [t for t in subterms(p.value) if t.k in ("arc", "box")]
            if v == 1:
                R.check(bool(locks) and not fresh or handed(p.value, k[1]), run, p, "yields a target of its own instead of the context's", None, (p.value,))
            else:
                R.check(not locks and not fresh, run, p, "yields a target although the context has none", None, (p.value,))
    run = R.run("target_shared")
    for p in run.paths:
        acq = [x for x in p.events if x.k == "acq"]
        cs = [x for x in p.events if is_call(x, "call F", "call G")]
        for x in acq:
            R.check(behind(x.a[1], run.args[0]) and not elsewhere(run.e, x.a[1], run.args[0]), run, p, "the target handed out is not the context's", x,
                    (x.a[1],))
        for x in cs:
            R.check(acq and any(same_place(x.a[1][1], a) for a in acq), run, p, "what the closure gets is not the context's target", x, (x.a[1][1],))
        if p.kind == "ret":
            has = [v for k, v in p.st.facts.items() if k[0] == "var" and behind(k[1], run.args[0])]
            if has == [1]:
                w = [a for a in acq if a.a[0] == "W"]
                pz = poisoned_at(p)
                fs = [x for x in cs if is_call(x, "call F")]
                R.check(len(fs) == (0 if pz.get(0) else 1), run, p, "the context's target is not what the trigger's target gives access to", None)


def poisoned_at(p):
    """Which of the acquisitions, in order, found the lock poisoned (0: the first)."""
    out = {}
    pz = sorted(((k[3], v) for k, v in p.st.facts.items() if k[0] == "pz"), key=lambda x: x[0])
    for i, (_, v) in enumerate(pz):
        out[i] = v
    return out


def same_place(ptr, acq):
    """Does the pointer lead into what the lock taken at acq holds?"""
    t = ptr
    if t.k != "ref":
        return False
    return t.a[0] is acq.a[1] and t.a[1][:len(acq.a[2])] == acq.a[2]


def handed(v, opt):
    return any(untyped(t) is untyped(opt) for t in subterms(v))


def behind(t, root):
    """Is this reached through `root`?"""
    return any(untyped(x) is untyped(root) for x in subterms(t)) and \
        not any(x.k == "op" and x.a[0] in ("changed", "retained") for x in subterms(t))


def elsewhere(e, t, root):
    """Is this reached through another context than the one behind `root`?"""
    for x in subterms(t):
        if x.k != "drf":
            continue
        ty = e.tyof(x)
        if ty is not None and e.head(ty).endswith("transaction::Context") and untyped(x.a[0]) is not untyped(root):
            return True
    return False


def resources(R):
    run = R.run("res_from_ctx")
    for p in run.paths:
        if not no_panic(R, run, p) or not R.check(p.kind == "ret", run, p, "unwinds"):
            continue
        has = [(k, v) for k, v in p.st.facts.items() if k[0] == "has"]
        if not searched(R, run, p, len(has) == 1, "the schema's resources are not looked up"):
            continue
        k, v = has[0]
        e = run.e
        R.check(behind(k[1], run.args[0]) and schema_field(e, k[1], run.args[0]), run, p, "the resource is not looked up in the schema of the context", None, (k[1],))
        if v:
            R.check(any(t.k == "mval" and t.a[0] is k[1] for t in subterms(p.value)), run, p, "the schema's resource is not what is handed out", None, (p.value,))


def searched(R, run, p, good, what):
    """Checks that a map has been asked for a key.  One that is gone through entry by entry is beyond this."""
    if not good and any(x.k == "loop" for x in p.events):
        R.doubt(run.name, what + " other than by going through it")
        return False
    return R.check(good, run, p, what, None, (p.value,) if p.value is not None else ())


def schema_field(e, t, root):
    """Is t part of the schema the context behind root refers to?"""
    for x in subterms(t):
        if x.k == "drf":
            ty = e.tyof(x)
            if ty is not None and e.head(ty).endswith("schema::Schema"):
                return True
    return False


# ---- C08, C09 ------------------------------------------------------------------------------------


def is_op(e, v):
    return v.k == "adt" and e.head(v.a[0]) in op_heads(e)


def op_heads(e):
    """The types whose values are kept in logs."""
    if not hasattr(e, "_op_heads"):
        e._op_heads = {e.head(x["args"][0]) for t in e.P.types if t.get("args") and is_lock_ty(t.get("def", ""))
                       for x in [e.ty(t["args"][0])] if x.get("def") in (VEC, DEQ) and x.get("args")}
    return e._op_heads


def recorded(R, e, v):
    """(what an operation does, what to): it is what recording a save or a delete adds to a log, or else the one that carries a node
    saves it, the one that carries an id deletes it."""
    for kind, arg, val in templates(R):
        out = []
        if fits(val, untyped(norm(arg)), v, out) and out and all(untyped(norm(x)) is untyped(norm(out[0])) for x in out):
            return kind, out[0]
    if len(v.a[2]) != 1:
        return None, v
    ty = e.ty(e.fields(v.a[0], v.a[1])[0])
    return {"param": "save", "alias": "delete"}.get(ty["k"]), v.a[2][0]


def fits(t, arg, v, out):
    """Is v the term t with something for arg (kept in out)?"""
    if untyped(norm(t)) is arg:
        out.append(v)
        return True
    if t.k == "adt" and v.k == "adt":
        return t.a[1] == v.a[1] and len(t.a[2]) == len(v.a[2]) and all(fits(x, arg, y, out) for x, y in zip(t.a[2], v.a[2]))
    if t.k in ("int", "bool") and v.k == t.k:
        return t is v
    return not contains(untyped(norm(t)), arg)


def own_pushes(e, events):
    """Indices of the events that record an operation in a log private to the path (that of the new context)."""
    return [j for j, x in enumerate(events) if x.k == "sw" and x.a[0].a[0].k == "heap" and x.a[1] == "push" and is_op(e, x.a[2])]


def sched(run, p, name):
    """Triggers expected for the schedule type `name`: [] or [("s", list)], None if never looked up."""
    e = run.e
    for k, v in p.st.facts.items():
        if k[0] == "has" and k[2].k == "op" and k[2].a[0] == "typeid" and type_name(e, k[2]).split("::")[-1] == name:
            return [("s", mk("mval", k[1], k[2], None))] if v else []
    return None


def ctx_logs(run, ev):
    return log_cells(run.e, ev)


def target_cells(run, ev):
    return locks_in(run.e, ev, "target")


def exec_events(events):
    return [x for x in flat(events) if is_exec(x)]


def stages(R, run, p, op, before, after):
    """Splits the path at its own recording and checks the triggers around it.

    Returns ("recorded", value, log cell, events of the first stage) or None."""
    e = run.e
    evs = p.events
    pushes = own_pushes(e, evs)
    b = sched(run, p, before)
    if b is None:
        if exec_events(evs) or pushes or ok_value(p):
            R.fail(run, p, f"the {before} triggers are not looked up", evs[pushes[0]] if pushes else None)
        elif p.kind == "ret":
            R.check(False, run, p, f"the {op} is given up before its {before} triggers are looked up", None, (p.value,))
        return None
    logs = set()
    first = evs[:pushes[0]] if pushes else evs

    def ctx_ok(ev):
        logs.update(log_cells(e, ev))
        return len(log_cells(e, ev)) == 1

    t = Trig(R, run, p, first)
    status, j = t.run_all(b, ctx_ok, f"{before} triggers")
    if status is None:
        return None
    if status != "ok":
        R.check(not pushes, run, p, f"the {op} is recorded although a {before} trigger failed", evs[pushes[0]] if pushes else None)
        only(R, run, p, evs[j:], "after one has failed")
        finish(R, run, p, status, f"{before} triggers")
        return None
    only(R, run, p, first[j:], f"before the {op} that are not {before} triggers")
    if not pushes:
        return ("none", None, None, first)
    n = len([x for x in pushes])
    if not R.check(n == 1, run, p, f"the {op} is recorded {n} times", evs[pushes[-1]]):
        return None
    x = evs[pushes[0]]
    R.check(not logs or logs == {x.a[0].a[0]}, run, p, f"the {op} is recorded elsewhere than where the triggers record", x)
    rest = evs[pushes[0] + 1:]
    a = sched(run, p, after)
    if a is None:
        if p.kind == "ret":
            R.fail(run, p, f"the {after} triggers are not looked up", x)
        return ("recorded", x, None, first)
    t = Trig(R, run, p, rest)
    status, j = t.run_all(a, ctx_ok, f"{after} triggers")
    if status is None:
        return None
    R.check(not logs or logs == {x.a[0].a[0]}, run, p, f"the {after} triggers get another context", x)
    only(R, run, p, rest[j:], "after one has failed" if status != "ok" else f"that are not {after} triggers")
    if not finish(R, run, p, status, f"{after} triggers"):
        return ("recorded", x, status, first)
    if p.kind == "ret":
        R.check(ok_value(p), run, p, f"fails although the {op} went well", x, (p.value,))
    else:
        R.check(not any(y.k == "panic" for y in evs), run, p, "panics by itself")
    return ("recorded", x, "ok", first)


def mentions_cell(t, cell):
    return any(x.k in ("lockat", "at") and x.a[0] is cell for x in subterms(t))


def c08(R):
    R.needs_map("trigger::TriggerSet")
    R.rule("Every path of Save::execute in a schema transaction and in a sub-transaction: the BeforeSave list of the schema is run in full on a context "
           "whose target holds the node; then exactly one save is recorded in that context's own log and its value is what the target holds at that "
           "moment (its content after the triggers, if any ran); then the AfterSave list is run in full on the same context. A failing trigger ends it "
           "with its error; without a recorded save the result is an error.")
    for name in ("save_bg", "save_fg"):
        run = R.run(name)
        node = run.args[1] if run.paths else None
        for p in run.paths:
            r = stages(R, run, p, "save", "BeforeSave", "AfterSave")
            for ev in exec_events(p.events):
                ts = target_cells(run, ev)
                R.check(len(ts) == 1, run, p, "the triggers get a context without the node as its target", ev)
            if r is None:
                continue
            kind, x, st, first = r
            ran = exec_events(first)
            if kind == "none":
                R.check(not ok_value(p), run, p, "saving succeeds although nothing was recorded")
                R.check(p.kind == "unwind" or excuse(run, p), run, p, "fails to save although no trigger failed and the target is there", None,
                        (p.value,) if p.value is not None else ())
                R.check(not any(y.k == "panic" for y in p.events), run, p, "panics by itself")
                continue
            op = x.a[2]
            does, v = recorded(R, run.e, op)
            R.check(does == "save", run, p, "something else than a save is recorded", x, (op,))
            if not ran:
                R.check(untyped(norm(v)) is untyped(norm(node)), run, p, f"what is saved is {brief(v, 60)} instead of the node", x, (v,))
            else:
                cells = {c for ev in ran for c, _ in target_cells(run, ev)}
                inits = {untyped(norm(v0)) for ev in ran[:1] for _, v0 in target_cells(run, ev) if v0.k != "phi"}
                R.check(any(mentions_cell(v, c) for c in cells), run, p, f"what is saved is {brief(v, 60)}, not what the target holds after the triggers", x,
                        () if untyped(norm(v)) is untyped(norm(node)) else (v,))
                R.check(initial_target(run, p, node), run, p, "the triggers' target is not the node being saved", ran[0])
    run = R.run("save_any")
    for p in run.paths:
        i = once(R, run, p, "the transaction", "plotline::schema::transaction::Transaction::with")
        if i is not None and p.kind == "ret":
            returns(R, run, p, p.events[i], "the transaction's result is not returned")


def initial_target(run, p, node):
    """The target's content was the node when the first triggers were run."""
    n = untyped(norm(node))
    for ev in p.events:
        if ev.k == "loop" and any(is_exec(x) for x in flat([ev])):
            for x in ev.a[2]:
                if x.k == "init" and untyped(norm(x.a[1])) is n:
                    return True
        if is_exec(ev):
            for _, v in target_cells(run, ev):
                if untyped(norm(v)) is n:
                    return True
    return False


def excuse(run, p):
    """The target cannot be read: a trigger that had exclusive access to it panicked earlier."""
    return any(k[0] == "pz" and v and k[1].k == "heap" for k, v in p.st.facts.items())


def c09(R):
    R.needs_map("trigger::TriggerSet")
    R.rule("Every path of Delete::execute in a schema transaction and in a sub-transaction: the id is looked up in the transaction; if it is not there, the "
           "result is the no-operation error and no trigger runs and nothing is recorded; if it is, the BeforeDelete list is run in full on a context whose "
           "target is the node found, exactly one delete of that id is recorded, the AfterDelete list is run in full; a failing trigger ends it with its error.")
    for name in ("delete_bg", "delete_fg"):
        run = R.run(name)
        for p in run.paths:
            e = run.e
            idv = untyped(run.args[1])
            found, node = lookup(run, p, idv)
            if found is None:
                if p.kind == "unwind" and not exec_events(p.events) and not own_pushes(e, p.events):
                    R.check(not any(y.k == "panic" for y in p.events), run, p, "panics by itself")
                    continue
                R.fail(run, p, "the node is not looked up in the transaction", None, (p.value,) if p.value is not None else ())
                continue
            if not found:
                pushes = own_pushes(e, p.events)
                R.check(not pushes, run, p, "a delete of a missing node is recorded", p.events[pushes[0]] if pushes else None)
                if only(R, run, p, p.events, "although there is nothing to delete") and p.kind == "ret":
                    R.check(is_noop(e, p.value), run, p, f"deleting a missing node yields {brief(p.value, 60)}", None, (p.value,))
                continue
            for ev in exec_events(p.events):
                ts = target_cells(run, ev)
                R.check(len(ts) == 1, run, p, "the triggers get a context without the node as its target", ev)
            if exec_events(p.events):
                R.check(initial_target_is(run, p, node), run, p, "the triggers' target is not the node being deleted", exec_events(p.events)[0])
            r = stages(R, run, p, "delete", "BeforeDelete", "AfterDelete")
            if r is None:
                continue
            kind, x, st, first = r
            if kind == "none":
                if p.kind == "ret":
                    R.fail(run, p, "an existing node is not deleted although no trigger failed", None, (p.value,))
                else:
                    R.check(not any(y.k == "panic" for y in p.events), run, p, "panics by itself")
                continue
            op = x.a[2]
            does, v = recorded(R, e, op)
            R.check(does == "delete" and untyped(norm(v)) is idv, run, p, f"what is recorded is {brief(op, 60)} instead of a delete of the id", x, (op,))
    run = R.run("delete_any")
    for p in run.paths:
        i = once(R, run, p, "the transaction", "plotline::schema::transaction::Transaction::with")
        if i is not None and p.kind == "ret":
            returns(R, run, p, p.events[i], "the transaction's result is not returned")


def is_noop(e, v):
    if v.k != "adt" or v.a[1] != 1 or v.a[2][0].k != "adt":
        return False
    x = v.a[2][0]
    t = e.ty(x.a[0])
    return t.get("def", "").endswith("error::Error") and t["variants"][x.a[1]]["name"] == "Noop"


def lookup(run, p, idv):
    """(found?, the node) of looking the id up in the transaction."""
    f = p.st.facts
    for ev in p.events:
        if ev.k == "rec" and ev.a[0].endswith(("::get", "::contains")):
            if untyped(norm(strip_pt(ev.a[2][1]))) is not idv:
                return None, None
            v = f.get(("var", ev.a[3]))
            if v is None:
                v = f.get(("val", ev.a[3]))
            if v is None:
                continue
            return bool(v), mk("fld", ev.a[3], 1, 0, None)
    for k, v in f.items():
        if k[0] == "has" and untyped(norm(k[2])) is idv:
            return v, mk("mval", k[1], k[2], None)
    return None, None


def initial_target_is(run, p, node):
    n = untyped(norm(node))
    for ev in p.events:
        for x in flat([ev]):
            if is_exec(x):
                for _, v in target_cells(run, x):
                    if untyped(norm(v)) is n:
                        return True
        if ev.k == "loop":
            for x in ev.a[2]:
                if x.k == "init" and untyped(norm(x.a[1])) is n:
                    return True
    return False
