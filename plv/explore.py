"""Runs the analysis over one entry function."""
from .terms import *
from .engine import Engine, St, Undecided, Infeasible
from .models import Models


class Path:
    """One way through an entry function."""
    __slots__ = ("kind", "value", "st", "args", "events")

    def __init__(self, kind, value, st, args):
        self.kind, self.value, self.st, self.args = kind, value, st, args
        self.events = st.events()


class Run:
    def __init__(self, e, inst, name, args, paths, error=None):
        self.e, self.inst, self.name, self.args, self.paths, self.error = e, inst, name, args, paths, error


def explore(prog, name, setup=None, module=None, args=None, engine=None):
    r = None
    for x in prog.roots:
        s = x["short"]
        if s == name or s.split("::")[-1] == name and s.startswith("plv_"):
            r = x
            break
    if r is None:
        raise Undecided(f"no entry {name}")
    return explore_inst(prog, r["inst"], name, setup, args, engine)


def explore_inst(prog, inst, name, setup=None, args=None, engine=None):
    e = engine or Engine(prog, Models())
    b = prog.insts[inst]["body"]
    st = St()
    if args is None:
        args = [mk("sym", b.get("names", {}).get(str(n + 1), f"a{n}") if isinstance(b.get("names"), dict) else f"a{n}", b["locals"][n + 1]) for n in range(b["argc"])]
    if setup:
        args = setup(e, st, args) or args
    fid = mk("fr", None, "root", inst)
    try:
        outs = e.forking(st, lambda s: e.exec_inst(inst, list(args), s, fid, (), pop=False))
    except Undecided as x:
        return Run(e, inst, name, args, [], str(x))
    seen, paths = set(), []
    for o in outs + [(k, None, x) for k, x in e.exits]:
        k = (o[0], o[1], frozenset(o[2].facts.items()), o[2].trace, o[2].locks)
        if k not in seen:
            seen.add(k)
            paths.append(Path(o[0], o[1], o[2], args))
    return Run(e, inst, name, args, paths)


def dump(run, verbose=True):
    print("=== ", run.name, "error:" + run.error if run.error else f"{len(run.paths)} paths", {k: (v if isinstance(v, int) else len(v)) for k, v in run.e.stats.items()})
    for p in run.paths:
        print(" --", p.kind, p.value)
        for k, v in p.st.facts.items():
            if k[0] == "rel":
                print("      fact", k[1], "".join(sorted(v)), k[2])
            else:
                print("      fact", k[0], ", ".join(show(x) for x in k[1:]), "=", v)
        for ev in p.events:
            show_ev(ev, "      ")
        if p.st.poison:
            print("      poison", p.st.poison)


def show_ev(ev, ind):
    if ev.k == "loop":
        print(ind + "loop", ev.a[3], "starts", show(ev.a[2]))
        for c in ev.a[1]:
            print(ind + "  case facts", "; ".join(f"{k[0]} {', '.join(show(x) for x in k[1:])} = {v if not isinstance(v, frozenset) else ''.join(sorted(v))}" for k, v in c.a[0]))
            for x in c.a[1]:
                show_ev(x, ind + "    ")
            for x in c.a[2]:
                print(ind + "    ", x)
    else:
        print(ind + ev.k, ", ".join(show(x) for x in ev.a))


if __name__ == "__main__":
    import sys, time
    from .model import Program
    P = Program(sys.argv[1])
    for n in sys.argv[2:]:
        t = time.time()
        r = explore(P, n)
        dump(r)
        print("   %.2fs" % (time.time() - t))
