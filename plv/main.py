"""Decides one property: python3 -m plv.main C01 [--tier quick|thorough]."""
import importlib, json, os, resource, signal, sys, time

from . import build
from .model import Program
from .engine import Undecided
from .base import Session, Report, funcs
from .view import trace_lines, fact_s, sites, brief

VERIF = build.VERIF
EVIDENCE = os.environ.get("PLV_EVIDENCE") or os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known-findings.json")


def known(pid):
    try:
        d = json.load(open(KNOWN))
    except FileNotFoundError:
        return []
    return [x for x in d.get("findings", []) if x["property"] == pid]


def main(argv):
    pid = argv[0]
    tier = "quick"
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    elif os.environ.get("VERIF_TIER") in ("quick", "thorough"):
        tier = os.environ["VERIF_TIER"]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    replay = os.path.join(EVIDENCE, pid + ".violation.txt")
    if os.path.exists(replay):
        os.remove(replay)
    R = decide(pid, tier)
    wall = time.time() - t0
    ks = known(pid)
    fresh, listed = [], []
    for v in R.violations:
        sig = signature(v)
        k = next((x for x in ks if x["entry"] == sig["entry"] and x["what"] == sig["what"]), None)
        (listed if k else fresh).append((v, k))
    os.makedirs(EVIDENCE, exist_ok=True)
    ev = evidence(R, pid, tier, seed, wall, fresh, listed)
    json.dump(ev, open(os.path.join(EVIDENCE, pid + ".json"), "w"), indent=1)
    done = set()
    for v, k in listed:
        if k["what"] not in done:
            done.add(k["what"])
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    for e, w in sorted(set(R.undecided)):
        print(f"UNDECIDED property={pid} entry={e} {w}")
    if fresh:
        path = replay
        with open(path, "w") as f:
            f.write(describe(R, pid, [v for v, _ in fresh]))
        seen = set()
        for v, _ in fresh:
            line = f"  {v[0]}: {v[1]}"
            if line not in seen and len(seen) < 8:
                seen.add(line)
                print(line)
                w = locate(v)
                if w:
                    print("    at " + w)
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    print(f"OK property={pid} {R.obligations} obligations over {sum(R.entries.values())} paths of {len(R.entries)} entries, "
          f"{len(funcs(R.s, R.insts)) if R.s is not None else 0} functions, {len(R.undecided)} undecided, {wall:.1f}s")
    return 0


def signature(v):
    return {"entry": v[0], "what": v[1]}


def locate(v):
    if v[3] is not None:
        s = sites(v[3]) if hasattr(v[3], "k") else []
        if s:
            return f"{s[0][0]} ({s[0][1]})"
        if isinstance(v[3], str):
            return v[3]
    return ""


def describe(R, pid, vs):
    out = [f"property {pid} does not hold", ""]
    for name, what, path, ev in vs[:20]:
        out.append(f"* {name}: {what}")
        w = locate((name, what, path, ev))
        if w:
            out.append("  at " + w)
        if path is not None:
            out.append(f"  path ({path.kind}{', value ' + brief(path.value, 200) if path.value is not None else ''}):")
            for k, v in path.st.facts.items():
                out.append("    given " + fact_s(k, v))
            out += trace_lines(path.events, "    ")
        out.append("")
    return "\n".join(out)


def decide(pid, tier):
    mod = importlib.import_module("plv.rules." + pid.lower())
    return mod.decide(tier)


def with_main(pid, body):
    """Runs `body(R)` over the dump of the main crates."""
    path, bad = build.dump_main()
    if path is None:
        R = Report(None, pid)
        R.entries = {}
        for f, m in bad.items():
            R.doubt(f, "entry points do not compile: " + m)
        return R
    s = Session(Program(path), bad)
    R = Report(s, pid)
    for f, m in bad.items():
        R.doubt(f, "entry points do not compile: " + m)
    judge(R, pid, body)
    return R


TIME, MEMORY = 600, 16 << 30


class Late(Exception):
    pass


def late(*_):
    raise Late()


def judge(R, pid, body):
    """Applies the rules; code of a shape they do not expect, or that takes too long, is undecided, what they have found so far stands."""
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, resource.getrlimit(resource.RLIMIT_AS)[1]))
    signal.signal(signal.SIGALRM, late)
    signal.alarm(int(os.environ.get("PLV_TIME") or TIME))
    try:
        body(R)
        signal.alarm(0)
    except (Late, MemoryError) as x:
        R.doubt(pid, f"not analysable: takes too much {'time' if isinstance(x, Late) else 'memory'}")
    except Undecided as x:
        R.doubt(pid, "not analysable: " + str(x))
    except Exception as x:
        if os.environ.get("PLV_STRICT"):
            raise
        R.doubt(pid, f"not analysable: {type(x).__name__}: {x}")
    finally:
        signal.alarm(0)


def evidence(R, pid, tier, seed, wall, fresh, listed):
    fs = funcs(R.s, R.insts) if R.s is not None else []
    extra = getattr(R, "coverage", {})
    cov = {
        "explanation": "Interprocedural, path-sensitive dataflow and effect analysis over the resolved MIR of /repo's current source; "
                       "loops are summarised by a fixpoint, client code is an opaque event that may panic, nothing is executed.",
        "entries": R.entries,
        "paths": sum(R.entries.values()),
        "functions_analysed": fs,
        "call_sites": R.calls,
        "obligations": R.obligations,
        "rules": R.rules,
        "undecided": [f"{e}: {w}" for e, w in sorted(set(R.undecided))],
        "samples": R.samples,
        "source_digest": build.source_digest(),
        "known_findings": len(listed),
    }
    cov.update(extra)
    return {"property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
            "assumptions": getattr(R, "assumptions", []), "wall_s": round(wall, 2), "violations": len(fresh)}


def with_interval(pid, body):
    """Runs `body(R)` over the dump of the interval plugin's modules."""
    path, bad = build.dump_interval()
    if path is None:
        R = Report(None, pid)
        for f, m in bad.items():
            R.doubt(f, "does not compile: " + m)
        return R
    R = Report(Session(Program(path), bad), pid)
    judge(R, pid, body)
    return R


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
