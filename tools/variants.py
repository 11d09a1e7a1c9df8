"""Tries the checks on variants of the repository: behaviour-preserving edits (no alarm) and breaking ones.

  python3 tools/variants.py [-j N] [file or file:name ...]

A variant is dict(name, pids, want "quiet" | "alarm" | "any", edits=[(file, old, new[, count])]) in variants/*.py.
It is applied to a scratch copy of /repo's last commit that is removed afterwards, and judged by a copy of the checks."""
import importlib.util, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DIR = os.environ.get("PLV_VARIANTS", VERIF + "/variants")


ROOT = f"/tmp/plv-variants/{os.getpid()}"


def load(f):
    sys.path.insert(0, os.path.dirname(f))
    sp = importlib.util.spec_from_file_location(os.path.basename(f)[:-3], f)
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    return m.VARIANTS


def one(args):
    f, v, slot = args
    base = f"{ROOT}/{slot}"
    repo = base + "/repo"
    shutil.rmtree(repo, ignore_errors=True)
    os.makedirs(base, exist_ok=True)
    shutil.copytree(ROOT + "/repo", repo)
    for e in v["edits"]:
        p = os.path.join(repo, e[0])
        if e[1] is None:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "w").write(e[2])
            continue
        s = open(p).read()
        n = s.count(e[1])
        if n < 1 or n > 1 and len(e) < 4:
            return f, v, [("-", "EDIT", f"{e[0]}: {n} matches of {e[1][:50]!r}")]
        open(p, "w").write(s.replace(e[1], e[2]))
    env = dict(os.environ, PLV_REPO=repo, PLV_BUILD=base + "/build", PLV_EVIDENCE=base + "/evidence", PLV_STRICT="1")
    out = []
    r = subprocess.run([sys.executable, ROOT + "/verif/tools/many.py"] + v["pids"], env=env, capture_output=True, text=True)
    for line in r.stdout.splitlines():
        if line.startswith("RESULT\t"):
            _, pid, rc, why = line.split("\t", 3)
            out.append((pid, {"1": "alarm", "0": "undecided" if why else "quiet"}.get(rc, "crash"), why))
    if len(out) != len(v["pids"]):
        out.append(("-", "crash", r.stderr[-300:].replace("\n", " ")))
    return f, v, out


def main():
    a = sys.argv[1:]
    j = 4
    if a[:1] == ["-j"]:
        j = int(a[1])
        a = a[2:]
    files = sorted(x for x in os.listdir(DIR) if x.endswith(".py"))
    todo = []
    for x in files:
        for v in load(f"{DIR}/{x}"):
            if not a or x[:-3] in a or f"{x[:-3]}:{v['name']}" in a:
                todo.append((x[:-3], v))
    slots = list(range(j))
    bad = 0
    shutil.rmtree(ROOT, ignore_errors=True)
    os.makedirs(ROOT + "/repo")
    subprocess.run(f"git -C /repo archive HEAD | tar -x -C {ROOT}/repo", shell=True, check=True)
    shutil.copytree(VERIF, ROOT + "/verif", ignore=shutil.ignore_patterns(".git", ".build", "evidence", "seeded", "target", "__pycache__"))

    def go(t):
        s = slots.pop()
        try:
            return one(t + (s,))
        finally:
            slots.append(s)
    with ThreadPoolExecutor(j) as ex:
        for f, v, out in ex.map(go, todo):
            for pid, got, why in out:
                ok = v["want"] == "any" or got == v["want"] or got == "undecided" and v["want"] == "quiet"
                bad += not ok
                print(f"{'ok ' if ok else 'BAD'} {f}:{v['name']:<28} {pid} want {v['want']:<6} got {got:<9} {why[:150]}", flush=True)
    shutil.rmtree(ROOT, ignore_errors=True)
    print(f"{len(todo)} variants, {bad} not as wanted")


main()
