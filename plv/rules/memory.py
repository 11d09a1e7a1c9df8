"""C25: no unsafe code, and what is not thread-safe stays on its thread."""
import json, os, re, shutil, subprocess

from .. import build
from ..base import Report, Session
from ..lexer import tokens, unsafe_code
from ..model import Program

TYPES = {"t_schema": "Schema", "t_resources": "ResourceSet", "t_res": "Res of something that is not Send", "t_triggers": "TriggerSet",
         "t_select": "TriggerSelect", "t_background": "Background", "t_foreground": "Foreground", "t_context": "Context", "t_ctx": "Ctx"}
TWINS = {"p_resource": "a resource", "p_trigger": "a trigger"}
AMBIGUOUS = ("E0283", "E0282", "E0790")


def witness(e, cwd, target, features):
    """[(code, feature or None, line, message)]: what the compiler refuses in the witness crate."""
    build.clean(target, ["plv_witness", "plotline"])
    r = subprocess.run(["cargo", "+nightly", "check", "--offline", "--target-dir", target, "--message-format=json",
                        "--no-default-features", "--features", ",".join(features)],
                       cwd=cwd, env=e, capture_output=True, text=True)
    src = open(os.path.join(cwd, "src", "lib.rs")).read().splitlines()
    out = []
    for l in r.stdout.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("reason") != "compiler-message" or m["message"]["level"] != "error":
            continue
        m, pkg = m["message"], m["target"]["name"]
        if not m["spans"] and m["message"].startswith("aborting"):
            continue
        code = (m["code"] or {}).get("code", "")
        sp = next((s for s in m["spans"] if s["is_primary"]), None)
        feat, line = None, 0
        if sp is not None and pkg == "plv_witness":
            # the invocation the error comes from
            x = sp
            while x.get("expansion"):
                x = x["expansion"]["span"]
            x = x if x["file_name"].endswith("src/lib.rs") else sp
            line = x["line_start"]
            for i in range(line - 1, -1, -1):
                f = re.search(r'"([tp]_\w+|control)"', src[i])
                if f:
                    feat = f.group(1)
                    break
        out.append((code, feat, line, m["message"]))
    if r.returncode and not out:
        out.append(("", None, 0, (r.stderr.strip().splitlines() or ["cargo fails"])[-1]))
    return out


def autos(R):
    e = build.env()
    here = os.path.join(build.VERIF, "witness")
    cwd = os.path.join(build.BUILD, "witness")
    shutil.rmtree(cwd, ignore_errors=True)
    shutil.copytree(here, cwd, ignore=shutil.ignore_patterns("target"))
    p = os.path.join(cwd, "Cargo.toml")
    s = open(p).read().replace('"/repo/', f'"{build.REPO}/')
    open(p, "w").write(s)
    target = os.path.join(build.BUILD, "target-witness")
    every = list(TYPES) + list(TWINS)
    errs = witness(e, cwd, target, every + ["control"])
    ctl = [x for x in errs if x[1] == "control"]
    lines = {x[2] for x in ctl}
    per = {f: [x for x in errs if x[1] == f] for f in every}
    other = [x for x in errs if x[1] not in per and x[1] != "control"]
    if other or any(x[0] not in AMBIGUOUS + ("E0277",) for f in per for x in per[f]):
        # something else is wrong: one at a time, so that one line does not hide the others
        per = {}
        for f in every:
            x = witness(e, cwd, target, [f, "control"])
            c = [y for y in x if y[1] == "control"]
            per[f] = [y for y in x if y[1] != "control"]
            if len({y[2] for y in c}) != 1 or any(y[0] not in AMBIGUOUS for y in c):
                per[f].append(("", None, 0, "the control is not refused"))
    elif len(lines) != 1 or any(x[0] not in AMBIGUOUS for x in ctl):
        for f in every:
            per[f].append(("", None, 0, "the control is not refused as it should be"))
    R.rule("auto traits: for each type below, `<Type as Amb<_>>::amb` has one candidate implementation only while Type is not Send "
           "(not Sync), so that the compiler accepts the line exactly then; a control type that is both must be refused in the same build")
    for f, n in TYPES.items():
        R.obligations += 2
        R.entries[n] = 1
        for code, _, _, msg in per[f]:
            if code in AMBIGUOUS:
                R.fail(n, None, n + " can be sent to or shared with another thread although what it holds need not be thread-safe")
                break
            R.doubt(n, "the witness does not compile: " + msg)
    R.rule("twins: programs that register an Rc as a resource, and a closure that captures one as a trigger, compile")
    for f, n in TWINS.items():
        R.obligations += 1
        R.entries[n] = 1
        for code, _, _, msg in per[f]:
            if code == "E0277" and re.search(r"between threads", msg):
                R.fail(n, None, n + " must now be thread-safe: " + msg)
                break
            R.doubt(n, "the witness does not compile: " + msg)


def unsafe(R):
    R.rule("unsafe code: no block, function, implementation, trait, extern block or unsafe attribute in the typed syntax "
           "tree of any crate, nor in the tokens of any source file outside of tests, compiled or not")
    seen = {}
    for out, pre in (("out", ("plotline-lib", "plotline_cli-lib", "plv_harness-lib")), ("out-interval", ("plotline_plugin_interval-lib",))):
        for n in pre:
            p = os.path.join(build.BUILD, out, n + ".json")
            if not os.path.exists(p):
                R.doubt(n, "does not compile: judged by its tokens only")
                continue
            d = json.load(open(p))
            R.obligations += 1
            R.entries[n] = 1
            for what, at in d["unsafe"]:
                if n.startswith("plv_harness") and build.REPO + "/" not in at and "repo/" not in at:
                    continue
                if "plv_shims" in at:
                    continue
                if (what, at) not in seen:
                    seen[what, at] = 1
                    R.fail(n, None, what, at)
    files = build.source_files()
    for extra in ("build.rs",):
        for c in ("plotline", "plotline-cli", "plugins/interval"):
            p = os.path.join(build.REPO, c, extra)
            if os.path.exists(p):
                files.append(p)
    count = 0
    for f in files:
        src = open(f, errors="replace").read()
        count += len(tokens(src))
        R.obligations += 1
        short = os.path.relpath(f, build.REPO)
        for what, line in unsafe_code(src):
            if not any(short in at for _, at in seen):
                R.fail(short, None, f"{what} at line {line}", f"{short}:{line}")
    R.coverage = {"files_scanned": len(files), "tokens_scanned": count, "types": sorted(TYPES.values()), "twins": sorted(TWINS.values())}


def c25():
    path, bad = build.dump_main()
    ip, ibad = build.dump_interval()
    R = Report(None, "C25")
    if path is None:
        for f, m in bad.items():
            R.doubt(f, "does not compile: " + m)
    elif "bin" in bad:
        R.doubt("bin", "does not compile: " + bad["bin"])
    unsafe(R)
    autos(R)
    return R
