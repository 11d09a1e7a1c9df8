"""Builds the dumper and dumps the resolved MIR of /repo's current source."""
import glob, hashlib, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PLV_REPO", "/repo")
BUILD = os.environ.get("PLV_BUILD") or os.path.join(VERIF, ".build")
FEATURES = ["graph", "proxy", "tx", "schema", "ops", "trig", "res", "access", "lazy", "cli", "bin"]


def env():
    e = dict(os.environ)
    sysroot = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], capture_output=True, text=True, check=True).stdout.strip()
    e["LD_LIBRARY_PATH"] = sysroot + "/lib"
    e.pop("RUSTFLAGS", None)
    e.pop("CARGO_TARGET_DIR", None)
    return e


def driver(e):
    p = os.path.join(VERIF, "driver")
    out = os.path.join(VERIF, ".build", "driver")
    r = subprocess.run(["cargo", "+nightly", "build", "--offline", "--target-dir", out], cwd=p, env=e, capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError("the MIR dumper does not build:\n" + r.stderr[-3000:])
    return os.path.join(out, "debug", "plv-driver")


def clean(target, names):
    d = os.path.join(target, "debug")
    for n in names:
        for x in glob.glob(os.path.join(d, "build", n)) + glob.glob(os.path.join(d, ".fingerprint", n + "*")) \
                + glob.glob(os.path.join(d, "build", n + "-*")):
            shutil.rmtree(x, ignore_errors=True)
    shutil.rmtree(os.path.join(d, "incremental"), ignore_errors=True)


def check(e, cwd, target, out, crates, names, args=()):
    clean(target, names)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out, exist_ok=True)
    e = dict(e, PLV_OUT=out, PLV_CRATES=",".join(crates), RUSTC_WRAPPER=e["PLV_DRIVER"])
    return subprocess.run(["cargo", "+nightly", "check", "--offline", "--target-dir", target, *args],
                          cwd=cwd, env=e, capture_output=True, text=True)


def errors(r):
    return "\n".join(l for l in r.stderr.splitlines() if l.startswith("error") or "-->" in l)[:1500]


def dump_main():
    """(path of the dump, features that could not be compiled)."""
    e = env()
    e["PLV_DRIVER"] = driver(e)
    cwd = os.path.join(VERIF, "harness")
    if REPO != "/repo":
        # a copy of the repository (used while developing): same entries, other paths
        cp = os.path.join(BUILD, "harness")
        shutil.rmtree(cp, ignore_errors=True)
        shutil.copytree(cwd, cp)
        for f in (os.path.join(cp, "Cargo.toml"), os.path.join(cp, "src", "lib.rs")):
            s = open(f).read().replace('"/repo/', f'"{REPO}/')
            open(f, "w").write(s)
        cwd = cp
    target = os.path.join(BUILD, "target")
    out = os.path.join(BUILD, "out")
    names = ["plotline", "plotline-cli", "plv_harness"]
    crates = ["plotline", "plotline_cli", "plv_harness"]
    r = check(e, cwd, target, out, crates, names)
    bad = {}
    if r.returncode:
        good = []
        for f in FEATURES:
            x = check(e, cwd, target, out, crates, names, ["--no-default-features", "--features", f])
            if x.returncode:
                bad[f] = errors(x)
            else:
                good.append(f)
        if not good:
            return None, bad
        r = check(e, cwd, target, out, crates, names, ["--no-default-features", "--features", ",".join(good)])
        if r.returncode:
            return None, {f: errors(r) for f in FEATURES}
    return os.path.join(out, "plv_harness-lib.json"), bad


def dump_interval():
    """(path of the dump, errors) of the interval plugin.  The crate is no member of the workspace and
    its plugin.rs names items that do not exist, so that nothing builds it: the other modules are
    analysed, from a copy of the current source in which plugin.rs is empty."""
    e = env()
    e["PLV_DRIVER"] = driver(e)
    cwd = os.path.join(BUILD, "interval")
    shutil.rmtree(cwd, ignore_errors=True)
    shutil.copytree(os.path.join(REPO, "plugins", "interval", "src"), os.path.join(cwd, "src"))
    here = os.path.join(VERIF, "interval")
    with open(os.path.join(cwd, "Cargo.toml"), "w") as f:
        f.write(open(os.path.join(here, "Cargo.toml")).read().replace('"/repo/', f'"{REPO}/'))
    shutil.copy(os.path.join(here, "Cargo.lock"), os.path.join(cwd, "Cargo.lock"))
    p = os.path.join(cwd, "src", "plugin.rs")
    if os.path.exists(p):
        open(p, "w").close()
    shutil.copy(os.path.join(VERIF, "harness", "src", "shims.rs"), os.path.join(cwd, "src", "plv_shims.rs"))
    with open(os.path.join(cwd, "src", "lib.rs"), "a") as f:
        f.write("\n#[doc(hidden)]\n#[allow(dead_code)]\npub mod plv_shims;\n")
    target = os.path.join(BUILD, "target-interval")
    out = os.path.join(BUILD, "out-interval")
    r = check(e, cwd, target, out, ["plotline_plugin_interval"], ["plotline", "plotline-plugin-interval"])
    if r.returncode:
        return None, {"interval": errors(r)}
    return os.path.join(out, "plotline_plugin_interval-lib.json"), {}


def source_files():
    out = []
    for d in ("plotline/src", "plotline-cli/src", "plugins/interval/src"):
        out += glob.glob(os.path.join(REPO, d, "**", "*.rs"), recursive=True)
    return sorted(out)


def source_digest():
    h = hashlib.sha256()
    for f in source_files():
        h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    return h.hexdigest()


if __name__ == "__main__":
    path, bad = dump_main()
    print("dump:", path, "not compiled:", sorted(bad))
    ip, ibad = dump_interval()
    print("dump:", ip, ibad)
    sys.exit(0 if path and ip else 1)
