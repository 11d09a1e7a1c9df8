"""Generates small breakages of the repository's source, keeps those that compile and pass the tests.

  python3 tools/mutate.py OUT.py [file ...]      (files relative to /repo; default: all sources)

The result is a file of variants for tools/variants.py (PLV_VARIANTS=its directory), each to be judged by hand:
one that no check alarms for either keeps the behaviour or shows what the checks miss."""
import glob, json, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

SRC = [f[len("/repo/"):] for d in ("plotline/src", "plotline-cli/src", "plugins/interval/src") for f in sorted(glob.glob(f"/repo/{d}/**/*.rs", recursive=True))]
TX = ["C01", "C02", "C03", "C04", "C05", "C06", "C07"]
ALL = ["C%02d" % i for i in range(1, 26)]
PIDS = [("graph/", ["C14", "C15", "C01", "C10"]), ("id.rs", ALL), ("document/lazy", ["C16"]), ("deref", ["C12", "C13", "C16", "C15"]), ("schema/ops", ["C08", "C09", "C20"]),
        ("schema/resource", ["C12", "C13", "C11"]), ("schema/trigger", ["C08", "C09", "C10", "C11", "C17"]), ("schema/transaction", TX + ["C08", "C09", "C11", "C12", "C13"]),
        ("schema/guard", ["C05", "C06", "C07"]), ("schema/", ["C17", "C05", "C01", "C11"]), ("repository.rs", ["C18", "C19"]), ("plotline-cli", ["C20"]),
        ("node.rs", ["C21", "C22"]), ("tree.rs", ["C21", "C22"]), ("date.rs", ["C24"]), ("interval/src/lib", ["C23", "C21"])]
SWAPS = [(r" == ", [" != "]), (r" != ", [" == "]), (r" < ", [" <= ", " >= ", " > "]), (r" <= ", [" < ", " > "]), (r" > ", [" >= ", " < "]), (r" >= ", [" > "]),
         (r" && ", [" || "]), (r" \|\| ", [" && "]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\.is_some\(\)", [".is_none()"]), (r"\.is_none\(\)", [".is_some()"]),
         (r"\.is_ok\(\)", [".is_err()"]), (r"\.is_err\(\)", [".is_ok()"]), (r"\.rev\(\)", [""]), (r"\.iter\(\)", [".iter().skip(1)", ".iter().rev()", ".iter().take(1)"]), (r"\.into_iter\(\)", [".into_iter().skip(1)", ".into_iter().rev()"]),
         (r"\.read\(\)", [".write()"]), (r"\.write\(\)", [".read()"]), (r"\.unwrap_or_default\(\)", [".unwrap()"]), (r"\.clone\(\)", [""]), (r"\?;", [".ok();"]), (r"\?;", [";"]), (r"\?$", [""]),
         (r"\bSome\(([^()]*|[^()]*\([^()]*\)[^()]*)\)", ["None"]), (r"\.cloned\(\)", [".cloned().filter(|_| false)"]), (r"Ok\(\(\)\)", ["Err(Error::Noop)"]), (r"\.push\(", [".insert(0, "]),
         (r"\.extend\(", [".splice(0..0, "]), (r"\.filter_map\(", [".map_while("]), (r"if let Some\(", ["if let (true, Some("]), (r"\b0\b", ["1"]), (r"\b1\b", ["0", "2"]), (r"\bleft\b", ["right"]), (r"\bright\b", ["left"]),
         (r"\.lo\(\)", [".hi()"]), (r"\.hi\(\)", [".lo()"]), (r"\bself\b", ["other"]), (r"\bother\b", ["self"]), (r"\.any\(", [".all("]), (r"\.all\(", [".any("]), (r"\.find\(", [".rfind("]),
         (r"\.and_then\((.*)\)$", [""]), (r"\.filter\((.*)\)$", [""]), (r"mem::take\(&mut \*?(\w+)\)", [r"\1.clone()"]), (r"Before(\w+)", [r"After\1"]), (r"After(\w+)", [r"Before\1"]),
         (r"\.or_default\(\)", [".or_insert_with(Default::default)"]), (r"\.map\(", [".filter(|_| false).map("]), (r"if (.*) \{$", [r"if !(\1) {", r"if true {", r"if false {"]), (r"\bSome\((\w+)\)$", ["None"]), (r"\)$", [").filter(|_| false)", ").take(1)", ".skip(1)"]), (r"\.ok\(\)", [".ok().filter(|_| false)"]),
         (r"&mut ", ["&mut Default::default() ; &mut "]), (r"\.as_ref\(\)", [".as_ref().filter(|_| false)"]), (r"\.get\(([^()]*)\)", [r".get(\1).filter(|_| false)"]), (r"\.entry\(", [".entry_or("]),
         (r"self\.(\w+)\.clone\(\)", ["Default::default()"]), (r": (\w+)\.clone\(\),", [": Default::default(),"]), (r"\b(\w+): ([a-z_.()&]+),$", [r"\1: Default::default(),"]), (r"Arc::new\(([^()]*)\)", ["Default::default()"])]


def body(text):
    """(line number, line) of what is no test, comment or attribute."""
    depth_test = None
    for i, l in enumerate(text.split("\n")):
        s = l.strip()
        if re.match(r"#\[cfg\((any\()?test", s) or s.startswith("pub mod fixtures") or s.startswith("mod tests"):
            break
        if not s or s.startswith(("//", "#", "use ", "pub use ", "mod ", "pub mod ", "where", "impl", "}", "pub struct", "pub trait", "pub enum")):
            continue
        yield i, l


def statement(lines, i):
    """The line after the statement that starts at line i."""
    if i >= len(lines):
        return None
    s = lines[i].strip()
    if not s or s.startswith(("//", "}", ".", "#", "pub ", "fn ", "where", "impl", ")", "]", "else")):
        return None
    d = 0
    for j in range(i, min(len(lines), i + 40)):
        t = re.sub(r'"[^"]*"', "", lines[j])
        d += sum(t.count(x) for x in "([{") - sum(t.count(x) for x in ")]}")
        if d < 0:
            return None
        if d == 0 and (t.rstrip().endswith(";") or t.strip() == "}" and j > i):
            return j + 1
    return None


def mutants(f):
    text = open("/repo/" + f).read()
    lines = text.split("\n")
    seen = set()

    def put(i, new, what):
        out = "\n".join(lines[:i] + new + lines[i + 1:])
        if out != text and out not in seen:
            seen.add(out)
            yield f"{f.split('src/')[-1]}:{i + 1}:{what}", out
    def put2(lines, i, j, new, what):
        out = "\n".join(lines[:i] + new + lines[j:])
        if out != text and out not in seen:
            seen.add(out)
            yield f"{f.split('src/')[-1]}:{i + 1}:{what}", out
    for i, l in body(text):
        s = l.strip()
        if s.endswith(";") and not s.startswith(("let ", "return", "type ", "const ", "static ")) and s.count("(") == s.count(")") and s.count("{") == s.count("}"):
            yield from put(i, [], "drop")
        if re.match(r"\.\w+.*\)$", s) and s.count("(") == s.count(")"):
            yield from put(i, [], "dropcall")
        blk = statement(lines, i)
        if blk:
            j = blk
            yield from put2(lines, i, j, lines[i:j] + lines[i:j], "twice")
            if j - i > 1:
                yield from put2(lines, i, j, [], "dropblock")
            k = statement(lines, j) or (statement(lines, j + 1) if j < len(lines) and not lines[j].strip() else None)
            if k:
                a = j if lines[j].strip() else j + 1
                yield from put2(lines, i, k, lines[a:k] + lines[i:j], "swap")
        if s.endswith("{") and re.match(r"(pub(\([a-z]+\))? )?fn ", s):
            for new in ("return Default::default();", "return None;", "return Ok(());", "return false;", "return true;", "return self;", "return;", "return self.clone();"):
                yield from put(i, [l, new], "fn " + new[7:20])
        for pat, news in SWAPS:
            for m in re.finditer(pat, l):
                if "fn " in l and pat not in (r"\btrue\b",):
                    continue
                for new in news:
                    x = l[:m.start()] + m.expand(new) + l[m.end():]
                    yield from put(i, [x], f"{m.start()}:{m[0].strip()[:12]}>{new.strip()[:14]}")


def alive(args):
    slot, f, name, out = args
    w = f"/tmp/mut/{slot}"
    if f.startswith("plugins"):
        return True
    if not os.path.exists(w):
        os.makedirs(w)
        subprocess.run(f"git -C /repo archive HEAD | tar -x -C {w}", shell=True, check=True)
    p = os.path.join(w, f)
    old = open(p).read()
    open(p, "w").write(out)
    try:
        r = subprocess.run(["timeout", "120", "cargo", "test", "--offline", "--workspace", "-q"], cwd=w, capture_output=True, env=dict(os.environ, CARGO_TARGET_DIR=w + "/target"))
        return r.returncode == 0
    finally:
        open(p, "w").write(old)


def main():
    out, files = sys.argv[1], sys.argv[2:] or [f for f in SRC if not f.endswith("plugin.rs")]
    todo = [(f, n, t) for f in files for n, t in mutants(f)]
    print(len(todo), "candidates", flush=True)
    slots = list(range(6))
    keep = []

    def go(x):
        s = slots.pop()
        try:
            return alive((s,) + x)
        finally:
            slots.append(s)
    with ThreadPoolExecutor(6) as ex:
        for x, ok in zip(todo, ex.map(go, todo)):
            if ok:
                pids = next((p for k, p in PIDS if k in x[0]), ["C01"])
                keep.append(dict(name=x[1], pids=pids, want="any", edits=[(x[0], None, x[2])]))
    with open(out, "w") as f:
        f.write("VARIANTS = " + repr(keep) + "\n")
    print(len(keep), "compile and pass the tests")


if __name__ == "__main__":
    main()
