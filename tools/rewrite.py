"""Generates mechanical rewritings of the repository's functions that keep the behaviour, and keeps those that compile and pass the tests.

  python3 tools/rewrite.py OUT.py [file ...]      (files relative to /repo; default: all sources)

The result is a file of variants for tools/variants.py (PLV_VARIANTS=its directory), none of which any check may alarm for."""
import os, re, sys
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mutate import SRC, PIDS, alive

OPEN, CLOSE = "([{", ")]}"


def blank(text):
    """The text with the contents of comments and strings blanked out, so that brackets and keywords count."""
    out, i, n = list(text), 0, len(text)
    while i < n:
        two = text[i:i + 2]
        if two == "//":
            j = text.find("\n", i)
            j = n if j < 0 else j
        elif text[i] == '"':
            j = i + 1
            while j < n and text[j] != '"':
                j += 2 if text[j] == "\\" else 1
            j += 1
        elif text[i] == "'" and re.match(r"'(\\.|[^\\'])'", text[i:i + 4]):
            j = i + len(re.match(r"'(\\.|[^\\'])'", text[i:i + 4])[0])
        else:
            i += 1
            continue
        for k in range(i, min(j, n)):
            if out[k] != "\n":
                out[k] = " " if two == "//" else "_"
        i = j
    return "".join(out)


def closing(b, i):
    """The position of the bracket that closes the one at i."""
    d = 0
    for j in range(i, len(b)):
        if b[j] in OPEN:
            d += 1
        elif b[j] in CLOSE:
            d -= 1
            if d == 0:
                return j
    return None


def pieces(b, lo, hi):
    """The statements of a block: (start, end, is the value of the block)."""
    i = lo
    out = []
    start = None
    while i < hi:
        c = b[i]
        if start is None:
            if c.isspace():
                i += 1
                continue
            start = i
        if c in OPEN:
            j = closing(b, i)
            i = j + 1
            if c == "{":
                rest = b[i:hi]
                m = re.match(r"\s*(else\b|\.|\?|;|[-+*/&|=<>,)])", rest)
                head = b[start:start + 12]
                if not m and re.match(r"(if|match|for|while|loop|unsafe|fn|pub|\{|thread_local|impl|#)", head):
                    if rest.strip():
                        out.append((start, i, False))
                        start = None
            continue
        if c == ";":
            out.append((start, i + 1, False))
            start = None
        i += 1
    if start is not None:
        e = hi
        while b[e - 1].isspace():
            e -= 1
        out.append((start, e, True))
    return out


def functions(text, b):
    """(name, start of the body's inside, its end, declared result) of every function outside of tests."""
    end = re.search(r"#\[cfg\((any\()?test", b)
    end = end.start() if end else len(b)
    for m in re.finditer(r"\bfn (\w+)", b[:end]):
        i = m.end()
        d = 0
        arrow = None
        while i < end:
            c = b[i]
            if c in "([":
                i = closing(b, i)
            elif c == "{" or c == ";":
                break
            elif b[i:i + 2] == "->" and arrow is None:
                arrow = i + 2
            i += 1
        if i >= end or b[i] == ";":
            continue
        j = closing(b, i)
        ret = None
        if arrow is not None:
            ret = re.split(r"\bwhere\b", text[arrow:i])[0].strip()
        yield m[1], i + 1, j, ret


def blocks(b, lo, hi):
    """Every block inside of a function, the whole body first: (start of its inside, its end)."""
    yield lo, hi
    for m in re.finditer(r"(\belse |=> |\bloop |\) |\|[\w\s,&:]*\| |[\w)?] )\{", b[lo:hi]):
        i = lo + m.end() - 1
        j = closing(b, i)
        if j and j <= hi and not re.search(r"\bmatch [^{;]*$", b[lo:i]) and not re.search(r"(struct|enum|impl|trait) [^{;]*$", b[lo:i]):
            yield i + 1, j


def rewritings(f):
    text = open("/repo/" + f).read()
    b = blank(text)
    seen = {text}

    def put(lo, hi, new, what):
        out = text[:lo] + new + text[hi:]
        if out not in seen:
            seen.add(out)
            yield f"{f.split('src/')[-1]}:{text[:lo].count(chr(10)) + 1}:{what}", out
    for name, lo, hi, ret in functions(text, b):
        body = text[lo:hi]
        if ret:
            yield from put(lo, hi, " let body = move || -> " + ret + " {" + body + "}; body() ", "closure")
        else:
            yield from put(lo, hi, " let body = move || {" + body + "}; body() ", "closure")
        yield from put(lo, hi, " if std::hint::black_box(true) { } " + body, "noop") if False else ()
        for x, y in dict.fromkeys(blocks(b, lo, hi)):
            ps = pieces(b, x, y)
            if not ps:
                continue
            s, e, tail = ps[-1]
            if tail:
                t = text[s:e]
                yield from put(s, e, "let result = " + t + ";\nresult", "let-tail")
                if (x, y) == (lo, hi) and not t.startswith("return"):
                    yield from put(s, e, "return " + t + ";", "return-tail")
                yield from put(s, e, "{ " + t + " }", "block-tail")
            for s, e, tail in ps:
                t, bt = text[s:e], b[s:e]
                # `X?;`
                m = re.match(r"(.*)\?;$", t, re.S)
                if m and not t.startswith(("let ", "return")):
                    yield from put(s, e, "match " + m[1] + " { Ok(_) => {} Err(err) => return Err(err.into()) }", "question-match")
                    yield from put(s, e, "if let Err(err) = " + m[1] + " { return Err(err.into()); }", "question-if")
                    yield from put(s, e, "let step = " + m[1] + "; step?;", "question-let")
                m = re.match(r"let ((?:mut )?\w+) = (.*)\?;$", t, re.S)
                if m:
                    yield from put(s, e, "let " + m[1] + " = match " + m[2] + " { Some(value) => value, None => return None };", "question-none")
                    yield from put(s, e, "let " + m[1] + " = match " + m[2] + " { Ok(value) => value, Err(err) => return Err(err.into()) };", "question-err")
                # let … else
                m = re.match(r"let (.*?) = (.*?) else (\{.*\});$", t, re.S)
                if m and m[1].startswith("Some(") and bt.count("else") == 1:
                    v = m[1][5:-1]
                    yield from put(s, e, "let " + v + " = match " + m[2] + " { Some(value) => value, None => " + m[3] + " };", "letelse-match")
                    yield from put(s, e, "let " + v + " = if let Some(value) = " + m[2] + " { value } else " + m[3] + ";", "letelse-iflet")
                # if / else
                m = re.match(r"if (?!let )", bt)
                if m:
                    i = bt.index("{")
                    j = closing(bt, i)
                    r = re.match(r"\s*else\s*\{", bt[j + 1:])
                    cond = t[3:i].strip()
                    if r:
                        k = j + 1 + r.end() - 1
                        if closing(bt, k) == len(bt) - 1:
                            yield from put(s, e, "if !(" + cond + ") " + t[k:] + " else " + t[i:j + 1], "if-not")
                    elif not bt[j + 1:].strip():
                        yield from put(s, e, "if !(" + cond + ") { } else " + t[i:j + 1], "if-not")
                    yield from put(s, s + i, "let cond = " + cond + ";\nif cond ", "cond-let")
                    yield from put(s, s + i, "if let true = " + cond + " ", "if-let-true") if "&&" not in cond else ()
                m = re.match(r"if let (Some|Ok|Err)\((\w+|&?mut \w+|_)\) = ", bt)
                if m:
                    i = bt.index("{", m.end())
                    j = closing(bt, i)
                    ex = t[m.end():i]
                    r = re.match(r"\s*else\s*\{", bt[j + 1:])
                    pat = t[7:m.end() - 3]
                    if r and closing(bt, j + r.end()) == len(bt) - 1:
                        yield from put(s, e, "match " + ex + " { " + pat + " => " + t[i:j + 1] + " _ => " + t[j + r.end():] + " }", "iflet-match")
                    elif not bt[j + 1:].strip():
                        yield from put(s, e, "match " + ex + " { " + pat + " => " + t[i:j + 1] + " _ => {} }", "iflet-match")
                m = re.match(r"match ", bt)
                if m:
                    i = bt.index("{")
                    yield from put(s, s + i, "let subject = " + t[6:i] + ";\nmatch subject ", "match-let")
                # a value under a name of its own
                m = re.match(r"(let (?:mut )?\w+ = )(.*);$", t, re.S)
                if m:
                    yield from put(s, e, m[1] + "{ let value = " + m[2] + "; value };", "let-block")
        # closures
        for m in re.finditer(r"(?<=[(\s,])(move )?\|([^|]*)\| ?", b[lo:hi]):
            i = lo + m.end()
            if i >= hi:
                continue
            d, j = 0, i
            while j < hi:
                c = b[j]
                if c in OPEN:
                    j = closing(b, j)
                elif c in CLOSE + ",;":
                    break
                j += 1
            t = text[i:j]
            if t.strip():
                yield from put(i, j, "{ let value = " + t + "; value }", f"closure-let{i - lo}")
        # parts of a chain under a name of their own: the receiver of a last call
        for x, y in dict.fromkeys(blocks(b, lo, hi)):
            for s, e, tail in pieces(b, x, y):
                bt = b[s:e]
                if re.match(r"(if|match|for|while|loop|return|let|use|fn|\{)", bt):
                    continue
                cuts = []
                i = 0
                while i < len(bt):
                    if bt[i] in OPEN:
                        i = closing(bt, i) + 1
                        continue
                    if re.match(r"\s*\.[a-z]\w*", bt[i:]) and i > 0 and bt[i - 1] in ")?":
                        cuts.append(i)
                        i += len(re.match(r"\s*\.", bt[i:])[0])
                        continue
                    i += 1
                for c in cuts:
                    yield from put(s, e, "let part = " + text[s:s + c] + ";\npart" + text[s + c:e].lstrip(), f"receiver-let{c}")


def main():
    out, files = sys.argv[1], sys.argv[2:] or [f for f in SRC if not f.endswith("plugin.rs")]
    todo = [(f, n, t) for f in files for n, t in rewritings(f)]
    print(len(todo), "candidates", flush=True)
    slots = list(range(6))
    keep = []

    def go(x):
        s = slots.pop()
        try:
            return alive((s,) + x)
        finally:
            slots.append(s)
    with ThreadPoolExecutor(6) as ex:
        for x, ok in zip(todo, ex.map(go, todo)):
            if ok:
                pids = next((p for k, p in PIDS if k in x[0]), ["C01"])
                keep.append(dict(name=x[1], pids=pids, want="quiet", edits=[(x[0], None, x[2])]))
    with open(out, "w") as f:
        f.write("VARIANTS = " + repr(keep) + "\n")
    print(len(keep), "kept")


if __name__ == "__main__":
    main()
