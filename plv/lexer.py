"""Tokens of Rust source: enough to tell code from comments, strings and characters."""
import re

TOK = re.compile(r"""
  (?P<ws>\s+)
| (?P<line>//[^\n]*)
| (?P<block>/\*)
| (?P<raw>(?:b|c)?r(?P<h>\#*)")
| (?P<str>(?:b|c)?"(?:[^"\\]|\\.)*")
| (?P<char>b?'(?:[^'\\\n]|\\(?:u\{[^}]*\}|x..|.))')
| (?P<life>'[A-Za-z_]\w*)
| (?P<id>(?:r\#)?[^\W\d]\w*)
| (?P<num>\d[\w.]*)
| (?P<p>.)
""", re.X | re.S)


def tokens(src):
    """[(text, line)] without comments, and with literals reduced to one token."""
    out, i, line = [], 0, 1
    while i < len(src):
        m = TOK.match(src, i)
        k, end = m.lastgroup if m.lastgroup != "h" else "raw", m.end()
        if m.group("raw") is not None:
            k = "raw"
            e = src.find('"' + m.group("h"), end)
            end = len(src) if e < 0 else e + 1 + len(m.group("h"))
        elif k == "block":
            d, j = 1, end
            while d and j < len(src):
                if src.startswith("/*", j):
                    d, j = d + 1, j + 2
                elif src.startswith("*/", j):
                    d, j = d - 1, j + 2
                else:
                    j += 1
            end = j
        if k not in ("ws", "line", "block"):
            out.append(('""' if k in ("raw", "str", "char") else src[i:end], line))
        line += src.count("\n", i, end)
        i = end
    return out


def skip(ts, i, open_, close):
    """Index after the group that opens at i."""
    d = 0
    while i < len(ts):
        if ts[i][0] == open_:
            d += 1
        elif ts[i][0] == close:
            d -= 1
            if d == 0:
                return i + 1
        i += 1
    return i


def without_tests(ts):
    """The tokens outside of items marked #[cfg(test)] or #[test]."""
    out, i = [], 0
    while i < len(ts):
        if ts[i][0] == "#" and i + 1 < len(ts) and ts[i + 1][0] == "[":
            j = skip(ts, i + 1, "[", "]")
            a = [t for t, _ in ts[i + 2:j - 1]]
            if a in (["test"], ["cfg", "(", "test", ")"]):
                while j < len(ts) and ts[j][0] not in ("{", ";"):
                    j = skip(ts, j, "[", "]") if ts[j][0] == "[" else skip(ts, j, "(", ")") if ts[j][0] == "(" else j + 1
                i = skip(ts, j, "{", "}") if j < len(ts) and ts[j][0] == "{" else j + 1
                continue
        out.append(ts[i])
        i += 1
    return out


def unsafe_code(src):
    """[(what, line)]: every piece of unsafe code the source spells out."""
    ts = without_tests(tokens(src))
    out = []
    for i, (t, n) in enumerate(ts):
        nx = [x for x, _ in ts[i + 1:i + 4]] + ["", "", ""]
        if t == "unsafe":
            if nx[0] == "{":
                out.append(("unsafe block", n))
            elif nx[0] == "impl":
                out.append(("unsafe impl", n))
            elif nx[0] == "trait":
                out.append(("unsafe trait", n))
            elif nx[0] == "fn" and nx[1] != "(":
                out.append(("unsafe fn", n))
            elif nx[0] == "extern" and not (nx[1] == "fn" and nx[2] == "(" or nx[1] == '""' and nx[2] == "fn"
                                            and ts[i + 4][0] == "("):
                out.append(("unsafe extern", n))
            elif nx[0] == "(" and i >= 2 and ts[i - 1][0] == "[":
                out.append(("unsafe attribute", n))
        elif t in ("no_mangle", "export_name", "link_section") and i >= 1 and ts[i - 1][0] == "[" and nx[0] in ("]", "="):
            out.append((f"attribute {t}", n))
        elif t == "extern" and (nx[0] == "{" or nx[0] == '""' and nx[1] == "{") and (i == 0 or ts[i - 1][0] != "unsafe"):
            out.append(("extern block", n))
        elif t in ("global_asm", "naked_asm") and nx[0] == "!":
            out.append((t, n))
    return out
