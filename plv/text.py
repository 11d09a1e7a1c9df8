"""Models of the library's strings, paths and file system, as far as the command line needs them.

A text is a term: a constant, a value of the program, `text:cat` of texts, or a path operation applied to
texts.  How it is held (String, OsString, PathBuf, slices and references to them) is not kept.
Operations that touch the file system stay events."""
from .terms import *
from .engine import Undecided
from .model import strip_generics
from .models import INH, TR, inh, tr, load, loc, ref, some, none, okv, errv, ITER, STRS, typed_load, variant_field_ty, mk

WRAP = ("alloc::string::String", "std::path::PathBuf", "std::ffi::os_str::OsString", "std::path::Path", "std::ffi::os_str::OsStr",
        "alloc::borrow::Cow", "std::sys::os_str::bytes::Buf", "std::sys::os_str::bytes::Slice", "std::path::Display")


def bare(e, t, n=0):
    """A text without what holds it."""
    while n < 30:
        n += 1
        if t.k == "pt":
            t = t.a[2]
        elif t.k in ("adt",) and len(t.a[2]) == 1 and e.head(t.a[0]) in WRAP:
            t = t.a[2][0]
        elif t.k == "drf" and t.a[0].k in ("op", "phi"):
            t = t.a[0]
        elif t.k == "drf" and t.a[0].k == "fld" and t.a[0].a[0].k == "op":
            t = t.a[0]
        elif t.k == "ref" and t.a[0].k == "cs" and not t.a[1]:
            t = mk("str", t.a[0].a[0])
        elif t.k == "ref" and t.a[0].k in ("val", "tv") and not t.a[1]:
            t = t.a[0].a[0]
        else:
            return t
    return t


def txt(c, n=0, v=None):
    e, st = c.e, c.st
    v = c.args[n] if v is None else v
    i = 0
    while v.k in ("ref", "box", "arc") and i < 8:
        i += 1
        cell, proj = e.deref(st, v)
        if cell.k == "noisecell":
            return NOISE
        v = e.read(st, cell, proj)
    return bare(e, e.deep(st, v))


def cat(*ts):
    out = []
    for t in ts:
        if t.k == "op" and t.a[0] == "text:cat":
            xs = t.a[1]
        else:
            xs = (t,)
        for x in xs:
            if x.k == "str" and out and out[-1].k == "str":
                out[-1] = mk("str", out[-1].a[0] + x.a[0])
            elif not (x.k == "str" and x.a[0] == ""):
                out.append(x)
    if len(out) == 1:
        return out[0]
    if not out:
        return mk("str", "")
    return mk("op", "text:cat", tuple(out), None)


def char(t):
    return mk("str", chr(t.a[0])) if t.k == "int" else t


def retyped(c, t):
    return t


def text_op(name, n, result=None):
    """A function of texts that reads nothing else."""
    def f(c):
        return mk("op", name, tuple(txt(c, i) for i in range(n)), c.retty)
    return f


def reg(names, f):
    for x in names:
        INH[x] = f
        INH[strip_generics(x)] = f


def m_same(c):
    return txt(c)


P, PB, OS, OSB, S = "std::path::Path::", "std::path::PathBuf::", "std::ffi::os_str::OsStr::", "std::ffi::os_str::OsString::", "alloc::string::String::"
STR = "core::str::<impl str>::"
ASTR = "alloc::str::<impl str>::"

reg((P + "to_path_buf", OS + "to_os_string", PB + "into_os_string", OSB + "into_encoded_bytes", S + "into_bytes",
     ASTR + "to_owned", P + "to_owned", S + "into_boxed_str", PB + "into_boxed_path", ASTR + "into_string",
     "alloc::borrow::Cow::into_owned", OSB + "into_boxed_os_str"), m_same)

# operations giving a value
reg((P + "join", PB + "join"), text_op("path:join", 2))
reg((P + "with_extension",), text_op("path:with_extension", 2))
reg((P + "with_added_extension",), text_op("path:with_added_extension", 2))
reg((P + "with_file_name",), text_op("path:with_file_name", 2))
reg((P + "file_name",), text_op("path:file_name", 1))
reg((P + "file_stem",), text_op("path:file_stem", 1))
reg((P + "file_prefix",), text_op("path:file_prefix", 1))
reg((P + "extension",), text_op("path:extension", 1))
reg((P + "parent",), text_op("path:parent", 1))
reg((P + "strip_prefix",), text_op("path:strip_prefix", 2))
reg((P + "starts_with",), text_op("path:starts_with", 2))
reg((P + "ends_with",), text_op("path:ends_with", 2))
reg((P + "is_absolute",), text_op("path:is_absolute", 1))
reg((P + "is_relative",), text_op("path:is_relative", 1))
reg((P + "has_root",), text_op("path:has_root", 1))
reg((P + "to_str", OS + "to_str"), text_op("text:to_str", 1))
reg((P + "to_string_lossy", OS + "to_string_lossy", S + "from_utf8_lossy", S + "from_utf8_lossy_owned"), text_op("text:lossy", 1))
reg((P + "display", OS + "display"), text_op("text:lossy", 1))
reg((OSB + "into_string",), text_op("text:into_string", 1))
reg((STR + "ends_with", "core::slice::<impl [T]>::ends_with", "core::slice::ends_with"), text_op("text:ends_with", 2))
reg((STR + "starts_with", "core::slice::<impl [T]>::starts_with", "core::slice::starts_with"), text_op("text:starts_with", 2))
reg((STR + "contains",), text_op("text:contains", 2))
reg((STR + "strip_suffix", "core::slice::<impl [T]>::strip_suffix"), text_op("text:strip_suffix", 2))
reg((STR + "strip_prefix", "core::slice::<impl [T]>::strip_prefix"), text_op("text:strip_prefix", 2))
reg((STR + "trim_end_matches", STR + "trim_matches", STR + "trim_start_matches"), text_op("text:trim_matches", 2))
reg((STR + "trim", STR + "trim_end", STR + "trim_start"), text_op("text:trim", 1))
reg((STR + "to_lowercase", STR + "to_uppercase", ASTR + "to_lowercase", ASTR + "to_uppercase", ASTR + "to_ascii_lowercase",
     ASTR + "to_ascii_uppercase", STR + "to_ascii_lowercase", OS + "to_ascii_lowercase"), text_op("text:case", 1))
reg((ASTR + "replace", STR + "replace"), text_op("text:replace", 3))
reg((ASTR + "replacen",), text_op("text:replacen", 4))
reg((STR + "rsplit_once", STR + "split_once"), text_op("text:split_once", 2))
reg((STR + "rfind",), text_op("text:rfind", 2))
reg((STR + "find",), text_op("text:find", 2))
reg((STR + "len", S + "len", OS + "len"), text_op("text:len", 1))
reg((STR + "is_empty", S + "is_empty", OS + "is_empty"), text_op("text:is_empty", 1))
reg((OS + "eq_ignore_ascii_case", STR + "eq_ignore_ascii_case"), text_op("text:eq_ignore_case", 2))


# changes in place
def change(name):
    def f(c):
        t = txt(c, 0)
        x = char(txt(c, 1))
        new = cat(t, x) if name == "push" else mk("op", name, (t, x), None)
        cell, proj = loc(c, 0)
        c.e.write(c.st, cell, proj, new)
        return new if False else (UNIT if c.retty is None or c.e.ty(c.retty)["k"] == "tuple" else mk("op", "text:done", (new,), c.retty))
    return f


reg((OSB + "push", S + "push_str", S + "push"), change("push"))
reg((PB + "push",), change("path:join"))
reg((PB + "set_extension",), change("path:with_extension"))
reg((PB + "add_extension",), change("path:with_added_extension"))
reg((PB + "set_file_name",), change("path:with_file_name"))
reg((S + "truncate",), change("text:truncate"))


@inh(PB + "pop")
def m_pbpop(c):
    t = txt(c, 0)
    cell, proj = loc(c, 0)
    c.e.write(c.st, cell, proj, mk("op", "path:popped", (t,), None))
    return mk("op", "path:pop", (t,), c.retty)


@inh(PB + "new", OSB + "new", S + "new", S + "with_capacity", OSB + "with_capacity", PB + "with_capacity")
def m_empty(c):
    return mk("str", "")


for _h in STRS:
    def m_default(c):
        return mk("str", "")
    TR[("core::default::Default::default", _h)] = m_default


def m_textfrom(c):
    src = c.c["args"][1] if len(c.c.get("args") or ()) > 1 else None
    if src is None:
        return None
    h = c.e.head(src)
    if c.e.ty(src)["k"] == "ref":
        h = c.e.head(c.e.pointee(src))
    if h in STRS or h in WRAP or h in ("str", "alloc::boxed::Box") or c.e.ty(src)["k"] == "ref":
        return txt(c)
    if h == "prim":
        return char(c.args[0])
    return None


for _h in STRS:
    TR[("core::convert::From::from", _h)] = m_textfrom


@tr("core::str::traits::FromStr::from_str", "std::path::PathBuf", "std::ffi::os_str::OsString", "alloc::string::String")
def m_fromstr(c):
    return okv(c, txt(c))


@tr("alloc::string::ToString::to_string")
def m_tostring(c):
    e = c.e
    t = txt(c)
    src = (c.c.get("args") or (None,))[0]
    n = 0
    while src is not None and e.ty(src)["k"] == "ref" and n < 8:
        src = e.pointee(src)
        n += 1
    if src is not None and (e.head(src) in ("str", "alloc::string::String", "std::path::Display", "std::ffi::os_str::Display", "alloc::borrow::Cow", "char") or t.k == "str"):
        return char(t)
    h = e.head(src) if src is not None else None
    if h is not None and (h == "prim" or h.startswith(("std::", "core::", "alloc::", "ignore::"))):
        return mk("op", "fmt:display", (t,), c.retty)
    return None


@tr("core::ops::arith::Add::add", "alloc::string::String")
def m_stradd(c):
    return cat(txt(c, 0), txt(c, 1))


@tr("core::ops::arith::AddAssign::add_assign", "alloc::string::String")
def m_straddassign(c):
    cell, proj = loc(c, 0)
    c.e.write(c.st, cell, proj, cat(txt(c, 0), txt(c, 1)))
    return UNIT


@inh("alloc::slice::<impl [T]>::concat", "alloc::slice::concat", "alloc::slice::<impl [T]>::join", "alloc::slice::join")
def m_concat(c):
    v = load(c)
    sep = txt(c, 1) if len(c.args) > 1 else mk("str", "")
    xs = None
    if v.k == "arr":
        xs = list(v.a[0])
    elif v.k == "seq" and all(s.k == "e" for s in v.a[0]):
        xs = [s.a[0] for s in v.a[0]]
    if xs is None:
        return None
    out = []
    for i, x in enumerate(xs):
        if i:
            out.append(sep)
        out.append(txt(c, v=x))
    return cat(*out)


# ---- formatting ------------------------------------------------------------------------------


def pieces(e, template, args):
    """The parts a format template yields: texts and placeholders, or None if it uses options."""
    b = [ord(x) for x in template]
    i, n, out = 0, 0, []
    while i < len(b):
        k = b[i]
        i += 1
        if k == 0:
            return out
        if k < 0x80:
            out.append(mk("str", bytes(b[i:i + k]).decode("utf8", "replace")))
            i += k
        elif k == 0x80:
            m = b[i] + 256 * b[i + 1]
            out.append(mk("str", bytes(b[i + 2:i + 2 + m]).decode("utf8", "replace")))
            i += 2 + m
        elif k >= 0xC0:
            fl = wd = None
            if k & 1:
                fl = b[i] | b[i + 1] << 8 | b[i + 2] << 16 | b[i + 3] << 24
                i += 4
            if k & 2:
                wd = True
                i += 2
            if k & 4:
                wd = True
                i += 2
            if k & 8:
                n = b[i] + 256 * b[i + 1]
                i += 2
            if n >= len(args):
                return None
            a = args[n]
            n += 1
            if wd or k & 0x30:
                a = mk("op", "fmt:padded", (a,), None)
            out.append(shown(e, a, fl))
        else:
            return None
    return None


def shown(e, a, fl):
    """What an argument prints."""
    if a.k == "op" and a.a[0] == "fmt:new_display":
        ty = a.a[-1]
        x = a.a[1][0]
        t = bare(e, x)
        return mk("op", "fmt:display", (t, ), None) if not texty(e, x) else t
    if a.k == "op" and a.a[0] == "fmt:new_debug":
        return mk("op", "fmt:debug", (bare(e, a.a[1][0]),), None)
    return a


def texty(e, x):
    """Is this argument a string, printed as it is?"""
    while x.k == "pt":
        x = x.a[2]
    if x.k == "str":
        return True
    if x.k == "op" and x.a[0] in ("text:cat", "text:lossy"):
        return True
    ty = e.tyof(x)
    if ty is None:
        return False
    for _ in range(4):
        if e.ty(ty)["k"] == "ref":
            ty = e.pointee(ty)
    return e.head(ty) in ("str", "alloc::string::String")


@inh("alloc::fmt::format", "alloc::fmt::format::format_inner")
def m_format(c):
    t = printed(c, c.args[0])
    return mk("op", "fmt:unknown", (c.e.deep(c.st, c.args[0]),), c.retty) if t is None else t


def printed(c, a):
    """The text of format arguments."""
    return template(c.e, c.e.deep(c.st, a))


def template(e, a):
    """The text of format arguments whose parts are spelled out."""
    while a.k == "pt":
        a = a.a[2]
    if a.k != "op":
        return None
    if a.a[0] in ("fmt:from_str", "fmt:new_const"):
        return bare(e, a.a[1][0])
    if a.a[0] != "fmt:new" or len(a.a[1]) != 2:
        return None
    tm, ar = (bare(e, x) for x in a.a[1])
    if tm.k != "str" or ar.k != "arr":
        return None
    ps = pieces(e, tm.a[0], ar.a[0])
    return None if ps is None else cat(*ps)


# ---- counting ----------------------------------------------------------------------------------


reg((STR + "matches",), text_op("text:matches", 2))
reg((STR + "split",), text_op("text:split", 2))
reg((STR + "chars",), text_op("text:chars", 1))
reg((STR + "bytes",), text_op("text:bytes", 1))


@tr(ITER + "count", "core::str::iter::Matches", "core::str::iter::Split", "core::str::iter::Chars", "core::str::iter::Bytes")
def m_count(c):
    v = c.args[0]
    return mk("op", "text:count", (v,), c.retty)


# ---- ranges of numbers -------------------------------------------------------------------------


RANGE = "core::ops::range::Range"


def range_iter(c, v):
    """A range as the sequence of its numbers."""
    if v.k == "iter":
        return v
    a, b = (v.a[2] if v.k == "adt" and len(v.a[2]) == 2 else (None, None))
    if a is None:
        return None
    if a.k == "int" and b.k == "int":
        n = b.a[0] - a.a[0]
        if n <= 0:
            return mk("iter", "val", (), None)
        if n <= 64:
            return mk("iter", "val", tuple(mk("e", intt(a.a[0] + i)) for i in range(n)), None)
    return mk("iter", "val", (mk("s", mk("op", "range", (a, b), None), None),), None)


def wrap_next(old, back):
    def f(c):
        e, st = c.e, c.st
        v = typed_load(c)
        if v.k == "adt":
            it = range_iter(c, v)
            if it is None:
                return None
            e.store(st, c.args[0], it)
        return old(c)
    return f


TR[(ITER + "next", RANGE)] = wrap_next(TR[(ITER + "next", None)], False)
TR[("core::iter::traits::double_ended::DoubleEndedIterator::next_back", RANGE)] = wrap_next(
    TR[("core::iter::traits::double_ended::DoubleEndedIterator::next_back", None)], True)

# ---- walking directories -----------------------------------------------------------------------


@inh("ignore::walk::Walk::new")
def m_walk(c):
    s = mk("op", "walk", (txt(c),), None)
    return mk("iter", "val", (mk("s", s, None),), None)


B = "ignore::walk::WalkBuilder::"
DEFAULTS = {"max_depth": None, "min_depth": None, "max_filesize": None, "hidden": 1, "parents": 1, "ignore": 1, "git_global": 1, "git_ignore": 1, "git_exclude": 1,
            "require_git": 1, "follow_links": 0, "ignore_case_insensitive": 0, "same_file_system": 0, "skip_stdout": 0, "standard_filters": 1, "threads": "any"}


@inh(B + "new")
def m_walk_builder(c):
    return mk("op", "walkb", (txt(c), ()), c.retty)


def m_walk_option(name):
    def f(c):
        b = typed_load(c)
        if b.k != "op" or b.a[0] != "walkb":
            return None
        v, d = bare(c.e, c.e.deep(c.st, c.args[1])), DEFAULTS[name]
        same = d == "any" or d is None and v.k == "adt" and not v.a[2] or v.k == "bool" and d in (0, 1) and v.a[0] == bool(d)
        if not same:
            # the value set last counts
            left = tuple(o for o in b.a[1][1] if o.a[0] != "opt:" + name)
            c.e.store(c.st, c.args[0], mk("op", "walkb", (b.a[1][0], left + (mk("op", "opt:" + name, (v,), None),)), b.a[2]))
        elif any(o.a[0] == "opt:" + name for o in b.a[1][1]):
            return None
        return c.args[0]
    return f


for _n in DEFAULTS:
    reg((B + _n,), m_walk_option(_n))


@inh(B + "build")
def m_walk_build(c):
    b = typed_load(c)
    if b.k != "op" or b.a[0] != "walkb":
        return None
    s = mk("op", "walk", (b.a[1][0],) + b.a[1][1], None)
    return mk("iter", "val", (mk("s", s, None),), None)


W = "ignore::walk::DirEntry::"
reg((W + "path", W + "into_path"), text_op("entry:path", 1))
reg((W + "file_name",), text_op("entry:name", 1))
reg((W + "file_type",), text_op("entry:type", 1))
reg((W + "depth",), text_op("entry:depth", 1))
reg((W + "error",), text_op("entry:error", 1))
reg((W + "path_is_symlink",), text_op("entry:is_symlink", 1))
reg((W + "metadata",), text_op("entry:metadata", 1))
reg(("std::fs::FileType::is_file",), text_op("type:is_file", 1))
reg(("std::fs::FileType::is_dir",), text_op("type:is_dir", 1))
reg(("std::fs::FileType::is_symlink",), text_op("type:is_symlink", 1))
reg(("std::fs::Metadata::is_file",), text_op("meta:is_file", 1))
reg(("std::fs::Metadata::is_dir",), text_op("meta:is_dir", 1))
reg(("std::fs::Metadata::file_type",), text_op("meta:type", 1))
reg(("std::fs::Metadata::len",), text_op("meta:len", 1))
reg((P + "is_file",), text_op("fs:is_file", 1))
reg((P + "is_dir",), text_op("fs:is_dir", 1))
reg((P + "exists",), text_op("fs:exists", 1))
reg((P + "is_symlink",), text_op("fs:is_symlink", 1))
reg((P + "metadata", "std::fs::metadata"), text_op("fs:metadata", 1))
reg((P + "symlink_metadata", "std::fs::symlink_metadata"), text_op("fs:symlink_metadata", 1))
