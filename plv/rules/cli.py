"""The command line: C18, C19, C20."""
from ..base import *
from .graph import same_term, idt
from .lazy import plain, some, none

READERS = ("std::fs::read", "std::fs::File::open", "std::fs::metadata", "std::fs::symlink_metadata", "std::fs::exists", "std::fs::canonicalize",
           "std::fs::read_dir", "std::fs::read_to_string", "std::fs::read_link", "std::fs::File::metadata", "std::fs::DirEntry", "std::fs::ReadDir",
           "std::fs::FileType", "std::fs::Metadata", "std::fs::OpenOptions::new", "std::fs::OpenOptions::read")


def effects(R, run, p):
    """Nothing on the path changes the file system."""
    for ev in flat(p.events):
        if ev.k == "ext":
            n = ev.a[0]
            if "fs::" in n and ("std::fs" in n or "std::os" in n):
                if any(n.startswith(x) or ("<" + x) in n for x in READERS):
                    continue
                R.check(False, run, p, f"changes the file system: {n}", ev)
            elif "io::Write" in n and "fs::File" in n or "std::process" in n or "std::os::" in n:
                R.check(False, run, p, f"has an effect it should not have: {n}", ev)
    R.check(True, run, p, "leaves files alone")


def opaque(t):
    """Something in it that the analysis has no account of."""
    for x in subterms(t):
        if x.k == "phi" or x.k == "op" and (x.a[0] in VAGUE_OPS or x.a[0].startswith("fmt:unknown")):
            return True
    return False


def op(t, name):
    t = untyped(norm(t))
    return t.a[1] if t.k == "op" and t.a[0] == name else None


def cats(t):
    """The parts a text is put together from."""
    a = op(t, "text:cat")
    return list(a) if a is not None else [t]


def joinform(t):
    """(base, parts of what is joined to it); a text appended to a joined path belongs to what was joined."""
    t = untyped(norm(t))
    ps = cats(t)
    j = op(ps[0], "path:join")
    if j is None:
        return None
    return j[0], [x for y in cats(j[1]) for x in [y]] + ps[1:]


def field(r, i):
    return mk("fld", mk("drf", r, None), 0, i, None)


def fields(R, run, ty, want):
    """Index of each named field of a structure: (its type's head -> index)."""
    d = run.e.ty(ty)
    fs = d["variants"][0]["fields"]
    out = {}
    for i, (n, t) in enumerate(fs):
        out[n] = i
    return out


def repo_places(R, run):
    """Terms of the base directory and of the extension of the repository given to the entry."""
    d = next((run.e.P.types[i] for i in range(len(run.e.P.types)) if run.e.P.types[i].get("def", "").endswith("repository::LocalDocumentRepository")), None)
    if d is None:
        return None
    fs = d["variants"][0]["fields"]
    path = [i for i, (n, t) in enumerate(fs) if run.e.head(t) in ("std::path::PathBuf",)]
    ext = [i for i, (n, t) in enumerate(fs) if run.e.head(t) in ("alloc::string::String", "std::ffi::os_str::OsString")]
    if len(path) != 1 or len(ext) != 1:
        return None
    return path[0], ext[0]


def is_field(t, repo, i):
    """Is this the i-th field of the repository?"""
    t = untyped(norm(t))
    while t.k == "drf":
        t = t.a[0]
    return t.k == "fld" and t.a[2] == i and plain(t.a[0], repo)


def c18(R):
    R.inductive = True
    R.rule("On every path of a lookup: the only file read is at join(base directory, id) followed by '.' and the extension, as a term over the unknown base, id and "
           "extension; where the read succeeds the result is a document of that id with the bytes read, where it fails there is none; no step panics. "
           "Neither a lookup nor a listing calls anything that changes the file system.")
    run = R.run("repo_find")
    for p in run.paths:
        if not no_panic(R, run, p) or not R.check(p.kind == "ret", run, p, "unwinds"):
            continue
        effects(R, run, p)
        places = repo_places(R, run)
        if places is None:
            R.doubt(run.name, "the repository's fields are not recognised")
            continue
        loop = next((x for x in flat(p.events) if x.k in ("loop", "rec")), None)
        if loop is not None:
            R.doubt(run.name, "a loop is not followed here")
            continue
        right, tried = None, None
        for ev in p.events:
            if ev.k == "client":
                R.doubt(run.name, f"a call is not followed: {ev.a[0]}")
            if ev.k != "ext":
                continue
            n = ev.a[0]
            if n == "std::fs::read":
                x = ev.a[2][0]
                while x.k == "pt":
                    x = x.a[2]
                tried = ev
                if rightpath(R, run, p, ev, x, places):
                    right = ev
            elif n.startswith("std::fs::read_to_string"):
                R.check(False, run, p, "a document whose bytes are not text is not found", ev)
            elif n.startswith("std::fs::"):
                R.doubt(run.name, f"a way of reading that is not followed: {n}")
        v = p.value
        res = right.a[3] if right is not None else None
        got = variant_of(p, res) if res is not None else None
        if none(v):
            absent = [1 for k, x in p.st.facts.items() if k[0] == "val" and x is False and k[1].k == "op"
                      and k[1].a[0] in ("fs:is_file", "fs:exists") and samepath(k[1].a[1][0], run, places)]
            if right is None and tried is None and not absent:
                if any(opaque(k[1]) for k in p.st.facts if len(k) > 1 and isinstance(k[1], T)):
                    R.doubt(run.name, "gives nothing for a reason not followed")
                else:
                    R.check(False, run, p, "nothing is found although no file was tried")
            elif right is not None:
                R.check(got == 1, run, p, "nothing is found although the file could be read", right)
            continue
        x = some(v)
        if x is None:
            if res is not None and same_term(mk("drf", v, None), mk("drf", res, None)):
                R.check(True, run, p, "found")
            else:
                R.doubt(run.name, "the result is not followed")
            continue
        if not R.check(right is not None and got == 0, run, p, "a document is given without its file having been read", tried, (x,)):
            continue
        if x.k != "adt":
            R.doubt(run.name, "the document is not followed")
            continue
        bytes_ = untyped(mk("fld", res, 0, 0, None))
        for i, f in enumerate(x.a[2]):
            f = untyped(norm(f))
            if run.e.head(run.e.ty(x.a[0])["variants"][0]["fields"][i][1]) == "std::path::PathBuf":
                R.check(plain(f, run.args[1]), run, p, f"the document carries another id: {brief(f, 60)}", right, (f,) if not modelled(f) else ())
            else:
                R.check(f is bytes_, run, p, f"the document carries other bytes: {brief(f, 60)}", right, (f,) if not is_vague_bytes(f, bytes_) else ())
    run = R.run("doc_id")
    for p in run.paths:
        if no_panic(R, run, p) and R.check(p.kind == "ret", run, p, "unwinds"):
            R.check(plain(p.value, run.args[0]), run, p, f"a document reports another id: {brief(p.value, 60)}", None, (p.value,) if not modelled(p.value) else ())
    run = R.run("repo_all")
    for p in run.paths:
        effects(R, run, p)


def modelled(t):
    """A text the analysis has a full account of."""
    return not opaque(t)


def is_vague_bytes(f, b):
    return any(x is b for x in subterms(f)) or not opaque(f)


def samepath(x, run, places):
    jf = joinform(x)
    if jf is None:
        return False
    base, ps = jf
    return (len(ps) == 3 and is_field(base, run.args[0], places[0]) and plain(ps[0], run.args[1]) and ps[1].k == "str" and ps[1].a[0] == "."
            and is_field(ps[2], run.args[0], places[1]))


def rightpath(R, run, p, ev, x, places):
    R.obligations += 1
    if samepath(x, run, places):
        return True
    if any(y.k == "op" and y.a[0] in ("path:with_added_extension", "path:with_file_name", "path:file_name") for y in subterms(x)) or opaque(x):
        R.doubt(run.name, f"reads a path not followed: {brief(x, 80)}")
        return False
    R.violations.append((run.name, f"reads another path than the document's: {brief(x, 100)}", p, ev))
    return False


# ---- listing -----------------------------------------------------------------------------------


def suffix_of(t, repo, places):
    """Is this '.' followed by the extension?"""
    ps = cats(untyped(norm(t)))
    return len(ps) == 2 and ps[0].k == "str" and ps[0].a[0] == "." and is_field(ps[1], repo, places[1])


def dot(t):
    return t.k == "int" and t.a[0] == 46 or t.k == "str" and t.a[0] == "."


def dots_in_suffix(n, repo, places):
    """Does this number count the dots of the suffix?"""
    n = untyped(norm(n))
    if n.k != "op":
        return False
    if n.a[0] in ("Add", "AddWithOverflow", "AddUnchecked"):
        a, b = n.a[1][:2]
        a, b = (b, a) if a.k == "int" else (a, b)
        if b.k == "int" and b.a[0] == 1:
            m = op(op(a, "text:count")[0], "text:matches") if op(a, "text:count") else None
            return m is not None and is_field(m[0], repo, places[1]) and dot(m[1])
        return False
    c = op(n, "text:count")
    if c is None:
        return False
    m = op(c[0], "text:matches")
    if m is not None:
        return suffix_of(m[0], repo, places) and dot(m[1])
    m = op(c[0], "text:split")
    return m is not None and is_field(m[0], repo, places[1]) and dot(m[1])


def counted(lp, phi):
    """(start, new value of phi, number of turns) of a loop that changes phi a counted number of times; or a string saying what is wrong."""
    ups = [(c, u) for c in lp.a[1] for u in c.a[2] if u.k == "upd" and u.a[0] is phi]
    init = next((x.a[1] for x in lp.a[2] if x.k == "init" and x.a[0] is phi), None)
    if init is None or not ups:
        return None
    if len(lp.a[1]) != 1:
        return None
    c, u = ups[0]
    if any(x.k not in ("ext",) for x in c.a[1]):
        return None
    new = u.a[1]
    for k, v in c.a[0]:
        if k[0] == "var" and contains(k[1], phi):
            return "as often as there is something to remove"
        if k[0] == "rel":
            a, b = k[1], k[2]
            if a.k == "int":
                a, b, v = b, a, frozenset({"<": ">", ">": "<", "=": "="}[x] for x in v)
            ctr = next((x for x in subterms(a) if x.k == "phi"), None) or next((x for x in subterms(b) if x.k == "phi"), None)
            if ctr is None or ctr is phi:
                return None
            cu = next((y.a[1] for y in c.a[2] if y.k == "upd" and y.a[0] is ctr), None)
            ci = next((x.a[1] for x in lp.a[2] if x.k == "init" and x.a[0] is ctr), None)
            if cu is None or ci is None:
                return None
            m = {ctr: ci}
            # counting up to a limit, or down to nothing
            if cu.k == "adt" and ci.k == "adt" and len(ci.a[2]) == 2 and a.k == "fld" and b.k == "fld":
                lo, hi = ci.a[2]
                if v == frozenset("<") and one_more(cu.a[2][0], a) and untyped(cu.a[2][1]) is untyped(b):
                    return init, new, lo, hi
                return None
            if a is ctr and v <= frozenset("<>") and one_more(cu, ctr) and v == frozenset("<"):
                return init, new, ci, subst(b, m)
            if a is ctr and b.k == "int" and b.a[0] == 0 and one_less(cu, ctr) and "=" not in v:
                return init, new, mk("int", 0), ci
            return None
    took = [y for y in c.a[2] if y.k == "took"]
    frm = [x for x in lp.a[2] if x.k == "from"]
    if len(took) == 1 and len(frm) == 1 and took[0].a[2] == 1 and frm[0].a[0] is took[0].a[0]:
        s = frm[0].a[0]
        if frm[0].a[2].k == "s" and frm[0].a[2].a[0] is s:
            n = op(s, "range")
            if n is not None:
                return init, new, n[0], n[1]
            return init, new, mk("int", 0), mk("op", "text:count", (s,), None)
    return None


def one_more(t, x):
    t, x = untyped(t), untyped(x)
    return t.k == "op" and t.a[0].startswith("Add") and t.a[1][0] is x and t.a[1][1].k == "int" and t.a[1][1].a[0] == 1


def one_less(t, x):
    t, x = untyped(t), untyped(x)
    return t.k == "op" and t.a[0].startswith("Sub") and t.a[1][0] is x and t.a[1][1].k == "int" and t.a[1][1].a[0] == 1


class Odd(Exception):
    pass


class Wrong(Exception):
    pass


def pathway(t, repo, places, loops):
    """What became of the path of the entry: (entry, relative?, without the ending?)."""
    t = untyped(norm(t))
    n = 0
    while t.k == "drf" or t.k == "pt":
        t = t.a[0] if t.k == "drf" else t.a[2]
    if t.k == "fld" and t.a[0].k == "op" and t.a[0].a[0] == "path:strip_prefix":
        x, c = t.a[0].a[1]
        if not is_field(c, repo, places[0]):
            if opaque(c):
                raise Odd("a prefix not followed")
            raise Wrong("another prefix than the base directory is taken off")
        ent, rel, bare = pathway(x, repo, places, loops)
        if rel:
            raise Odd("the prefix is taken off twice")
        return ent, True, bare
    if t.k == "op" and t.a[0] == "entry:path":
        return t.a[1][0], False, False
    if t.k == "op" and t.a[0] == "entry:name":
        raise Wrong("the directories between the base directory and the file are left out")
    if t.k == "phi":
        for lp in loops:
            if any(u.k == "upd" and untyped(u.a[0]) is t for c in lp.a[1] for u in c.a[2]):
                ph = next(u.a[0] for c in lp.a[1] for u in c.a[2] if u.k == "upd" and untyped(u.a[0]) is t)
                r = counted(lp, ph)
                if isinstance(r, str):
                    raise Wrong("extensions are removed " + r)
                if r is None:
                    raise Odd("a loop not followed")
                start, new, lo, hi = r
                w = op(new, "path:with_extension")
                if w is None or untyped(w[0]) is not untyped(ph) or not (w[1].k == "str"):
                    raise Odd("a loop not followed")
                if w[1].a[0] != "":
                    raise Wrong("the ending is replaced by another")
                if not (lo.k == "int" and lo.a[0] == 0):
                    raise Wrong("as many extensions as the configured one has parts must be removed") if lo.k == "int" else Odd("a loop not followed")
                if not dots_in_suffix(hi, repo, places):
                    if opaque(hi):
                        raise Odd("a loop not followed")
                    raise Wrong(f"extensions are removed {brief(hi, 50)} times instead of once for each part of the configured one")
                ent, rel, bare = pathway(start, repo, places, loops)
                if bare:
                    raise Wrong("the ending is removed twice")
                return ent, rel, True
        raise Odd("a value not followed")
    if t.k == "op" and t.a[0] == "path:with_extension":
        if t.a[1][1].k == "str" and t.a[1][1].a[0] == "":
            raise Wrong("of an extension with dots only the last part is removed")
        raise Wrong("the ending is replaced by another")
    if t.k == "fld" and t.a[0].k == "op" and t.a[0].a[0] == "text:strip_suffix":
        x, s = t.a[0].a[1]
        if not suffix_of(s, repo, places):
            raise Odd("another ending is removed") if opaque(s) else Wrong("another ending is removed")
        ent, rel, bare = pathway(x, repo, places, loops)
        if bare:
            raise Wrong("the ending is removed twice")
        return ent, rel, True
    if t.k == "op" and t.a[0] == "text:lossy":
        raise Wrong("the id of a file whose name is not text does not lead back to it")
    if t.k == "op" and t.a[0] in ("text:case", "text:trim", "text:trim_matches", "text:replace", "path:file_stem", "path:file_name", "path:file_prefix", "path:parent"):
        raise Wrong(f"the id is not the path of the file: {t.a[0].split(':')[1]}")
    raise Odd(f"a value not followed: {brief(t, 50)}")


def reason(k, v, repo, places, el):
    """What a fact says about the entry: one of 'bad' (unreadable), 'read', 'other' (not of the ending), 'ends', 'file', 'nofile', 'outside', 'inside', or None."""
    if k[0] == "var":
        t = untyped(norm(k[1]))
        if t is el:
            return "bad" if v == 1 else "read"
        s = op(t, "path:strip_prefix")
        if s is not None and is_field(s[1], repo, places[0]):
            return "outside" if v == 1 else "inside"
        s = op(t, "text:strip_suffix")
        if s is not None and suffix_of(s[1], repo, places):
            return named(s[0], el, "ends" if v == 1 else "other")
        s = op(t, "path:file_name")
        if s is not None and op(untyped(norm(s[0])), "entry:path") is not None:
            return "nofile" if v == 0 else None     # every regular file has a name
        s = op(t, "entry:type")
        if s is not None:
            return "nofile?" if v == 0 else None
        s = op(t, "fs:metadata") or op(t, "entry:metadata") or op(t, "fs:symlink_metadata")
        if s is not None:
            return "nofile?" if v == 1 else None
        if v == (0 if op(t, "text:to_str") is not None else 1) and (op(t, "text:to_str") or op(t, "text:from_utf8")) is not None:
            return "unicode"
        if t.k == "op" and t.a[0].startswith(("text:", "path:", "entry:", "fs:", "type:", "meta:")):
            return "odd:" + t.a[0]
    if k[0] == "val":
        t = untyped(norm(k[1]))
        s = op(t, "text:ends_with")
        if s is not None and suffix_of(s[1], repo, places):
            return named(s[0], el, "ends" if v else "other")
        for o in ("fs:is_file", "type:is_file", "meta:is_file"):
            if op(t, o) is not None:
                return "file" if v else "nofile"
        if t.k == "op" and t.a[0].startswith(("text:", "path:", "entry:", "fs:", "type:", "meta:")):
            return "odd:" + t.a[0]
    return None


def named(t, el, r):
    t = untyped(norm(t))
    while t.k == "drf" or t.k == "pt":
        t = t.a[0] if t.k == "drf" else t.a[2]
    if t.k == "op" and t.a[0] == "entry:name":
        return r
    if t.k == "op" and t.a[0] == "path:file_name":
        return r
    if t.k == "fld" and t.a[0].k == "op" and t.a[0].a[0] == "path:file_name":
        return r
    if t.k == "op" and t.a[0] in ("text:lossy",):
        return "odd:lossy"
    if t.k == "op" and t.a[0] == "entry:path":
        return "odd:path"
    return "odd:" + (t.a[0] if t.k == "op" else t.k)


def c19(R):
    R.inductive = True
    R.rule("The listing goes through everything the walk of the base directory visits, one entry a turn. For each turn it yields exactly one id if the entry could be read, "
           "its name ends with '.' and the extension taken literally, it is a file and lies under the base directory; and none exactly if one of these fails. The id "
           "is the entry's path with the base directory taken off and the ending removed: as many extensions as the ending has dots, or the ending itself. The document "
           "is looked up in this repository. No step panics.")
    R.assumptions = ["the walk of the `ignore` crate visits no hidden entries, so that a name ending with a suffix starts with something before the suffix"]
    run = R.run("repo_all")
    f = "call F"
    for p in run.paths:
        if not no_panic(R, run, p):
            continue
        places = repo_places(R, run)
        if places is None:
            R.doubt(run.name, "the repository's fields are not recognised")
            continue
        repo = run.args[0]
        if p.kind != "ret" and not any(x.k == "unwind" for x in flat(p.events)):
            R.check(False, run, p, "unwinds by itself")
            continue
        calls = [x for x in p.events if x.k == "client"]
        lps = [x for x in p.events if x.k == "loop" and any(y.k == "from" and op(y.a[0], "walk") is not None for y in x.a[2])]
        lps = [x for x in lps if any(y.k == "from" and is_field(op(y.a[0], "walk")[0], repo, places[0]) for y in x.a[2] if op(y.a[0], "walk") is not None)]
        if not lps:
            if p.kind == "ret":
                w = next((y for x in p.events if x.k == "loop" for y in x.a[2] if y.k == "from"), None)
                R.check(False, run, p, "what is visited is not what lies under the base directory", None, (w.a[0],) if w is not None and op(w.a[0], "walk") is None else ())
            continue
        lp = lps[0]
        if not any(x.k == "client" for x in flat(lp.a[1][0].a[1] + tuple(y for c in lp.a[1] for y in c.a[1]))):
            if not any(x.k == "client" for q in run.paths for x in flat(q.events)):
                R.check(False, run, p, "no id is given for any entry", lp)
                continue
            R.doubt(run.name, "the ids are not given as they are found")
            continue
        src = next(y.a[0] for y in lp.a[2] if y.k == "from" and op(y.a[0], "walk") is not None)
        for o in op(src, "walk")[1:]:
            R.check(False, run, p, f"what is visited is not all that lies under the base directory: {o.a[0][4:]}({brief(o.a[1][0], 40)})", lp)
        frm = next(y for y in lp.a[2] if y.k == "from" and y.a[0] is src)
        R.check(frm.a[2].k == "s" and frm.a[2].a[0] is src, run, p, "part of what is visited is left out", lp)
        left = [v for k, v in p.st.facts.items() if k[0] == "more" and k[1] is src]
        if any(u.k == "skipped" for c in lp.a[1] for u in c.a[2]):
            if p.kind == "ret" and not (left and left[-1] is False) and unmodelled(p) is None:
                R.violations.append((run.name, "stops before everything has been visited", p, lp))
            R.doubt(run.name, "the entries of the walk are not treated one by one")
            continue
        if p.kind == "ret":
            R.check(bool(left) and left[-1] is False, run, p, "stops before everything has been visited", lp)
        if p.kind == "ret" and calls:
            R.check(False, run, p, "an id is given outside of the walk", calls[0])
        for c in lp.a[1]:
            turn(R, run, p, lp, c, src, repo, places)


def turn(R, run, p, lp, c, src, repo, places):
    tk = [u for u in c.a[2] if u.k == "took" and u.a[0] is src]
    if not R.check(len(tk) == 1 and tk[0].a[2] == 1, run, p, "not each entry is treated by itself", lp):
        return
    el = next((untyped(t) for t in subterms(c.a[0]) if t.k == "elt" and t.a[0] is src), None)
    if el is None:
        el = next((untyped(t) for t in subterms(c) if t.k == "elt" and t.a[0] is src), None)
    said, odd = {}, []
    for k, v in c.a[0]:
        r = reason(k, v, repo, places, el)
        if r is None:
            continue
        if r.startswith("odd:"):
            odd.append((r[4:], v, k))
        elif r == "nofile?":
            said["nofile"] = True
        else:
            said[r] = True
    for k, v in c.a[0]:
        if k[0] == "rel" and "=" in v and len(v) == 1:
            a, b = (k[2], k[1]) if k[1].k == "int" else (k[1], k[2])
            if b.k == "int" and b.a[0] == 0 and dots_in_suffix(a, repo, places):
                return          # the ending has at least the dot in front
    calls = [x for x in c.a[1] if x.k == "client"]
    nested = [x for x in flat(c.a[1]) if x.k == "client"]
    if len(nested) != len(calls):
        R.doubt(run.name, "ids are given in a loop of their own")
        return
    skip = [x for x in ("bad", "other", "nofile", "outside") if x in said]
    loops = [x for x in c.a[1] if x.k == "loop"]
    if not calls:
        if skip:
            R.check(True, run, p, "skipped")
        elif "unicode" in said:
            R.check(False, run, p, "a file with the ending is left out because its name is not valid Unicode", lp)
        elif odd:
            for o, v, k in odd:
                if o in ("lossy", "path", "phi", "sym") or opaque(k[1]):
                    R.doubt(run.name, f"an entry is skipped for a reason not followed: {brief(k[1], 60)}")
                    return
            R.check(False, run, p, f"a file with the ending is left out because of {odd[-1][0]}: {brief(odd[-1][2][1], 60)}", lp)
        else:
            un = [k for k, v in c.a[0] if k[0] not in ("more",) and len(k) > 1 and isinstance(k[1], T) and opaque(k[1]) and k[0] != "rel"]
            if un:
                R.doubt(run.name, f"an entry is skipped for a reason not followed: {brief(un[0][1], 60)}")
            else:
                R.check(False, run, p, "a file with the ending is left out", lp)
        return
    R.check(len(calls) == 1, run, p, "an entry is given more than once", calls[-1])
    ev = calls[0]
    for bad, what in (("bad", "an entry that could not be read is given"), ("other", "a file without the ending is given"),
                      ("nofile", "something that is not a file is given"), ("outside", "something outside of the base directory is given")):
        R.check(bad not in said, run, p, what, ev)
    R.check("read" in said, run, p, "an entry that could not be read is given", ev)
    if "ends" not in said:
        o = [x for x in odd if x[0] not in ("fs:exists",)]
        if any(x[0] in ("lossy", "path", "phi", "sym") or opaque(x[2][1]) for x in o):
            R.doubt(run.name, "how the ending is recognised is not followed")
        else:
            R.check(False, run, p, "the ending of the name is not what decides" + (f", but {brief(o[-1][2][1], 60)}" if o else ""), ev)
    R.check("file" in said, run, p, "something that is not a file is given", ev)
    doc = ev.a[2][-1]
    if doc.k != "adt":
        R.doubt(run.name, "what is given is not followed")
        return
    best, why = None, None
    repo_ok = False
    for f in doc.a[2]:
        f = untyped(norm(f))
        if plain(f, repo):
            repo_ok = True
            continue
        if f.k == "adt":
            continue
        try:
            ent, rel, bare = pathway(f, repo, places, loops)
            best = (ent, rel, bare, f)
        except Wrong as x:
            why = ("wrong", str(x), f)
        except Odd as x:
            why = why or ("odd", str(x), f)
    R.check(repo_ok, run, p, "what is given is looked up in another repository", ev, (doc,))
    if best is None:
        if why is None or why[0] == "odd":
            R.doubt(run.name, "the id given is not followed" + (": " + why[1] if why else ""))
        else:
            R.check(False, run, p, why[1], ev)
        return
    ent, rel, bare, f = best
    R.check(ent.k == "fld" and untyped(ent.a[0]) is el or ent is el, run, p, "the id is of another entry", ev)
    R.check(rel, run, p, "the id is not relative to the base directory", ev)
    R.check(bare, run, p, "the id still has the ending", ev)
    R.check("inside" in said, run, p, "a path outside of the base directory is not handled", ev)


# ---- commands ----------------------------------------------------------------------------------


OPAQUE = {"plotline::schema::ops::save::Save::execute": "save", "plotline::schema::ops::delete::Delete::execute": "delete"}
WRITE = ("Write::write_fmt", "Write::write_all", "Write::write")


def inner(e, ty, want):
    """Index of the only field of a structure whose type satisfies want."""
    fs = e.ty(ty)["variants"][0]["fields"]
    ok = [i for i, (n, t) in enumerate(fs) if want(t)]
    return ok[0] if len(ok) == 1 else None


def is_option_text(e, t):
    d = e.ty(t)
    return e.head(t) == "core::option::Option" and d["args"] and e.head(d["args"][-1]) == "alloc::string::String"


def command(run):
    """Places of a command: (id, subcommand, its variants by name)."""
    e = run.e
    ty = e.tyof(run.args[1])
    i = inner(e, ty, lambda t: is_option_text(e, t))
    j = inner(e, ty, lambda t: e.ty(t)["k"] == "enum" and e.head(t).startswith("plotline_cli"))
    if i is None or j is None:
        return None
    sub = e.ty(ty)["variants"][0]["fields"][j][1]
    names = {v["name"].lower(): n for n, v in enumerate(e.ty(sub)["variants"])}
    return mk("fld", run.args[1], 0, i, None), mk("fld", run.args[1], 0, j, None), names


def variant_at(p, t):
    t = untyped(t)
    for k, v in p.st.facts.items():
        if k[0] == "var" and untyped(k[1]) is t:
            return v
    return None


def opened(t):
    """The term without the references it is reached through."""
    t = untyped(norm(t))
    while t.k in ("pt", "drf"):
        t = t.a[2] if t.k == "pt" else t.a[0]
    return t


def failed(v):
    return v.k == "adt" and v.a[1] == 1


def succeeded(v):
    return v.k == "adt" and v.a[1] == 0


def writes(p):
    for x in p.events:
        if x.k == "ext" and any(x.a[0].endswith(w) for w in WRITE):
            yield x


def c20(R):
    R.inductive = True
    R.rule("On every path of a delete or save command: without an id an error is returned, with no operation executed and nothing of the schema changed; with one, exactly "
           "one delete, or one save of a document of that id with the content given, is executed in a transaction of the command line's schema and its failure returned. "
           "The program returns what the command returns. On every path of a listing: no operation, every node gone through, its id written once and the failure of each write returned. No step panics.")
    program(R)
    run = R.run("cli_execute", opaque=OPAQUE)
    if not run.paths:
        return
    cmd = command(run)
    if cmd is None:
        R.doubt(run.name, "the command's fields are not recognised")
        return
    idf, subf, names = cmd
    if set(names) != {"delete", "list", "save"}:
        R.doubt(run.name, f"commands not known: {sorted(names)}")
        return
    e = run.e
    d = e.ty(e.pointee(e.tyof(run.args[0])))
    fs = d["variants"][0]["fields"]
    place = {n: mk("fld", mk("drf", run.args[0], None), 0, i, None) for i, (n, t) in enumerate(fs)}
    by = {}
    for i, (n, t) in enumerate(fs):
        by["schema" if "schema::Schema" in e.ty(t)["s"] else "repo"] = mk("fld", mk("drf", run.args[0], None), 0, i, None)
    by["id"] = idf
    for p in run.paths:
        if not no_panic(R, run, p):
            continue
        pr = next((x for x in flat(p.events) if x.k == "ext" and x.a[0].endswith(("::_print", "::_eprint")) and "_eprint" not in x.a[0]), None)
        if pr is not None:
            R.check(False, run, p, "panics if the output cannot be written", pr)
            continue
        ops = [x for x in p.events if x.k == "client" and x.a[0].startswith("op ")]
        nested = [x for x in flat(p.events) if x.k == "client" and x.a[0].startswith("op ")]
        other = [x for x in flat(p.events) if x.k == "client" and not x.a[0].startswith("op ")]
        if p.kind != "ret":
            R.check(any(x.k == "unwind" for x in flat(p.events)), run, p, "unwinds by itself")
            if not any(x.k == "unwind" for x in p.events):
                continue
        v = variant_at(p, subf)
        sub = next((n for n, i in names.items() if i == v), None)
        given = variant_at(p, idf)
        changed = [x for x in flat(p.events) if x.k in ("mw", "sw") and not contained(x)]
        if sub is None:
            R.check(not nested and not changed, run, p, "something is done whatever the command", (nested + changed + [None])[0])
            if p.kind == "ret":
                R.check(False, run, p, "the answer does not depend on the command")
            continue
        if len(ops) != len(nested):
            R.check(False, run, p, "an operation is executed repeatedly", nested[0])
            continue
        if sub == "list":
            R.check(not ops, run, p, "a listing executes an operation", ops[0] if ops else None)
            R.check(not changed, run, p, "a listing changes the schema", changed[0] if changed else None)
            listing(R, run, p, by)
            continue
        want = {"delete": "op delete", "save": "op save"}[sub]
        if changed:
            R.doubt(run.name, "the schema is changed by other means than its operations")
            continue
        if given is None and any(isinstance(k[1], T) and any(untyped(x) is untyped(idf) for x in subterms(k[1])) for k in p.st.facts if len(k) > 1):
            R.doubt(run.name, "how the id is looked at is not followed")
            continue
        if given == 0 or given is None:
            R.check(not ops, run, p, "an operation is executed without an id", ops[0] if ops else None)
            if p.kind == "ret" and given == 0:
                R.check(failed(p.value), run, p, "a missing id is not reported", None, (p.value,) if not succeeded(p.value) else ())
            elif p.kind == "ret":
                R.check(False, run, p, "whether there is an id is not looked at", None)
            continue
        if not ops:
            if p.kind == "ret":
                why = [k for k in p.st.facts if k[0] in ("var", "val") and not any(untyped(k[1]) is untyped(t) for t in (idf, subf)) and opaque(k[1])]
                if why and failed(p.value):
                    R.doubt(run.name, f"gives up for a reason not followed: {brief(why[0][1], 60)}")
                else:
                    R.check(False, run, p, f"a {sub} with an id is not executed")
            continue
        R.check(len(ops) == 1, run, p, "more than one operation is executed", ops[-1])
        ev = ops[0]
        R.check(ev.a[0] == want, run, p, f"another operation than a {sub} is executed", ev)
        subject(R, run, p, ev, sub, idf, subf, names, by)
        res = ev.a[3]
        if p.kind == "ret":
            x = variant_of(p, res)
            if x is None:
                if same_term(p.value, res):
                    R.check(True, run, p, "returned")
                else:
                    R.check(False, run, p, "a failure of the operation is not returned", ev)
            else:
                R.check(failed(p.value) if x == 1 else succeeded(p.value), run, p,
                        "a failure of the operation is not returned" if x == 1 else "a failure is reported although the operation succeeded", ev)


def program(R):
    """The program ends with failure if the command fails."""
    run = R.run("main", opaque={"plotline_cli::document::DocumentCli::execute": "execute"})
    for p in run.paths:
        bad = next((x for x in flat(p.events) if x.k in ("panic", "abort")), None)
        if not R.check(bad is None, run, p, "the program panics by itself", bad):
            continue
        ops = [x for x in flat(p.events) if x.k == "client" and x.a[0] == "op execute"]
        gone = [x for x in flat(p.events) if x.k == "exit"]
        if p.kind != "ret" and not gone:
            R.check(any(x.k == "unwind" for x in flat(p.events)), run, p, "unwinds by itself")
            continue
        if not ops:
            if any(opaque(k[1]) for k in p.st.facts if k[0] in ("var", "val") and not contains(k[1], mk("op", "walk", (), None))) or gone:
                R.doubt(run.name, "the program ends for a reason not followed")
            else:
                R.check(False, run, p, "the command is not executed")
            continue
        R.check(len(ops) == 1, run, p, "the command is executed more than once", ops[-1])
        x = variant_of(p, ops[0].a[3])
        if gone:
            code = gone[0].a[1][0] if gone[0].a[1] else None
            if x is None or "exit" not in gone[0].a[0] or code is None or code.k != "int":
                R.doubt(run.name, "how the program ends is not followed")
            else:
                R.check((code.a[0] == 0) == (x == 0), run, p, "a failure of the command does not reach the end of the program" if x == 1
                        else "the program fails although the command succeeded", gone[0])
            continue
        v = p.value
        if x is None:
            R.check(same_term(v, ops[0].a[3]), run, p, "a failure of the command does not reach the end of the program", ops[0],
                    (v,) if v is not UNIT and any(untyped(t) is untyped(ops[0].a[3]) for t in subterms(v)) else ())
        elif v.k == "adt" and run.e.head(v.a[0]) == "core::result::Result":
            R.check(failed(v) if x == 1 else succeeded(v), run, p, "a failure of the command does not reach the end of the program" if x == 1
                    else "the program fails although the command succeeded", ops[0])
        elif v.k == "op" and v.a[0] == "const" and str(v.a[1][0]).endswith(("ExitCode::SUCCESS", "ExitCode::FAILURE")):
            R.check(v.a[1][0].endswith("FAILURE" if x == 1 else "SUCCESS"), run, p, "a failure of the command does not reach the end of the program" if x == 1
                    else "the program fails although the command succeeded", ops[0])
        elif x == 1 and v is UNIT:
            R.check(False, run, p, "a failure of the command does not reach the end of the program", ops[0])
        elif v is not UNIT:
            R.doubt(run.name, "how the program ends is not followed")


def contained(ev):
    """A change to something the path made itself."""
    a = ev.a[0]
    return a.k == "at" and a.a[0].k in ("heap", "loc")


def spread(x):
    """The fields of a value; those of a tuple or a structure that keeps nothing for later stand for it."""
    for f in x.a[2] if x.k == "adt" else x.a[0]:
        if f.k == "tup" or f.k == "adt" and f.a[2] and not any(t.k == "set" or t is UNSET for t in subterms(f)):
            yield from spread(f)
        else:
            yield f


def subject(R, run, p, ev, sub, idf, subf, names, by):
    """What the operation is about, and where it takes place."""
    what, tx = ev.a[2][0], ev.a[2][-1]
    given = untyped(mk("fld", idf, 1, 0, None))
    seen = any(plain(opened(t), by["schema"]) for t in subterms(tx) if t.k in ("fld", "drf"))
    if not seen and opaque(tx):
        R.doubt(run.name, "the transaction of the operation is not followed")
    else:
        R.check(seen, run, p, "the operation does not take place in the command line's schema", ev)
    if what.k != "adt" or len(what.a[2]) != 1:
        R.doubt(run.name, "what the operation is about is not followed")
        return
    x = what.a[2][0]
    if sub == "delete":
        about(R, run, p, ev, opened(x), given, "another node than the one given is deleted")
        return
    if x.k != "adt":
        R.doubt(run.name, "the document saved is not followed")
        return
    repo_ok, ids, docs = False, [], []
    for f in spread(x):
        g = opened(f)
        if plain(g, by["repo"]):
            repo_ok = True
        elif f.k == "adt":
            docs += [t.a[0] for t in subterms(f) if t.k == "set"]
            docs += [None for t in subterms(f) if t is UNSET]
        else:
            ids.append(g)
    R.check(repo_ok, run, p, "the document saved belongs to another repository", ev, (x,))
    if len(ids) != 1 or len(docs) != 1:
        R.doubt(run.name, "the document saved is not followed")
        return
    doc = docs[0]
    if not R.check(doc is not None, run, p, "the content given is not saved", ev):
        return
    if doc.k != "adt":
        R.doubt(run.name, "the document saved is not followed")
        return
    e = run.e
    for (n, t), f in zip(e.ty(doc.a[0])["variants"][0]["fields"], doc.a[2]):
        if e.head(t) == "std::path::PathBuf":
            about(R, run, p, ev, opened(f), given, "the document saved has another id")
            i = ids[0]
            ok = i is given or i is untyped(mk("op", "id", (doc,), None)) or any(untyped(y) is untyped(doc) for y in subterms(i))
            if not ok:
                about(R, run, p, ev, i, given, "the document is saved under another id")
        else:
            sty = e.ty(e.tyof(run.args[1]))["variants"][0]["fields"]
            cf = mk("fld", mk("fld", subf, names["save"], 0, None), 0, 0, None)
            v = variant_at(p, cf)
            if v is None:
                v = variant_at(p, mk("fld", subf, names["save"], 0, None))
                cf = mk("fld", subf, names["save"], 0, None)
            g = opened(f)
            if v == 1:
                about(R, run, p, ev, g, untyped(mk("fld", cf, 1, 0, None)), "another content than the one given is saved")
            elif v == 0:
                R.check(g.k == "seq" and not g.a[0] or g.k == "str" and g.a[0] == "" or g.k == "arr" and not g.a[0], run, p,
                        f"a content is made up: {brief(g, 40)}", ev, (g,))
            elif not any(untyped(t) is untyped(cf) for t in subterms(g)):
                R.check(False, run, p, "the content given is not saved", ev, (g,))
            else:
                R.doubt(run.name, "the content saved is not followed")


def about(R, run, p, ev, got, want, what):
    R.obligations += 1
    if got is want:
        return
    if opaque(got):
        R.doubt(run.name, what + f" (undetermined: {brief(got, 60)})")
        return
    R.violations.append((run.name, f"{what}: {brief(got, 60)}", p, ev))


def listing(R, run, p, by):
    if p.kind != "ret":
        return
    from ..text import template
    # every failure of a write on this path is returned
    for ev in p.events:
        if ev.k != "ext":
            continue
        n = ev.a[0]
        if any(n.endswith(w) for w in WRITE) or n.endswith("::flush"):
            v = variant_of(p, ev.a[3])
            if v == 1:
                R.check(failed(p.value), run, p, "a failure of the output is not returned", ev)
                return
            R.check(v == 0 or same_term(p.value, ev.a[3]), run, p, "a failure of the output is not returned", ev)
    if failed(p.value):
        # no write failed
        exts = [x for x in flat(p.events) if x.k == "ext"]
        idf = next((k for k, v in p.st.facts.items() if k[0] == "var" and any(untyped(x) is untyped(by["id"]) for x in subterms(k[1]))), None)
        R.check(idf is None, run, p, "a listing requires an id")
        bad = any(k[0] == "var" and v == 1 and any(t.k == "op" and t.a[0] == "ext" or any(t is x.a[3] for x in exts) for t in subterms(k[1])) for k, v in p.st.facts.items()) \
            or any(same_term(p.value, x.a[3]) for x in exts)
        if not bad:
            R.check(False, run, p, "a listing fails by itself")
        return
    lps = [x for x in p.events if x.k == "loop" and any(y.k == "from" for y in x.a[2])]
    wl = [x for x in lps if any(any(z.k == "ext" and any(z.a[0].endswith(w) for w in WRITE) for z in flat(c.a[1])) for c in x.a[1])]
    if not wl:
        more = [(k, v) for k, v in p.st.facts.items() if k[0] in ("more", "empty")]
        said = [x for x in flat(p.events) if x.k == "rec" or x.k == "ext" and not x.a[0].endswith(("::stdout", "::lock"))]
        if lps and not said and succeeded(p.value):
            R.check(any(v is False for k, v in more), run, p, "nothing to list")
            fed = [c for x in lps for c in x.a[1] if any(u.k == "took" for u in c.a[2])]
            R.check(not fed or any(x.k == "loop" and any(u.k == "upd" for u in c.a[2]) for x in lps for c in x.a[1]), run, p, "the nodes are not listed")
        elif lps or [x for x in p.events if x.k in ("loop", "rec")]:
            R.doubt(run.name, "the listing is not followed")
        elif any(k[0] == "more" and v is False for k, v in more) or failed(p.value):
            R.check(True, run, p, "nothing to list")
        else:
            R.check(False, run, p, "the nodes are not listed")
        return
    lp = wl[0]
    frm = [y for y in lp.a[2] if y.k == "from"]
    src = next((y for y in frm if y.a[0].k == "op" and y.a[0].a[0] in ("entries", "keys", "values") and any(plain(opened(t), by["schema"]) for t in subterms(y.a[0]) if t.k in ("fld", "drf"))), None)
    if src is None:
        if opaque(lp.a[2]):
            R.doubt(run.name, "what is listed is not followed")
        else:
            R.check(False, run, p, "what is listed is not the schema's nodes", lp)
        return
    s = src.a[0]
    R.check(src.a[2].k == "s" and src.a[2].a[0] is s, run, p, "not every node is listed", lp)
    if succeeded(p.value):
        left = [v for k, v in p.st.facts.items() if k[0] == "more" and k[1] is s]
        R.check(bool(left) and left[-1] is False, run, p, "stops before every node has been listed", lp)
    for c in lp.a[1]:
        tk = [u for u in c.a[2] if u.k == "took" and u.a[0] is s]
        if not R.check(len(tk) == 1 and tk[0].a[2] == 1, run, p, "not each node is listed by itself", lp):
            continue
        ws = [x for x in flat(c.a[1]) if x.k == "ext" and any(x.a[0].endswith(w) for w in WRITE)]
        n = 0
        last = ""
        for w in ws:
            ok = variant_fact(c.a[0], w.a[3])
            if ok == 1:
                R.check(False, run, p, "goes on although the output could not be written", w)
            elif ok is None:
                R.check(False, run, p, "a failure of the output is not returned", w)
            if not w.a[0].endswith("write_fmt"):
                R.doubt(run.name, f"what is written is not followed: {w.a[0]}")
                n = None
                break
            t = template(run.e, w.a[2][1])
            if t is None:
                R.doubt(run.name, "what is written is not followed")
                n = None
                break
            for x in cats(t):
                last = x.a[0] if x.k == "str" else ""
                if x.k == "str":
                    continue
                y = x
                while y.k == "op" and y.a[0] in ("fmt:debug", "fmt:display", "text:lossy", "fmt:padded"):
                    y = opened(y.a[1][0])
                el = next((untyped(z) for z in subterms(y) if z.k == "elt" and untyped(z.a[0]) is untyped(s)), None)
                if el is not None and plain(y, el):
                    n += 1
                elif el is not None:
                    R.doubt(run.name, f"what is written is not followed: {brief(y, 60)}")
        if n is None:
            continue
        R.check(n == 1, run, p, "the id of a node is not written" if n == 0 else "the id of a node is written more than once", ws[0] if ws else lp)
        fl = any(x.k == "ext" and x.a[0].endswith("::flush") for x in list(p.events) + list(c.a[1]))
        buf = any(x.k == "ext" and "BufWriter" in x.a[0] and x.a[0].endswith(("::new", "::with_capacity")) for x in p.events)
        R.check(fl or not buf and "\n" in last, run, p, "what is written may stay in a buffer, its failure unnoticed", ws[0] if ws else lp)


def variant_fact(facts, t):
    t = untyped(t)
    for k, v in facts:
        if k[0] == "var" and untyped(k[1]) is t:
            return v
    return None
