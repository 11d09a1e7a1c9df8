"""What the library functions the analysed crates use do, on the abstract domain.

Collections are kept as sequences of segments and as maps with a known suffix of updates; locks,
write-once cells and reference counts are tracked exactly.  A function without a model is an opaque
event, so that nothing it could do goes unnoticed by a rule that depends on it.
"""
from .terms import *
from .model import strip_generics
from .engine import Call, Undecided, Infeasible, Fork, OPREL, FULL, SYM_CONT, seqof, unreversed, unsub, bare, ZERO, backwards

INH = {}
TR = {}


def inh(*names):
    def d(f):
        for n in names:
            INH[n] = f
        return f
    return d


def tr(name, *heads):
    def d(f):
        for h in heads or (None,):
            TR[(name, h)] = f
        return f
    return d


VEC = "alloc::vec::Vec"
DEQ = "alloc::collections::vec_deque::VecDeque"
MAPS = ("alloc::collections::btree::map::BTreeMap", "std::collections::hash::map::HashMap")
SETS = ("alloc::collections::btree::set::BTreeSet", "std::collections::hash::set::HashSet")
ARC = "alloc::rcs::arc::Arc"
RC = "alloc::rcs::rc::Rc"
RWLOCK = "std::sync::poison::rwlock::RwLock"
MUTEX = "std::sync::poison::mutex::Mutex"
ONCE = "std::sync::once_lock::OnceLock"
ONCEC = "core::cell::once::OnceCell"
GUARDS = ("std::sync::poison::rwlock::RwLockReadGuard", "std::sync::poison::rwlock::RwLockWriteGuard",
          "std::sync::poison::mutex::MutexGuard", "std::sync::poison::rwlock::MappedRwLockReadGuard",
          "std::sync::poison::rwlock::MappedRwLockWriteGuard", "core::cell::Ref", "core::cell::RefMut")
STRS = ("alloc::string::String", "std::path::PathBuf", "std::ffi::os_str::OsString")
ITER = "core::iter::traits::iterator::Iterator::"
DEI = "core::iter::traits::double_ended::DoubleEndedIterator::"
PURE_TRAITS = ("core::hash::", "core::fmt::", "core::default::", "alloc::string::ToString", "core::convert::AsRef",
               "core::borrow::Borrow", "alloc::borrow::ToOwned", "core::any::")


class Models:
    def lookup(self, e, c):
        d = c["def"]
        if "trait" in c and c.get("args"):
            a0 = c["args"][0]
            if a0 is not None:
                h = self.head(e, a0)
                f = TR.get((d, h)) or TR.get((d, None))
            else:
                f = TR.get((d, None))
            if f is not None:
                return f
        s = strip_generics(d)
        f = INH.get(s)
        if f is None and c.get("rdef"):
            f = INH.get(strip_generics(c["rdef"]))
        if f is None:
            for p, g in PREFIX:
                if s.startswith(p):
                    return g
        return f

    def head(self, e, ty):
        t = e.ty(ty)
        if t["k"] == "ref":
            return "&" + e.head(t["t"])
        return e.head(ty)

    # ---- maps --------------------------------------------------------------------------------

    def map_put(self, e, t, key, val):
        return map_ins(e, t, key, val)

    def seq_len(self, e, st, t, ptr):
        return seq_len(e, st, t)

    def segs_of(self, e, t):
        return segs_of(e, t)

    def release(self, e, st, g):
        release(e, st, g)


PREFIX = []

# ---- helpers ---------------------------------------------------------------------------------


def some(c, v):
    return mk("adt", c.retty, 1, (v,))


def none(c):
    return mk("adt", c.retty, 0, ())


def okv(c, v):
    return mk("adt", c.retty, 0, (v,))


def errv(c, v):
    return mk("adt", c.retty, 1, (v,))


def ptr(e, st, v):
    """(cell, proj) of a pointer."""
    return e.deref(st, v)


def ref(cell, proj, mut):
    return mk("ref", cell, proj, mut)


def unwinding(c, what):
    c.st.event(mk("panic", what, c.e.where(c.fr)))
    c.st.unwinding = True
    return [("unwind", None, c.st)]


def variant_field_ty(e, ty, v, i=0):
    try:
        return e.fields(ty, v)[i]
    except (Undecided, IndexError, KeyError):
        return None


def inner_callee(e, c, name):
    """The callee `name` (a trait method path) called from the body of c's instance."""
    i = c.get("inst")
    x = e.P.insts[i] if i is not None else None
    if not x or "body" not in x:
        return None
    for ss, t, cl in x["body"]["blocks"]:
        if t["t"] == "call" and "f" in t:
            k = e.types[t["f"]]["callee"]
            if k["def"] == name:
                return k, t["dty"]
    return None


def load(c, n=0):
    return c.e.load(c.st, c.args[n])


def loc(c, n=0):
    return c.e.deref(c.st, c.args[n])


def typed_load(c, n=0):
    v = load(c, n)
    ty = c.atys[n]
    if ty is not None:
        v = c.e.typed(v, c.e.pointee(ty))
    return v


# ---- equality and order ----------------------------------------------------------------------


def peel(e, st, v, ty):
    """Follows references down to the compared values."""
    n = 0
    while ty is not None and e.ty(ty)["k"] == "ref" and n < 5:
        v = e.load(st, v)
        ty = e.pointee(ty)
        n += 1
    return e.typed(v, ty)


def content_term(e, st, v, ty=None):
    """A string-like value as a term independent of how it is held."""
    v = peel(e, st, v, ty) if ty is not None else v
    return v


def compared(c):
    e, st = c.e, c.st
    a = e.typed(e.load(st, c.args[0]), e.pointee(c.atys[0]) if c.atys[0] is not None else None)
    b = e.typed(e.load(st, c.args[1]), e.pointee(c.atys[1]) if c.atys[1] is not None else None)
    return deepval(e, st, a), deepval(e, st, b)


def deepval(e, st, v):
    """The value with owned boxes and references looked through."""
    n = 0
    while v.k in ("ref", "box", "arc") and n < 6:
        v = e.load(st, v)
        n += 1
    return v


def cmpmodel(op):
    def f(c):
        k = c.c.get("kind")
        h = c.e.head(c.c["args"][0]) if c.c["args"][0] is not None else ""
        if k != "unresolved" and not h.startswith(OPAQUE_EQ) and h not in ("prim", "bool", "str") and not plain_array(c):
            return None
        a, b = compared(c)
        if a.k == "bstr" or b.k == "bstr" or a.k == "seq" or b.k == "seq":
            if a is b:
                r = mk("cmp", "Eq", a, b)
                return {"Eq": TRUE, "Ne": FALSE}.get(op) or mk("op", "cmp" + op, (a, b), c.retty)
        return c.e.binop(c.st, op, a, b)
    return f


OPAQUE_EQ = ("alloc::", "std::", "core::any::TypeId", "core::str")
for _m, _o in (("eq", "Eq"), ("ne", "Ne")):
    TR[("core::cmp::PartialEq::" + _m, None)] = cmpmodel(_o)
for _m, _o in (("lt", "Lt"), ("le", "Le"), ("gt", "Gt"), ("ge", "Ge")):
    TR[("core::cmp::PartialOrd::" + _m, None)] = cmpmodel(_o)


def prim_like(c):
    h = c.e.head(c.c["args"][0]) if c.c["args"][0] is not None else ""
    return c.c.get("kind") == "unresolved" or h.startswith(OPAQUE_EQ) or h in ("prim", "bool", "str") or plain_array(c)


def plain_array(c):
    """Arrays and slices of a type the code is generic over."""
    ty = c.c["args"][0]
    if ty is None or c.e.head(ty) not in ("array", "slice"):
        return False
    return c.e.ty(c.e.ty(ty)["t"])["k"] == "param"


@tr("core::cmp::Ord::cmp")
def m_cmp(c):
    if not prim_like(c):
        return None
    a, b = compared(c)
    return mk("ord", a, b, c.retty)


@tr("core::cmp::PartialOrd::partial_cmp")
def m_pcmp(c):
    if not prim_like(c):
        return None
    a, b = compared(c)
    return some(c, mk("ord", a, b, variant_field_ty(c.e, c.retty, 1)))


@tr("core::cmp::Ord::max")
def m_max(c):
    if not prim_like(c):
        return None
    a, b = c.args
    # max returns the second argument if they are equal
    return a if c.e.decide_rel(c.st, a, b, OPREL["Gt"]) else b


@tr("core::cmp::Ord::min")
def m_min(c):
    if not prim_like(c):
        return None
    a, b = c.args
    return b if c.e.decide_rel(c.st, a, b, OPREL["Gt"]) else a


@tr("core::cmp::Ord::clamp")
def m_clamp(c):
    if not prim_like(c):
        return None
    v, lo, hi = c.args
    if c.e.decide_rel(c.st, lo, hi, OPREL["Gt"]):
        return None
    if c.e.decide_rel(c.st, v, lo, OPREL["Lt"]):
        return lo
    return hi if c.e.decide_rel(c.st, v, hi, OPREL["Gt"]) else v


@inh("core::cmp::max")
def m_cmax(c):
    return None


@inh("core::intrinsics::size_of_val", "core::mem::size_of_val", "core::intrinsics::align_of_val", "core::mem::align_of_val")
def m_sizeof(c):
    # only decides whether there is memory to give back
    return mk("int", 8)


@inh("core::intrinsics::discriminant_value")
def m_discr(c):
    v = typed_load(c)
    if v.k == "adt":
        return mk("int", c.e.ty(v.a[0])["variants"][v.a[1]]["discr"])
    if v is NOISE:
        return NOISE
    return mk("discr", v)


@inh("core::ptr::eq", "core::ptr::addr_eq", "alloc::rcs::arc::Arc::ptr_eq", "alloc::rcs::rc::Rc::ptr_eq")
def m_ptreq(c):
    xs = []
    for n in (0, 1):
        v = c.args[n]
        if strip_generics(c.c["def"]).endswith("ptr_eq"):
            v = load(c, n)
        xs.append(ptrid(c.e, c.st, v))
    a, b = xs
    if a is b:
        return TRUE
    return mk("cmp", "Eq", *(xs if a.id < b.id else xs[::-1]))


def ptrid(e, st, v):
    cell, proj = e.deref(st, v)
    return mk("at", cell, proj)


# ---- identity-like ---------------------------------------------------------------------------


@inh("core::hint::must_use", "core::hint::black_box", "core::convert::identity", "core::mem::ManuallyDrop::into_inner",
     "core::mem::manually_drop::ManuallyDrop::new", "core::mem::manually_drop::ManuallyDrop::into_inner")
def m_id(c):
    return c.args[0]


def clone_of(e, st, v, c):
    return v


@tr("core::clone::Clone::clone")
def m_clone(c):
    k = c.c.get("kind")
    h = c.e.head(c.c["args"][0]) if c.c["args"][0] is not None else ""
    if k == "unresolved" or k == "clone_shim":
        return typed_load(c)
    if h in (ARC, RC):
        return typed_load(c)
    if h in (VEC, DEQ) or h in MAPS or h in STRS or h in SETS or h in ("regex::regex::string::Regex", "core::any::TypeId"):
        return typed_load(c)
    if h in (ONCE, ONCEC):
        return typed_load(c)
    if h == "alloc::boxed::Box":
        v = typed_load(c)
        if v.k == "box":
            x = c.e.read(c.st, v.a[0], ())
            cell = c.e.alloc(c.st, c.fr.fid, c.tag + ("boxclone",), x)
            vt = c.st.mem.get(mk("vt", v.a[0], ()))
            if vt is not None:
                c.st.mem[mk("vt", cell, ())] = vt
            return mk("box", cell)
        return v
    return None


@tr("core::clone::Clone::clone_from")
def m_clonefrom(c):
    if c.c.get("kind") == "unresolved":
        c.e.store(c.st, c.args[0], load(c, 1))
        return UNIT
    return None


@tr("alloc::borrow::ToOwned::to_owned")
def m_toowned(c):
    h = c.e.head(c.c["args"][0]) if c.c["args"][0] is not None else ""
    if h in ("std::path::Path", "std::ffi::os_str::OsStr", "str", "slice") or c.c.get("kind") == "unresolved":
        return deepval(c.e, c.st, load(c))
    v = load(c)
    return v if v.k in SYMLIKE else None


@tr("plotline::id::Identify::id")
def m_ident(c):
    if c.c.get("kind") != "unresolved":
        return None
    v = typed_load(c)
    if v is MOVED:
        raise Undecided("id of a moved value")
    idt = mk("op", "id", (v,), c.e.pointee(c.retty) if c.retty is not None else None)
    return ref(mk("idof", v, idt), (), False)


# ---- memory ----------------------------------------------------------------------------------


@inh("core::mem::replace")
def m_replace(c):
    old = typed_load(c)
    c.e.put(c.st, *c.e.deref(c.st, c.args[0]), c.args[1])
    return old


@inh("core::mem::take")
def m_take(c):
    k = inner_callee(c.e, c.c, "core::default::Default::default")
    if k is None:
        return None
    old = typed_load(c)
    outs = []
    for o in c.e.call_fn(c.st, k[0], [], [], k[1], c.fr, c.tag + ("take",)):
        if o[0] == "ret":
            c.e.put(o[2], *c.e.deref(o[2], c.args[0]), o[1])
            outs.append(("ret", old, o[2]))
        else:
            outs.append(o)
    return outs


@inh("core::mem::swap")
def m_swap(c):
    a, b = typed_load(c, 0), typed_load(c, 1)
    c.e.put(c.st, *c.e.deref(c.st, c.args[0]), b)
    c.e.put(c.st, *c.e.deref(c.st, c.args[1]), a)
    return UNIT


@inh("core::mem::forget")
def m_forget(c):
    c.st.event(mk("forget", c.args[0]))
    return UNIT


@inh("core::ptr::read", "core::ptr::const_ptr::<impl *const T>::read")
def m_ptrread(c):
    return typed_load(c)


@inh("core::ptr::write", "core::ptr::mut_ptr::<impl *mut T>::write")
def m_ptrwrite(c):
    c.e.store(c.st, c.args[0], c.args[1])
    return UNIT


@inh("core::fmt::Arguments::from_str", "core::fmt::Arguments::new", "core::fmt::Arguments::new_const",
     "core::fmt::Arguments::new_v1", "core::fmt::rt::Argument::new_debug", "core::fmt::rt::Argument::new_display",
     "core::fmt::Arguments::as_str", "core::fmt::rt::Argument::none")
def m_fmt(c):
    return mk("op", "fmt:" + c.c["name"], tuple(c.e.deep(c.st, a) for a in c.args), c.retty)


@inh("alloc::boxed::Box::new", "alloc::boxed::Box::pin")
def m_boxnew(c):
    ty = c.c["args"][0] if c.c.get("args") else None
    return mk("box", c.e.alloc(c.st, c.fr.fid, c.tag + ("box",), c.args[0], ty))


@tr("core::convert::From::from", "alloc::boxed::Box")
def m_boxfrom(c):
    a = c.e.ty(c.c["args"][1])["k"] if len(c.c["args"]) > 1 and c.c["args"][1] is not None else ""
    rt = c.e.ty(c.retty)
    if rt.get("args") and rt["args"][0] == (c.c["args"][1] if len(c.c["args"]) > 1 else None):
        return mk("box", c.e.alloc(c.st, c.fr.fid, c.tag + ("box",), c.args[0], c.c["args"][1]))
    return None


@inh("alloc::boxed::Box::new_uninit", "alloc::boxed::box_new_uninit")
def m_boxuninit(c):
    return mk("box", c.e.alloc(c.st, c.fr.fid, c.tag + ("box",), MOVED))


@inh("alloc::boxed::box_assume_init_into_vec_unsafe", "alloc::slice::<impl [T]>::into_vec", "alloc::slice::into_vec")
def m_boxvec(c):
    b = c.args[0]
    v = c.e.load(c.st, b)
    return mk("seq", segs_of(c.e, v))


@inh("alloc::boxed::Box::into_inner")
def m_boxinto(c):
    return c.e.load(c.st, c.args[0])


@inh("alloc::boxed::Box::leak", "alloc::boxed::Box::into_raw")
def m_boxleak(c):
    cell, p = c.e.deref(c.st, c.args[0])
    return ref(cell, p, True)


@tr("core::ops::deref::Deref::deref")
def m_deref(c):
    return deref_model(c, False)


@tr("core::ops::deref::DerefMut::deref_mut")
def m_derefmut(c):
    return deref_model(c, True)


def deref_model(c, mut):
    e, st = c.e, c.st
    h = e.head(c.c["args"][0]) if c.c["args"][0] is not None else ""
    if h in (VEC, DEQ) or h in STRS:
        cell, proj = loc(c)
        return ref(cell, proj, mut)
    if h in GUARDS:
        v = typed_load(c)
        if v.k == "guard":
            return ref(v.a[1], v.a[2] + (("f", 0, 0),), mut)
        return mk("op", "guarded", (v,), c.retty)
    if h in (ARC, RC, "alloc::boxed::Box"):
        v = typed_load(c)
        cell, proj = e.deref(st, v)
        return ref(cell, proj, mut)
    if h == "std::sync::lazy_lock::LazyLock":
        return mk("op", "lazylock", (deepval(e, st, c.args[0]),), c.retty)
    return None


@tr("core::convert::AsRef::as_ref")
def m_asref(c):
    h = c.e.head(c.c["args"][0]) if c.c["args"][0] is not None else ""
    if h in STRS or h in ("std::path::Path", "std::ffi::os_str::OsStr", "str", VEC, "slice"):
        cell, proj = loc(c)
        return ref(cell, proj, False)
    if h in (ARC, RC, "alloc::boxed::Box"):
        return deref_model(c, False)
    return None


@tr("core::borrow::Borrow::borrow")
def m_borrow(c):
    h = c.e.head(c.c["args"][0]) if c.c["args"][0] is not None else ""
    if h in STRS or h == VEC:
        cell, proj = loc(c)
        return ref(cell, proj, False)
    return None


@inh("std::path::PathBuf::as_path", "alloc::string::String::as_str", "std::path::Path::as_os_str",
     "std::ffi::os_str::OsString::as_os_str", "std::path::PathBuf::as_os_str", "std::path::Path::new",
     "std::ffi::os_str::OsStr::new", "core::array::<impl [T; N]>::as_slice", "core::array::as_slice", "core::array::<impl [T; N]>::as_mut_slice", "core::array::as_mut_slice", "alloc::vec::Vec::as_slice", "alloc::vec::Vec::as_mut_slice",
     "core::str::<impl str>::as_bytes", "core::str::as_bytes", "alloc::string::String::as_bytes",
     "std::ffi::os_str::OsStr::as_encoded_bytes")
def m_ptrid(c):
    v = c.args[0]
    if v.k in ("ref",):
        return v
    cell, proj = loc(c)
    return ref(cell, proj, False)


# ---- reference counting ----------------------------------------------------------------------


@inh(ARC + "::new", RC + "::new")
def m_arcnew(c):
    return mk("arc", c.e.alloc(c.st, c.fr.fid, c.tag + ("arc",), c.args[0]))


@tr("core::convert::From::from", ARC, RC)
def m_arcfrom(c):
    rt = c.e.ty(c.retty)
    if len(c.c["args"]) > 1 and rt.get("args") and rt["args"][0] == c.c["args"][1]:
        return m_arcnew(c)
    return None


@tr("core::default::Default::default", ARC, RC)
def m_arcdefault(c):
    k = inner_callee(c.e, c.c, "core::default::Default::default")
    if k is None:
        return None
    outs = []
    for o in c.e.call_fn(c.st, k[0], [], [], k[1], c.fr, c.tag + ("arcdef",)):
        if o[0] == "ret":
            outs.append(("ret", mk("arc", c.e.alloc(o[2], c.fr.fid, c.tag + ("arc",), o[1])), o[2]))
        else:
            outs.append(o)
    return outs


@tr("core::default::Default::default", "alloc::boxed::Box")
def m_boxdefault(c):
    k = inner_callee(c.e, c.c, "core::default::Default::default")
    if k is None:
        return None
    outs = []
    for o in c.e.call_fn(c.st, k[0], [], [], k[1], c.fr, c.tag + ("boxdef",)):
        if o[0] == "ret":
            outs.append(("ret", mk("box", c.e.alloc(o[2], c.fr.fid, c.tag + ("box",), o[1])), o[2]))
        else:
            outs.append(o)
    return outs


def unique(c, v):
    """Is this the only handle?"""
    e, st = c.e, c.st
    if v.k != "arc":
        return e.decide(st, ("unique", v, st.epoch), [True, False])
    n = 0
    for cell, x in st.mem.items():
        if x.k in ("int", "bool", "moved", "noise", "str"):
            continue
        if any(y is v for y in subterms(x)):
            n += 1
    if n > 0:
        return False
    if v.a[0] in st.escaped:
        return e.decide(st, ("unique", v, st.epoch), [True, False])
    return True


@inh(ARC + "::into_inner", RC + "::into_inner")
def m_arcinto(c):
    v = c.args[0]
    if unique(c, v):
        return some(c, c.e.load(c.st, v))
    return none(c)


@inh(ARC + "::try_unwrap", RC + "::try_unwrap")
def m_arctry(c):
    v = c.args[0]
    if unique(c, v):
        return okv(c, c.e.load(c.st, v))
    return errv(c, v)


@inh(ARC + "::unwrap_or_clone", RC + "::unwrap_or_clone")
def m_arcuoc(c):
    return c.e.load(c.st, c.args[0])


@inh(ARC + "::get_mut", RC + "::get_mut")
def m_arcgetmut(c):
    v = typed_load(c)
    e, st = c.e, c.st
    if v.k == "arc":
        cell, p = loc(c)
        n = 0
        for cl, x in st.mem.items():
            n += sum(1 for y in subterms(x) if y is v)
        u = n <= 1 and (v.a[0] not in st.escaped or e.decide(st, ("unique", v, st.epoch), [True, False]))
    else:
        u = e.decide(st, ("unique", v, st.epoch), [True, False])
    if u:
        cell, p = e.deref(st, v)
        return some(c, ref(cell, p, True))
    return none(c)


# ---- locks -----------------------------------------------------------------------------------


def lock_class(e, lockty):
    t = e.ty(lockty)
    if not t.get("args"):
        return "?"
    x = e.ty(t["args"][0])
    h = x.get("def") or x["k"]
    if h in (VEC, DEQ):
        return "log"
    if h == "alloc::boxed::Box" and e.ty(x["args"][0])["k"] == "dyn":
        return "resource"
    if h.startswith("plotline::graph") and h.endswith("Graph"):
        return "graph"
    if h in ("param", "alias") or h.endswith("::LazyDocument"):
        return "target"
    return h


def lock_ty(c):
    """The type of the lock behind argument 0."""
    ty = c.e.pointee(c.atys[0]) if c.atys[0] is not None else None
    v = load(c)
    t = c.e.tyof(v)
    return t if t is not None else ty


def is_poisoned(c, cell, proj, v, cls):
    e, st = c.e, c.st
    if ("poisoned", cell, proj) in st.poison:
        return True
    if ("clean", cell, proj) in st.poison:
        return False
    if e.poisonable is not None and cls not in e.poisonable:
        return False
    if v.k == "adt" and cell not in st.escaped and cell.k in ("heap", "loc"):
        return False
    for k, x in st.facts.items():
        if k[0] == "pz" and k[1] is cell and k[2] == proj and x:
            return True
    return e.decide(st, ("pz", cell, proj, st.epoch), [False, True])


def acquire(c, mode, shared=True):
    """Takes a lock; returns (guard, poisoned)."""
    e, st = c.e, c.st
    cell, proj = loc(c)
    lt = lock_ty(c)
    cls = lock_class(e, lt)
    v = e.read(st, cell, proj)
    for l in st.locks:
        if l.a[1] is cell and l.a[2] == proj:
            st.event(mk("deadlock", mode, l.a[0], cell, proj, e.where(c.fr), cls))
            if "W" in (mode, l.a[0]):
                e.exits.append(("deadlock", st.copy()))
                return None, False
    pz = is_poisoned(c, cell, proj, v, cls)
    # what other holders may have done since
    lk = mk("lkep", mk("at", cell, proj))
    last = st.mem.get(lk)
    inside = v.a[2][0] if v.k == "adt" else None
    if v.k != "adt" and not (cell.k in ("heap", "loc") and v.k == "op" and v.a[0] == "havoc"):
        held = any(l.a[1] is cell and l.a[2] == proj for l in st.locks)
        if not held and (last is None and st.epoch > 0 or last is not None and last.a[0] != st.epoch):
            cty = e.ty(lt)["args"][0]
            fresh = mk("op", "cont", (mk("at", cell, proj), st.epoch), cty)
            e.write(st, cell, proj, mk("adt", lt, 0, (fresh,)))
            inside = None
    elif v.k == "adt" and cell.k not in ("heap", "loc"):
        held = any(l.a[1] is cell and l.a[2] == proj for l in st.locks)
        if not held and last is not None and last.a[0] != st.epoch:
            cty = e.ty(lt)["args"][0]
            fresh = mk("op", "cont", (mk("at", cell, proj), st.epoch), cty)
            e.write(st, cell, proj, mk("adt", lt, 0, (fresh,)))
    st.mem[lk] = mk("int", st.epoch)
    gid = st.count(("guard",))
    g = mk("guard", mode, cell, proj, gid, cls)
    st.locks = st.locks + (mk("held", mode, cell, proj, gid, cls),)
    st.event(mk("acq", mode, cell, proj, gid, cls))
    e.acquired.add((mode, cls))
    return g, pz


def release(e, st, g):
    mode, cell, proj, gid, cls = g.a
    n = tuple(l for l in st.locks if not (l.a[1] is cell and l.a[2] == proj and l.a[3] == gid))
    if len(n) == len(st.locks):
        return
    st.locks = n
    st.event(mk("rel", mode, cell, proj, gid, cls, st.unwinding))
    st.mem[mk("lkep", mk("at", cell, proj))] = mk("int", st.epoch)
    if mode == "W" and st.unwinding:
        st.poison = st.poison - {("clean", cell, proj)} | {("poisoned", cell, proj)}
        e.poisoned_classes.add(cls)


def lock_result(c, g, pz):
    if pz:
        pty = variant_field_ty(c.e, c.retty, 1)
        return errv(c, mk("adt", pty, 0, (g,)))
    return okv(c, g)


def m_lock(mode):
    def f(c):
        g, pz = acquire(c, mode)
        if g is None:
            return []
        return lock_result(c, g, pz)
    return f


INH[RWLOCK + "::read"] = m_lock("R")
INH[RWLOCK + "::write"] = m_lock("W")
INH[MUTEX + "::lock"] = m_lock("W")


def m_trylock(mode):
    def f(c):
        e, st = c.e, c.st
        cell, proj = loc(c)
        for l in st.locks:
            if l.a[1] is cell and l.a[2] == proj and "W" in (mode, l.a[0]):
                return errv(c, mk("op", "wouldblock", (), variant_field_ty(e, c.retty, 1)))
        if e.nondet(st, [False, True]):
            return errv(c, mk("op", "wouldblock", (), variant_field_ty(e, c.retty, 1)))
        g, pz = acquire(c, mode)
        if g is None:
            return []
        if pz:
            return errv(c, mk("op", "trypoisoned", (g,), variant_field_ty(e, c.retty, 1)))
        return okv(c, g)
    return f


INH[RWLOCK + "::try_read"] = m_trylock("R")
INH[RWLOCK + "::try_write"] = m_trylock("W")
INH[MUTEX + "::try_lock"] = m_trylock("W")


def pseudo_new(c):
    return mk("adt", c.retty, 0, (c.args[0],))


for _n in (RWLOCK, MUTEX, "core::cell::RefCell", "core::cell::Cell", "std::sync::poison::PoisonError"):
    INH[_n + "::new"] = pseudo_new
for _n in (RWLOCK, MUTEX, "core::cell::RefCell", "core::cell::Cell"):
    TR[("core::convert::From::from", _n)] = pseudo_new


@inh(RWLOCK + "::into_inner", MUTEX + "::into_inner")
def m_lockinto(c):
    e, st = c.e, c.st
    v = c.args[0]
    ty = e.tyof(v) if e.tyof(v) is not None else c.atys[0]
    cls = lock_class(e, ty)
    content = e.proj1(st, v, ("f", 0, 0))
    if e.poisonable is None or cls in e.poisonable:
        if e.decide(st, ("pzv", v), [False, True]):
            pty = variant_field_ty(e, c.retty, 1)
            return errv(c, mk("adt", pty, 0, (content,)))
    return okv(c, content)


@inh(RWLOCK + "::get_mut", MUTEX + "::get_mut")
def m_lockgetmut(c):
    e, st = c.e, c.st
    cell, proj = loc(c)
    cls = lock_class(e, lock_ty(c))
    r = ref(cell, proj + (("f", 0, 0),), True)
    if is_poisoned(c, cell, proj, load(c), cls):
        return errv(c, mk("adt", variant_field_ty(e, c.retty, 1), 0, (r,)))
    return okv(c, r)


@inh(RWLOCK + "::is_poisoned", MUTEX + "::is_poisoned")
def m_ispois(c):
    cell, proj = loc(c)
    return boolt(is_poisoned(c, cell, proj, load(c), lock_class(c.e, lock_ty(c))))


@inh(RWLOCK + "::clear_poison", MUTEX + "::clear_poison")
def m_clearpois(c):
    cell, proj = loc(c)
    c.st.poison = c.st.poison - {("poisoned", cell, proj)} | {("clean", cell, proj)}
    return UNIT


@inh("std::sync::poison::PoisonError::into_inner")
def m_peinto(c):
    return c.e.proj1(c.st, c.args[0], ("f", 0, 0))


@inh("std::sync::poison::PoisonError::get_ref", "std::sync::poison::PoisonError::get_mut")
def m_peref(c):
    cell, proj = loc(c)
    return ref(cell, proj + (("f", 0, 0),), c.c["def"].endswith("get_mut"))


@inh("core::cell::RefCell::borrow", "core::cell::RefCell::borrow_mut")
def m_refcell(c):
    mode = "W" if c.c["def"].endswith("mut") else "R"
    cell, proj = loc(c)
    for l in c.st.locks:
        if l.a[1] is cell and l.a[2] == proj and "W" in (mode, l.a[0]):
            return unwinding(c, "already borrowed")
    g, pz = acquire(c, mode)
    return g


@inh("core::cell::Cell::get")
def m_cellget(c):
    cell, proj = loc(c)
    return c.e.read(c.st, cell, proj + (("f", 0, 0),))


@inh("core::cell::Cell::set")
def m_cellset(c):
    cell, proj = loc(c)
    c.e.write(c.st, cell, proj + (("f", 0, 0),), c.args[1])
    return UNIT


@inh("core::cell::Cell::replace")
def m_cellrep(c):
    cell, proj = loc(c)
    o = c.e.read(c.st, cell, proj + (("f", 0, 0),))
    c.e.write(c.st, cell, proj + (("f", 0, 0),), c.args[1])
    return o


# ---- thread locals ----------------------------------------------------------------------------

LOCALKEY = "std::thread::local::LocalKey"


def tls_ref(c):
    """Where the thread's own value of a thread local is, of which nothing is known at first."""
    e, st = c.e, c.st
    key = load(c)
    if key.k not in ("op", "const", "str", "adt", "sym") or any(t.k in ("heap", "loc") for t in subterms(key)):
        raise Undecided("a thread local of unknown name")
    kt = e.ty(e.pointee(c.atys[0]))
    t = kt["args"][0]
    rt = next((i for i, x in enumerate(e.types) if x and x["k"] == "ref" and x.get("t") == t and not x.get("mut")), None)
    if rt is None:
        rt = len(e.types)
        e.types.append({"k": "ref", "t": t, "mut": False, "s": "&" + e.ty(t)["s"]})
    return mk("ref", mk("deref", mk("op", "tls", (key,), rt)), (), False), rt, t


@inh(LOCALKEY + "::with")
def m_tlswith(c):
    r, rt, t = tls_ref(c)
    return c.e.call_value(c.st, c.args[1], [r], [rt], c.retty, c.fr, c.tag + ("tls",))


def tls_inner(cell, name):
    def m(c):
        r, rt, t = tls_ref(c)
        e, st = c.e, c.st
        if e.head(t) != "core::cell::" + cell:
            return None
        place = r.a[0], (("f", 0, 0),)
        old = e.read(st, *place)
        if name in ("set", "replace"):
            e.write(st, *place, c.args[1])
        if name == "set":
            return UNIT
        return old
    return m


for _n in ("get", "set", "replace"):
    INH[LOCALKEY + "::" + _n] = tls_inner("Cell", _n)


# ---- write-once cells ------------------------------------------------------------------------

ONCES = (ONCE, ONCEC)


@inh(ONCE + "::new", ONCEC + "::new")
def m_oncenew(c):
    return mk("adt", c.retty, 0, (UNSET,))


def m_oncefrom(c):
    return mk("adt", c.retty, 0, (mk("set", c.args[0]),))


for _n in (ONCE, ONCEC):
    TR[("core::default::Default::default", _n)] = m_oncenew


def m_pseudodefault(c):
    k = inner_callee(c.e, c.c, "core::default::Default::default")
    if k is None:
        return None
    return [("ret", mk("adt", c.retty, 0, (o[1],)), o[2]) if o[0] == "ret" else o
            for o in c.e.call_fn(c.st, k[0], [], [], k[1], c.fr, c.tag + ("pdef",))]


for _n in (RWLOCK, MUTEX, "core::cell::RefCell", "core::cell::Cell"):
    TR[("core::default::Default::default", _n)] = m_pseudodefault


for _n in ONCES:
    TR[("core::convert::From::from", _n)] = m_oncefrom


def once_place(c, n=0):
    cell, proj = loc(c, n)
    return cell, proj + (("f", 0, 0),)


def once_state(c):
    """Decides whether the cell is set, and normalises it; returns the value or None."""
    e, st = c.e, c.st
    cell, proj = once_place(c)
    t = e.read(st, cell, proj)
    shared = e.concurrent and cell.k == "deref"
    if t.k == "set":
        return t.a[0]
    if t is UNSET:
        if shared:
            n = st.count(("others", cell, proj))
            if e.decide(st, ("others", cell, proj, n), [False, True]):
                v = mk("op", "others", (mk("at", cell, proj), n), once_ty(c))
                e.write(st, cell, proj, mk("set", v))
                st.event(mk("others", v))
                return v
        return None
    if t is MOVED:
        raise Undecided("write-once cell after a move")
    if e.decide(st, ("set", t), [True, False]):
        v = mk("op", "loaded", (t,), once_ty(c))
        e.write(st, cell, proj, mk("set", v))
        return v
    e.write(st, cell, proj, UNSET)
    return None


def once_ty(c):
    t = c.e.ty(c.e.pointee(c.atys[0])) if c.atys[0] is not None else {}
    return t["args"][0] if t.get("args") else None


@inh(ONCE + "::get", ONCEC + "::get", ONCE + "::get_mut", ONCEC + "::get_mut")
def m_onceget(c):
    v = once_state(c)
    if v is None:
        return none(c)
    cell, proj = once_place(c)
    return some(c, ref(cell, proj + (("f", 0, 0),), c.c["def"].endswith("get_mut")))


@inh(ONCE + "::set", ONCEC + "::set")
def m_onceset(c):
    v = once_state(c)
    cell, proj = once_place(c)
    if v is None:
        c.e.write(c.st, cell, proj, mk("set", c.args[1]))
        c.st.event(mk("onceset", mk("at", cell, proj), c.args[1]))
        return okv(c, UNIT)
    return errv(c, c.args[1])


@inh(ONCE + "::try_insert", ONCEC + "::try_insert")
def m_oncetryins(c):
    return None


@inh(ONCE + "::get_or_init", ONCEC + "::get_or_init")
def m_onceinit(c):
    e, st = c.e, c.st
    v = once_state(c)
    cell, proj = once_place(c)
    r = ref(cell, proj + (("f", 0, 0),), False)
    if v is not None:
        return r
    outs = []
    for o in e.call_value(st, c.args[1], [], [], once_ty(c), c.fr, c.tag + ("init",)):
        if o[0] == "ret":
            e.write(o[2], cell, proj, mk("set", o[1]))
            o[2].event(mk("onceset", mk("at", cell, proj), o[1]))
            outs.append(("ret", r, o[2]))
        else:
            outs.append(o)
    return outs


@inh(ONCE + "::take", ONCEC + "::take")
def m_oncetake(c):
    v = once_state(c)
    if v is None:
        return none(c)
    cell, proj = once_place(c)
    c.e.write(c.st, cell, proj, UNSET)
    return some(c, v)


@inh(ONCE + "::into_inner", ONCEC + "::into_inner")
def m_onceinto(c):
    t = c.e.proj1(c.st, c.args[0], ("f", 0, 0))
    if t.k == "set":
        return some(c, t.a[0])
    if t is UNSET:
        return none(c)
    if c.e.decide(c.st, ("set", t), [True, False]):
        return some(c, mk("op", "loaded", (t,), variant_field_ty(c.e, c.retty, 1)))
    return none(c)


# ---- sequences -------------------------------------------------------------------------------


def segs_of(e, t):
    if t.k == "seq":
        return t.a[0]
    if t.k in ("arr",):
        return tuple(mk("e", x) for x in t.a[0])
    if t.k in SYMLIKE:
        return (mk("s", t, e.elemty(t)),)
    raise Undecided(f"sequence {t}")


def mkseq(segs):
    return mk("seq", joined(tuple(segs)))


def joined(segs):
    """Segments with the parts of a sequence that follow each other put together again."""
    def part(s):
        if s.k == "s" and s.a[0].k == "op" and s.a[0].a[0] == "slice":
            return s.a[0].a[1]
        return None
    out = []
    for s in segs:
        b = part(s)
        a = part(out[-1]) if out and b is not None else None
        if a is not None and untyped(a[0]) is untyped(b[0]) and untyped(a[2]) is untyped(b[1]):
            lo, hi = a[1], b[2]
            out.pop()
            if lo.k == "int" and lo.a[0] == 0 and hi.k == "end" and a[0].k == "seq":
                out += list(a[0].a[0])
            else:
                out.append(mk("s", mk("op", "slice", (a[0], lo, hi), None), *s.a[1:]))
        else:
            out.append(s)
    return tuple(out)


def seq_at(c, n=0):
    """(cell, proj, segments) of the sequence behind a pointer argument."""
    cell, proj = loc(c, n)
    t = c.e.read(c.st, cell, proj)
    ty = c.atys[n]
    if ty is not None:
        t = c.e.typed(t, c.e.pointee(ty))
    return cell, proj, segs_of(c.e, t), t


def put_seq(c, cell, proj, segs):
    c.e.write(c.st, cell, proj, mkseq(segs))


def seq_len(e, st, t):
    sg = segs_of(e, t)
    n = sum(1 for s in sg if s.k == "e")
    rest = [s for s in sg if s.k != "e"]
    if not rest:
        return mk("int", n)
    if len(rest) == 1 and rest[0].k == "s" and n == 0:
        return mk("op", "len", (rest[0].a[0],), None)
    return mk("op", "seqlen", (mkseq(sg),), None)


def seq_empty(e, st, sg):
    if any(s.k == "e" for s in sg):
        return False
    for s in sg:
        if not seg_done(e, st, s):
            return False
    return True


def seg_done(e, st, s):
    """Has this segment no (more) element?"""
    if s.k == "e":
        return False
    S = seqof(s.a[0])
    if s.k == "s":
        return e.decide(st, ("empty", S), [True, False])
    if s.k in ("drop", "dropb"):
        return not e.longer(st, S, s.a[1])
    if s.k == "tail":
        return not e.decide(st, ("more", S, s.a[1], s.a[3]), [True, False])
    raise Undecided(f"segment {s}")


def take(e, st, sg, back, ety=None):
    """Removes an element from an end: (element or None, segments)."""
    sg = list(sg)
    while sg:
        i = -1 if back else 0
        s = sg[i]
        if s.k == "e":
            del sg[i]
            st.cn += 1
            return s.a[0], tuple(sg)
        if seg_done(e, st, s):
            del sg[i]
            continue
        S = s.a[0]
        ty = s.a[-1] if s.a[-1] is not None else ety
        st.sn += 1
        X, rv = unreversed(S)
        if s.k == "s":
            x = mk("elt", X, ("b" if back != rv else "f", 0), ty)
            sg[i] = mk("dropb" if back else "drop", S, 1, ty)
            return x, tuple(sg)
        if s.k == "drop" and not back:
            x = mk("elt", X, ("b" if rv else "f", s.a[1]), ty)
            sg[i] = mk("drop", S, s.a[1] + 1, ty)
            return x, tuple(sg)
        if s.k == "dropb" and back:
            x = mk("elt", X, ("f" if rv else "b", s.a[1]), ty)
            sg[i] = mk("dropb", S, s.a[1] + 1, ty)
            return x, tuple(sg)
        if s.k == "tail" and s.a[2] == ("b" if back else "f"):
            x = mk("elt", X, (s.a[1], s.a[3]), ty)
            sg[i] = mk("tail", S, s.a[1], s.a[2], s.a[3] + 1, ty)
            return x, tuple(sg)
        raise Undecided("sequence consumed from both ends")
    return None, ()


@inh(VEC + "::new", VEC + "::with_capacity", DEQ + "::new", DEQ + "::with_capacity")
def m_vecnew(c):
    return mkseq(())


@inh(VEC + "::push", DEQ + "::push_back")
def m_push(c):
    cell, proj, sg, t = seq_at(c)
    put_seq(c, cell, proj, sg + (mk("e", c.args[1]),))
    c.st.event(mk("sw", mk("at", cell, proj), "push", c.args[1]))
    return UNIT


@inh(DEQ + "::push_front")
def m_pushf(c):
    cell, proj, sg, t = seq_at(c)
    put_seq(c, cell, proj, (mk("e", c.args[1]),) + sg)
    c.st.event(mk("sw", mk("at", cell, proj), "pushf", c.args[1]))
    return UNIT


@inh(VEC + "::pop", DEQ + "::pop_back")
def m_pop(c):
    cell, proj, sg, t = seq_at(c)
    x, r = take(c.e, c.st, sg, True, variant_field_ty(c.e, c.retty, 1))
    put_seq(c, cell, proj, r)
    return none(c) if x is None else some(c, x)


@inh(DEQ + "::pop_front")
def m_popf(c):
    cell, proj, sg, t = seq_at(c)
    x, r = take(c.e, c.st, sg, False, variant_field_ty(c.e, c.retty, 1))
    put_seq(c, cell, proj, r)
    return none(c) if x is None else some(c, x)


@inh(VEC + "::append", DEQ + "::append")
def m_append(c):
    cell, proj, sg, t = seq_at(c)
    cell2, proj2, sg2, t2 = seq_at(c, 1)
    put_seq(c, cell, proj, sg + sg2)
    put_seq(c, cell2, proj2, ())
    c.st.event(mk("sw", mk("at", cell, proj), "append", mkseq(sg2)))
    return UNIT


@inh(VEC + "::extend_from_slice")
def m_extslice(c):
    cell, proj, sg, t = seq_at(c)
    _, _, sg2, _ = seq_at(c, 1)
    put_seq(c, cell, proj, sg + sg2)
    c.st.event(mk("sw", mk("at", cell, proj), "append", mkseq(sg2)))
    return UNIT


@inh(VEC + "::clear", DEQ + "::clear")
def m_clear(c):
    cell, proj, sg, t = seq_at(c)
    put_seq(c, cell, proj, ())
    c.st.event(mk("sw", mk("at", cell, proj), "clear", UNIT))
    return UNIT


@inh(VEC + "::len", DEQ + "::len", "core::slice::<impl [T]>::len", "core::slice::len")
def m_len(c):
    cell, proj, sg, t = seq_at(c)
    return seq_len(c.e, c.st, mkseq(sg))


@inh(VEC + "::is_empty", DEQ + "::is_empty", "core::slice::<impl [T]>::is_empty", "core::slice::is_empty")
def m_isempty(c):
    cell, proj, sg, t = seq_at(c)
    return boolt(seq_empty(c.e, c.st, sg))


@inh(VEC + "::reserve", VEC + "::shrink_to_fit", DEQ + "::reserve", VEC + "::reserve_exact")
def m_reserve(c):
    return UNIT


@inh(VEC + "::capacity")
def m_capacity(c):
    return mk("op", "capacity", (), c.retty)


@inh("alloc::slice::<impl [T]>::to_vec", "alloc::slice::to_vec", "alloc::slice::to_vec_in::ConvertVec::to_vec",
     "alloc::vec::Vec::into_boxed_slice")
def m_tovec(c):
    v = c.args[0]
    if v.k in ("seq",):
        return v
    cell, proj, sg, t = seq_at(c)
    return t


@inh("core::slice::<impl [T]>::first", "core::slice::first", "core::slice::<impl [T]>::last", "core::slice::last",
     "core::slice::<impl [T]>::first_mut", "core::slice::<impl [T]>::last_mut", "core::slice::last_mut", "core::slice::first_mut")
def m_first(c):
    cell, proj, sg, t = seq_at(c)
    n = c.c["name"]
    cn, sn = c.st.cn, c.st.sn
    x, _ = take(c.e, c.st, sg, n.startswith("last"))
    c.st.cn, c.st.sn = cn, sn
    if x is None:
        return none(c)
    return some(c, ref(cell, unsub(proj) + (("at", x),), n.endswith("mut")))


@inh("core::slice::<impl [T]>::split_first", "core::slice::split_first", "core::slice::<impl [T]>::split_last", "core::slice::split_last")
def m_splitends(c):
    cell, proj, sg, t = seq_at(c)
    back = c.c["name"] == "split_last"
    x, r = take(c.e, c.st, sg, back)
    if x is None:
        return none(c)
    p = unsub(proj)
    return some(c, tup(ref(cell, p + (("at", x),), False), ref(cell, p + (("sub", mkseq(r)),), False)))


@inh("core::slice::<impl [T]>::split_at", "core::slice::split_at")
def m_splitat(c):
    cell, proj, sg, t = seq_at(c)
    i = c.args[1]
    if not in_bounds(c, sg, i, True):
        return unwinding(c, "split out of bounds")
    p = unsub(proj)
    if i.k == "int" and all(s.k == "e" for s in sg[:i.a[0]]):
        a, b = sg[:i.a[0]], sg[i.a[0]:]
    else:
        n = mkseq(sg)
        ety = sg[0].a[-1] if sg and sg[0].k == "s" else None
        a, b = ((mk("s", mk("op", "slice", (n, x, y), None), ety),) for x, y in ((mk("int", 0), i), (i, mk("end"))))
    return tup(ref(cell, p + (("sub", mkseq(a)),), False), ref(cell, p + (("sub", mkseq(b)),), False))


def slice_of(c, sg, r):
    """The elements a range selects; None if it is out of bounds."""
    e, st = c.e, c.st
    lo, hi = range_of(c, r)
    n = mkseq(sg)
    z = mk("int", 0)
    if lo is z:
        lo = None
    ln = seq_len(e, st, n)
    if hi is not None and hi is ln:
        hi = None
    back = from_end(hi, ln)
    if (lo is None or lo.k == "int" and lo.a[0] <= 8) and (hi is None or back is not None and back <= 8):
        k, l = lo.a[0] if lo is not None else 0, back or 0
        m = e.more_than(st, sg, k + l - 1)
        if m is False:
            return None
        if m:
            return e.cut(sg, k, l)
    for x in (lo, hi):
        if x is not None and not in_bounds(c, sg, x, True):
            return None
    if lo is not None and hi is not None and not e.decide_rel(st, lo, hi, OPREL["Le"]):
        return None
    ety = sg[0].a[-1] if sg and sg[0].k != "e" else None
    if hi is not None and hi.k == "int" and all(s.k == "e" for s in sg[:hi.a[0]]) and (lo is None or lo.k == "int"):
        return sg[lo.a[0] if lo is not None else 0:hi.a[0]]
    return (mk("s", mk("op", "slice", (n, lo or z, hi if hi is not None else mk("end")), None), ety),)


def from_end(i, ln):
    if i is not None and i.k == "op" and i.a[0].startswith("Sub") and i.a[1][0] is ln and i.a[1][1].k == "int":
        return i.a[1][1].a[0]
    return None


@tr("core::ops::index::Index::index", VEC, DEQ, "slice", "array")
def m_seqindex(c):
    return seqindex(c, False)


@tr("core::ops::index::IndexMut::index_mut", VEC, DEQ, "slice", "array")
def m_seqindexmut(c):
    return seqindex(c, True)


def seqindex(c, mut):
    e, st = c.e, c.st
    cell, proj, sg, t = seq_at(c)
    i = c.args[1]
    it = e.ty(c.atys[1]) if c.atys[1] is not None else {}
    if it.get("k") in ("struct", "adt") or i.k == "adt":
        if mut:
            raise Undecided("part of a sequence to be changed")
        r = slice_of(c, sg, i)
        if r is None:
            return unwinding(c, "range out of bounds")
        return ref(cell, unsub(proj) + (("sub", mkseq(r)),), False)
    if not in_bounds(c, sg, i, False):
        return unwinding(c, "index out of bounds")
    if mut:
        return ref(cell, proj + (("ix", i),), True)
    x = e.proj1(st, t, ("ix", i))
    return ref(cell, unsub(proj) + (("at", x),), False)


@inh("core::slice::<impl [T]>::get", "core::slice::get", DEQ + "::get")
def m_seqget(c):
    e, st = c.e, c.st
    cell, proj, sg, t = seq_at(c)
    i = c.args[1]
    it = e.ty(c.atys[1]) if c.atys[1] is not None else {}
    if it.get("k") in ("struct", "adt") or i.k == "adt":
        r = slice_of(c, sg, i)
        if r is None:
            return none(c)
        return some(c, ref(cell, unsub(proj) + (("sub", mkseq(r)),), False))
    if not in_bounds(c, sg, i, False):
        return none(c)
    x = e.proj1(st, t, ("ix", i))
    return some(c, ref(cell, unsub(proj) + (("at", x),), False))


@inh(*[x % m for x in ("core::slice::<impl [T]>::%s", "core::slice::%s") for m in
       ("binary_search", "binary_search_by", "binary_search_by_key", "partition_point")],
     *[DEQ + "::" + m for m in ("binary_search", "binary_search_by", "binary_search_by_key", "partition_point")])
def m_bsearch(c):
    """Where a binary search ends up is known if only the sequence is known to be sorted, which none is here."""
    e, st = c.e, c.st
    cell, proj, sg, t = seq_at(c)
    n = st.count(("bsearch",))
    i = mk("op", "found", (mkseq(sg), n), None)
    if c.c["name"] == "partition_point":
        return i
    if e.nondet(st, [True, False]):
        if not e.truth(st, e.binop(st, "Lt", i, seq_len(e, st, mkseq(sg)))):
            raise Infeasible("found outside")
        return okv(c, i)
    return errv(c, i)


@inh("core::intrinsics::saturating_sub")
def m_satsub(c):
    e, st = c.e, c.st
    a, b = c.args
    if e.truth(st, e.binop(st, "Le", b, a)):
        return e.binop(st, "Sub", a, b)
    return ZERO


@inh(VEC + "::truncate")
def m_truncate(c):
    cell, proj, sg, t = seq_at(c)
    n = c.args[1]
    if n.k == "int" and n.a[0] == 0:
        put_seq(c, cell, proj, ())
    else:
        put_seq(c, cell, proj, (mk("s", mk("op", "slice", (mkseq(sg), mk("int", 0), n), None), None),))
    c.st.event(mk("sw", mk("at", cell, proj), "truncate", n))
    return UNIT


@inh(VEC + "::insert")
def m_vecins(c):
    cell, proj, sg, t = seq_at(c)
    i, x = c.args[1], c.args[2]
    if bare(i) is seq_len(c.e, c.st, mkseq(sg)):
        put_seq(c, cell, proj, sg + (mk("e", x),))
        c.st.event(mk("sw", mk("at", cell, proj), "push", x))
        return UNIT
    if i is ZERO:
        put_seq(c, cell, proj, (mk("e", x),) + sg)
        c.st.event(mk("sw", mk("at", cell, proj), "pushf", x))
        return UNIT
    if i.k == "int" and all(s.k == "e" for s in sg[:i.a[0]]) and i.a[0] <= len(sg):
        put_seq(c, cell, proj, sg[:i.a[0]] + (mk("e", x),) + sg[i.a[0]:])
    else:
        put_seq(c, cell, proj, (mk("s", mk("op", "seqins", (mkseq(sg), i, x), None), None),))
    c.st.event(mk("sw", mk("at", cell, proj), "insert", tup(i, x)))
    return UNIT


@inh(VEC + "::remove", VEC + "::swap_remove")
def m_vecrem(c):
    cell, proj, sg, t = seq_at(c)
    i = c.args[1]
    c.st.event(mk("sw", mk("at", cell, proj), "remove", i))
    if c.c["name"] == "remove" and i.k == "int":
        n = i.a[0]
        if all(s.k == "e" for s in sg[:n + 1]):
            if n >= len(sg):
                return unwinding(c, "Vec::remove out of bounds")
            put_seq(c, cell, proj, sg[:n] + sg[n + 1:])
            return sg[n].a[0]
        if n == 0:
            x, r = take(c.e, c.st, sg, False, c.retty)
            if x is None:
                return unwinding(c, "Vec::remove out of bounds")
            put_seq(c, cell, proj, r)
            return x
    whole = mkseq(sg)
    if not in_bounds(c, sg, i, False):
        return unwinding(c, "Vec::remove out of bounds")
    x = mk("op", "nth", (whole, i), c.retty)
    put_seq(c, cell, proj, (mk("s", mk("op", "without", (whole, i), None), c.retty),))
    return x


def in_bounds(c, sg, i, inclusive):
    """Is the index inside (or at the end of) the sequence?"""
    e, st = c.e, c.st
    ln = seq_len(e, st, mkseq(sg))
    h = half_of(i)
    if h is not None and (untyped(h) is untyped(ln) if inclusive else h is ln):
        if inclusive:
            return True
        return not seq_empty(e, st, sg)
    if untyped(i) is untyped(ln):
        return inclusive
    k = from_end(i, ln)
    if k is not None and 0 < k <= 8:
        m = e.more_than(st, sg, k - 1)
        if m is not None:
            return m
    return e.truth(st, e.binop(st, "Le" if inclusive else "Lt", i, ln))


def half_of(i):
    """x for i = x / k or x >> k."""
    if i.k == "op" and i.a[0] in ("Div", "Shr") and i.a[1][1].k == "int" and i.a[1][1].a[0] >= (2 if i.a[0] == "Div" else 1):
        return i.a[1][0]
    return None


def range_of(c, r):
    """(lo, hi) of a range value; None for an open end."""
    if r.k != "adt":
        if r.k == "op" and r.a[0] == "zst":
            return None, None
        raise Undecided(f"range {r}")
    h = c.e.head(r.a[0])
    f = r.a[2]
    if h.endswith("RangeFull"):
        return None, None
    if h.endswith("RangeFrom"):
        return f[0], None
    if h.endswith("RangeTo"):
        return None, f[0]
    if h.endswith("::Range"):
        return f[0], f[1]
    raise Undecided(f"range {r}")


@inh(VEC + "::drain", DEQ + "::drain")
def m_drain(c):
    cell, proj, sg, t = seq_at(c)
    lo, hi = range_of(c, c.args[1])
    ety = c.e.ty(c.retty).get("args", [None])
    ety = next((x for x in ety if x is not None), None)
    if lo is not None and lo.k == "int" and lo.a[0] == 0:
        lo = None
    c.st.event(mk("sw", mk("at", cell, proj), "drain", UNIT))
    if lo is None and hi is None:
        put_seq(c, cell, proj, ())
        return mk("iter", "val", sg, None)
    for x in (lo, hi):
        if x is not None and not in_bounds(c, sg, x, True):
            return unwinding(c, "drain out of bounds")
    n = mkseq(sg)
    z = mk("int", 0)
    if lo is None:
        put_seq(c, cell, proj, (mk("s", mk("op", "slice", (n, hi, mk("end")), None), ety),))
        return mk("iter", "val", (mk("s", mk("op", "slice", (n, z, hi), None), ety),), None)
    if hi is None:
        put_seq(c, cell, proj, (mk("s", mk("op", "slice", (n, z, lo), None), ety),))
        return mk("iter", "val", (mk("s", mk("op", "slice", (n, lo, mk("end")), None), ety),), None)
    raise Undecided("drain of an inner range")


@inh(VEC + "::splice")
def m_splice(c):
    """Only where nothing is replaced: the elements are inserted at a position."""
    e, st = c.e, c.st
    cell, proj, sg, t = seq_at(c)
    lo, hi = range_of(c, c.args[1])
    ln = seq_len(e, st, mkseq(sg))
    if lo is None:
        lo = ZERO
    at_end = bare(lo) is ln and (hi is None or bare(hi) is ln)
    if not at_end and lo is not hi:
        return None
    v = c.args[2]
    ty = c.atys[2]
    if v.k == "iter" and v.a[0] == "val":
        new = v.a[1]
    elif v.k == "seq" or ty is not None and e.head(ty) in (VEC, DEQ, "array"):
        new = segs_of(e, e.typed(v, ty))
    else:
        return None
    if at_end:
        put_seq(c, cell, proj, sg + tuple(new))
        st.event(mk("sw", mk("at", cell, proj), "append", mkseq(new)))
    elif lo is ZERO:
        put_seq(c, cell, proj, tuple(new) + sg)
        st.event(mk("sw", mk("at", cell, proj), "prepend", mkseq(new)))
    else:
        if not in_bounds(c, sg, lo, True):
            return unwinding(c, "splice out of bounds")
        put_seq(c, cell, proj, (mk("s", mk("op", "seqins", (mkseq(sg), lo, mkseq(new)), None), None),))
        st.event(mk("sw", mk("at", cell, proj), "insert", tup(lo, mkseq(new))))
    return mk("iter", "val", (), None)


@inh(VEC + "::split_off", DEQ + "::split_off")
def m_splitoff(c):
    cell, proj, sg, t = seq_at(c)
    i = c.args[1]
    c.st.event(mk("sw", mk("at", cell, proj), "split", i))
    if i.k == "int" and all(s.k == "e" for s in sg[:i.a[0]]):
        if i.a[0] > len(sg):
            return unwinding(c, "split_off out of bounds")
        put_seq(c, cell, proj, sg[:i.a[0]])
        return mkseq(sg[i.a[0]:])
    if not in_bounds(c, sg, i, True):
        return unwinding(c, "split_off out of bounds")
    n = mkseq(sg)
    ety = sg[0].a[-1] if sg and sg[0].k == "s" else None
    put_seq(c, cell, proj, (mk("s", mk("op", "slice", (n, mk("int", 0), i), None), ety),))
    return mkseq((mk("s", mk("op", "slice", (n, i, mk("end")), None), ety),))


@inh("core::slice::<impl [T]>::reverse", "core::slice::reverse")
def m_reverse(c):
    cell, proj, sg, t = seq_at(c)
    out = backwards(sg)
    if out is None:
        raise Undecided("reverse")
    put_seq(c, cell, proj, out)
    c.st.event(mk("sw", mk("at", cell, proj), "reverse", UNIT))
    return UNIT


def put_rearranged(c, cell, proj, sg, how):
    """The same elements in another order: no longer the sequence it was."""
    ety = next((s.a[-1] for s in sg if s.k == "s"), None)
    c.st.event(mk("sw", mk("at", cell, proj), how[0], UNIT))
    put_seq(c, cell, proj, (mk("s", mk("op", "rearranged", (mkseq(sg),) + tuple(how), None), ety),))
    return UNIT


def reach(sg, i, back=False):
    """The i-th segment from an end, when all up to it are single elements."""
    xs = sg[::-1] if back else sg
    return len(xs) > i and all(s.k == "e" for s in xs[:i + 1])


@inh("core::slice::<impl [T]>::swap", "core::slice::swap")
def m_slswap(c):
    cell, proj, sg, t = seq_at(c)
    i, j = c.args[1:3]
    if i.k != "int" or j.k != "int":
        return None
    if any(p[0] == "sub" for p in proj if isinstance(p, tuple)):
        return None
    for x in (i, j):
        if not in_bounds(c, sg, x, False):
            return unwinding(c, "swap out of bounds")
    if i is j:
        return UNIT
    i, j = i.a[0], j.a[0]
    if reach(sg, max(i, j)):
        xs = list(sg)
        xs[i], xs[j] = xs[j], xs[i]
        put_seq(c, cell, proj, tuple(xs))
        c.st.event(mk("sw", mk("at", cell, proj), "swap", UNIT))
        return UNIT
    return put_rearranged(c, cell, proj, sg, ("swap", mk("int", i), mk("int", j)))


def rotation(back):
    def m(c):
        cell, proj, sg, t = seq_at(c)
        k = c.args[1]
        if k.k != "int" or k.a[0] > 8 or any(p[0] == "sub" for p in proj if isinstance(p, tuple)):
            return None
        k = k.a[0]
        if k == 0:
            return UNIT
        if not in_bounds(c, sg, mk("int", k), True):
            return unwinding(c, "rotated by more than there is")
        if len(sg) == k and all(s.k == "e" for s in sg):
            return UNIT
        if reach(sg, k - 1, back):
            put_seq(c, cell, proj, sg[-k:] + sg[:-k] if back else sg[k:] + sg[:k])
            c.st.event(mk("sw", mk("at", cell, proj), "rotate", UNIT))
            return UNIT
        out, xs = [], sg
        for _ in range(k):
            x, xs = take(c.e, c.st, xs, back)
            if x is None:
                return unwinding(c, "rotated by more than there is")
            out.append(x if x.k == "e" else mk("e", x))
        put_seq(c, cell, proj, joined(tuple(out[::-1]) + tuple(xs) if back else tuple(xs) + tuple(out)))
        c.st.event(mk("sw", mk("at", cell, proj), "rotate", UNIT))
        return UNIT
    return m


for _n in ("core::slice::<impl [T]>::", "core::slice::", DEQ + "::"):
    INH[_n + "rotate_left"] = rotation(False)
    INH[_n + "rotate_right"] = rotation(True)


def sorting(n):
    """A sort whose order depends on more than what an element is called: not the order it was in."""
    def m(c):
        cell, proj, sg, t = seq_at(c)
        if any(p[0] == "sub" for p in proj if isinstance(p, tuple)) or all(s.k == "e" for s in sg):
            return None
        ety = c.e.ty(c.e.pointee(c.atys[0]))
        ety = ety["t"] if ety["k"] in ("slice", "array") else (ety.get("args") or [None])[0]
        if ety is None:
            return None
        rt = len(c.e.types)
        c.e.types.append({"k": "ref", "t": ety, "mut": False, "s": "&" + c.e.ty(ety)["s"]})
        st = c.st.copy()
        rs = []
        for i in range(n):
            x = mk("elt", mkseq(sg), ("any", i), ety)
            rs.append(ref(c.e.alloc(st, c.fr.fid, c.tag + ("sorted", i), x, ety), (), False))
        known = set(c.st.facts)
        retty = None if n == 1 else c.e.ty(c.atys[1]).get("ret")
        outs = c.e.call_value(st, c.args[1], rs, [rt] * n, retty, c.fr, c.tag + ("sort",))
        vals = {untyped(o[1]) for o in outs if o[0] == "ret"}
        mine = [k for o in outs for k in o[2].facts if k not in known and k[0] == "var" and any(x.k == "elt" and x.a[1][0] == "any" for x in subterms(k[1]))]
        if len(vals) > 1 and mine and all(v.k in ("int", "bool", "adt") for v in vals):
            return put_rearranged(c, cell, proj, sg, ("sort",))
        return None
    return m


for _n in ("core::slice::<impl [T]>::", "core::slice::", "alloc::slice::<impl [T]>::", "alloc::slice::"):
    for _m in ("sort_by_key", "sort_by_cached_key", "sort_unstable_by_key"):
        INH[_n + _m] = sorting(1)


@tr("core::convert::From::from", VEC, DEQ)
def m_seqfrom(c):
    """A vector from a queue, or the other way around."""
    h = c.e.head(c.atys[0]) if c.atys[0] is not None else None
    if h in (VEC, DEQ, "array"):
        return mkseq(segs_of(c.e, c.e.typed(c.args[0], c.atys[0])))
    return None


@tr("core::default::Default::default", VEC, DEQ)
def m_vecdefault(c):
    return mkseq(())


# ---- iterators -------------------------------------------------------------------------------


@inh("core::slice::<impl [T]>::iter", "core::slice::iter", DEQ + "::iter", "core::slice::<impl [T]>::iter_mut",
     "core::slice::iter_mut", DEQ + "::iter_mut")
def m_iter(c):
    cell, proj, sg, t = seq_at(c)
    mode = "mut" if c.c["name"].endswith("mut") else "ref"
    return mk("iter", mode, sg, mk("src", cell, proj))


@tr("core::iter::traits::collect::IntoIterator::into_iter")
def m_intoiter(c):
    e, st = c.e, c.st
    a = c.args[0]
    ty = c.c["args"][0]
    t = e.ty(ty)
    if t["k"] == "ref":
        h = e.head(t["t"])
        if h in (VEC, DEQ, "slice", "array"):
            cell, proj, sg, _ = seq_at(c)
            return mk("iter", "mut" if t["mut"] else "ref", sg, mk("src", cell, proj))
        if h in MAPS:
            return map_iter(c, "mut" if t["mut"] else "ref", "pairs")
        if h == OPTION:
            return optref_iter(c, t["mut"])
        return None
    h = e.head(ty)
    if a.k in ("iter", "zip"):
        return a
    if h in (VEC, DEQ, "array") or a.k == "seq":
        return mk("iter", "val", segs_of(e, e.typed(a, c.atys[0])), None)
    if h in MAPS:
        s = mk("op", "entries", (a,), None)
        return mk("iter", "pairs", (mk("s", s, None),), None)
    if c.c.get("kind") == "unresolved":
        return mk("iter", "val", (mk("s", a, None),), None)
    return None


OPTION = "core::option::Option"


@tr("core::iter::traits::collect::IntoIterator::into_iter", OPTION)
def m_optiter(c):
    """An option as the sequence of at most one element it is."""
    e, st = c.e, c.st
    v = e.typed(c.args[0], c.atys[0])
    if e.is_some(st, v):
        return mk("iter", "val", (mk("e", e.enum_field(st, v, 1)),), None)
    return mk("iter", "val", (), None)


def optref_iter(c, mut):
    """What an option holds, if anything, by reference."""
    e, st = c.e, c.st
    cell, proj = loc(c)
    if e.is_some(st, load(c)):
        return mk("iter", "val", (mk("e", ref(cell, proj + (("f", 1, 0),), mut)),), None)
    return mk("iter", "val", (), None)


@inh("core::option::Option::iter", "core::option::Option::iter_mut")
def m_optrefiter(c):
    return optref_iter(c, c.c["name"] == "iter_mut")


@inh("core::iter::sources::once::once")
def m_iteronce(c):
    return mk("iter", "val", (mk("e", c.args[0]),), None)


@inh("core::iter::sources::empty::empty")
def m_iterempty(c):
    return mk("iter", "val", (), None)


def flat_iter(c, st, x, ty):
    """What iterating over x yields, or None."""
    if x.k in ("iter", "zip"):
        return x
    if ty is None:
        return None
    d = Call(c.e, st, {"args": [ty], "kind": None}, [x], [ty], None, c.fr, c.tag)
    h = c.e.head(ty)
    if h == OPTION:
        return m_optiter(d)
    return m_intoiter(d)


def m_flat(mapped):
    def f(c):
        e, st = c.e, c.st
        it = c.args[0]
        if it.k != "iter" or it.a[0] != "val" or any(s.k != "e" for s in it.a[1]) or len(it.a[1]) > 1:
            return None
        if not it.a[1]:
            return mk("iter", "val", (), None)
        x = it.a[1][0].a[0]
        if not mapped:
            t = e.ty(c.c["args"][0])
            ty = t["args"][0] if t.get("args") else None
            return flat_iter(c, st, x, ty)
        ty = c.c["args"][1] if len(c.c["args"]) > 1 else None
        outs = []
        for o in e.call_value(st, c.args[1], [x], [None], ty, c.fr, c.tag + ("flat",)):
            if o[0] == "ret":
                r = flat_iter(c, o[2], o[1], ty)
                if r is None:
                    r = mk("iter", "val", (mk("s", o[1], None),), None) if o[1].k in SYMLIKE else None
                if r is None:
                    raise Undecided("flattening")
                outs.append(("ret", r, o[2]))
            else:
                outs.append(o)
        return outs
    return f


TR[(ITER + "flatten", None)] = m_flat(False)
TR[(ITER + "flat_map", None)] = m_flat(True)


def m_next(back):
    def f(c):
        e, st = c.e, c.st
        it = typed_load(c)
        if it.k == "zip":
            return zip_next(c, it, back)
        if it.k != "iter":
            if c.c.get("kind") == "unresolved" and it.k in SYMLIKE:
                it = mk("iter", "val", (mk("s", it, None),), None)
            else:
                return None
        x, sg = iter_take(c, it, back, variant_field_ty(e, c.retty, 1))
        e.store(st, c.args[0], mk("iter", it.a[0], sg, it.a[2]))
        return none(c) if x is None else some(c, x)
    return f


TR[(ITER + "next", None)] = m_next(False)
TR[(DEI + "next_back", None)] = m_next(True)


def iter_take(c, it, back, ity):
    e, st = c.e, c.st
    mode, sg, src = it.a
    ety = ity
    if mode in ("ref", "mut") and ity is not None:
        ety = e.pointee(ity)
    if mode in ("keys", "values", "pairs", "valuesmut", "refpairs", "mutpairs"):
        ety = None
    x, r = take(e, st, sg, back, ety)
    if x is None:
        return None, r
    if mode in ("ref", "mut"):
        x = ref(src.a[0], unsub(src.a[1]) + (("at", e.typed(x, ety)),), mode == "mut")
    elif mode in ("keys", "values", "pairs", "valuesmut", "refpairs", "mutpairs"):
        kt = vt = None
        if ity is not None:
            t = e.ty(ity)
            if mode == "keys":
                kt = e.pointee(ity) if t["k"] == "ref" else ity
            elif mode in ("values", "valuesmut"):
                vt = e.pointee(ity) if t["k"] == "ref" else ity
            elif t["k"] == "tuple":
                kt, vt = t["ts"]
                if e.ty(kt)["k"] == "ref":
                    kt = e.pointee(kt)
                if mode != "pairs" and e.ty(vt)["k"] == "ref":
                    vt = e.pointee(vt)
        if x.k == "tup":
            kx, vx = x.a[0]
        else:
            kx, vx = mk("fld", x, 0, 0, kt), mk("fld", x, 0, 1, vt)
            in_range(e, st, x, kx)
        if mode == "pairs":
            x = tup(kx, vx)
        else:
            kr = ref(src.a[0], src.a[1] + (("at", kx),), False)
            vr = ref(src.a[0], src.a[1] + (("at", vx),), mode in ("valuesmut", "mutpairs"))
            x = {"keys": kr, "values": vr, "valuesmut": vr}.get(mode) or tup(kr, vr)
    else:
        x = e.typed(x, ity)
    return x, r


def zip_next(c, it, back):
    e, st = c.e, c.st
    tt = e.ty(variant_field_ty(e, c.retty, 1))["ts"]
    fa, fb = it.a[2:] or (False, False)
    a, ra = iter_take(c, it.a[0], back != fa, tt[0])
    b, rb = iter_take(c, it.a[1], back != fb, tt[1])
    if a is None or b is None:
        e.store(st, c.args[0], mk("zip", mk("iter", it.a[0].a[0], (), it.a[0].a[2]), mk("iter", it.a[1].a[0], (), it.a[1].a[2]), *it.a[2:]))
        return none(c)
    e.store(st, c.args[0], mk("zip", mk("iter", it.a[0].a[0], ra, it.a[0].a[2]), mk("iter", it.a[1].a[0], rb, it.a[1].a[2]), *it.a[2:]))
    return some(c, tup(a, b))


def as_iter(c, v, ty):
    e, st = c.e, c.st
    if v.k == "iter":
        return v
    t = e.ty(ty)
    if t["k"] == "ref" and e.head(t["t"]) in (VEC, DEQ, "slice", "array"):
        cell, proj = e.deref(st, v)
        x = e.typed(e.read(st, cell, proj), t["t"])
        return mk("iter", "mut" if t["mut"] else "ref", segs_of(e, x), mk("src", cell, proj))
    if e.head(ty) in (VEC, DEQ, "array"):
        return mk("iter", "val", segs_of(e, e.typed(v, ty)), None)
    return None


@tr(ITER + "chain")
def m_chain(c):
    """Two sequences one after the other, when both are handed out by value."""
    xs = []
    for v, ty in zip(c.args, c.atys):
        x = as_iter(c, v, ty) if v.k == "iter" or ty is not None else None
        if x is None or x.a[0] not in ("val", "ref"):
            return None
        xs.append(x)
    a, b = xs
    if a.a[0] != b.a[0]:
        return None
    if a.a[0] == "ref":
        # parts of one place
        if a.a[2].a[0] is not b.a[2].a[0] or unsub(a.a[2].a[1]) != unsub(b.a[2].a[1]):
            return None
        return mk("iter", "ref", joined(a.a[1] + b.a[1]), mk("src", a.a[2].a[0], unsub(a.a[2].a[1])))
    return mk("iter", "val", joined(xs[0].a[1] + xs[1].a[1]), None)


@tr(ITER + "zip")
def m_zip(c):
    xs, flips = [], []
    for v, ty in zip(c.args, c.atys):
        n = 0
        while v.k == "adt" and c.e.head(v.a[0]) == "core::iter::adapters::rev::Rev" and n < 4:
            v, n = v.a[2][0], n + 1
            ty = c.e.ty(ty)["args"][0] if ty is not None else None
        x = as_iter(c, v, ty) if v.k == "iter" or ty is not None else None
        if x is None:
            return None
        xs.append(x)
        flips.append(n % 2 == 1)
    return mk("zip", *xs, *(flips if any(flips) else ()))


def pair_take(c, v):
    """The next of an iterator held by value: (element or None, the iterator after it)."""
    if v.k == "zip":
        if v.a[0].k != "iter" or v.a[1].k != "iter":
            return None
        fa, fb = v.a[2:] or (False, False)
        a, ra = iter_take(c, v.a[0], fa, None)
        b, rb = iter_take(c, v.a[1], fb, None)
        if a is None or b is None:
            ra = rb = ()
        r = mk("zip", mk("iter", v.a[0].a[0], ra, v.a[0].a[2]), mk("iter", v.a[1].a[0], rb, v.a[1].a[2]), *v.a[2:])
        return (None if a is None or b is None else (a, b)), r
    x, sg = iter_take(c, v, False, None)
    return x, mk("iter", v.a[0], sg, v.a[2])


@tr(ITER + "step_by")
def m_stepby(c):
    v, n = c.args
    if v.k != "iter" or v.a[0] not in ("ref", "val") or n.k != "int":
        return None
    if n.a[0] == 0:
        return unwinding(c, "a step of zero")
    if n.a[0] == 1:
        return v
    if all(s.k == "e" for s in v.a[1]):
        return mk("iter", v.a[0], v.a[1][::n.a[0]], v.a[2])
    ety = next((s.a[-1] for s in v.a[1] if s.k == "s"), None)
    return mk("iter", v.a[0], (mk("s", mk("op", "rearranged", (mkseq(v.a[1]), "every", n), None), ety),), v.a[2])


@tr(ITER + "skip")
def m_skip(c):
    v, n = c.args
    if v.k == "adt" and c.e.head(v.a[0]) == "core::iter::adapters::rev::Rev" and v.a[2][0].k == "iter" and v.a[2][0].a[0] in ("ref", "val"):
        sg = backwards(v.a[2][0].a[1])
        if sg is None:
            return None
        v = mk("iter", v.a[2][0].a[0], sg, v.a[2][0].a[2])
    if v.k not in ("iter", "zip") or n.k != "int" or not 0 <= n.a[0] <= 4:
        return None
    for _ in range(n.a[0]):
        r = pair_take(c, v)
        if r is None:
            return None
        v = r[1]
        if r[0] is None:
            break
    return v


@tr(ITER + "size_hint")
def m_sizehint(c):
    v = load(c)
    if v.k == "iter" and v.a[0] in ("ref", "mut", "val") and c.retty is not None and c.e.ty(c.retty)["k"] == "tuple":
        n = seq_len(c.e, c.st, mkseq(v.a[1]))
        if n.k == "int" or n.a[0] == "len":
            return tup(n, mk("adt", c.e.ty(c.retty)["ts"][1], 1, (n,)))
    if v.k in ("iter", "zip"):
        return mk("op", "size_hint", (v,), c.retty)
    return None


@tr("core::iter::traits::exact_size::ExactSizeIterator::len")
def m_itlen(c):
    v = load(c)
    if v.k == "iter":
        return seq_len(c.e, c.st, mkseq(v.a[1]))
    return None


@inh("core::slice::iter::Iter::as_slice", "alloc::vec::into_iter::IntoIter::as_slice")
def m_iteras(c):
    v = load(c)
    if v.k == "iter":
        cell = c.e.alloc(c.st, c.fr.fid, c.tag + ("slice",), mkseq(v.a[1]))
        return ref(cell, (), False)
    return None


# ---- maps ------------------------------------------------------------------------------------


def canon(st, e, key):
    """The representative of what is known to equal key."""
    best = key
    for k, v in st.facts.items():
        if k[0] == "rel" and v == frozenset("="):
            if k[1] is best and k[2].id < best.id:
                best = k[2]
            elif k[2] is best and k[1].id < best.id:
                best = k[1]
    return best


def key_eq(e, st, a, b):
    if a is b:
        return True
    if a.k == "op" and b.k == "op" and a.a[0] == "typeid" and b.a[0] == "typeid":
        x, y = e.ty(a.a[1][0]), e.ty(b.a[1][0])
        if x["k"] not in ("param", "alias") and y["k"] not in ("param", "alias") and not x.get("args") and not y.get("args"):
            return False
    return e.decide_rel(st, a, b, OPREL["Eq"])


def map_parts(e, t):
    if t.k == "map":
        return t.a
    if t.k in SYMLIKE:
        ty = e.tyof(t)
        a = e.ty(ty).get("args") if ty is not None else None
        return (t, (), a[1] if a and len(a) > 1 else None)
    raise Undecided(f"map {t}")


def known_empty(st, m):
    return any(k[0] == "val" and v and k[1].k == "op" and k[1].a[0] == "mapis_empty" and k[1].a[1][0] is m for k, v in st.facts.items())


def map_find(e, st, t, key):
    """(found, place key, value)."""
    if known_empty(st, t):
        return False, key, None
    base, ops, vty = map_parts(e, t)
    for i in range(len(ops) - 1, -1, -1):
        o = ops[i]
        if o.k == "macc":
            b = mk("op", "mapof", (mk("map", base, ops[:i + 1], vty),), None)
            k = canon(st, e, key)
            if e.decide(st, ("has", b, k), [True, False]):
                return True, k, mk("mval", b, k, vty)
            return False, key, None
        if key_eq(e, st, o.a[0], key):
            return (True, o.a[0], o.a[1]) if o.k == "ins" else (False, o.a[0], None)
    if base is None or known_empty(st, base):
        return False, key, None
    k = canon(st, e, key)
    if e.decide(st, ("has", base, k), [True, False]):
        return True, k, mk("mval", base, k, vty)
    return False, key, None


def map_ins(e, t, key, val):
    base, ops, vty = map_parts(e, t)
    ops = tuple(o for o in ops if not (o.k in ("ins", "del") and o.a[0] is key))
    return mk("map", base, ops + (mk("ins", key, val),), vty)


def map_del(e, t, key):
    base, ops, vty = map_parts(e, t)
    ops = tuple(o for o in ops if not (o.k in ("ins", "del") and o.a[0] is key))
    return mk("map", base, ops + (mk("del", key),), vty)


def map_at(c, n=0):
    cell, proj = loc(c, n)
    t = c.e.typed(c.e.read(c.st, cell, proj), c.e.pointee(c.atys[n]) if c.atys[n] is not None else None)
    return cell, proj, t


def key_arg(c, n=1):
    v = c.e.load(c.st, c.args[n])
    ty = c.e.pointee(c.atys[n]) if c.atys[n] is not None else None
    return deepval(c.e, c.st, c.e.typed(v, ty))


def mapnames(m):
    return [x + "::" + m for x in MAPS]


@inh(*mapnames("new"), "std::collections::hash::map::HashMap::with_capacity")
def m_mapnew(c):
    a = c.e.ty(c.retty).get("args") or [None, None]
    return mk("map", None, (), a[1])


@tr("core::default::Default::default", *MAPS)
def m_mapdefault(c):
    return m_mapnew(c)


@inh(*mapnames("insert"))
def m_mapinsert(c):
    e, st = c.e, c.st
    cell, proj, t = map_at(c)
    k, v = c.args[1], c.args[2]
    has, pk, old = map_find(e, st, t, k)
    e.write(st, cell, proj, map_ins(e, t, pk if has else k, v))
    st.event(mk("mw", mk("at", cell, proj), "ins", k, v))
    return some(c, old) if has else none(c)


@inh(*mapnames("remove"))
def m_mapremove(c):
    e, st = c.e, c.st
    cell, proj, t = map_at(c)
    k = key_arg(c)
    has, pk, old = map_find(e, st, t, k)
    if has:
        e.write(st, cell, proj, map_del(e, t, pk))
    st.event(mk("mw", mk("at", cell, proj), "del", k, UNIT))
    return some(c, old) if has else none(c)


@inh(*mapnames("remove_entry"))
def m_maprementry(c):
    e, st = c.e, c.st
    cell, proj, t = map_at(c)
    k = key_arg(c)
    has, pk, old = map_find(e, st, t, k)
    if has:
        e.write(st, cell, proj, map_del(e, t, pk))
    st.event(mk("mw", mk("at", cell, proj), "del", k, UNIT))
    return some(c, tup(pk, old)) if has else none(c)


@inh(*mapnames("clear"))
def m_mapclear(c):
    cell, proj, t = map_at(c)
    base, ops, vty = map_parts(c.e, t)
    c.e.write(c.st, cell, proj, mk("map", None, (), vty))
    c.st.event(mk("mw", mk("at", cell, proj), "clear", UNIT, UNIT))
    return UNIT


@inh(*mapnames("retain"))
def m_mapretain(c):
    """Keeps every entry if the test holds of any; takes some away if there is one it surely fails for."""
    e, st = c.e, c.st
    cell, proj, t = map_at(c)
    if t.k == "map" and t.a[0] is None and not t.a[1]:
        return UNIT
    base, ops, vty = map_parts(e, t)
    mty = e.ty(e.pointee(c.atys[0])) if c.atys[0] is not None else {}
    kty = (mty.get("args") or [None])[0]
    n = st.count(("retain",))
    K = mk("op", "somekey", (t, mk("int", n)), kty)
    V = mk("mval", t, K, vty)
    s = st.copy()
    kc, vc = e.alloc(s, c.fr.fid, c.tag + ("rk",), K), e.alloc(s, c.fr.fid, c.tag + ("rv",), V)
    before, seen = dict(s.mem), s.trace
    try:
        outs = e.forking(s, lambda x: e.call_value(x, c.args[1], [ref(kc, (), False), ref(vc, (), True)], [None, None], None, c.fr, c.tag + ("retain",)))
    except Undecided:
        return None
    lost = False
    for o in outs:
        if o[0] != "ret":
            return None
        x = o[2]
        if any(x.mem.get(k) is not v for k, v in before.items()) or any(
                ev.k not in ("ext", "client") or any(a.k == "ref" and a.a[2] for a in ev.a[1]) for ev in x.events(seen)):
            return None
        v = o[1]
        if v is TRUE:
            continue
        new = [k for k in x.facts if k not in st.facts]
        if v is not FALSE or any(t.k == "op" and t.a[0] in ("ext", "changed", "havoc") for k in new for y in k[1:] if isinstance(y, T) for t in subterms(y)):
            return None
        lost = True
    if not lost:
        return UNIT
    e.write(st, cell, proj, mk("map", mk("op", "retained", (t, mk("int", n)), None), (), vty))
    st.event(mk("mw", mk("at", cell, proj), "retain", UNIT, UNIT))
    return UNIT


@inh(*mapnames("get"), *mapnames("get_mut"))
def m_mapget(c):
    e, st = c.e, c.st
    cell, proj, t = map_at(c)
    has, pk, v = map_find(e, st, t, key_arg(c))
    if not has:
        return none(c)
    return some(c, ref(cell, proj + (("mk", pk),), c.c["name"] == "get_mut"))


@inh(*mapnames("get_key_value"))
def m_mapgetkv(c):
    e, st = c.e, c.st
    cell, proj, t = map_at(c)
    has, pk, v = map_find(e, st, t, key_arg(c))
    if not has:
        return none(c)
    return some(c, tup(ref(mk("val", pk), (), False), ref(cell, proj + (("mk", pk),), False)))


@tr("core::ops::index::Index::index", *MAPS)
def m_mapindex(c):
    e, st = c.e, c.st
    cell, proj, t = map_at(c)
    has, pk, v = map_find(e, st, t, key_arg(c))
    if not has:
        return unwinding(c, "no entry found for key")
    return ref(cell, proj + (("mk", pk),), False)


@inh(*mapnames("contains_key"))
def m_mapcontains(c):
    cell, proj, t = map_at(c)
    return boolt(map_find(c.e, c.st, t, key_arg(c))[0])


@inh(*mapnames("is_empty"), *mapnames("len"))
def m_mapempty(c):
    cell, proj, t = map_at(c)
    base, ops, _ = map_parts(c.e, t)
    if base is None and not ops:
        return TRUE if c.c["name"] == "is_empty" else mk("int", 0)
    if c.c["name"] == "is_empty" and (ops and ops[-1].k == "ins" or not ops and any(
            k[0] == "has" and k[1] is base and v for k, v in c.st.facts.items())):
        return FALSE
    return mk("op", "map" + c.c["name"], (t,), c.retty)


@inh(*mapnames("entry"))
def m_mapentry(c):
    e, st = c.e, c.st
    cell, proj, t = map_at(c)
    has, pk, v = map_find(e, st, t, c.args[1])
    names = [x["name"] for x in e.ty(c.retty)["variants"]]
    x = mk("entry", cell, proj, pk if has else c.args[1], mk("bool", has))
    return mk("adt", c.retty, names.index("Occupied" if has else "Vacant"), (x,))


ENTRY = ("alloc::collections::btree::map::entry::Entry", "std::collections::hash::map::Entry")
OCC = ("alloc::collections::btree::map::entry::OccupiedEntry", "std::collections::hash::map::OccupiedEntry")
VAC = ("alloc::collections::btree::map::entry::VacantEntry", "std::collections::hash::map::VacantEntry")


def entry_of(v):
    if v.k == "adt":
        v = v.a[2][0]
    if v.k != "entry":
        raise Undecided("map entry")
    return v


def entry_insert(e, st, x, v):
    cell, proj, k = x.a[0], x.a[1], x.a[2]
    t = e.read(st, cell, proj)
    e.write(st, cell, proj, map_ins(e, t, k, v))
    st.event(mk("mw", mk("at", cell, proj), "ins", k, v))
    return ref(cell, proj + (("mk", k),), True)


@inh(*[x + "::or_insert" for x in ENTRY])
def m_orinsert(c):
    x = entry_of(c.args[0])
    if x.a[3].a[0]:
        return ref(x.a[0], x.a[1] + (("mk", x.a[2]),), True)
    return entry_insert(c.e, c.st, x, c.args[1])


@inh(*[x + "::or_insert_with" for x in ENTRY], *[x + "::or_default" for x in ENTRY])
def m_orinsertwith(c):
    x = entry_of(c.args[0])
    if x.a[3].a[0]:
        return ref(x.a[0], x.a[1] + (("mk", x.a[2]),), True)
    e = c.e
    if c.c["name"] == "or_default":
        k = inner_callee(e, c.c, "core::default::Default::default")
        if k is None:
            raise Undecided("or_default")
        outs = e.call_fn(c.st, k[0], [], [], k[1], c.fr, c.tag + ("ordef",))
    else:
        outs = e.call_value(c.st, c.args[1], [], [], e.pointee(c.retty), c.fr, c.tag + ("orins",))
    return [("ret", entry_insert(e, o[2], x, o[1]), o[2]) if o[0] == "ret" else o for o in outs]


@inh(*[x + "::and_modify" for x in ENTRY])
def m_andmodify(c):
    x = entry_of(c.args[0])
    if not x.a[3].a[0]:
        return c.args[0]
    r = ref(x.a[0], x.a[1] + (("mk", x.a[2]),), True)
    outs = c.e.call_value(c.st, c.args[1], [r], [None], None, c.fr, c.tag + ("andmod",))
    return [("ret", c.args[0], o[2]) if o[0] == "ret" else o for o in outs]


@inh(*[x + "::get" for x in OCC], *[x + "::get_mut" for x in OCC], *[x + "::into_mut" for x in OCC])
def m_occget(c):
    v = c.args[0]
    if v.k != "entry":
        v = load(c)
    x = entry_of(v)
    return ref(x.a[0], x.a[1] + (("mk", x.a[2]),), c.c["name"] != "get")


@inh(*[x + "::insert" for x in OCC])
def m_occins(c):
    x = entry_of(load(c))
    old = c.e.read(c.st, x.a[0], x.a[1] + (("mk", x.a[2]),))
    entry_insert(c.e, c.st, x, c.args[1])
    return old


@inh(*[x + "::remove" for x in OCC])
def m_occrem(c):
    x = entry_of(c.args[0])
    old = c.e.read(c.st, x.a[0], x.a[1] + (("mk", x.a[2]),))
    c.e.write(c.st, x.a[0], x.a[1], map_del(c.e, c.e.read(c.st, x.a[0], x.a[1]), x.a[2]))
    c.st.event(mk("mw", mk("at", x.a[0], x.a[1]), "del", x.a[2], UNIT))
    return old


@inh(*[x + "::insert" for x in VAC])
def m_vacins(c):
    return entry_insert(c.e, c.st, entry_of(c.args[0]), c.args[1])


def map_iter(c, mode, what):
    cell, proj, t = map_at(c)
    s = mk("op", "entries", (t,), None)
    m = {"pairs": {"ref": "refpairs", "mut": "mutpairs"}[mode] if mode in ("ref", "mut") else "pairs",
         "keys": "keys", "values": "valuesmut" if mode == "mut" else "values"}[what]
    base, ops, _ = map_parts(c.e, t)
    if base is None and not ops:
        return mk("iter", m, (), mk("src", cell, proj))
    return mk("iter", m, (mk("s", s, None),), mk("src", cell, proj))


for _x in MAPS:
    INH[_x + "::values"] = lambda c: map_iter(c, "ref", "values")
    INH[_x + "::values_mut"] = lambda c: map_iter(c, "mut", "values")
    INH[_x + "::keys"] = lambda c: map_iter(c, "ref", "keys")
    INH[_x + "::iter"] = lambda c: map_iter(c, "ref", "pairs")
    INH[_x + "::iter_mut"] = lambda c: map_iter(c, "mut", "pairs")

    def _into(what):
        def f(c):
            s = mk("op", "entries", (c.args[0],), None)
            return mk("iter", "pairs", (mk("s", s, None),), None)
        return f


# ---- sets: maps to nothing ---------------------------------------------------------------------


def setnames(*ms):
    return [x + "::" + m for x in SETS for m in ms]


def set_parts(e, t):
    if t.k == "map":
        return t
    return mk("map", t, (), None)


@inh(*setnames("new"))
def m_setnew(c):
    return mk("map", None, (), None)


for _x in SETS:
    TR[("core::default::Default::default", _x)] = m_setnew


@inh(*setnames("insert"))
def m_setinsert(c):
    e, st = c.e, c.st
    cell, proj, t = map_at(c)
    key = deepval(e, st, c.args[1])
    has, pk, v = map_find(e, st, t, key)
    if not has:
        b = set_parts(e, t)
        e.write(st, cell, proj, mk("map", b.a[0], b.a[1] + (mk("ins", key, UNIT),), None))
        st.event(mk("mw", mk("at", cell, proj), "ins", key, UNIT))
    return boolt(not has)


@inh(*setnames("contains"))
def m_setcontains(c):
    cell, proj, t = map_at(c)
    return boolt(map_find(c.e, c.st, t, key_arg(c))[0])


@inh(*setnames("remove"))
def m_setremove(c):
    e, st = c.e, c.st
    cell, proj, t = map_at(c)
    key = key_arg(c)
    has, pk, v = map_find(e, st, t, key)
    if has:
        b = set_parts(e, t)
        e.write(st, cell, proj, mk("map", b.a[0], tuple(o for o in b.a[1] if o.a[0] is not pk) + (mk("del", pk),), None))
        st.event(mk("mw", mk("at", cell, proj), "del", pk, UNIT))
    return boolt(has)


@inh(*setnames("clear"))
def m_setclear(c):
    cell, proj, t = map_at(c)
    c.e.write(c.st, cell, proj, mk("map", None, (), None))
    c.st.event(mk("mw", mk("at", cell, proj), "clear", UNIT, UNIT))
    return UNIT


@inh(*setnames("is_empty", "len"))
def m_setempty(c):
    cell, proj, t = map_at(c)
    b = set_parts(c.e, t)
    if b.a[0] is None and not b.a[1]:
        return TRUE if c.c["name"] == "is_empty" else mk("int", 0)
    if c.c["name"] == "is_empty" and b.a[1] and b.a[1][-1].k == "ins":
        return FALSE
    return mk("op", "map" + c.c["name"], (t,), c.retty)


BTREEMAP = MAPS[0]


def end_entry(c, back):
    """The first or last entry of a map: (key, value), None if it is empty."""
    e, st = c.e, c.st
    cell, proj, t = map_at(c)
    base, ops, vty = map_parts(e, t)
    if any(o.k not in ("ins", "del") for o in ops):
        raise Undecided("the ends of a map changed by a loop")
    if base is None and not ops:
        return cell, proj, t, None
    if not any(o.k == "ins" for o in ops) and e.truth(st, mk("op", "mapis_empty", (t,), None)):
        return cell, proj, t, None
    kt = e.ty(e.pointee(c.atys[0])).get("args", [None])[0] if c.atys[0] is not None else None
    k = mk("op", "lastkey" if back else "firstkey", (t,), kt)
    for o in reversed(ops):
        if key_eq(e, st, k, o.a[0]):
            if o.k == "del":
                raise Infeasible("a removed key")
            return cell, proj, t, (o.a[0], o.a[1])
    if base is None:
        raise Infeasible("a key from nowhere")
    st.facts[("has", base, k)] = True
    return cell, proj, t, (k, mk("mval", base, k, vty))


@inh(BTREEMAP + "::first_key_value", BTREEMAP + "::last_key_value")
def m_mapend(c):
    cell, proj, t, kv = end_entry(c, c.c["name"].startswith("last"))
    if kv is None:
        return none(c)
    return some(c, tup(ref(mk("val", kv[0]), (), False), ref(cell, proj + (("mk", kv[0]),), False)))


@inh(BTREEMAP + "::pop_first", BTREEMAP + "::pop_last")
def m_mappop(c):
    cell, proj, t, kv = end_entry(c, c.c["name"].endswith("last"))
    if kv is None:
        return none(c)
    c.e.write(c.st, cell, proj, map_del(c.e, t, kv[0]))
    c.st.event(mk("mw", mk("at", cell, proj), "del", kv[0], UNIT))
    return some(c, tup(*kv))


RANGES = {"Range": ("in", "ex"), "RangeInclusive": ("in", "in"), "RangeFrom": ("in", None), "RangeTo": (None, "ex"),
          "RangeToInclusive": (None, "in"), "RangeFull": (None, None)}


def map_bounds(c):
    """The bounds of a range of keys: ((kind, key) or None, likewise)."""
    e, st = c.e, c.st
    v, ty = c.args[1], c.atys[1]
    h = e.head(ty).split("::")[-1]

    def key(x, t):
        if t is not None and e.ty(t)["k"] == "ref":
            x, t = e.load(st, x), e.pointee(t)
        return deepval(e, st, e.typed(x, t))

    if h in RANGES and v.k == "adt":
        lo, hi = RANGES[h]
        t = (e.ty(ty).get("args") or [None])[0]
        xs = list(v.a[2])
        return ((lo, key(xs.pop(0), t)) if lo else None), ((hi, key(xs.pop(0), t)) if hi else None)
    if v.k == "tup" and e.ty(ty)["k"] == "tuple":
        out = []
        for x, t in zip(v.a[0], e.ty(ty)["ts"]):
            if x.k != "adt":
                raise Undecided("range of a map")
            n = e.ty(t)["variants"][x.a[1]]["name"]
            out.append(None if n == "Unbounded" else ("in" if n == "Included" else "ex", key(x.a[2][0], e.ty(t)["args"][0])))
        return tuple(out)
    raise Undecided("range of a map")


@inh(BTREEMAP + "::range", BTREEMAP + "::range_mut")
def m_maprange(c):
    e, st = c.e, c.st
    cell, proj, t = map_at(c)
    base, ops, vty = map_parts(e, t)
    if ops or base is None:
        raise Undecided("range of a map that was changed")
    lo, hi = map_bounds(c)
    mode = "mutpairs" if c.c["name"] == "range_mut" else "refpairs"

    def out(*sg):
        return mk("iter", mode, sg, mk("src", cell, proj))

    def entry(b):
        if b is None or b[0] != "in":
            return ()
        k = canon(st, e, b[1])
        return (mk("e", tup(k, mk("mval", base, k, vty))),) if e.decide(st, ("has", base, k), [True, False]) else ()

    if lo and hi:
        o = "=" if lo[1] is hi[1] else e.decide_ord(st, lo[1], hi[1])
        if o == ">" or o == "=" and lo[0] == hi[0] == "ex":
            return unwinding(c, "range start is greater than range end in BTreeMap")
        if o == "=":
            return out(*entry(lo)) if lo[0] == hi[0] == "in" else out()
    S = mk("op", "range", (base, lo[1] if lo else UNIT, hi[1] if hi else UNIT), None)
    return out(*entry(lo), mk("s", S, None), *entry(hi))


def in_range(e, st, x, k):
    """The key of an element of a range of a map lies between its bounds, and is one of the map's."""
    if x.k == "elt" and x.a[0].k == "op" and x.a[0].a[0] == "range":
        base, lo, hi = x.a[0].a[1]
        for b, o in ((lo, ">"), (hi, "<")):
            if b is not UNIT and not e.decide_rel(st, k, b, frozenset(o)):
                raise Infeasible("outside of the range")


@inh(*mapnames("extend"))
def m_mapextend(c):
    return None


# ---- any -------------------------------------------------------------------------------------


@inh("core::any::TypeId::of")
def m_typeid(c):
    return mk("op", "typeid", (c.c["args"][0],), None)


def dyn_type(c, cell, proj):
    """The concrete type behind a type-erased place, as a type identity term."""
    v = c.st.mem.get(mk("cty", cell)) if not proj else None
    if v is not None:
        return mk("op", "typeid", (v.a[0],), None)
    t = c.e.read(c.st, cell, proj)
    h = c.e.assume.get("dyntype")
    if h is not None:
        k = h(c.e, c.st, t, cell, proj)
        if k is not None:
            return k
    return mk("op", "dyntypeid", (mk("at", cell, proj),), None)


def is_type(c, cell, proj, ty):
    a = dyn_type(c, cell, proj)
    b = mk("op", "typeid", (ty,), None)
    if a.k == "op" and a.a[0] == "typeid" and a.a[1] == b.a[1]:
        return True
    return key_eq(c.e, c.st, a, b)


@inh("<(dyn core::any::Any + 'static)>::downcast_ref", "<(dyn core::any::Any + 'static)>::downcast_mut",
     "<dyn core::any::Any>::downcast_ref", "<dyn core::any::Any>::downcast_mut")
def m_downcast(c):
    cell, proj = loc(c)
    if is_type(c, cell, proj, c.c["args"][-1]):
        return some(c, ref(cell, proj, c.c["name"].endswith("mut")))
    return none(c)


@inh("<(dyn core::any::Any + 'static)>::is", "<dyn core::any::Any>::is")
def m_is(c):
    cell, proj = loc(c)
    return boolt(is_type(c, cell, proj, c.c["args"][-1]))


@inh("alloc::boxed::Box::downcast", "<alloc::boxed::Box<dyn core::any::Any>>::downcast")
def m_boxdowncast(c):
    cell, proj = c.e.deref(c.st, c.args[0])
    ok = c.e.ty(variant_field_ty(c.e, c.retty, 0))
    if is_type(c, cell, proj, ok["args"][0]):
        return okv(c, c.args[0])
    return errv(c, c.args[0])


# ---- panics and process ends -----------------------------------------------------------------


def m_panic(c):
    return unwinding(c, strip_generics(c.c["def"]))


for _n in ("core::option::unwrap_failed", "core::option::expect_failed", "core::result::unwrap_failed",
           "core::result::unwrap_failed::unwrap_failed_inner", "std::rt::begin_panic", "std::panic::panic_any",
           "core::slice::index::slice_index_fail", "core::panicking::panic_bounds_check", "std::panic::resume_unwind",
           "std::panicking::begin_panic"):
    INH[_n] = m_panic
PREFIX.append(("core::panicking::", m_panic))
PREFIX.append(("std::panicking::", m_panic))


def m_exit(c):
    c.st.event(mk("exit", strip_generics(c.c["def"]), tuple(c.args)))
    c.e.exits.append(("exit", c.st.copy()))
    return []


for _n in ("std::process::exit", "std::process::abort", "core::intrinsics::abort", "core::intrinsics::abort_immediate"):
    INH[_n] = m_exit


@inh("std::panic::catch_unwind")
def m_catch(c):
    outs = []
    f = c.args[0]
    if f.k == "adt":
        f = f.a[2][0]
    for o in c.e.call_value(c.st, f, [], [], variant_field_ty(c.e, c.retty, 0), c.fr, c.tag + ("catch",)):
        if o[0] == "ret":
            outs.append(("ret", okv(c, o[1]), o[2]))
        else:
            o[2].unwinding = False
            o[2].event(mk("caught"))
            outs.append(("ret", errv(c, mk("op", "payload", (), variant_field_ty(c.e, c.retty, 1))), o[2]))
    return outs


# ---- intrinsics and odds and ends ------------------------------------------------------------


@inh("core::intrinsics::assert_inhabited", "core::intrinsics::assert_zero_valid", "core::intrinsics::assume",
     "core::intrinsics::cold_path", "core::hint::assert_unchecked")
def m_unit(c):
    return UNIT


@inh("core::intrinsics::likely", "core::intrinsics::unlikely")
def m_likely(c):
    return c.args[0]


def m_pureop(c):
    d = tuple(c.e.deep(c.st, a) for a in c.args)
    return mk("op", strip_generics(c.c["def"]), d, c.retty)


for _n in ("core::any::type_name", "core::any::type_name_of_val", "core::mem::size_of", "core::mem::align_of",
           "core::intrinsics::size_of", "core::intrinsics::type_name"):
    INH[_n] = m_pureop


# ---- text ------------------------------------------------------------------------------------


@tr("alloc::string::ToString::to_string")
def m_tostring(c):
    h = c.e.head(c.c["args"][0]) if c.c["args"][0] is not None else ""
    if h in ("str", "alloc::string::String"):
        return deepval(c.e, c.st, load(c))
    if h == "alloc::borrow::Cow":
        return None
    if c.c.get("rcrate", "").startswith("plotline"):
        return None
    return mk("op", "to_string", (c.e.deep(c.st, c.args[0]),), c.retty)


# ---- errors that carry context -----------------------------------------------------------------


def m_context(c):
    """Option / Result to a result whose error says more."""
    e, st = c.e, c.st
    v = c.args[0]
    src = c.c["args"][0]
    h = e.head(src)
    if h not in ("core::option::Option", "core::result::Result"):
        return None
    good = 1 if h == "core::option::Option" else 0
    n = e.variant(st, v)
    if n == good:
        return mk("adt", c.retty, 0, (e.proj1(st, v, ("f", good, 0)),))
    return mk("adt", c.retty, 1, (mk("op", "context", (e.deep(st, v), e.deep(st, c.args[1])), variant_field_ty(e, c.retty, 1)),))


TR[("anyhow::Context::context", None)] = m_context
TR[("anyhow::Context::with_context", None)] = m_context
