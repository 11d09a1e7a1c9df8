"""Loads a MIR dump and offers pretty printing."""
import json, re


def strip_generics(p):
    """`a::B::<T>::c` -> `a::B::c` (also in `<X<T> as Y<U>>::m`)."""
    out, depth, i = [], 0, 0
    # drop turbofish groups only
    while i < len(p):
        if p.startswith("::<", i):
            d, j = 0, i + 2
            while j < len(p):
                if p[j] == "<":
                    d += 1
                elif p[j] == ">" and p[j - 1] != "-":
                    d -= 1
                    if d == 0:
                        break
                j += 1
            i = j + 1
            continue
        out.append(p[i])
        i += 1
    return "".join(out)


# Where the items the rules name are defined.  One that is moved to another module goes by its known place.
PLACES = """plotline::deref::ReadOnly plotline::deref::ReadWrite plotline::deref::TryDeref plotline::deref::TryDerefMut plotline::deref::With
plotline::deref::WithMut plotline::document::DocumentRepository plotline::document::lazy::LazyDocument plotline::graph::Graph
plotline::graph::proxy::NodeProxy plotline::graph::proxy::Source plotline::id::Identify plotline::schema::Schema plotline::schema::error::Error
plotline::schema::guard::SchemaReadGuard plotline::schema::guard::SchemaWriteGuard plotline::schema::ops::delete::AfterDelete
plotline::schema::ops::delete::BeforeDelete plotline::schema::ops::delete::Delete plotline::schema::ops::save::AfterSave
plotline::schema::ops::save::BeforeSave plotline::schema::ops::save::Save plotline::schema::plugin::Plugin plotline::schema::resource::Res
plotline::schema::resource::ResReadGuard plotline::schema::resource::ResWriteGuard plotline::schema::resource::ResourceSet
plotline::schema::transaction::Background plotline::schema::transaction::Context plotline::schema::transaction::Ctx
plotline::schema::transaction::Foreground plotline::schema::transaction::Operation plotline::schema::transaction::Target
plotline::schema::transaction::TargetReadGuard plotline::schema::transaction::TargetWriteGuard plotline::schema::transaction::Transaction
plotline::schema::trigger::Trigger plotline::schema::trigger::TriggerSelect plotline::schema::trigger::TriggerSet
plotline_cli::CliCommand plotline_cli::document::Document plotline_cli::document::DocumentCli plotline_cli::document::DocumentCommand
plotline_cli::document::DocumentSaveArgs plotline_cli::document::DocumentSubCommand plotline_cli::repository::LocalDocumentRepository""".split()


def load(path):
    with open(path) as f:
        text = f.read()
    places = {tuple(x.split("::")[::len(x.split("::")) - 1]): x for x in PLACES}
    seen = {}
    pat = re.compile(r"\b(plotline(?:_cli)?)(?:::[a-z_0-9]+)*::([A-Z]\w*)")
    for m in pat.finditer(text):
        seen.setdefault((m[1], m[2]), set()).add(m[0])
    moved = {next(iter(v)): places[k] for k, v in seen.items() if k in places and len(v) == 1 and places[k] not in v}
    if moved:
        text = pat.sub(lambda m: moved.get(m[0], m[0]), text)
    return json.loads(text)


class Program:
    def __init__(self, path):
        d = load(path)
        self.crate = d["crate"]
        self.types = d["types"]
        self.insts = d["insts"]
        self.roots = d["roots"]
        self.unsafe = d["unsafe"]
        self.bypath = {}
        for r in self.roots:
            r["short"] = strip_generics(r["path"])
            self.bypath.setdefault(r["short"], []).append(r)

    def ts(self, t):
        return self.types[t]["s"] if t is not None else "?"

    def place(self, p):
        s = f"_{p[0]}"
        for e in p[1:]:
            if e == "*":
                s = f"(*{s})"
            elif e[0] == "f":
                s += f".{e[1]}"
            elif e[0] == "d":
                s += f"@{e[1]}"
            else:
                s += str(e)
        return s

    def op(self, o):
        if "c" in o:
            return self.place(o["c"])
        if "m" in o:
            return "move " + self.place(o["m"])
        if "rc" in o:
            return "rtcheck"
        k = o["k"]
        if "promoted" in k:
            return f"promoted#{k['promoted']}"
        for x in ("v", "str", "static", "mem"):
            if x in k:
                return f"const {x}={k[x]!r}:{self.ts(k['ty'])}"
        return f"const {k.get('s')}"

    def rv(self, r):
        k = r["r"]
        if k == "use":
            return self.op(r["o"])
        if k in ("ref", "reborrow"):
            return ("&mut " if r.get("mut") else "&") + self.place(r["p"])
        if k == "discr":
            return f"discr({self.place(r['p'])})"
        if k == "bin":
            return f"{r['op']}({self.op(r['a'])}, {self.op(r['b'])})"
        if k == "cast":
            return f"{self.op(r['o'])} as[{r['kind']}] {self.ts(r['ty'])}"
        if "fs" in r:
            t = self.ts(r["t"]) if "t" in r else ""
            return f"{k} {t}#{r.get('v','')}({', '.join(map(self.op, r['fs']))})"
        return str(r)

    def callee_s(self, f):
        c = self.types[f]["callee"]
        s = c.get("rdef", c["def"])
        return f"{s} [{c.get('kind')}] inst={c.get('inst')} default={c.get('default')}" + (f" trait={c['trait']}" if "trait" in c else "")

    def show(self, i):
        x = self.insts[i]
        if not x:
            return f"#{i} none"
        out = [f"#{i} {x['path']} args={[self.ts(a) for a in x.get('args', [])]} {x.get('span')}"]
        if "body" not in x:
            return out[0] + " " + x.get("error", "")
        b = x["body"]
        out.append("  argc %d spread %s" % (b["argc"], b["spread"]))
        for n, t in enumerate(b["locals"]):
            out.append(f"  let _{n}: {self.ts(t)}")
        for n, (ss, t, cl) in enumerate(b["blocks"]):
            out.append(f"  bb{n}{' (cleanup)' if cl else ''}:")
            for s in ss:
                if s[0] == "=":
                    out.append(f"    {self.place(s[1])} = {self.rv(s[2])}")
                elif s[0] != "dead":
                    out.append(f"    {s}")
            k = t["t"]
            if k == "call":
                f = self.callee_s(t["f"]) if "f" in t else self.op(t["fo"])
                out.append(f"    {self.place(t['d'])} = CALL {f}({', '.join(map(self.op, t['a']))}) -> bb{t['b']} unwind {t['u']}   // {t['sp']}")
            elif k == "switch":
                out.append(f"    switch {self.op(t['o'])} {t['ts']} else {t['else']}")
            elif k == "drop":
                out.append(f"    drop {self.place(t['p'])}: {self.ts(t['ty'])} -> bb{t['b']} unwind {t['u']}")
            else:
                out.append("    " + str({a: c for a, c in t.items() if a != 'sp'}))
        return "\n".join(out)


if __name__ == "__main__":
    import sys
    P = Program(sys.argv[1])
    for a in sys.argv[2:]:
        if a.isdigit():
            print(P.show(int(a)))
        else:
            for r in P.roots:
                if a in r["path"]:
                    print(P.show(r["inst"]))
            
