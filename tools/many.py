"""Runs several checks in one process, exploring every entry once: python3 tools/many.py C01 C02 ...

For trying out variants only; the registered commands run every check on its own."""
import contextlib, io, os, sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from plv import build, main

sessions, dumps = {}, {}


def session(make):
    def get(prog, missing=None):
        if prog not in sessions:
            sessions[prog] = make(main_program(prog), missing)
        return sessions[prog]
    return get


def once(name):
    f = getattr(build, name)

    def g(*a):
        if (name, a) not in dumps:
            dumps[name, a] = f(*a)
        return dumps[name, a]
    setattr(build, name, g)


main_program = main.Program
main.Program = lambda path: path
main.Session = session(main.Session)
for n in ("dump_main", "dump_interval"):
    once(n)
for pid in sys.argv[1:]:
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            rc = main.main([pid])
    except Exception as x:
        rc = 2
        out.write(f"{type(x).__name__}: {x}\n")
    t = out.getvalue().strip().splitlines()
    first = next((x for x in t if x.startswith("UNDECIDED")), "") if rc == 0 else (t[0] if t else "?")
    print(f"RESULT\t{pid}\t{rc}\t{first.strip()}", flush=True)
