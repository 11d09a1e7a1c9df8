"""Writes MANIFEST.json: one check per rule file under plv/rules, the rest not applicable."""
import json, os, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "default": "static analysis: interprocedural path-sensitive dataflow and effect analysis (abstract interpretation) over resolved MIR, with loop summaries",
}
NOTE = {
    "default": "Covers every input and every behaviour of client code (closures, triggers, trait implementations, panics at any call) on every "
               "path of the functions named in the evidence. Trusts: rustc's MIR, the written models of std (plv/models.py), and that client "
               "trait implementations of Ord/Clone/Identify are lawful. What the analysis cannot follow is reported as UNDECIDED and does not alarm.",
}
sys.path.insert(0, V)
try:
    from tools.notes import TECH as T2, NOTE as N2, NA
    TECH.update(T2)
    NOTE.update(N2)
except ImportError:
    NA = {}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "plv/rules", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": f"bash check {i} --tier quick", "thorough_cmd": f"bash check {i} --tier thorough",
                       "technique": TECH.get(i, TECH["default"]), "level": "other", "level_note": NOTE.get(i, NOTE["default"])})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check has been built for it yet")})
m = {"version": 1,
     "setup_cmd": "python3 -m plv.build",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the analysis reads private code through the compiler's MIR. Fixes in /repo are listed in known-findings.json."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
