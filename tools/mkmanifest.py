"""Writes MANIFEST.json from properties.jsonl and the functions in checks.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(V + "/properties.jsonl")]
NA = {}
LEVEL_NOTE = ("TLC explores the finite design models completely and decides every recorded event of the real code, built from /repo's working tree, "
              "against the TLA+ specification; the inputs are exhaustive for small sizes and boundary-biased samples otherwise. "
              "Trusts TLC, the JSON reader, the trace writer harness/vh.hpp and the BigInteger override (itself compared with its TLA+ definitions).")
cks, na = [], []
for p in props:
    i = p["id"]
    f = getattr(checks, i.lower(), None)
    if f is None:
        na.append({"property": i, "reason": NA.get(i, "its check is still being built")})
        continue
    cks.append({"property": i, "quick_cmd": "python3 tools/check.py " + i, "thorough_cmd": "python3 tools/check.py " + i,
                "evidence_file": "evidence/%s.json" % i,
                "technique": getattr(f, "technique", "TLA+ specification: TLC on design models and TLC trace validation of recorded executions"),
                "level": "model_checking", "level_note": getattr(f, "note", "") + LEVEL_NOTE})
m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": cks, "not_applicable": na,
     "notes": "No hooks in /repo: the library is header-only and every quantity the specification names is observable through its public templates. See DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(cks), "claimed;", len(na), "not")
