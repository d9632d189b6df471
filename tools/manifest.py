"""Rewrites MANIFEST.json from the registry of checks."""
import json, os, sys
d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(d, "lib"), os.path.join(d, "gen")]
from registry import PROPS
NOTE = {}
try:
    from notes import NOTE
except ImportError:
    pass
ids = [json.loads(l)["id"] for l in open(os.path.join(d, "properties.jsonl"))]
TECH = "TLA+ specification checked with TLC; traces of the real code validated against it, model behaviours replayed"
LEVEL = ("The specification's invariants hold in all states of the bounded models; every step of the real code in the replayed model "
         "behaviours and in seeded random scenarios is a step of the specification. Not a proof: the real code is explored, not exhausted.")
m = {"version": 1,
     "setup_cmd": "python3 check.py setup",
     "checks": [{"property": i, "quick_cmd": "python3 check.py " + i,
                 "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                 "technique": TECH, "level": "model_checking", "level_note": NOTE.get(i, LEVEL)} for i in ids if i in PROPS],
     "not_applicable": [{"property": i, "reason": "not built yet"} for i in ids if i not in PROPS],
     "notes": "TLA+ with TLC. No hooks in /repo: the harness only uses exported API. See DESIGN.md."}
with open(os.path.join(d, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")
