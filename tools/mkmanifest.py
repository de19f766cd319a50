"""Writes MANIFEST.json (kept here so that it stays in step with the checks)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "TLA+ specification checked with TLC; behaviours of the specification replayed into the real library and compared step by step"
WORLD = ("Every operation, result, event on a mixin and the whole observable state after every step of generated histories is computed by TLC from spec/World.tla, "
         "whose invariants and step properties (spec/Steps.tla) are checked in every state, and compared with the library built with ASan/UBSan. "
         "Small worlds (three mixins, an alphabet of operations and faults) are explored exhaustively by TLC to a depth of 3 to 6 steps (spec/Explore.tla) and their transitions are performed by the library too (C27, C28: generated histories only). "
         "Assurance is for the histories explored (bounded universes: up to 40 mixins, 6 features, 8 rules, 3 domains, 6 objects; seeded). "
         "Trusted: the stand-ins for the external headers, the driver's projection of the state.")
DONE = {p: dict(technique=T, level="model_checking", level_note=WORLD) for p in
        "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C21 C27 C28".split()}
try:
    from manifest_more import MORE
    DONE.update(MORE)
except ImportError: pass
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "none", "enable": "no hooks in /repo: everything is observed through the public interface", "source_commits": []},
     "checks": [dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i, **DONE[i]) for i in ids if i in DONE],
     "not_applicable": [{"property": i, "reason": "check not built yet"} for i in ids if i not in DONE],
     "notes": "Specification language: TLA+ with TLC. See DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
