"""Writes MANIFEST.json from props.py."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props

LEVEL_NOTE = {
}
NA = []
DEFAULT_NOTE = ("TLC checks the property exhaustively on the specification within the model's bounds; the same specification then "
                "accepts or rejects every recorded call of the real library (model-derived behaviours plus seeded random scripts "
                "with larger and odder objects), in exact rational arithmetic. Not a proof: code inputs outside those explored are not covered.")
ids = [json.loads(l)["id"] for l in open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"))]
checks = []
for i in ids:
    if i not in props.P:
        continue
    checks.append({
        "property": i,
        "quick_cmd": "python3 tools/check.py %s --tier quick" % i,
        "thorough_cmd": "python3 tools/check.py %s --tier thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": "TLA+ specification checked with TLC, traces of the real code validated against it",
        "level": "model_checking",
        "level_note": LEVEL_NOTE.get(i, DEFAULT_NOTE),
    })
na = NA + [{"property": i, "reason": "check under construction"} for i in ids if i not in props.P]
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
           "notes": "One entry point, tools/check.py; see DESIGN.md. No hooks in /repo: the driver uses the public interface."},
          open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w"), indent=1)
