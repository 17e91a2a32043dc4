#!/usr/bin/env python3
"""MANIFEST.json from the checks that exist"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
T = "TLA+/TLC: "
NOTE = {
"M01": ("definition of the Freudenthal subdivision, exhaustively model-checked on small boxes; recorded enumerations, sides, cofaces, scopes validated against it",
        "all unit simplices of every dimension 2..4 and all relations are covered (translation invariant); boxes and sub-boxes are sampled; assumes trackers filter with valid()"),
"M02": ("recorded identifier histories validated against a bijection specification", "every element of small meshes, sampled elements of meshes with > 2^32 identifiers"),
"M04": ("cutting state machine model-checked; recorded partitions validated against the tiling specification", "all 2D shapes up to 8x8 with up to 12 processes, sampled shapes/divisions/ghosts in 1..4 dimensions"),
}
NA = {
"N01": "accuracy of floating-point solvers over the reals: TLA+ has no real or floating-point arithmetic; the guide itself names numeric accuracy as out of reach of the technique",
"N02": "memory safety of every access is not expressible as a state property of an abstract specification; sanitizers, not TLA+, decide it",
}
try:
    from manifest_notes import NOTES
    NOTE.update(NOTES)
except ImportError:
    pass
checks, na = [], []
for i in ids:
    if os.path.exists("%s/checks/%s.py" % (V, i)) and i in NOTE:
        tech, note = NOTE[i]
        checks.append(dict(property=i, quick_cmd="bin/run %s --tier quick" % i, thorough_cmd="bin/run %s --tier thorough" % i,
                           technique=T + tech, level="model_checking", level_note=note, evidence_file="evidence/%s.json" % i))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="bin/setup",
         hooks=dict(guard="FTK_VERIF_HOOKS", enable="no hooks are needed: harnesses compile /repo/include and observe the public API", source_commits=[]),
         checks=checks, not_applicable=na,
         notes="TLA+ specifications in spec/, harnesses in harness/, one driver per property in checks/; see DESIGN.md")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks")
