#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist and the notes below."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
notes = json.load(open(os.path.join(here, "tools/notes.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(here, "harness/src/bin/%s.rs" % i.lower())) and i in notes:
        checks.append({"property": i, "quick_cmd": "./check.sh " + i, "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + i,
                       "evidence_file": "evidence/%s.json" % i, "technique": notes[i][0], "level": "model_checking", "level_note": notes[i][1]})
    else:
        na.append({"property": i, "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh",
     "checks": checks, "not_applicable": na,
     "notes": "All checks explore the real code of /repo (path dependency, rebuilt by check.sh); wasm-bindgen, js-sys the random source of ahash and, for schedule exploration, std's locks and atomics are replaced by stand-ins under stubs/. /repo contains no hooks."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not claimed")
