#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from properties.jsonl and bin/config.py."""
import json, sys
sys.path.insert(0, "/verif/bin")
import config
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
checks = []
for p in props:
    i = p["id"]
    if i in config.NOT_APPLICABLE: continue
    checks.append({"property": i, "quick_cmd": "bin/check %s --tier quick" % i, "thorough_cmd": "bin/check %s --tier thorough" % i,
        "evidence_file": "evidence/%s.json" % i, "technique": config.TECHNIQUE(i), "level": config.LEVEL(i), "level_note": config.NOTE(i)})
m = {"version": 1, "setup_cmd": "bin/check --build dex", "hooks": {"guard": "none", "enable": "no hooks: the harness crates use only the public interfaces of the crates in /repo", "source_commits": []},
     "checks": checks, "not_applicable": [{"property": k, "reason": v} for k, v in config.NOT_APPLICABLE.items()],
     "notes": "bin/check rebuilds the harness crates in /verif/harness against /repo's working tree; see DESIGN.md."}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
