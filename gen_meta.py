#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from vf/props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf.props import P
NA = []
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "state": p["state"],
                        "mechanism": [{"name": a, "where": b} for a, b in p["mechanism"]],
                        "observe_at": p["observe"], "hook_needed": None}}, ensure_ascii=False) + "\n")
man = {
    "version": 1,
    "setup_cmd": "python3 -m compileall -q vf check.py",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "python3 check.py %s quick" % p["id"],
        "thorough_cmd": "python3 check.py %s thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": p["technique"], "level": "exploration", "level_note": p["note"]} for p in P],
    "not_applicable": NA,
    "notes": "All checks build the drivers they need from /repo's current tree under AddressSanitizer and UndefinedBehaviorSanitizer and decide by monitors over the recorded executions. No hooks are needed in /repo: every monitored effect is observable through the public interface.",
}
json.dump(man, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
