#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json
from checks import CHECKS
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
m = {
    "version": 1,
    "setup_cmd": "python3 setup_check.py",
    "checks": [dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
                    technique=CHECKS[i]["technique"], level=CHECKS[i]["level"], level_note=CHECKS[i]["note"]) for i in ids if i in CHECKS],
    "not_applicable": [dict(property=i, reason="check not built yet") for i in ids if i not in CHECKS],
    "notes": "No hooks in /repo: the seams are the HTTP library (a stand-in header), libc entry points (file, clock, thread calls) interposed by the harness executables, and compiler instrumentation. See DESIGN.md.",
}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
open("/verif/MANIFEST.json", "a").write("\n")
