#!/usr/bin/env python3
"""writes MANIFEST.json from vlib/spec.py and properties.jsonl"""
import json, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import spec
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks = []
for p in props:
    if p in spec.CHECKS:
        c = spec.CHECKS[p]
        checks.append({"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p, "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                       "technique": c["technique"], "level": "model_checking", "level_note": c["note"]})
na = [{"property": p, "reason": spec.NOT_APPLICABLE.get(p, "check not built yet")} for p in props if p not in spec.CHECKS]
json.dump({"version": 1, "setup_cmd": "python3 vlib/setup.py",
           "hooks": {"guard": "DBUS_ASIO_VERIFICATION", "enable": "the checks compile /repo/src with -DDBUS_ASIO_VERIFICATION (vlib/build.py)", "source_commits": ["66b1ee7"]}, "checks": checks, "not_applicable": na}, open(V + "/MANIFEST.json", "w"), indent=1)
