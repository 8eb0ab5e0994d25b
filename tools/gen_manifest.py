#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the registry."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from registry import PROPS
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    q = json.loads(line)
    i = q["id"]
    p = PROPS.get(i)
    if not p:
        na.append(dict(property=i, reason="no check registered yet"))
        continue
    checks.append(dict(property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
                       technique=p.get("technique", "runtime monitoring: reference-model oracle over generated workloads, built with ASan+UBSan, MSan and guard pages"),
                       level="exploration",
                       level_note=p.get("note", "Held on the executions observed (counts in the evidence file), on this machine's gcc/clang and glibc; unexplored inputs are not covered. Trusts the reference model in the harness and the sanitizer runtimes.")))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
               notes="One driver, check.py; each check rebuilds the library from /repo in a temporary directory. No hooks in /repo: everything is observed at the API boundary and by instrumented builds."),
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
