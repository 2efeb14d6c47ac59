#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from plan import PLAN
ids = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
m = dict(version=1, setup_cmd="python3 check.py --setup",
         checks=[dict(property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"python3 check.py {i} --thorough", evidence_file=f"evidence/{i}.json",
                      technique=PLAN[i]["technique"], level="exploration", level_note=PLAN[i]["note"]) for i in ids if i in PLAN],
         not_applicable=[dict(property=i, reason="check still being built") for i in ids if i not in PLAN],
         notes="no hooks are needed in /repo: everything is observed through the public API, a monitoring global allocator, and sanitizer/Miri builds of the unmodified crate")
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
