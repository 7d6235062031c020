#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and props.py."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import NOT_APPLICABLE, PROPS  # noqa: E402

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(x)["id"] for x in open(os.path.join(VERIF, "properties.jsonl"))]
checks = []
na = []
for i in ids:
    if i in PROPS:
        c = PROPS[i]
        checks.append(dict(property=i, quick_cmd="python3 tools/check.py %s --tier quick" % i,
                           thorough_cmd="python3 tools/check.py %s --tier thorough" % i,
                           technique=c["technique"], level="exploration", level_note=c["note"]))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="python3 tools/vbuild.py plain san", checks=checks, not_applicable=na,
         notes="Every check rebuilds the harness and the sources of /repo it needs (cached by content hash in "
               "/verif/build); no hooks in /repo are needed: clauses and decisions are observed by interposing "
               "functions of the clingo library in the harness.")
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
