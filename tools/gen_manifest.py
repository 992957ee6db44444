"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {}
exec(open(os.path.join(HERE, "tools", "checks_table.py")).read())
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        lvl, tech, note = CHECKS[i]
        checks.append(dict(property=i, quick_cmd=f"/opt/venv/bin/python mc/run.py {i} --tier quick",
                           thorough_cmd=f"/opt/venv/bin/python mc/run.py {i} --tier thorough",
                           evidence_file=f"evidence/{i}.json", technique=tech, level=lvl, level_note=note))
    else:
        na.append(dict(property=i, reason="check not built yet"))
json.dump(dict(version=1, setup_cmd="/opt/venv/bin/python -c 'import numpy, scipy, numba, pandas, openpyxl'",
               checks=checks, not_applicable=na), open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
