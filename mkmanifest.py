"""Regenerates MANIFEST.json from properties.jsonl and the files in checks/ (run by hand)."""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
exec(open(H + "/notes.py").read())
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(H + "/checks/chk_%s.py" % i) and i not in NOT_CLAIMED:
        checks.append(dict(property=i, quick_cmd="/opt/venv/bin/python run.py " + i,
                           thorough_cmd="VERIF_TIER=thorough /opt/venv/bin/python run.py " + i,
                           evidence_file="evidence/%s.json" % i,
                           technique="symbolic execution of the real Python source, obligations decided by z3 (SMT), counterexamples replayed on the real code",
                           level="model_checking", level_note=NOTE.get(i, "") + COMMON))
    else:
        na.append(dict(property=i, reason=NOT_CLAIMED.get(i, "no check built yet")))
json.dump(dict(version=1, setup_cmd="/opt/venv/bin/python setup_check.py", checks=checks, not_applicable=na,
               notes="No hooks were added to /repo; every check executes /repo/src as it is on disk."),
          open(H + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not claimed:", [x["property"] for x in na])
