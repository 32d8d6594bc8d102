"""Regenerates DESIGN.md from design_head.md, properties.jsonl, the harnesses, known_findings.json and seeded/ (run by hand with python3-vt)."""
import json, os, sys, importlib.util, glob
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H)
sys.path.insert(0, H + "/checks")
from symex import harness as hm
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
man = json.load(open(H + "/MANIFEST.json"))
known = json.load(open(H + "/known_findings.json"))
na = {x["property"]: x["reason"] for x in man["not_applicable"]}
out = [open(H + "/design_head.md").read()]
exec(open(H + "/design_notes.py").read())
tot = 0
for p in props:
    i = p["id"]
    out.append("\n### %s — %s\n" % (i, p["title"]))
    out.append(p["statement"] + "\n")
    if i in na:
        out.append("Not claimed: %s\n" % na[i])
        continue
    hm.REG.clear()
    spec = importlib.util.spec_from_file_location("chk_x" + i, H + "/checks/chk_%s.py" % i)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    if i in SPECIFIC:
        out.append(SPECIFIC[i] + "\n")
    g = {}
    for r in hm.REG:
        g.setdefault(r.name.split("/")[0], []).append(r)
    out.append("Decided by `checks/chk_%s.py` (%s). Harness: symbolic range; number of structural cases quick / thorough:\n" % (i, (m.__doc__ or "").strip().split("\n")[0]))
    for b, rs in g.items():
        if b.startswith("_"):
            continue
        q = sum(r.tier == "quick" for r in rs)
        tot += len(rs)
        out.append("- `%s`: %s; %d / %d" % (b, rs[0].bounds or "as in the file", q, len(rs)))
    out.append("")
out.append("\n## Defects found and repaired\n\nEach is a `fix:` commit in /repo and an entry in `known_findings.json`; a fixed entry suppresses nothing.\n")
for k in known:
    w = k["what"]
    out.append("- %s" % w)
out.append("\n## Planted bugs\n\nAll are in `seeded/`; each was confirmed in a scratch copy to pass the stable tests and to fail its demonstration. Every one listed is caught by the quick check of its own property on the present machinery; those marked * were missed when planted and led to the strengthening described.\n")
for d in sorted(glob.glob(H + "/seeded/*/meta.json")):
    s = d.split("/")[-2]
    j = json.load(open(d))
    out.append("- %s%s (%s): %s. Needs: %s.%s" % ("*" if s in MISSED else "", s, j["property"], j["what_it_breaks"].rstrip("."), j["needs"].rstrip("."), (" " + MISSED[s]) if s in MISSED else ""))
open(H + "/DESIGN.md", "w").write("\n".join(out) + "\n")
print(len(props), "properties", tot, "structural cases")
