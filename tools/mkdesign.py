"""DESIGN.md = head + one section per property (from the check modules and evidence) + tail"""
import importlib.util, json, os, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT + "/checks", ROOT + "/engine", ROOT]
out = [open(ROOT + "/tools/design_head.md").read()]
na = json.load(open(ROOT + "/tools/na.json"))
for line in open(ROOT + "/properties.jsonl"):
    p = json.loads(line)
    i = p["id"]
    out.append("### %s %s\n" % (i, p["title"]))
    f = ROOT + "/checks/%s.py" % i.lower()
    if i in na or not os.path.exists(f):
        out.append("Not decided: %s\n" % na.get(i, "no static rule built yet for this property"))
        continue
    spec = importlib.util.spec_from_file_location(i.lower(), f)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    out.append(" ".join(m.EXPLAIN.split()) + "\n")
    out.append("\n".join("* " + r for r in m.RULES) + "\n")
out.append(open(ROOT + "/tools/design_tail.md").read())
open(ROOT + "/DESIGN.md", "w").write("\n".join(out))
