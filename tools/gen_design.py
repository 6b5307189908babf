"""DESIGN.md from tools/design.md (prose) and the plan (bounds of every scenario)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + "/tools")
import plan
props = {json.loads(l)["id"]: json.loads(l) for l in open(V + "/properties.jsonl")}
bugs = {}
for b in sorted(os.listdir(V + "/seeded")) if os.path.isdir(V + "/seeded") else []:
    m = json.load(open(V + "/seeded/%s/meta.json" % b)); bugs.setdefault(m["property"], []).append((b, m))
t = open(V + "/tools/design.md").read(); o = []
for line in t.split("\n"):
    if not line[:2] in ("@@", "%%"): o.append(line); continue
    p = line[2:].strip(); d = props[p]; pl = plan.PLAN.get(p)
    if line[:2] == "@@": o.append("### %s. %s\n" % (p, d["title"])); continue
    o.append("\n*Bounds%s*: %s.\n" % ("" if pl.get("js") else " (quick)", pl["level_note"]))
    for s in pl["quick"]: o.append("- `%s` (%s): %s" % (s.name, ",".join(map(str, s.params)), s.bounds))
    q = {tuple(s.params) for s in pl["quick"]}; more = [s for s in pl["thorough"] if tuple(s.params) not in q or any(x.params == s.params and x.preempt != s.preempt for x in pl["quick"])]
    if more: o.append("\n*Thorough adds*: " + "; ".join("`%s` (%s%s)" % (s.name, ",".join(map(str, s.params)), ", %d preemptions" % s.preempt if s.sched else "") for s in more) + ".")
    if pl["assumes"] and pl["assumes"] is not plan.SHAPES: o.append("\n*Assumed*: " + "; ".join(pl["assumes"]) + ".")
    if p in bugs: o.append("\n*Planted bugs*: " + "; ".join("`%s` (%s)%s" % (b, m["what_it_breaks"], "" if m.get("caught", True) else " — **missed**") for b, m in bugs[p]) + ".")
    o.append("")
open(V + "/DESIGN.md", "w").write("\n".join(o))
