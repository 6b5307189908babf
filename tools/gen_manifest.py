"""MANIFEST.json from the plan; every property without a plan needs a reason here."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + "/tools")
import plan
NA = {}
LL = "symbolic execution of the program's LLVM IR with Z3 over an in-memory file system, differential against a reference model, counterexamples replayed on the real binary"
JS = "symbolic execution of the Node script (its operators and branches rewritten to act on symbolic values) with Z3 against models of Node's modules, every order of completions within bounds, counterexamples replayed on the real script"
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks = [dict(property=p, quick_cmd="./check %s quick" % p, thorough_cmd="./check %s thorough" % p, evidence_file="evidence/%s.json" % p,
    technique=JS if plan.PLAN[p].get("js") else LL,
    level="model_checking", level_note="bounded: " + plan.PLAN[p]["level_note"] + ". " + ("Every path of the whole script within them; nothing is claimed outside. Trusts the rewriting of the script, the models of Node's modules and Z3." if plan.PLAN[p].get("js") else "Every path of the whole program within the scenarios' bounds (evidence lists them; quick uses the smaller ones); nothing is claimed outside. Trusts the IR interpreter, the std/thread/file-system models and Z3.")) for p in ids if p in plan.PLAN]
na = [dict(property=p, reason=NA.get(p, "check under construction")) for p in ids if p not in plan.PLAN]
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na, notes="./check <id> quick|thorough; ./check --replay <choices file> repeats a counterexample on the real binary"), open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
