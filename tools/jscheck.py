"""The checks of the npm package's scripts: js/run.js explores, js/native.js replays on the real script under the real Node."""
import json, os, re, shutil, subprocess, tempfile, time
import build, plan
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def native(script, f):
    p = subprocess.run(["node", V + "/js/native.js", build.REPO, script, f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
    t = p.stdout.decode(errors="replace"); m = re.search(r"REPRODUCED: (.*)", t)
    return ("reproduced: " + m.group(1)) if m and p.returncode == 1 else "ok" if p.returncode == 0 else "rc %d" % p.returncode, t

def replay(f):
    c = json.load(open(f)); r, t = native(c["script"], f); print(t); print(r); return 1 if r.startswith("reproduced") else 0

def main(prop, tier, known):
    t0 = time.time(); P = plan.PLAN[prop]; script = P["js"]
    ev_path = os.path.join(V, "evidence", prop + ".json"); rp = os.path.join(V, "evidence", prop + ".replay")
    os.makedirs(rp, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="qlc-js-check-")
    try:
        o = tmp + "/o.json"
        try: p = subprocess.run(["node", "--max-old-space-size=8000", V + "/js/run.js", build.REPO, script, tier, o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600 if tier == "quick" else 7200)
        except subprocess.TimeoutExpired: print("check: the exploration did not stop"); return 2
        if not os.path.exists(o): print("check: the exploration failed\n%s" % p.stdout.decode(errors="replace")[-1500:]); return 2
        d = json.load(open(o))
        kn = known(prop); new, quiet, refuted, done, n = [], [], [], {}, 0
        for v in d["violations"]:
            msg = v["message"]
            if done.get(msg, 0) < 0: continue
            n += 1; f = os.path.join(rp, "%d.json" % n); json.dump(dict(v, script=script), open(f, "w"), indent=1)
            r, t = native(script, f); open(f[:-5] + ".txt", "w").write("%s\n\n%s\n" % (msg, t))
            if r.startswith("reproduced"):
                hit = [k for k in kn if k[1] == msg]; done[msg] = -1
                if hit: quiet.append((hit[0], f))
                else: new.append((msg, f, r))
            else: done[msg] = done.get(msg, 0) + 1; refuted.append((msg, f, r))
        refuted = [x for x in refuted if done[x[0]] >= 0]
        shown, ok, mism, tr = [], 0, [], time.time()
        for s in d["samples"][:8 if tier == "quick" else 60]:
            if time.time() - tr > (20 if tier == "quick" else 200): break
            f = tmp + "/s.json"; json.dump(dict(s, expect=True), open(f, "w")); r, t = native(script, f); ok += r == "ok"
            if r != "ok": mism.append("%s replays as %s: %s" % (json.dumps([c for c in s["choices"] if c[1]])[:300], r, t.strip().split("\n")[-1][:200]))
            shown.append(dict(events=s["order"], model={k: x for k, x in s["model"].items() if not k.startswith("digest") and not k.startswith("pin")}, choices=[c for c in s["choices"] if c[1]], ends_with=s["ended"]["code"], native=r))
    finally: shutil.rmtree(tmp, ignore_errors=True)
    b = d["tier"]
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level="model_checking",
        coverage=dict(states=d["paths"], transitions=d["events"], traces_validated_against_impl=ok + len(new) + len(quiet), samples=shown or ["none"], exhaustive=d["exhausted"] and not d["errors"],
            explanation="the script of the current /repo, every operator and branch rewritten to act on symbolic values, executed against models of Node's modules; every branch on a symbolic value and every obligation decided by Z3. states = paths, transitions = events of the environment delivered.",
            bounds=dict(requests=b["requests"], injected_failures=b["faults"], out_of_order_deliveries=b["delays"]), script=d["script"], files=d["files"], functions_executed=sorted(set(d["functions"])), branches_rewritten=d["branches"], operators_rewritten=d["operators"],
            forks=d["forks"], obligations=d["asserts"], queries=d["queries"], sat=d["sat"], unsat=d["unsat"], unknown=d["unknown"], answered_from_cache=d["cached"], solver_s=round(d["solver_s"], 3), slowest_query_ms=d["max_query_ms"], solver=d["z3"],
            covers=d["covers"], unreached_covers=d["missing"], engine_errors=d["errors"], replay_mismatches=mism, counterexamples_refuted_by_replay=["%s (%s)" % (m, r) for m, f, r in refuted]),
        assumptions=P["assumes"], wall_s=round(time.time() - t0, 1), violations=len(new))
    json.dump(ev, open(ev_path, "w"), indent=1); open(ev_path, "a").write("\n")
    for k, f in quiet: print("KNOWN-FINDING: property=%s %s" % (prop, k[3]))
    for e in d["errors"][:10]: print("check: not explored: %s" % e[:400])
    for m in mism[:5]: print("check: warning: %s" % m)
    for m, f, r in refuted[:5]: print("check: warning: a counterexample of the model is refuted by the real script: %s (%s)" % (m, r))
    print("check: %s %s: %d paths, %d events, %d obligations, %d queries (%d unsat), %.1f s solver, %.1f s in all, %s" % (prop, tier, d["paths"], d["events"], d["asserts"], d["queries"], d["unsat"], d["solver_s"], time.time() - t0, "exhaustive within bounds" if ev["coverage"]["exhaustive"] else "NOT exhaustive (see evidence)"))
    if new:
        for msg, f, r in new[:5]: print("check: %s (%s)" % (msg, r[:300])); print("VIOLATION property=%s replay=%s" % (prop, f))
        return 1
    if d["missing"]:
        for m in d["missing"]: print("check: not reached: %s" % m)
        return 2
    return 0
