#!/usr/bin/env python3
"""check.py <ID> [quick|thorough]   decide one property by seeded simulation of the real nodes
   check.py replay <FILE>           re-execute a recorded violation (exit 1 if it occurs again)
   check.py setup                   build everything once
Exit 0: held on everything explored; 1: violation (line VIOLATION ...); 2: the check itself could not run."""
import json, os, re, shutil, subprocess, sys, tempfile, time
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "sim"))
import build
from props import CHECKS, REAL, STUB, RULE

def fail(msg): print("CHECK ERROR: " + msg); sys.exit(2)

def replay(path):
    kv = {}
    with open(path) as f:
        for l in f:
            if l.startswith("op "): break
            p = l.split(None, 1)
            if len(p) == 2: kv.setdefault(p[0], p[1].strip())
    b = build.Build("asan" if kv.get("asan") == "1" else "plain", [kv["node"]])
    if not b.ensure(): fail("build failed")
    r = subprocess.run([b.binary(kv["node"]), "replay", path], capture_output=True, text=True)
    print(r.stdout.strip())
    return r.returncode, "exact=1" in r.stdout

def search(pid, cfg, tier, seed):
    t0 = time.time(); th = tier == "thorough"
    variants = cfg.get("build", ["plain"])
    budget = cfg.get("thorough_s", 420) if th else cfg.get("quick_s", 24)
    cap = cfg.get("thorough_cases", 1000000) if th else cfg.get("quick_cases", 400)
    builds = {}
    for v in variants:
        b = build.Build(v, cfg["nodes"])
        if not b.ensure(): fail("build failed")
        builds[v] = b
    tBuild = time.time() - t0
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % pid); rdir = os.path.join(VERIF, "replay"); os.makedirs(rdir, exist_ok=True)
    total = {}; viol = []
    try:
        for v in variants:
            b = builds[v]; nodes = cfg["nodes"]; cores = int(os.environ.get("VERIF_JOBS", "8"))
            per = max(1, -(-cores // len(nodes))); procs = []
            for ni, n in enumerate(nodes):
                for w in range(per):
                    out = os.path.join(tmp, "%s-%s-%d.json" % (v, n, w))
                    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1", UBSAN_OPTIONS="halt_on_error=1:exitcode=77")
                    cmd = [b.binary(n), "search", pid, str(seed * 100000 + 1 + w), str(per), str(-(-cap // per)), str(budget / len(variants)), out, tmp, "1" if th else "0"]
                    procs.append((out, subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env), cmd))
            for out, p, cmd in procs:
                err = p.communicate()[1]
                if not os.path.exists(out): fail("%s: %s" % (" ".join(cmd), err.decode(errors="replace")[-500:]))
                d = json.load(open(out)); d["build"] = v
                total.setdefault("runs", []).append(d)
                if "violation" in d: viol.append((v, d))
        done = []
        for v, d in viol:
            f = d["violation"]["file"]; dst = os.path.join(rdir, os.path.basename(f)); shutil.copy(f, dst)
            r = subprocess.run([builds[v].binary(d["node"]), "replay", dst], capture_output=True, text=True)
            ok = r.returncode == 1 and "exact=1" in r.stdout
            done.append(dict(d["violation"], node=d["node"], build=v, file=dst, replayed_exactly=ok))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return total["runs"], done, tBuild, time.time() - t0

def known(pid):
    """Open findings: lines 'finding: property=<id> node=<node> class=<class> <text>'."""
    out = []
    for l in open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")):
        m = re.match(r"finding: property=(\S+) node=(\S+) class=(\S+) (.*)", l)
        if m and m.group(1) == pid: out.append(m.groups())
    return out

def main():
    a = sys.argv[1:]
    if not a: print(__doc__); return 2
    if a[0] == "replay":
        rc, _ = replay(a[1]); return rc
    if a[0] == "setup":
        ok = build.Build("plain", list(build.NODES)).ensure(); return 0 if ok else 2
    pid = a[0]; tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1); cfg = CHECKS[pid]
    runs, viol, tBuild, wall = search(pid, cfg, tier, seed)
    def msum(key):
        r = {}
        for d in runs:
            for k, v in d[key].items(): r[k] = max(r.get(k, 0), v) if k.startswith("max:") else r.get(k, 0) + v
        return {k: (int(v) if float(v).is_integer() else v) for k, v in sorted(r.items())}
    S = lambda k: sum(d[k] for d in runs)
    paths = set(p for d in runs for p in d["paths"]); cases = S("cases"); swall = max(d["wall"] for d in runs) if runs else 0
    swall = sum(max(d["wall"] for d in runs if d["build"] == v) for v in set(d["build"] for d in runs)) or 1e-9
    perNode = {}
    for d in runs:
        e = perNode.setdefault(d["node"], {"cases": 0, "judged": 0, "premise_not_met": 0}); e["cases"] += d["cases"]; e["judged"] += d["ok"] + d["bad"]; e["premise_not_met"] += d["skip"]
    real = [v for v in viol if v["replayed_exactly"]] or viol
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(wall, 1), "violations": len(real),
      "coverage": {
        "evaluations": cases, "distinct_nontrivial": S("okPaths"), "rule": RULE + " " + cfg["rule"],
        "samples": [s for d in runs for s in d.get("samples", [])][:6],
        "simulated_executions": S("execs"), "executions_per_hour": int(3600 * S("execs") / swall), "seeds_per_hour": int(3600 * cases / swall),
        "simulated_seconds": round(S("simSeconds"), 1), "operations_delivered": S("ops"), "judged": S("ok") + S("bad"), "premise_not_met": S("skip"), "premise_reasons": msum("skips"),
        "faults_injected": msum("faults"), "distinct_interleavings": len(paths), "interleaving_measure": "hash of the sequence of (message kind, arrival class relative to the newest IMU sample, fault mark) of a case",
        "determinism_rechecks": S("detChecked"), "determinism_mismatches": S("detBad"), "measures": msum("stat"), "per_node": perNode, "builds": sorted(set(d["build"] for d in runs)),
        "build_seconds": round(tBuild, 1), "real_code": cfg.get("real", REAL), "stubbed": STUB, "violation_details": viol[:4]}}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
    kn = known(pid); new = []
    for v in real:
        if any(k[1] in ("*", v["node"]) and k[2] == v["cls"] for k in kn): continue
        new.append(v)
    for k in kn: print("KNOWN-FINDING: property=%s %s" % (pid, k[3]))
    print("%s %s: %d cases (%d judged), %d executions, %.0f simulated seconds, %d interleavings, build %.0f s, total %.0f s" % (pid, tier, cases, S("ok") + S("bad"), S("execs"), S("simSeconds"), len(paths), tBuild, wall))
    for v in new:
        print("  node %s seed %d: %s [%d of %d operations remain, %s]" % (v["node"], v["seed"], v["what"], v["minOps"], v["ops"], "replay is exact" if v["replayed_exactly"] else "REPLAY DIFFERS"))
    if new:
        print("VIOLATION property=%s replay=%s" % (pid, new[0]["file"])); return 1
    return 0
if __name__ == "__main__": sys.exit(main())
