"""Runs the steps of one check, aggregates their statistics, writes the evidence file."""
import json, os, re, shutil, subprocess, sys, time
from lib.build import build_all, BuildError, VERIF

KINDS = {1: "result", 2: "crash", 4: "livelock", 8: "memory", 16: "leak", 32: "lock"}
SUM = ["scenarios", "ok", "violations", "skipped", "capped", "single_outcome", "states", "transitions", "executions",
       "complete_executions", "pruned_executions", "terminal_states", "outcomes", "accesses", "racy_words", "restarts"]

def load_known():
    """known-findings.txt: `finding: property=<id> match=<regex on "step|scenario|message"> what=<text>`;
    `fixed:` lines are records only."""
    res = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) match=(\S+) what=(.*)", line.strip())
            if m:
                res.append((m.group(1), re.compile(m.group(2)), m.group(3)))
    return res

def run_step(bins, step, outdir, i):
    """-> (json or None, return code, stderr tail, cmd)"""
    name, args, cap = step["bin"], step["args"], step["cap"]
    out = os.path.join(outdir, "out.%d.json" % i)
    if os.path.exists(out):
        os.remove(out)
    cmd = [bins[name]] + args + ["--out", out, "--max-seconds", str(cap)]
    t0 = time.time()
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                           timeout=cap + 150, cwd=outdir)
        rc, err = r.returncode, r.stderr
    except subprocess.TimeoutExpired as e:
        rc, err = 124, "timed out after %ds" % (cap + 150)
        subprocess.run(["pkill", "-9", "-f", bins[name]])
    js = None
    if os.path.exists(out):
        try:
            js = json.load(open(out))
        except ValueError:
            pass
    return js, rc, err[-3000:], cmd, time.time() - t0

def main(pid, spec, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    outdir = os.path.join(VERIF, "build", pid)
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir)
    steps = spec["steps"][tier]
    need = {s["bin"] for s in steps}
    try:
        bins = build_all([b for b in spec["builds"] if b[0] in need], outdir)
    except BuildError as e:
        print("check %s: build failed\n%s" % (pid, e))
        return 2
    t_build = time.time() - t0
    known = load_known()
    def is_known(st, v):
        key = "%s|%s|%s" % (st["name"], v["scenario"], v["message"])
        return any(k[0] == pid and k[1].search(key) for k in known)
    cov = {k: 0 for k in SUM}
    per_step, samples, viols = [], [], []
    exhaustive = True
    for i, st in enumerate(steps):
        js, rc, err, cmd, secs = run_step(bins, st, outdir, i)
        if js is None or rc not in (0, 1):
            print("check %s: step %s ended abnormally (rc=%s), running it again\n%s" % (pid, st["name"], rc, err[-800:]))
            js2, rc2, err2, cmd, s2 = run_step(bins, st, outdir, i)
            secs += s2
            if js2 is None or rc2 not in (0, 1):
                viols.append((st, {"scenario": "-", "kind": 2, "message": "the harness process died twice in a row: rc=%s %s" % (rc2, err2[-600:]), "schedule": ""}, cmd))
                js = js2
            else:
                js, rc, err = js2, rc2, err2
        if js is None:
            continue
        for k in SUM:
            cov[k] += int(js.get(k, 0))
        if js.get("skipped") or js.get("capped"):
            exhaustive = False
        per_step.append(dict(step=st["name"], what=st["what"], wall_s=round(secs, 1), args=" ".join(st["args"]),
                             **{k: js.get(k, 0) for k in ("scenarios", "ok", "skipped", "capped", "states", "transitions", "executions", "terminal_states", "outcomes", "single_outcome")}))
        for k, v in js.get("extra", {}).items():
            per_step[-1][k] = v
        for s in js.get("samples", [])[:3]:
            samples.append(dict(step=st["name"], **s))
        for v in js.get("viol", []):
            viols.append((st, v, cmd))
        if tier == "quick" and any(not is_known(st2, v) for st2, v, _ in viols):
            break
    fresh, seen = [], set()
    for st, v, cmd in viols:
        key = "%s|%s|%s" % (st["name"], v["scenario"], v["message"])
        hit = next((k for k in known if k[0] == pid and k[1].search(key)), None)
        if hit:
            if hit[2] not in seen:
                seen.add(hit[2])
                print("KNOWN-FINDING: property=%s %s" % (pid, hit[2]))
        else:
            fresh.append((st, v, cmd))
    wall = time.time() - t0
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": dict(states=cov["states"], transitions=cov["transitions"],
                         traces_validated_against_impl=cov["complete_executions"],
                         exhaustive=exhaustive and not viols, samples=samples[:12], steps=per_step,
                         build_s=round(t_build, 1),
                         **{k: cov[k] for k in SUM if k not in ("states", "transitions", "complete_executions")}),
        "assumptions": spec["assumptions"], "wall_s": round(wall, 1), "violations": len(fresh),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    if fresh:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        rp = os.path.join(VERIF, "replays", pid + ".json")
        with open(rp, "w") as f:
            json.dump([dict(step=st["name"], scenario=v["scenario"], kind=KINDS.get(v["kind"], v["kind"]), message=v["message"], schedule=v.get("schedule", ""),
                            replay=" ".join(cmd[:1] + [a for a in st["args"]] + ["--only", "'%s'" % v["scenario"]])) for st, v, cmd in fresh], f, indent=1)
        for st, v, cmd in fresh[:4]:
            print("  [%s] %s: %s: %s" % (st["name"], v["scenario"], KINDS.get(v["kind"], v["kind"]), v["message"][:600]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
    print("check %s %s: %d scenarios, %d states, %d executions, %d skipped, %d capped, %d violation(s), %.1fs" % (
        pid, tier, cov["scenarios"], cov["states"], cov["executions"], cov["skipped"], cov["capped"], len(fresh), wall))
    return 1 if fresh else 0
