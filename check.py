#!/usr/bin/env python3
"""check.py <property> [quick|thorough]       run the check of one property
check.py --replay <replay.json>              run one recorded choice sequence and print its trace
check.py --build-only                        compile everything once (used by setup_cmd)

Builds CAL from /repo/src with the harness of the property in a scratch
directory, explores, replays whatever failed, writes evidence/<property>.json.
Exit 0: property held on everything explored; exit 1 with a VIOLATION line otherwise."""
import sys, os, subprocess, json, tempfile, shutil, time, glob, concurrent.futures as cf, array
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("CAL_REPO", "/repo")
sys.path.insert(0, HERE)
from checks import CHECKS, VARIANTS, ASSUME

T0 = time.time()
NCPU = os.cpu_count() or 4

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", **kw)

class Build:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="calverif.")
        self.pool = cf.ThreadPoolExecutor(NCPU)
    def close(self):
        self.pool.shutdown(wait=False, cancel_futures=True)
        shutil.rmtree(self.dir, ignore_errors=True)
    def flags(self, variant):
        return ["-g", "-w", "-DCAL_VERIF", "-I", os.path.join(HERE, "harness"), "-I", os.path.join(REPO, "src")] + VARIANTS[variant]
    def build(self, needed):
        """needed: set of (harness, variant); returns dict -> binary"""
        jobs = []
        for v in sorted({v for _, v in needed}):
            os.makedirs(os.path.join(self.dir, v), exist_ok=True)
            srcs = sorted(glob.glob(os.path.join(REPO, "src", "*.c")))
            for s in srcs:
                o = os.path.join(self.dir, v, os.path.basename(s)[:-2] + ".o")
                jobs.append((["gcc", "-c", s, "-o", o] + self.flags(v), s))
        for h, v in sorted(needed):
            o = os.path.join(self.dir, v, h + ".hh.o")
            jobs.append((["g++", "-std=c++17", "-fno-access-control", "-c", os.path.join(HERE, "harness", h + ".cc"), "-o", o] + [f for f in self.flags(v) if "sanitize-coverage" not in f], h))
        for (cmd, what), r in zip(jobs, self.pool.map(lambda j: run(j[0]), jobs)):
            if r.returncode:
                print("build of %s failed:\n%s\n%s" % (what, " ".join(cmd), r.stderr[-3000:]))
                sys.exit(2)
        bins = {}
        def link(hv):
            h, v = hv
            b = os.path.join(self.dir, v, h)
            objs = [o for o in glob.glob(os.path.join(self.dir, v, "*.o")) if not o.endswith(".hh.o")]
            return hv, b, run(["g++", "-o", b, os.path.join(self.dir, v, h + ".hh.o")] + objs + self.flags(v) + ["-lm"])
        for hv, b, r in self.pool.map(link, sorted(needed)):
            if r.returncode:
                print("link failed: " + r.stderr[-3000:]); sys.exit(2)
            bins[hv] = b
        return bins

def job_cmd(binary, job, tier, seed, extra):
    c = [binary, "--scenario", job["scenario"], "--tier", tier, "--seed", str(seed), "--casetimeout", str(job.get("casetimeout", 30))]
    for k, v in job.get("params", {}).items(): c += ["--param", "%s=%d" % (k, v)]
    return c + extra

def env(stderr=False):
    e = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:handle_abort=0", TMPDIR=tempfile.gettempdir())
    e.pop("MC_NOASLR_TRIED", None)
    if stderr: e["MC_STDERR"] = "1"
    return e

def run_json(cmd, timeout, stderr=False):
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout, env=env(stderr))
    except subprocess.TimeoutExpired:
        return {"kind": "harness-timeout", "msg": "job exceeded its hard limit", "choices": []}
    try:
        d = json.loads(r.stdout.strip().splitlines()[-1])
        d["stderr"] = r.stderr[-3000:]
        return d
    except Exception:
        return {"kind": "harness-error", "msg": "no result (exit %d): %s" % (r.returncode, (r.stdout + r.stderr)[-1500:]), "choices": []}

BAD = ("fail", "crash", "exit", "timeout")

def known_findings(pid):
    """known_findings.jsonl: {"property":..., "signature":..., "what":...}; only these signatures are tolerated"""
    p = os.path.join(HERE, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#") and not l.startswith("fixed:"):
                d = json.loads(l)
                if d.get("property") == pid: out.append(d)
    return out

def expand(pid, tier):
    jobs = []
    for j in CHECKS[pid]["jobs"]:
        if "tiers" in j and tier not in j["tiers"]: continue
        j = dict(j)
        p = dict(j.get("params", {}))
        if tier == "thorough": p.update(j.get("thorough", {}))
        j["params"] = p
        j.setdefault("variant", "std")
        jobs.append(j)
    return jobs

def main():
    if len(sys.argv) >= 2 and sys.argv[1] == "--build-only":
        b = Build()
        try:
            b.build({(j["harness"], j.get("variant", "std")) for c in CHECKS.values() for j in c["jobs"]})
        finally: b.close()
        return 0
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        return replay_file(sys.argv[2])
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    hard = 420 if tier == "quick" else 6 * 3600          # stop starting work
    b = Build()
    try:
        return check(pid, tier, seed, t0, hard, b)
    finally:
        b.close()

def confirm(bins, job, tier, seed, res, shard):
    """replay a failing choice sequence: alone, then as part of the shard that found it"""
    binary = bins[(job["harness"], job["variant"])]
    ch = ",".join(map(str, res["choices"]))
    longjob = dict(job, casetimeout=120 if res["kind"] == "timeout" else max(60, job.get("casetimeout", 30)))
    kn = []
    for k in job.get("_known", []): kn += ["--known", k]
    for mode in (["--choices", ch], ["--choices", ch], ["--choices", ch, "--upto", "--shard", shard]):
        r = run_json(job_cmd(binary, longjob, tier, seed, mode + kn), max(30, T0 + (780 if tier == "quick" else 1e5) - time.time()), stderr=True)
        if r["kind"] in BAD:
            r["mode"] = mode[2:]
            return r
    return None

def check(pid, tier, seed, t0, hard, b):
    spec = CHECKS[pid]
    jobs = expand(pid, tier)
    bins = b.build({(j["harness"], j["variant"]) for j in jobs})
    built = time.time() - t0
    known = known_findings(pid)
    only = os.environ.get("MC_ONLY")
    if only: jobs = [j for j in jobs if j["scenario"] in only.split(",")]
    tasks = []
    for j in jobs:
        j["_known"] = [k["signature"] for k in known]
        n = j.get("shards", NCPU)
        for i in range(n): tasks.append((j, i, n))
    # interleave so that long scenarios start early
    tasks.sort(key=lambda t: (-t[0].get("weight", 1)))
    failures, results = [], []
    def work(t):
        j, i, n = t
        left = hard - (time.time() - t0)
        if failures or left <= 5: return t, None
        sf = os.path.join(b.dir, "states.%d.%d" % (id(j), i))
        extra = ["--shard", "%d/%d" % (i, n), "--budget", "%.0f" % min(left, j.get("budget", 1e6)), "--statefile", sf]
        for k in j["_known"]: extra += ["--known", k]
        return t, run_json(job_cmd(bins[(j["harness"], j["variant"])], j, tier, seed, extra), left + 120)
    violation = None
    notes = []
    futs = [b.pool.submit(work, t) for t in tasks]
    for fu in cf.as_completed(futs):
        t, r = fu.result()
        if r is None:
            nt = ("not run (a violation was found): %s" if failures else "not run (time): %s") % t[0]["scenario"]
            if nt not in notes: notes.append(nt)
            continue
        results.append((t, r))
        if r["kind"] in BAD and violation is None:
            j, i, n = t
            c = confirm(bins, j, tier, seed, r, "%d/%d" % (i, n))
            if c is None:
                notes.append("unreproducible: %s %s %s" % (j["scenario"], r["msg"], r["choices"]))
                if r["kind"] == "fail":   # an oracle mismatch was observed on the real code even though the replay differs
                    c = dict(r, mode=["unreproduced"])
            if c is not None:
                violation = (j, i, n, r, c); failures.append(1)
        elif r["kind"].startswith("harness"):
            notes.append("%s: %s" % (t[0]["scenario"], r["msg"]))
    # ---- evidence
    per = {}
    states = set(); scap = False
    for (j, i, n), r in results:
        d = per.setdefault((j["scenario"], j["variant"], json.dumps(j.get("params", {}), sort_keys=True)), dict(executions=0, transitions=0, checks=0, choicepoints=0, maxdepth=0, wall=0.0, complete=True, shards=0, known_hits=0, states=0))
        for k in ("executions", "transitions", "checks", "choicepoints", "known_hits"): d[k] += r.get(k, 0)
        d["maxdepth"] = max(d["maxdepth"], r.get("maxdepth", 0)); d["wall"] = round(d["wall"] + r.get("wall", 0), 1); d["shards"] += 1
        if not r.get("complete"): d["complete"] = False
        if r.get("states_capped"): scap = True
        sf = os.path.join(b.dir, "states.%d.%d" % (id(j), i))
        if os.path.exists(sf):
            a = array.array("Q"); 
            with open(sf, "rb") as f: a.frombytes(f.read())
            mine = {(hash((j["scenario"], x))) for x in a}
            d["states"] += len(mine - states); states |= mine
    tot = {k: sum(d[k] for d in per.values()) for k in ("executions", "transitions", "checks", "choicepoints", "known_hits")}
    exhaustive = bool(per) and all(d["complete"] for d in per.values()) and not any("not run" in x for x in notes) and not violation
    samples = []
    for (t, r) in results:
        for s in r.get("samples", []):
            if len(samples) < 12: samples.append("%s: %s" % (t[0]["scenario"], s))
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": len(states), "transitions": tot["transitions"], "traces_validated_against_impl": tot["executions"],
                       "samples": samples, "exhaustive": exhaustive, "oracle_checks": tot["checks"], "choice_points": tot["choicepoints"],
                       "states_note": "distinct abstract states (functions held by the live handles, order, associations, ...) reached and checked" + ("; recording was capped at 400000 per process" if scap else ""),
                       "traces_note": "complete choice sequences, each executed on the real library and compared with the reference model",
                       "scenarios": [dict(scenario=k[0], build=k[1], params=json.loads(k[2]), exhaustive_within_bounds=d.pop("complete"), **d) for k, d in sorted(per.items())],
                       "bounds": spec.get("bounds", ""), "notes": notes, "build_s": round(built, 1)},
          "assumptions": ASSUME + spec.get("assumptions", []),
          "wall_s": round(time.time() - t0, 1), "violations": 1 if violation else 0}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
    for d in sorted(per):
        pass
    print("%s %s: %d executions, %d operations, %d oracle checks, %d states, %s, %.0f s" % (pid, tier, tot["executions"], tot["transitions"], tot["checks"], len(states), "exhaustive within bounds" if exhaustive else "NOT exhaustive", time.time() - t0))
    for nme in notes: print("note: " + nme[:600])
    if os.environ.get("MC_VERBOSE"):
        for s in ev["coverage"]["scenarios"]: print("  ", s)
    seen = set()
    for (t, r) in results:
        for s in r.get("known", []): seen.add(s)
    if not violation:
        for k in known:
            if k["signature"] in seen: print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        if any(r["kind"].startswith("harness") for _, r in results):
            print("harness problem, see notes")
            return 2
        return 0
    j, i, n, r, c = violation
    rd = os.path.join(HERE, "replays"); os.makedirs(rd, exist_ok=True)
    path = os.path.join(rd, "%s-%s.json" % (pid, j["scenario"]))
    with open(path, "w") as f:
        json.dump({"property": pid, "harness": j["harness"], "variant": j["variant"], "scenario": j["scenario"], "params": j["params"], "tier": tier, "seed": seed,
                   "choices": r["choices"], "mode": c.get("mode"), "kind": c["kind"], "message": c["msg"], "trace": c.get("trace", "").splitlines(), "stderr": c.get("stderr", "")}, f, indent=1)
    print("scenario %s (%s): %s" % (j["scenario"], j["variant"], c["msg"][:1500]))
    tr = c.get("trace", "").splitlines()
    for l in tr[-25:]: print("   " + l)
    if c.get("stderr"): print("   stderr: " + c["stderr"][:1200])
    print("VIOLATION property=%s replay=%s" % (pid, path))
    return 1

def replay_file(path):
    d = json.load(open(path))
    b = Build()
    try:
        bins = b.build({(d["harness"], d["variant"])})
        mode = ["--choices", ",".join(map(str, d["choices"]))] + [m for m in (d.get("mode") or []) if m != "unreproduced"]
        r = run_json(job_cmd(bins[(d["harness"], d["variant"])], d, d["tier"], d["seed"], mode), 900, stderr=True)
        print(r["kind"], r["msg"]); print(r.get("trace", "")); print(r.get("stderr", ""))
        return 1 if r["kind"] in BAD else 0
    finally: b.close()

sys.exit(main())
