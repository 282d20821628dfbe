#!/usr/bin/env python3
"""run.py Cxx            decide property Cxx on /repo's working tree (VERIF_TIER=quick|thorough)
   run.py --setup        build everything once
   run.py --replay FILE  re-execute a recorded violation, step by step
   run.py --list [Cxx]   print the jobs of a property"""
import fcntl, hashlib, json, os, re, shlex, shutil, signal, subprocess, sys, threading, time
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("REPO", "/repo")
sys.path.insert(0, os.path.join(V, "mc"))
import jobs as J

TIER = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
NPROC = int(os.environ.get("VERIF_PROCS", "0") or 0) or min(8, os.cpu_count() or 1)
HARD = 780 if TIER == "quick" else 36000


def tree_hash():
    h = hashlib.sha256()
    files = []
    for base in (os.path.join(REPO, "src"), os.path.join(REPO, "lib"), os.path.join(REPO, "amalgamation"), os.path.join(V, "mc")):
        for d, ds, fs in os.walk(base):
            ds[:] = sorted(x for x in ds if x not in (".git", "__pycache__"))
            files += [os.path.join(d, f) for f in sorted(fs) if f.endswith((".c", ".h", ".cpp", ".inc", ".sh", ".hpp")) or f == "amalgamation.py"]
    for f in files:
        h.update(f.encode() + b"\0")
        try:
            h.update(open(f, "rb").read())
        except OSError:
            pass
        h.update(b"\0")
    return h.hexdigest()[:20]


def build(bins):
    """Builds the needed programs from the current tree; returns their directory."""
    root = os.path.join(V, "build")
    os.makedirs(root, exist_ok=True)
    out = os.path.join(root, tree_hash())
    with open(os.path.join(root, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        need = [b for b in bins if not os.path.exists(os.path.join(out, b + ".ok"))]
        if need:
            old = sorted((d for d in os.listdir(root) if len(d) == 20 and os.path.join(root, d) != out), key=lambda d: os.path.getmtime(os.path.join(root, d)))
            for d in old[:-2]:
                shutil.rmtree(os.path.join(root, d), ignore_errors=True)
            os.makedirs(out, exist_ok=True)
            r = subprocess.run([os.path.join(V, "mc", "build.sh"), out] + need, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, REPO=REPO))
            if r.returncode and all(b.endswith("-amalg") for b in need):
                return "the amalgamation of the current sources cannot be made or does not build: " + r.stdout[-600:]
            if r.returncode:
                print(r.stdout[-4000:])
                print("CHECK-ERROR: the code under test or the harness does not compile")
                sys.exit(2)
            for b in need:
                open(os.path.join(out, b + ".ok"), "w").close()
    return out


def program(out, b):
    if b in ("pair", "pairA", "amalg"):      # pair: runs an explorer on two builds and compares
        return [sys.executable, os.path.join(V, "mc", b.rstrip("A") + ".py"), out]
    return [os.path.join(out, b)]


def needs(bins):
    return sorted({x for b in bins for x in J.NEEDS.get(b, [b])})


class Runner:
    def __init__(self, prop, out):
        self.prop, self.out, self.lock = prop, out, threading.Lock()
        self.procs, self.results, self.viol, self.stop, self.errors = set(), [], [], False, []

    def one(self, job):
        b, args = job["bin"], job["args"]
        cmd = program(self.out, b) + shlex.split(args)
        if not any(c.startswith("prop=") for c in cmd):
            cmd.append("prop=" + self.prop)
        t = time.time()
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True, cwd=self.out)
        with self.lock:
            self.procs.add(p)
        try:
            so, se = p.communicate(timeout=job.get("timeout", HARD))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            so, se = p.communicate()
        with self.lock:
            self.procs.discard(p)
            if self.stop:
                return
            line = so.strip().splitlines()[-1] if so.strip() else ""
            try:
                r = json.loads(line)
            except ValueError:
                dead = (p.returncode < 0 and p.returncode != -9) or "FATAL" in se
                if dead and not job.get("again"):      # the code under test destroyed the explorer: re-run before reporting
                    again = True
                elif dead:
                    self.viol.append({"violation": "the code under test corrupted memory outside its buffers: the explorer died twice (exit %s %s)" % (p.returncode, se[-200:]), "path": "", "job": {k: v for k, v in job.items() if k != "again"}, "wall_job": time.time() - t})
                    return
                else:
                    again = False
                if again:
                    self.todo.insert(0, dict(job, again=1))
                    return
                self.errors.append("%s %s: exit %s %s %s" % (b, args, p.returncode, line[-300:], se[-300:]))
                return
            r["job"] = job
            r["wall_job"] = time.time() - t
            self.results.append(r)
            if r.get("violation"):
                self.viol.append(r)

    def run(self, jobs):
        todo = self.todo = list(jobs)
        end = time.time() + HARD
        cv = threading.Lock()

        def worker():
            while True:
                with cv:
                    if not todo or self.stop or self.viol or time.time() > end:
                        return
                    j = todo.pop(0)
                self.one(j)
        th = [threading.Thread(target=worker) for _ in range(NPROC)]
        for t in th:
            t.start()
        while any(t.is_alive() for t in th):
            time.sleep(0.05)
            if self.viol or time.time() > end:
                with self.lock:
                    self.stop = True
                    for p in list(self.procs):
                        try:
                            os.killpg(p.pid, signal.SIGKILL)
                        except OSError:
                            pass
        for t in th:
            t.join()
        self.left = todo


def known(prop):
    f = os.path.join(V, "known-findings.json")
    k = json.load(open(f)) if os.path.exists(f) else {"findings": []}
    return [x for x in k.get("findings", []) if x["property"] == prop]


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        nd = needs(J.all_bins())
        o = build([b for b in nd if not b.endswith("-amalg")])
        print("built", o, build([b for b in nd if b.endswith("-amalg")]))
        return 0
    if a and a[0] == "--replay":
        r = json.load(open(a[1]))
        nd = needs([r["job"]["bin"]])
        o = build([b for b in nd if not b.endswith("-amalg")])
        if any(b.endswith("-amalg") for b in nd):
            o = build([b for b in nd if b.endswith("-amalg")])
        cmd = program(o, r["job"]["bin"]) + shlex.split(r["job"]["args"]) + ["replay=" + r["path"]]
        print(" ".join(shlex.quote(c) for c in cmd), flush=True)
        return subprocess.call(cmd, cwd=o)
    if a and a[0] == "--list":
        for p in ([a[1]] if len(a) > 1 else J.properties()):
            for j in J.jobs(p, TIER):
                print(p, j["bin"], j["args"])
        return 0
    prop = a[0]
    if prop not in J.properties():
        print("unknown property", prop)
        return 2
    t0 = time.time()
    js = J.jobs(prop, TIER)
    if os.environ.get("JOBFILTER"):
        js = [j for j in js if re.search(os.environ["JOBFILTER"], j["bin"] + " " + j["args"])]
    nd = needs({j["bin"] for j in js})
    out = build([b for b in nd if not b.endswith("-amalg")])
    am = build([b for b in nd if b.endswith("-amalg")]) if any(b.endswith("-amalg") for b in nd) else out
    tb = time.time()
    r = Runner(prop, out)
    r.run([j for j in js if am == out or j["bin"] != "pairA"])
    if am != out:
        r.viol.append({"violation": am, "path": "", "job": {"bin": "pairA", "args": "build"}, "wall_job": 0})
    rs = r.results
    num = lambda k: sum(int(x.get(k, 0)) for x in rs)
    samples = []
    for x in sorted(rs, key=lambda x: -int(x.get("transitions", 0)))[:6]:
        for s in x.get("samples", [])[:2]:
            samples.append({"program": x["job"]["bin"], "config": x["job"]["args"], "history": s})
    capped = [x["job"]["bin"] + " " + x["job"]["args"] for x in rs if x.get("capped")]
    errs = list(r.errors) + (["not run: %s %s" % (j["bin"], j["args"]) for j in r.left] if not r.viol else [])
    viol, rep = [], []
    kn = known(prop)
    for x in r.viol:
        m = [k for k in kn if k["job"] == x["job"]["args"] and k["path"] == x.get("path", "")]
        (rep if m else viol).append(x)
    extra = {k: num(k) for k in ("observations", "api_calls", "crash_points", "recoveries", "faults", "faults_reported", "found", "absent", "iterations", "var_exact", "var_lost", "schedules", "exchanged") if num(k)}
    cov = {"states": num("states"), "transitions": num("transitions"),
           # every explored transition is an execution of the implementation itself, compared with the reference model
           "traces_validated_against_impl": num("transitions"),
           "samples": samples[:8] or ["none"], "exhaustive": not capped and not errs and not viol,
           "programs_run": len(rs), "configurations": [x["job"]["bin"] + " " + x["job"]["args"] for x in rs], "capped_configurations": capped,
           "slowest": [[round(x["wall_job"], 1), x["job"]["bin"], x["job"]["args"]] for x in sorted(rs, key=lambda x: -x["wall_job"])[:5]]}
    cov.update(extra)
    ev = {"property": prop, "tier": TIER, "seed": SEED, "level": "model_checking", "coverage": cov,
          "assumptions": J.ASSUMPTIONS, "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    rp = os.path.join(V, "evidence", prop + ".replay.json")
    if os.path.exists(rp):
        os.unlink(rp)
    print("%s %s: %d jobs, %d states, %d transitions, %d observations%s, build %.1fs, total %.1fs" % (
        prop, TIER, len(rs), cov["states"], cov["transitions"], num("observations"), ", capped: %d" % len(capped) if capped else "", tb - t0, time.time() - t0))
    for k in kn:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if viol:
        x = viol[0]
        json.dump({"property": prop, "job": x["job"], "path": x.get("path", ""), "violation": x["violation"]}, open(rp, "w"), indent=1)
        print("  %s %s" % (x["job"]["bin"], x["job"]["args"]))
        print("  history: %s" % x.get("path", ""))
        print("  %s" % x["violation"])
        if x["job"].get("replayable", True) and x.get("path"):
            c = subprocess.run(program(out, x["job"]["bin"]) + shlex.split(x["job"]["args"]) + ["replay=" + x.get("path", ""), "verbose=0"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120, cwd=out)
            print("  replay: %s" % (c.stdout.strip().splitlines() or ["?"])[-1][:300])
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    if errs:
        for e in errs[:10]:
            print("CHECK-ERROR", e)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
