#!/usr/bin/env python3
"""hand.py OUT WORKERS [REGEX]: development aid. Applies hand-written semantic mutants (hand_mutants.py) one by one to scratch
copies of /repo, keeps those that compile and pass the repository's tests, and runs the quick source jobs of the named
properties on them. Not part of any check."""
import sys, os, re, json, threading, time, shutil, subprocess
OUT, WORK = sys.argv[1], int(sys.argv[2]); PAT = sys.argv[3] if len(sys.argv) > 3 else "."
sys.argv = ["mutate.py", OUT, "0", "1", str(WORK), "1000"]
sys.path.insert(0, "/verif/tools/dev")
import mutate as M, jobs as J
from hand_mutants import MUT
F = {"E": "src/embedDB/embedDB.c", "S": "src/spline/spline.c", "A": "src/query-interface/advancedQueries.c", "H": "src/query-interface/schema.c",
     "U": "lib/EmbedDB-Utility/embedDBUtility.c", "D": "lib/Desktop-File-Interface/desktopFileInterface.c", "SD": "lib/SD-File-Interface/SDFileInterface.c",
     "DF": "lib/Dataflash-File-Interface/dataflashFileInterface.c", "EH": "src/embedDB/embedDB.h"}
M.BASE = "/tmp/hand"; os.makedirs(M.BASE, exist_ok=True)
BINS = M.BINS + ["explorel-src"]
todo = [m for m in MUT if re.search(PAT, m[0])]
bad = 0; ok = []
for m in todo:
    t = open("/repo/" + F[m[1]]).read()
    good = True
    for a, b in zip(m[2][::2], m[2][1::2]):
        if t.count(a) != 1: print("ANCHOR", m[0], t.count(a), repr(a[:60])); good = False; break
        t = t.replace(a, b)
    if good: ok.append(m)
todo = ok
done = set()
if os.path.exists(OUT): done = {json.loads(l)["name"] for l in open(OUT)}
todo = [m for m in todo if m[0] not in done]
print(len(todo), "to do", flush=True)
if not todo: sys.exit()
c, o = M.sh(["/verif/mc/build.sh", M.BASE + "/base"] + BINS, 400); assert c == 0, o
times = json.load(open("/tmp/mut/times.json")) if os.path.exists("/tmp/mut/times.json") else {}
lock = threading.Lock()
def jobsof(p):
    js = [dict(j, p=p) for j in J.Q[p] if j["bin"].endswith("-src")]
    for j in js: j["t"] = times.get(j["bin"] + " " + j["args"], 8)
    return sorted(js, key=lambda j: j["t"])
def work(w):
    d = M.setup("h%d" % w)
    while True:
        with lock:
            if not todo: break
            m = todo.pop(0)
        name, f, ch, props = m[:4]; props = os.environ.get("PROPS", props); path = d + "/repo/" + F[f]
        orig = open("/repo/" + F[f]).read(); t = orig
        for a, b in zip(ch[::2], ch[1::2]): t = t.replace(a, b)
        open(path, "w").write(t)
        rec = {"name": name, "props": props}
        k = M.tests(d)
        if k: rec["killed"] = "test:" + k
        else:
            for x in os.listdir(d + "/bin"):
                if x == ".src" or re.match(r"(s_|f_|librepo).*", x): os.unlink(d + "/bin/" + x)
            c, o = M.sh(["bash", d + "/rebuild.sh", d + "/bin"] + BINS, 300, env=dict(os.environ, REPO=d + "/repo"))
            if c: rec["killed"] = "build " + o[-300:]
            else:
                rec["res"] = {}
                for p in props.split():
                    t0 = time.time(); hit = ""
                    for j in jobsof(p):
                        v, _ = M.run(j, d + "/bin")
                        if v: hit = "%s %s: %s" % (j["bin"], j["args"], v[:160]); break
                    rec["res"][p] = hit or "SURVIVED (%.0f s)" % (time.time() - t0)
        open(path, "w").write(orig)
        with lock:
            open(OUT, "a").write(json.dumps(rec) + "\n")
    shutil.rmtree(d, ignore_errors=True)
ts = [threading.Thread(target=work, args=(w,)) for w in range(WORK)]
[t.start() for t in ts]; [t.join() for t in ts]
