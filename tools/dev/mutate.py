#!/usr/bin/env python3
"""mutate.py OUT COUNT SEED WORKERS MAXJOB: development aid. Plants COUNT random one-line mutants in scratch copies of /repo,
keeps those that compile and pass the repository's tests, and runs the quick jobs (src build, ascending cost, up to MAXJOB s
each) on them until one objects. Writes one JSON line per mutant to OUT. Not part of any check."""
import json, os, random, re, shlex, shutil, subprocess, sys, threading, time
sys.path.insert(0, "/verif/mc")
import jobs as J
OUT, COUNT, SEED, WORK, MAXJ = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), float(sys.argv[5])
ONLY = sys.argv[6] if len(sys.argv) > 6 else ""
BASE = "/tmp/mut"
FILES = {"src/embedDB/embedDB.c": 12, "src/spline/spline.c": 2, "src/query-interface/advancedQueries.c": 4, "src/query-interface/schema.c": 1,
         "lib/EmbedDB-Utility/embedDBUtility.c": 1, "lib/Desktop-File-Interface/desktopFileInterface.c": 1, "lib/SD-File-Interface/SDFileInterface.c": 1,
         "lib/Dataflash-File-Interface/dataflashFileInterface.c": 1}
BINS = ["explore-src", "splinex-src", "utilx-src", "opsx-src", "filex-src", "cfgx-src"]

def mutants(f):
    out, txt = [], open("/repo/" + f).read().split("\n")
    skip = 0; com = False; fn = ""
    for i, l in enumerate(txt):
        s = l.strip()
        m = re.match(r"^[a-zA-Z_][\w \*]*\b(\w+)\(", l)
        if m and not s.endswith(";"): fn = m.group(1)
        if s.startswith("/*"): com = True
        if com:
            if "*/" in s: com = False
            continue
        if s.startswith("#if"): skip = skip + 1 if (skip or "PRINT" in s) else skip
        if s.startswith("#endif") and skip: skip -= 1
        if s.startswith("#") or s.startswith("//") or not s or skip or "printf" in s or s.startswith("*"): continue
        if re.search(r"print", fn, re.I): continue
        if not l.startswith(" "): continue      # signatures
        code = l.split("//")[0].rstrip()
        def add(a, b, new, op):
            out.append((f, i, code[:a] + new + code[b:], op, fn))
        for m in re.finditer(r"(?<![<>=!\-+*/&|])(<=|>=|==|!=|<|>)(?![<>=])", code):
            if "->" in code[m.start() - 1:m.end() + 1]: continue
            for n in {"<": ["<="], "<=": ["<"], ">": [">="], ">=": [">"], "==": ["!="], "!=": ["=="]}[m.group()]: add(m.start(), m.end(), n, "ror")
        for m in re.finditer(r" ([+\-*/%]) (\w+)", code):
            if m.group(2) == "1" or m.group(2) in ("2",): add(m.start(), m.end(), "", "aor-drop")
            else:
                add(m.start(1), m.end(1), {"+": "-", "-": "+", "*": "+", "/": "*", "%": "/"}[m.group(1)], "aor")
                add(m.start(), m.end(), "", "aor-drop")
        for m in re.finditer(r"(?<![\w.\[])(\d+)(?![\w.])", code):
            v = int(m.group())
            for n in ([1] if v == 0 else [v - 1, v + 1]): add(m.start(), m.end(), str(n), "const")
        for m in re.finditer(r"&&|\|\|", code): add(m.start(), m.end(), "||" if m.group() == "&&" else "&&", "lcr")
        m = re.match(r"^(\s*)((?:\} else )?if) \((.*)\) \{$", code)
        if m:
            add(m.start(3), m.end(3), "1", "cond1"); add(m.start(3), m.end(3), "0", "cond0")
            for part in re.split(r" && | \|\| ", m.group(3)):
                if part != m.group(3) and part.count("(") == part.count(")"):
                    k = code.index(part); n = "1" if "&&" in m.group(3) else "0"; add(k, k + len(part), n, "cond-part")
        if code.endswith(";") and not re.match(r"^\s*(return|break|continue|const|void \*|u?int\d+_t|id_t|pgid_t|count_t|size_t|float|double|char|uint|struct|\w+ \*\w+ =|for|while|\})", code) and not code.strip().startswith("free"):
            add(len(code) - len(code.lstrip()), len(code), ";", "sdl")
        if re.match(r"^\s*free", code): add(len(code) - len(code.lstrip()), len(code), ";", "sdl")
        if re.match(r"^\s*(break|continue);", code): add(len(code) - len(code.lstrip()), len(code), ";", "sdl")
        m = re.match(r"^\s*return (.*);", code)
        if m and m.group(1) in ("0", "1", "-1", "NULL", "true", "false"):
            add(m.start(1), m.end(1), {"0": "1", "1": "0", "-1": "0", "NULL": "(void *)1", "true": "false", "false": "true"}[m.group(1)], "ret")
        for m in re.finditer(r"\b(uint64_t|uint32_t|int32_t|int64_t|uint16_t|int16_t|id_t|pgid_t|count_t)\b(?! \*)(?=[ )])", code):
            for n in {"uint64_t": ["uint32_t"], "uint32_t": ["uint16_t", "int32_t"], "int32_t": ["uint32_t", "int16_t"], "int64_t": ["int32_t"], "uint16_t": ["uint8_t", "int16_t"], "int16_t": ["uint16_t", "int8_t"], "id_t": ["uint16_t"], "pgid_t": ["uint16_t"], "count_t": ["uint8_t"]}[m.group(1)]: add(m.start(), m.end(), n, "type")
        for m in re.finditer(r"\bmin(\w*)\b", code):
            pass
    return out

def sh(cmd, t=120, **k):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True, **k)
    try:
        o, _ = p.communicate(timeout=t); return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.communicate(); return -99, "timeout"

lock = threading.Lock()
def setup(w):
    d = "%s/w%s" % (BASE, w)
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    sh(["cp", "-a", "/repo", d + "/repo"]); shutil.rmtree(d + "/repo/_build", ignore_errors=True)
    b = open("/opt/vp/build.sh").read().replace("/repo", d + "/repo").replace("-j8", "-j2")
    b = b[:b.index("mk dist test-dist")] + "exit $fail\n"
    open(d + "/build.sh", "w").write(b)
    r = open("/opt/vp/run_tests.py").read().replace('"/repo/_build"', '"%s/repo/_build"' % d).replace('"/repo"', '"%s/repo"' % d).replace('("src", "dist")', '("src",)').replace("results += python()", "").replace("timeout=180", "timeout=40").replace("ThreadPoolExecutor(8)", "ThreadPoolExecutor(2)")
    open(d + "/run_tests.py", "w").write(r)
    s = open("/verif/mc/build.sh").read()
    s = re.sub(r'  g\+\+ \$HX \$DEF -I"\$V/mc" \$INC -c .*\n', "", s).replace('V=$(cd "$(dirname "$0")/.." && pwd)', "V=/verif")
    open(d + "/rebuild.sh", "w").write(s)
    sh(["cp", "-a", BASE + "/base", d + "/bin"])
    return d

def tests(d):
    c, o = sh(["bash", d + "/build.sh"], 200)
    if c: return "nocompile"
    shutil.rmtree(d + "/repo/_build/run", ignore_errors=True)
    c, o = sh(["python3", d + "/run_tests.py", d + "/repo/_build/results.txt"], 300)
    try: got = {l.split(" ", 1)[1].strip() for l in open(d + "/repo/_build/results.txt") if l.startswith("PASS")}
    except OSError: return "tests?"
    miss = STABLE - got
    return "" if not miss else sorted(miss)[0]

STABLE = {x for x in json.load(open("/opt/vp/BASELINE.json"))["stable"] if x.startswith("src/")}
def run(job, bind):
    cmd = [bind + "/" + job["bin"]] + shlex.split(job["args"])
    if not any(c.startswith("prop=") for c in cmd): cmd.append("prop=" + job["p"])
    t = time.time()
    c, o = sh(cmd, max(60, 10 * job.get("t", 30)), cwd=bind)
    line = o.strip().splitlines()[-1] if o.strip() else ""
    try: r = json.loads(line)
    except ValueError: return ("dead %s %s" % (c, o[-200:])), time.time() - t
    return r.get("violation") or "", time.time() - t

def alljobs():
    seen, js = set(), []
    for p in J.properties():
        for j in J.Q[p]:
            if not j["bin"].endswith("-src") : continue
            key = j["bin"] + j["args"]
            if key in seen: continue
            seen.add(key); js.append(dict(j, p=p))
    return js

def main():
    os.makedirs(BASE, exist_ok=True)
    shutil.rmtree(BASE + "/base", ignore_errors=True)
    c, o = sh(["/verif/mc/build.sh", BASE + "/base"] + BINS, 300); assert c == 0, o
    js = alljobs(); tf = BASE + "/times.json"
    times = json.load(open(tf)) if os.path.exists(tf) else {}
    todo = [j for j in js if j["bin"] + " " + j["args"] not in times]
    def timer():
        while True:
            with lock:
                if not todo: return
                j = todo.pop()
            v, t = run(j, BASE + "/base")
            with lock:
                times[j["bin"] + " " + j["args"]] = t
                if v: print("BASE ALARM", j, v, flush=True)
    th = [threading.Thread(target=timer) for _ in range(WORK)]; [t.start() for t in th]; [t.join() for t in th]
    json.dump(times, open(tf, "w"), indent=0)
    for j in js: j["t"] = times[j["bin"] + " " + j["args"]]
    js = sorted([j for j in js if j["t"] <= MAXJ], key=lambda j: j["t"])
    print(len(js), "jobs", sum(j["t"] for j in js), "s", flush=True)
    random.seed(SEED); pool = []
    for f, w in FILES.items():
        if ONLY and not re.search(ONLY, f): continue
        ms = mutants(f); random.shuffle(ms)
        pool += ms[:COUNT * w // sum(FILES.values()) + 1] if not ONLY else ms[:COUNT]
    done = set()
    if os.path.exists(OUT):
        for l in open(OUT):
            r = json.loads(l); done.add((r["file"], r["line"], r["new"]))
    random.shuffle(pool); pool = [m for m in pool if (m[0], m[1] + 1, m[2].strip()) not in done]
    print(len(pool), "mutants", flush=True)
    def work(w):
        d = setup(w)
        while True:
            with lock:
                if not pool: break
                f, i, new, op, fn = pool.pop()
            orig = open("/tmp/mut/base_src/" + f).read(); L = orig.split("\n"); old = L[i]; L[i] = new
            open(d + "/repo/" + f, "w").write("\n".join(L))
            rec = {"file": f, "line": i + 1, "old": old.strip(), "new": new.strip(), "op": op, "fn": fn}
            t = tests(d)
            if t: rec["killed"] = "test:" + t
            else:
                for x in os.listdir(d + "/bin"):
                    if x == ".src" or re.match(r"(s_|f_|librepo).*", x): os.unlink(d + "/bin/" + x)
                c, o = sh(["bash", d + "/rebuild.sh", d + "/bin"] + BINS, 200, env=dict(os.environ, REPO=d + "/repo"))
                if c: rec["killed"] = "build " + o[-200:]
                else:
                    t0 = time.time()
                    for j in js:
                        v, _ = run(j, d + "/bin")
                        if v:
                            rec.update(killed="check:" + j["p"], job=j["bin"] + " " + j["args"], why=v[:200]); break
                    rec["secs"] = round(time.time() - t0, 1)
            open(d + "/repo/" + f, "w").write(orig)
            with lock: open(OUT, "a").write(json.dumps(rec) + "\n")
        shutil.rmtree(d, ignore_errors=True)
    th = [threading.Thread(target=work, args=(w,)) for w in range(WORK)]; [t.start() for t in th]; [t.join() for t in th]
if __name__ == "__main__": main()
