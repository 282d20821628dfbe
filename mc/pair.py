#!/usr/bin/env python3
"""pair.py BUILDDIR mode=digest|cross|same prog=P ARGS...: runs the same exploration on both builds of the repository.
digest: a digest of every return code, output, statistic and storage image, compared history by history
cross:  every storage state reached by one build is opened, checked and continued by the other
same:   the exploration (judged by its own oracle) must have the same outcome on both builds"""
import json, os, subprocess, sys, tempfile, shutil, threading
out, args = sys.argv[1], sys.argv[2:]
opt = dict(a.split("=", 1) for a in args if a.split("=")[0] in ("mode", "prog", "other"))
rest = [a for a in args if a.split("=")[0] not in ("mode", "prog", "other")]
mode, prog = opt.get("mode", "digest"), opt.get("prog", "explore")
OTHER = opt.get("other", "dist")      # dist: lib/Distribution as committed; amalg: the sources as the amalgamation script combines them
FILL = OTHER == "fill"                # fill: one build, twice, with other contents of fresh memory
B = {"src": os.path.join(out, prog + "-src"), "dist": os.path.join(out, prog + "-" + ("src" if FILL else OTHER))}
WHO = {"src": "fresh memory of zeros" if FILL else "the source build", "dist": "fresh memory of junk" if FILL else "the amalgamated build" if OTHER == "amalg" else "the distribution build"}
XA = {"src": ["fill=0"] if FILL else [], "dist": ["fill=165"] if FILL else []}


def run(t, extra, res):
    p = subprocess.run([B[t]] + rest + XA[t] + extra, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    l = p.stdout.strip().splitlines()[-1] if p.stdout.strip() else ""
    try:
        res[t] = json.loads(l)
    except ValueError:
        sys.stderr.write("%s: exit %s %s %s\n" % (B[t], p.returncode, l[-300:], p.stderr[-300:]))
        res[t] = None


def both(es, ed):
    res = {}
    th = [threading.Thread(target=run, args=("src", es, res)), threading.Thread(target=run, args=("dist", ed, res))]
    for x in th:
        x.start()
    for x in th:
        x.join()
    if res["src"] is None or res["dist"] is None:
        sys.exit(3)
    return res


def total(rs):
    r = dict(rs[0])
    for x in rs[1:]:
        for k, v in x.items():
            if isinstance(v, (int, float)) and k not in ("capped", "completedD", "wall"):
                r[k] = r.get(k, 0) + v
    r["capped"] = int(any(x["capped"] for x in rs))
    r["violation"], r["path"] = "", ""
    return r


if any(a.startswith("replay=") for a in rest):
    path = [a for a in rest if a.startswith("replay=")][0]
    toks = [t for t in path[7:].split() if not t.startswith("<")]
    if "other" in path:
        toks = path[7:].split("<other")[0].split()
    outs = []
    for t in ("src", "dist"):
        print("== " + t, flush=True)
        o = subprocess.run([B[t]] + XA[t] + [a for a in rest if not a.startswith("replay=")] + (["digest=/dev/null"] if mode == "digest" else []) + ["replay=" + " ".join(toks)], stdout=subprocess.PIPE, text=True).stdout
        print(o); outs.append(o)
    print("REPLAY: the builds " + ("agree on this history" if outs[0] == outs[1] else "DIFFER on this history"))
    sys.exit(0 if outs[0] == outs[1] else 1)
tmp = tempfile.mkdtemp(prefix="pair")
try:
    if mode == "digest":
        f = {t: os.path.join(tmp, t) for t in B}
        rs = both(["digest=" + f["src"]], ["digest=" + f["dist"]])
        a, b = open(f["src"], "rb").read(), open(f["dist"], "rb").read()
        r = total([rs["src"], rs["dist"]])
        n = next((i for i in range(0, min(len(a), len(b)), 8) if a[i:i + 8] != b[i:i + 8]), None) if a[:min(len(a), len(b))] != b[:min(len(a), len(b))] else None
        if n is not None:
            q = {}
            run("src", ["digest=/dev/null", "digestAt=%d" % (n // 8)], q)
            r["violation"], r["path"] = "a return code, output, statistic or storage image depends on what fresh memory contains" if FILL else "the two builds differ in a return code, output, statistic or storage image", q["src"]["path"] if q["src"] else ""
        elif rs["src"]["violation"] != rs["dist"]["violation"] or len(a) != len(b):
            w = "src" if rs["src"]["violation"] else "dist"
            r["violation"], r["path"] = "only %s misbehaves: %s" % (WHO[w], rs[w]["violation"]), rs[w]["path"]
        r["schedules"] = min(len(a), len(b)) // 8
    elif mode == "same":
        rs = both([], [])
        r = total([rs["src"], rs["dist"]])
        d = [k for k in ("violation", "path", "states", "transitions", "observations") if rs["src"].get(k) != rs["dist"].get(k)]
        if d:
            w = "src" if rs["src"]["violation"] else "dist"
            r["violation"], r["path"] = "%s (%%s): %%s" % ("what fresh memory contains matters" if FILL else "the two builds differ") % (",".join(d), rs[w]["violation"] or "%s / %s" % (rs["src"].get(d[0]), rs["dist"].get(d[0]))), rs[w]["path"]
    else:
        allr = []
        for x, y in (("src", "dist"), ("dist", "src")):
            ff = os.path.join(tmp, "fifo" + x)
            os.mkfifo(ff)
            e = {x: ["xsave=" + ff], y: ["xload=" + ff]}
            # keep the pipe open on this side until both have finished, so that neither end blocks the other
            rs = {}
            th = [threading.Thread(target=run, args=(t, e[t], rs)) for t in (x, y)]
            for z in th:
                z.start()
            for z in th:
                z.join()
            if rs[y] is None or rs[x] is None and not rs[y]["violation"]:
                sys.exit(3)
            if rs[y]["violation"] and not (rs[x] or {}).get("violation"):
                allr.append((y, rs[y]))
            else:
                allr.append((None, total([q for q in (rs[x], rs[y]) if q])))
        r = total([q for _, q in allr])
        for y, q in allr:
            if y and q["violation"]:
                r["violation"], r["path"] = "storage written by the other build, opened by %s: %s" % (WHO[y], q["violation"]), q["path"]
    print(json.dumps(r))
    sys.exit(1 if r["violation"] else 0)
finally:
    shutil.rmtree(tmp, ignore_errors=True)
