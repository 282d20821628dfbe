#!/usr/bin/env python3
"""amalg.py BUILDDIR mode=graph n=N hdrs=NAMES perms=0|1 inc=K [part=i/m]: amalgamates every include graph over N headers
amalg.py BUILDDIR mode=tree: amalgamates the repository itself, under several directory orders and hash seeds
The amalgamation script of /repo runs on scratch copies only."""
import hashlib, itertools, json, os, re, shlex, shutil, subprocess, sys, tempfile
OUT, opt = sys.argv[1], dict(a.split("=", 1) for a in sys.argv[2:])
REPO = os.environ.get("REPO", "/repo")
sys.dont_write_bytecode = True
SCR = tempfile.mkdtemp(prefix="amalg")
STDS = ["stdint.h", "string.h", "math.h", "stdio.h"]


class Bad(Exception):
    pass


def load():
    """the script under test, in a copy (so that nothing is written next to it)"""
    shutil.copytree(os.path.join(REPO, "amalgamation"), os.path.join(SCR, "amalgamation"), ignore=shutil.ignore_patterns("__pycache__", "tests"))
    sys.path.insert(0, SCR)
    import amalgamation.amalgamation as A
    return A


order = [None]
real_scandir, real_listdir = os.scandir, os.listdir


class Scan:
    def __init__(self, p):
        with real_scandir(p) as it:
            self.l = order[0](list(it))
        self.i = iter(self.l)

    def __enter__(self): return self
    def __exit__(self, *a): pass
    def __iter__(self): return self
    def __next__(self): return next(self.i)
    def close(self): pass


def scandir(p="."):
    return Scan(p) if order[0] and not isinstance(p, int) else real_scandir(p)


os.scandir = scandir
os.listdir = lambda p=".": [e.name for e in scandir(p)] if order[0] and not isinstance(p, int) else real_listdir(p)


def norm(text):
    """the lines that are not include directives, without trailing blanks, empty lines and comments behind a removed directive"""
    r = []
    for l in text.split("\n"):
        m = re.match(r'\s*#include ((<[^>]+>)|("[^"]+"))(.*)', l)
        l = m.group(4) if m else l
        if l.strip():
            r.append(l.strip())
    return r


def included(text):
    return re.findall(r'^\s*#include [<"]([^>"]+)[>"]', text, re.M)


def amalgamate(A, dirs, out, split=True):
    """-> ("ok"|"exit"|text of an exception)"""
    e = sys.stderr
    sys.stderr = open(os.devnull, "w")
    try:
        A.amalgamate(dirs, A.aud_stand, "embedDB", False, out, split)
        return "ok"
    except SystemExit as x:
        return "exit" if x.code not in (0, None) else "exit 0"
    except Exception as x:
        return "%s: %s" % (type(x).__name__, x)
    finally:
        sys.stderr.close()
        sys.stderr = e


def judge(what, text_h, text_c, heads, srcs, deps, stds):
    """text_h/text_c: the two outputs; heads/srcs: name -> original text; deps: header -> headers it includes"""
    inc = included(text_h)
    if sorted(inc) != sorted(stds):
        raise Bad("%s: the standard includes of the header are %s, needed are %s once each" % (what, sorted(inc), sorted(stds)))
    if text_c is None:
        text_c = text_h
    elif included(text_c) != ["./embedDB.h"]:
        raise Bad("%s: the source includes %s" % (what, included(text_c)))
    first = re.search(r"^\s*#\s*(if|define)", text_h, re.M)
    if first and first.start() < text_h.rfind("#include <"):
        raise Bad("%s: an include directive stands behind code" % what)

    def places(out, files):
        o, pos = norm(out), {}
        for n, t in files.items():
            b = norm(t)
            if not b:
                continue
            at = [i for i in range(len(o)) if o[i] == b[0] or (o[i].endswith(b[0]) and len(o[i]) > len(b[0]))]
            at = [i for i in at if [x for x in o[i + 1:i + len(b)]] == b[1:]]
            if len(at) != 1:
                raise Bad("%s: the contents of %s are in the output %d times" % (what, n, len(at)))
            pos[n] = at[0]
        return pos
    ph, pc = places(text_h, heads), places(text_c, srcs)
    for n in heads:
        for d in deps[n]:
            if n in ph and d in ph and ph[d] > ph[n]:
                raise Bad("%s: %s stands before %s, which it includes" % (what, n, d))
    return ph, pc


def reach_cycle(g):
    st = {}

    def go(x):
        st[x] = 1
        for y in g[x]:
            if st.get(y) == 1 or (y not in st and go(y)):
                return True
        st[x] = 2
        return False
    return any(x not in st and go(x) for x in g)


def graph(A):
    names = opt["hdrs"].split(",")
    n = len(names)
    perms, inck = int(opt.get("perms", "0")), int(opt.get("inc", "1"))
    part, parts = map(int, opt.get("part", "0/1").split("/"))
    compile_ = int(opt.get("cc", "0"))
    where = [["core", "core/sub", "util", "core", "util/x"][i] for i in range(n)]
    stat = dict(states=0, transitions=0, observations=0, faults=0)
    samples = []
    g2 = [(i, j) for i in range(n) for j in range(n) if i != j or int(opt.get("self", "1"))]
    todo = range(part, 1 << len(g2), parts)
    if "replay" in opt:
        todo = [int(opt["replay"].split()[0])]
    for mask in todo:
        deps = {x: [] for x in names}
        for b, (i, j) in enumerate(g2):
            if mask >> b & 1:
                deps[names[i]].append(names[j])
        cyc = reach_cycle(deps)
        for variant in range(inck):
            what = "graph %d variant %d (%s)" % (mask, variant, " ".join("%s:%s" % (k, "+".join(v) or "-") for k, v in deps.items()))
            top = os.path.join(SCR, "in"); shutil.rmtree(top, ignore_errors=True)
            heads, srcs, stds = {}, {}, set()
            for i, x in enumerate(names):
                d = os.path.join(top, where[i]); os.makedirs(d, exist_ok=True)
                loc = [names.index(y) for y in deps[x]]
                l1 = ['#include "%s"' % (names[j] if (i + j + variant) % 2 else os.path.relpath(os.path.join(top, where[j], names[j]), d)) for j in loc]
                s1 = ["#include <%s>" % STDS[k] for k in range(4) if (i + k + variant) % 3 == 0]
                if variant % 3 == 1 and s1: s1.append(s1[0])
                inc = l1 + s1 if variant % 2 else s1 + l1
                cid = re.sub(r"\W", "_", x)
                body = ["#ifndef G_%s" % cid, "#define G_%s" % cid] + inc + ["struct S_%s { int v; %s };" % (cid, " ".join("struct S_%s f%d;" % (re.sub(r"\W", "_", names[j]), j) for j in loc if j != i)), "int f_%s(struct S_%s *p); /* \"quoted\" // not removed */" % (cid, cid), "#endif"]
                heads[x] = "\n".join(body) + "\n"
                cn = os.path.splitext(x)[0] + ".c"
                ci = ['#include "%s"' % x] + ["#include <%s>" % STDS[(i + variant) % 4]] + (['#include "%s"' % os.path.relpath(os.path.join(top, where[(i + 1) % n], names[(i + 1) % n]), d)] if variant % 2 else [])
                srcs[cn] = "\n".join(["/* head of %s */" % cn] + ci + ["static int only_%s = %d;" % (cid, i), "int f_%s(struct S_%s *p) { return p->v + only_%s; } // end" % (cid, cid, cid)]) + "\n"
                for t in (heads[x], srcs[cn]):
                    stds |= {s for s in included(t) if s in STDS}
                open(os.path.join(d, x), "w").write(heads[x]); open(os.path.join(d, cn), "w").write(srcs[cn])
            got = {}
            orders = [("listed", None), ("reversed", lambda l: sorted(l, key=lambda e: e.name)[::-1])]
            if perms:
                orders += [("rotated %d" % k, lambda l, k=k: (lambda s: s[k % max(1, len(s)):] + s[:k % max(1, len(s))])(sorted(l, key=lambda e: e.name))) for k in range(1, 4)]
            dirs2 = [[os.path.join(top, "core"), os.path.join(top, "util")], [os.path.join(top, "util"), os.path.join(top, "core")]] if n >= 3 else []
            for on, of in orders:
                for dn, ds in enumerate([top] + dirs2):
                    for split in (True, False) if not dn and of is None else (True,):
                        out = os.path.join(SCR, "out"); shutil.rmtree(out, ignore_errors=True)
                        A.FileNode.c_stand_dep.clear()     # the script is run once per process; here it is run many times
                        order[0] = of
                        r = amalgamate(A, ds, out, split)
                        order[0] = None
                        stat["transitions"] += 1
                        w = what + " order " + on
                        if cyc:
                            if r != "exit": raise Bad("%s: the includes are cyclic, but the result is %s" % (w, r))
                            if os.path.isdir(out) and os.listdir(out): raise Bad("%s: the includes are cyclic, but %s was written" % (w, os.listdir(out)))
                            stat["faults"] += 1
                            continue
                        if r != "ok": raise Bad("%s: %s" % (w, r))
                        fs = sorted(os.listdir(out))
                        if fs != (["embedDB.c", "embedDB.h"] if split else ["embedDB.c"]): raise Bad("%s: wrote %s" % (w, fs))
                        tc = open(os.path.join(out, "embedDB.c")).read()
                        if not split:
                            ph, pc = judge(w + " one file", tc, None, heads, srcs, deps, stds)
                            if pc and ph and min(pc.values()) < max(ph.values()): raise Bad("%s one file: a source stands before a header" % w)
                            continue
                        th = open(os.path.join(out, "embedDB.h")).read()
                        judge(w, th, tc, heads, srcs, deps, stds)
                        stat["observations"] += 1
                        got[(on, dn)] = (th, tc)
                        if len(set(got.values())) != 1:
                            raise Bad("%s: another output for the same files" % w)
            if not cyc and compile_:
                out = os.path.join(SCR, "out"); os.makedirs(out, exist_ok=True)
                open(os.path.join(out, "embedDB.h"), "w").write(th); open(os.path.join(out, "embedDB.c"), "w").write(tc)
                p = subprocess.run(["gcc", "-fsyntax-only", "-w", os.path.join(out, "embedDB.c")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if p.returncode: raise Bad("%s: the output does not compile: %s" % (what, p.stdout[-300:]))
            stat["states"] += 1
            if mask % 97 == 5 and len(samples) < 4: samples.append(what)
    return stat, samples, None


def tree(A):
    """the repository's own sources through the script's main, under directory orders and hash seeds"""
    outs, stat = {}, dict(states=0, transitions=0, observations=0)
    seeds = opt.get("seeds", "0,1,2,3,4,5,6,7").split(",")
    code = "import os,sys,runpy\nsys.dont_write_bytecode=True\no=os.scandir\nk=%r\nclass S:\n def __init__(s,p):\n  with o(p) as it: l=sorted(it,key=lambda e:e.name)\n  if k<0: l=l[::-1]\n  else: l=l[k%%max(1,len(l)):]+l[:k%%max(1,len(l))]\n  s.i=iter(l)\n def __enter__(s): return s\n def __exit__(s,*a): pass\n def __iter__(s): return s\n def __next__(s): return next(s.i)\n def close(s): pass\nos.scandir=lambda p='.': S(p) if not isinstance(p,int) else o(p)\nsys.argv=[%r]\nrunpy.run_path(%r,run_name='__main__')\n"
    w = os.path.join(SCR, "tree"); os.makedirs(w)
    for d in ("src", "lib"):
        shutil.copytree(os.path.join(REPO, d), os.path.join(w, d))
    shutil.copytree(os.path.join(SCR, "amalgamation"), os.path.join(w, "amalgamation"))
    sc = os.path.join(w, "amalgamation", "amalgamation.py"); D = os.path.join(w, "lib", "Distribution")
    heads, srcs = {}, {}
    for d in ("src/embedDB", "src/query-interface", "src/spline", "lib/EmbedDB-Utility"):
        for dp, _, fs in os.walk(os.path.join(REPO, d)):
            for f in sorted(fs):
                t = open(os.path.join(dp, f)).read()
                if f.endswith(".h"): heads[f] = t
                elif f.endswith(".c"): srcs[f] = t
    deps = {h: sorted({os.path.basename(x) for x in included(t)} & set(heads)) for h, t in heads.items()}
    stds = {x for t in list(heads.values()) + list(srcs.values()) for x in included(t) if x.startswith("std") or os.path.basename(x) in ("math.h", "string.h", "time.h", "assert.h", "stddef.h", "limits.h", "errno.h", "ctype.h", "float.h", "inttypes.h", "Arduino.h", "SPI.h", "SdFat.h")}
    for k in (0, -1, 1, 2):
        for s in seeds:
            shutil.rmtree(D, ignore_errors=True)
            p = subprocess.run([sys.executable, "-c", code % (k, sc, sc)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, PYTHONHASHSEED=s), cwd=w)
            what = "directory order %d, hash seed %s" % (k, s)
            if p.returncode: raise Bad("%s: the script failed: %s" % (what, p.stdout[-300:]))
            th, tc = open(os.path.join(D, "embedDB.h")).read(), open(os.path.join(D, "embedDB.c")).read()
            judge(what, th, tc, heads, srcs, deps, stds)
            outs[what] = (th, tc)
            stat["transitions"] += 1; stat["observations"] += 1
            if len(set(outs.values())) != 1: raise Bad("%s: another output than %s for the same files" % (what, next(iter(outs))))
    stat["states"] = len(set(outs.values()))
    p = subprocess.run(["gcc", "-fsyntax-only", "-w", "-I" + REPO + "/lib/EmbedDB-Utility", os.path.join(D, "embedDB.c")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode: raise Bad("the output does not compile: " + p.stdout[-300:])
    return stat, list(outs)[:3], None


try:
    A = load()
    r, why, path = {}, "", ""
    try:
        r, samples, _ = (graph if opt.get("mode") == "graph" else tree)(A)
    except Bad as e:
        why, samples = str(e), []
        m = re.match(r"graph (\d+)", why)
        path = m.group(1) if m else ""
    r.update(violation=why, path=path, samples=samples, capped=0)
    if "replay" in opt: print("REPLAY: " + (why or "no violation"))
    else: print(json.dumps(r))
    sys.exit(1 if why else 0)
finally:
    shutil.rmtree(SCR, ignore_errors=True)
