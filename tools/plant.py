#!/usr/bin/env python3
"""development tool, not used by any check.
plant.py make SPEC.py     create /verif/seeded/<id>/ from a spec: SEEDS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo=C++ source | sh=demo.sh text)]
plant.py try ID...        build, stable tests, demo and check in a scratch copy bound over /repo in a namespace of its own"""
import json, os, subprocess, sys, shutil, re
V = "/verif"
HEADS = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
'''
DEMO = HEADS + '''g++ -std=c++17 -O1 -g %s -Iinclude -Ifuzzy "$d/demo.cpp" _build/lib/libreflex.a -o "$t/demo" || exit 2
cd "$t" && timeout 120 ./demo
'''
def sh(*a, **k): return subprocess.run(a, **k)
def make(spec):
    ns = {}
    exec(open(spec).read(), ns)
    for s in ns["SEEDS"]:
        d = "%s/seeded/%s" % (V, s["id"])
        os.makedirs(d, exist_ok=True)
        diff = ""
        files = {}
        for f, old, new, *al in s["edits"]:
            t = files.get(f) or open("/repo/" + f, encoding="latin1", newline="").read()
            n = t.count(old)
            if n != 1 and not (al and n > 0):
                print(s["id"], "edit matches", n, "times:", old[:80]); sys.exit(1)
            files[f] = t.replace(old, new)
        w = "/tmp/mk"
        shutil.rmtree(w, ignore_errors=True)
        sh("git", "clone", "-q", "--shared", "/repo", w, check=True)
        for f, t in files.items():
            open(w + "/" + f, "w", encoding="latin1", newline="").write(t)
        diff = sh("git", "-C", w, "diff", capture_output=True).stdout
        # lines changed must be original
        base = sh("git", "-C", w, "rev-list", "--max-parents=0", "HEAD", capture_output=True, text=True).stdout.strip()
        for f, old, new, *al in s["edits"]:
            orig = sh("git", "-C", w, "show", base + ":" + f, capture_output=True).stdout.decode("latin1")
            import difflib
            ol, nl = old.split("\n"), new.split("\n")
            for tag, i1, i2, j1, j2 in difflib.SequenceMatcher(None, ol, nl, autojunk=False).get_opcodes():
                if tag in ("replace", "delete"):
                    for x in ol[i1:i2]:
                        if x.strip() and x not in orig:
                            print("WARNING", s["id"], "not an original line:", x)
        shutil.rmtree(w)
        open(d + "/patch.diff", "wb").write(diff)
        if "demo" in s:
            open(d + "/demo.cpp", "w").write(s["demo"])
            open(d + "/demo.sh", "w").write(DEMO % s.get("flags", ""))
        else:
            open(d + "/demo.sh", "w").write(HEADS + s["sh"])
            for n, t in s.get("files", {}).items():
                open(d + "/" + n, "w").write(t)
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        print("made", s["id"])
def ns_run(w, cmd, log, timeout=1500, env=None):
    with open(log, "w") as f:
        return sh("unshare", "-Urm", "bash", "-c", "mount --bind %s /repo && cd /repo && %s" % (w, cmd), stdout=f, stderr=subprocess.STDOUT, timeout=timeout, env=env).returncode
def tri(ids, tests=True):
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for i in ids:
        d = "%s/seeded/%s" % (V, i)
        prop = json.load(open(d + "/meta.json"))["property"]
        w = "/tmp/rp-" + i
        shutil.rmtree(w, ignore_errors=True)
        sh("cp", "-a", "/repo", w, check=True)
        res = []
        r = sh("git", "-C", w, "apply", d + "/patch.diff").returncode
        if r: print(i, "DOES NOT APPLY"); continue
        L = "/tmp/plant-%s." % i
        if ns_run(w, "bash /opt/vp/build.sh", L + "build"): print(i, "BUILD FAILS", L + "build"); shutil.rmtree(w); continue
        r = ns_run(w, "bash %s/demo.sh" % d, L + "demo")
        res.append("demo rc %d" % r + ("" if r else " NOT FAILING"))
        e = dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick")
        c = ns_run(w, "cd /verif && timeout 900 python3 check.py %s" % prop, L + "check", env=e)
        t = open(L + "check").read()
        res.append("check rc %d %s %s" % (c, "CAUGHT" if c == 1 and "VIOLATION property=" + prop in t else "*** MISSED", " ".join(re.findall(r"kind=\S+.*", t)[:1])))
        if tests:
            ns_run(w, "bash /opt/vp/test.sh %sjson" % L, L + "test")
            miss = stable - set(json.load(open(L + "json"))["passed"])
            res.append("tests ok" if not miss else "TESTS FAIL %s" % sorted(miss)[:3])
        sh("git", "-C", w, "checkout", "-q", "--", ".", check=True)
        sh("git", "-C", w, "clean", "-n", stdout=subprocess.DEVNULL)
        if ns_run(w, "bash /opt/vp/build.sh", L + "build"): res.append("base build fails?")
        r = ns_run(w, "bash %s/demo.sh" % d, L + "demo0")
        res.append("base demo ok" if r == 0 else "BASE DEMO FAILS %d" % r)
        shutil.rmtree(w)
        print(i, prop, "; ".join(res), flush=True)
if __name__ == "__main__":
    if sys.argv[1] == "make": make(sys.argv[2])
    elif sys.argv[1] == "try": tri(sys.argv[2:])
    elif sys.argv[1] == "fast": tri(sys.argv[2:], False)
