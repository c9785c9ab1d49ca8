#!/usr/bin/env python3
"""Driver: build the harness of one property against /repo's working tree, run it, write the
evidence file and print VIOLATION / KNOWN-FINDING lines.

  check.py <ID>                 run with VERIF_SEED / VERIF_TIER (defaults 1 / quick)
  check.py <ID> --replay FILE   re-run one recorded failing case
  check.py <ID> --scale X       multiply the case counts (development)
"""
import concurrent.futures, hashlib, json, os, shutil, subprocess, sys, tempfile, time, glob

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
sys.path.insert(0, VERIF)
from checks import CHECKS, LIBSRC  # noqa: E402


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:32]


def rd(p):
    with open(p, "rb") as f:
        return f.read()


def tree_hash(paths):
    return sha(*[x for p in sorted(paths) for x in (os.path.basename(p), rd(p))])


_headers = None


def repo_headers():
    global _headers
    if _headers is None:
        _headers = tree_hash(glob.glob(REPO + "/include/reflex/*.h") + glob.glob(REPO + "/fuzzy/*.h"))
    return _headers


def compile_one(cc, src, flags, extra_hash=""):
    """compile src with flags into the object cache, return the object path"""
    key = sha(cc, " ".join(flags), rd(src), os.path.basename(src), repo_headers(), extra_hash)
    obj = os.path.join(BUILD, key + ".o")
    if os.path.exists(obj):
        os.utime(obj)
        return obj
    tmp = obj + ".tmp%d" % os.getpid()
    r = subprocess.run([cc, *flags, "-I" + REPO + "/include", "-I" + REPO, "-I" + VERIF + "/harness", "-c", src, "-o", tmp],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stdout)
        raise SystemExit("check: cannot compile %s" % src)
    os.rename(tmp, obj)
    return obj


def build(c, variant):
    """build one variant of a check, return the binary path"""
    cc = variant.get("cc", c.get("cc", "g++"))
    flags = list(c["flags"]) + variant.get("flags", [])
    wflags = ["-w"]
    hh = tree_hash(glob.glob(VERIF + "/harness/*.h"))
    jobs = []
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        srcs = [os.path.join(REPO, s) for s in c.get("lib", LIBSRC)]
        srcs.sort(key=lambda s: -os.path.getsize(s) if "pattern" not in s else -1e12)
        hs = [os.path.join(VERIF, "harness", s) for s in c["src"]]
        for h in hs:
            jobs.append(ex.submit(compile_one, cc, h, flags + wflags + variant.get("hflags", []), hh))
        for s in srcs:
            lf = [f for f in flags if "sanitize" not in f and "-O" not in f and "-g" not in f] + ["-O2"] if any(s.endswith(x) for x in c.get("plain", [])) else flags
            jobs.append(ex.submit(compile_one, cc, s, lf + wflags + c.get("libflags", [])))
        objs = [j.result() for j in jobs]
    libs = c.get("libs", [])
    key = sha(cc, " ".join(flags), *objs, *libs)
    exe = os.path.join(BUILD, key + ".bin")
    if not os.path.exists(exe):
        tmp = exe + ".tmp%d" % os.getpid()
        r = subprocess.run([cc, *flags, "-o", tmp, *objs, *libs], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            sys.stderr.write(r.stdout)
            raise SystemExit("check: cannot link")
        os.rename(tmp, exe)
    return exe


def build_reflex(flags):
    """build the reflex generator from /repo/src with the given flags"""
    cc = "g++"
    f = list(flags) + ["-w", '-DPLATFORM="verif"']
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        jobs = [ex.submit(compile_one, cc, os.path.join(REPO, s), f) for s in LIBSRC + ["src/reflex.cpp"]]
        objs = [j.result() for j in jobs]
    key = sha("reflex", " ".join(f), *objs)
    exe = os.path.join(BUILD, key + ".reflex")
    if not os.path.exists(exe):
        tmp = exe + ".tmp%d" % os.getpid()
        subprocess.run([cc, *f, "-o", tmp, *objs], check=True)
        os.rename(tmp, exe)
    return exe


def prune():
    """keep the cache below ~3 GB (least recently used first)"""
    files = []
    for p in glob.glob(BUILD + "/*"):
        try:
            st = os.stat(p)
            files.append((st.st_mtime, st.st_size, p))
        except OSError:
            pass
    total = sum(f[1] for f in files)
    for m, s, p in sorted(files):
        if total < 3e9:
            break
        try:
            os.remove(p)
        except OSError:
            pass
        total -= s


def known(pid):
    """entries of KNOWN_FINDINGS.txt for this property: finding: property=<id> replay=<path> variant=<n> <text>"""
    r = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            w = line.split(None, 3)
            if len(w) >= 4 and w[0] == "finding:" and w[1] == "property=" + pid and w[2].startswith("replay="):
                r.append((os.path.join(VERIF, w[2][7:]), w[3].strip()))
    return r


ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=99:detect_leaks=0:allocator_may_return_null=1:max_malloc_fill_size=65536:malloc_fill_byte=165:hard_rss_limit_mb=3000:detect_stack_use_after_return=0:symbolize=1:handle_segv=1",
    "UBSAN_OPTIONS": "halt_on_error=1:print_stacktrace=1:exitcode=98",
    "LC_ALL": "C",
    "PATH": os.environ.get("PATH", "/usr/bin:/bin"),
    "HOME": "/nonexistent",
}


def main():
    pid = sys.argv[1]
    args = sys.argv[2:]
    opt = {}
    while args:
        a = args.pop(0)
        opt[a] = args.pop(0) if args else ""
    c = CHECKS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    prune()
    variants = c.get("variants", [{}])
    if tier == "quick":
        variants = [v for v in variants if not v.get("thorough_only")]
    if os.path.exists("/proc/cpuinfo"):
        cpu = open("/proc/cpuinfo").read()
        variants = [v for v in variants if all((" " + f) in cpu for f in v.get("needs_cpu", []))]
    env = dict(ENV)
    env["VERIF_REPO"] = REPO
    env["C17_INC"] = VERIF + "/harness"
    if c.get("reflex"):
        env["REFLEX_BIN"] = build_reflex(c["reflex"])
    if c.get("reflex2"):
        env["REFLEX_BIN2"] = build_reflex(c["reflex2"])
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        exes = list(ex.map(lambda v: build(c, v), variants))
    tb = time.time()
    if "--build-only" in opt:
        sys.exit(0)
    env["HARNESS_LIB_OBJS"] = ""
    if "--replay" in opt:
        rc = 0
        for v, exe in zip(variants, exes):
            work = tempfile.mkdtemp(prefix="verif.")
            try:
                p = subprocess.run([exe, "--replay", opt["--replay"], "--work", work], env=env, cwd=work)
                rc = max(rc, p.returncode)
            finally:
                shutil.rmtree(work, ignore_errors=True)
        sys.exit(rc)
    ev = {"evaluations": 0, "distinct_nontrivial": 0}
    cov = {"rule": c["rule"], "samples": [], "labels": {}, "variants": {}, "discards": 0, "unreproduced": 0}
    violations = []
    budget = float(os.environ.get("VERIF_WALL", "480" if tier == "quick" else "3000"))
    share = budget / max(1, len(variants))
    for i, (v, exe) in enumerate(zip(variants, exes)):
        work = tempfile.mkdtemp(prefix="verif.")
        try:
            out = os.path.join(work, "out.json")
            rep = os.path.join(VERIF, "evidence", "%s.%s.replay" % (pid, v.get("name", "v%d" % i)))
            if os.path.exists(rep):
                os.remove(rep)
            cmd = [exe, "--seed", str(seed * 16 + i), "--out", out, "--work", work, "--replay-out", rep, "--wall", str(share),
                   "--scale", str(float(opt.get("--scale", 1)) * v.get("scale", 1))]
            if tier == "thorough":
                cmd.append("--thorough")
            if "--part" in opt:
                cmd += ["--part", opt["--part"]]
            elif "part" in v:
                cmd += ["--part", v["part"]]
            p = subprocess.run(cmd, env=env, cwd=work, stdout=subprocess.PIPE, text=True, errors="replace", timeout=share * 3 + 600)
            if not os.path.exists(out):
                sys.stderr.write(p.stdout[-2000:])
                raise SystemExit("check: harness of %s ended with status %d and no result" % (pid, p.returncode))
            r = json.load(open(out))
            ev["evaluations"] += r["evaluations"]
            ev["distinct_nontrivial"] += r["distinct_nontrivial"]
            cov["discards"] += r["discards"]
            cov["unreproduced"] += r["unreproduced"]
            if r.get("unreproduced_detail"):
                cov.setdefault("unreproduced_detail", []).extend(r["unreproduced_detail"])
            for k, n in r["labels"].items():
                cov["labels"][k] = cov["labels"].get(k, 0) + n
            cov["variants"][v.get("name", "v%d" % i)] = {"flags": " ".join(c["flags"] + v.get("flags", [])), "evaluations": r["evaluations"],
                                                           "incomplete": r["incomplete"], "parts": r["parts"], "wall_s": r["wall_s"]}
            cov["samples"] += r["samples"][:8 if len(variants) == 1 else 4]
            if r["failed"]:
                print(p.stdout.strip()[:6000])
                violations.append(rep)
        finally:
            shutil.rmtree(work, ignore_errors=True)
        if violations:
            break
    nknown = 0
    for path, text in known(pid):
        for v, exe in zip(variants, exes):
            work = tempfile.mkdtemp(prefix="verif.")
            try:
                p = subprocess.run([exe, "--replay", path, "--work", work], env=env, cwd=work, stdout=subprocess.PIPE, text=True, errors="replace")
                if p.returncode == 1:
                    print("KNOWN-FINDING: property=%s %s" % (pid, text))
                    nknown += 1
                    break
            finally:
                shutil.rmtree(work, ignore_errors=True)
    cov.update(ev)
    cov["known_findings_reproduced"] = nknown
    cov["build_s"] = round(tb - t0, 1)
    evidence = {"property": pid, "tier": tier, "seed": seed, "level": c.get("level", "exploration"), "coverage": cov,
                "assumptions": c.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    print("%s %s: %d cases, %d distinct non-trivial, %.0f s (build %.0f s)" % (pid, tier, ev["evaluations"], ev["distinct_nontrivial"], time.time() - t0, tb - t0))
    for rep in violations:
        print("VIOLATION property=%s replay=%s" % (pid, rep))
    sys.exit(1 if violations else 0)


if __name__ == "__main__":
    main()
