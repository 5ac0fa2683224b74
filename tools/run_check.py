#!/usr/bin/env python3
"""Build and run the check of one property against /repo's current tree.

usage: run_check.py PROPERTY [--tier quick|thorough] [--seed N] [--opt FLAGS]
       run_check.py PROPERTY --build-only DIR      (keep the binary in DIR)
       run_check.py PROPERTY --replay FILE

Exit 0: held on everything explored.  Exit 1 + "VIOLATION ..." line: broken.
Exit 2: the check itself could not run (e.g. the tree does not compile).
"""
import argparse, concurrent.futures as cf, glob, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "tools"))
from spec import CHECKS  # noqa: E402

SAN = ["-fsanitize=address,undefined", "-fno-sanitize=pointer-overflow", "-fno-sanitize-recover=undefined"]
JOBS = min(8, os.cpu_count() or 4)


def lib_sources():
    """Sources of the four libraries, as Makefile.am lists them."""
    text = open(os.path.join(REPO, "src", "Makefile.am")).read().replace("\\\n", " ")
    out = []
    for lib in ("libopk", "libcobyla", "libbobyqa", "libnewuoa"):
        m = re.search(r"^%s_la_SOURCES\s*=(.*)$" % lib, text, re.M)
        if m:
            out += [s for s in m.group(1).split() if s.endswith(".c")]
    # simple_vector.c is included by the two instances and not compiled alone
    out = [s for s in dict.fromkeys(out) if s != "simple_vector.c"]
    return [os.path.join(REPO, "src", s) for s in out]


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def build(prop, d, opt=None, fuzz=False, tsan=False):
    spec = CHECKS[prop]
    cc, cxx = ("clang", "clang++") if fuzz else ("gcc", "g++")
    cflags = ["-O1", "-g", "-w"] + SAN + ["-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern"]
    if fuzz:
        cflags = ["-O1", "-g", "-w", "-fsanitize=address,undefined,fuzzer-no-link", "-fno-sanitize=pointer-overflow,function",
                  "-fno-sanitize-recover=undefined"]
    if opt:
        cflags = opt.split() + ["-g", "-w"]
    san = SAN
    if tsan:
        san = ["-fsanitize=thread"]
        cflags = ["-O1", "-g", "-w", "-fno-omit-frame-pointer"] + san
    inc = ["-I" + os.path.join(REPO, "src"), "-I" + os.path.join(VERIF, "engine")]
    jobs = []
    for s in lib_sources():
        jobs.append([cc, "-std=gnu17"] + cflags + inc + spec.get("cflags", []) + ["-c", s, "-o", os.path.join(d, "lib_" + os.path.basename(s)[:-2] + ".o")])
    h = os.path.join(VERIF, "harness", spec["harness"])
    hf = ["-O1", "-g", "-w"] + ([] if opt else san) + (["-DPBT_TSAN"] if tsan else [])
    if fuzz:
        hf = ["-O1", "-g", "-w", "-DPBT_FUZZ", "-fsanitize=address,undefined,fuzzer-no-link", "-fno-sanitize=pointer-overflow,function,vptr",
              "-fno-sanitize-recover=undefined"]
    jobs.append([cxx, "-std=gnu++17"] + hf + inc + ["-DCHECK_" + prop, "-c", h, "-o", os.path.join(d, "harness.o")])
    for s in spec.get("extra_c", []):
        jobs.append([cc, "-std=gnu17"] + cflags + inc + ["-c", os.path.join(VERIF, "harness", s), "-o", os.path.join(d, "x_" + os.path.basename(s)[:-2] + ".o")])
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for j, r in zip(jobs, ex.map(run, jobs)):
            if r.returncode:
                print(r.stdout[-4000:])
                print("build failed:", " ".join(j))
                sys.exit(2)
    objs = sorted(glob.glob(os.path.join(d, "*.o")))
    exe = os.path.join(d, "check")
    link = [cxx] + ([] if opt else (["-fsanitize=address,undefined,fuzzer"] if fuzz else san)) + objs + spec.get("ldflags", []) + ["-lm", "-o", exe]
    r = run(link)
    if r.returncode:
        print(r.stdout[-4000:])
        print("link failed")
        sys.exit(2)
    for o in objs:
        os.unlink(o)
    if spec.get("plugin"):
        plugin(d, opt)
    return exe


def plugin(d, opt):
    """The Yorick plug-in, from the sources its Makefile lists, in d/yorick."""
    y = os.path.join(d, "yorick")
    os.makedirs(y, exist_ok=True)
    src = os.path.join(REPO, "yorick")
    shutil.copy(os.path.join(src, "opky.i"), y)
    cflags = (opt.split() if opt else ["-O1"] + SAN + ["-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern"]) + ["-g", "-w", "-fPIC", "-DPLUG_IN", "-DNDEBUG"]
    cflags += ["-I" + y, "-I/usr/lib/yorick/include", "-I" + os.path.join(REPO, "src")]
    r = run(["/usr/lib/yorick/lib/codger", "w", "opky", os.path.join(src, "opky.i")], cwd=y)
    jobs = [["gcc"] + cflags + ["-c", os.path.join(src, s + ".c"), "-o", os.path.join(y, s + ".o")] for s in ("opky", "ycobyla", "ynewuoa")]
    jobs += [["gcc"] + cflags + ["-c", s, "-o", os.path.join(y, os.path.basename(s)[:-2] + ".o")] for s in lib_sources() if not re.search(r"/(bobyqa|fmin)\.c$", s)]
    jobs.append(["gcc"] + cflags + ["-c", os.path.join(y, "ywrap.c"), "-o", os.path.join(y, "ywrap.o")])
    with cf.ThreadPoolExecutor(JOBS) as ex:
        rs = [r] + list(ex.map(run, jobs))
    rs.append(run(["gcc", "-shared"] + ([] if opt else SAN) + ["-o", os.path.join(y, "opky.so")] + sorted(glob.glob(os.path.join(y, "*.o"))) + ["-lm"]))
    for r in rs:
        if r.returncode:
            print(r.stdout[-4000:])
            print("build of the plug-in failed")
            sys.exit(2)
    for o in glob.glob(os.path.join(y, "*.[oc]")):
        os.unlink(o)
    with open(os.path.join(y, "preload"), "w") as f:
        f.write("" if opt else run(["gcc", "-print-file-name=libasan.so"]).stdout.strip() + "\n")


def environment():
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=99:allocator_may_return_null=1:max_allocation_size_mb=3000:handle_abort=1:symbolize=1"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1"
    env["TSAN_OPTIONS"] = "exitcode=0:suppress_equal_stacks=0:suppress_equal_addresses=0:report_thread_leaks=0:history_size=4"
    env["LC_ALL"] = "C.UTF-8"
    return env


def known_lines(prop):
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known:\s+property=(\S+)\s+id=(\S+)\s+(.*)", line)
            if m and m.group(1) == prop:
                out.append("KNOWN-FINDING: property=%s %s: %s" % (prop, m.group(2), m.group(3).strip()))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--opt")
    ap.add_argument("--build-only")
    ap.add_argument("--replay")
    ap.add_argument("--wall", type=float)
    ap.add_argument("--fuzz-wall", type=float)
    ap.add_argument("--evidence")
    ap.add_argument("--only")
    a = ap.parse_args()
    spec = CHECKS[a.prop]
    if a.build_only:
        os.makedirs(a.build_only, exist_ok=True)
        print(build(a.prop, a.build_only, a.opt))
        return 0
    signal.signal(signal.SIGTERM, lambda *_: sys.exit(2))
    d = tempfile.mkdtemp(prefix="vp-%s-" % a.prop)
    early = cf.ThreadPoolExecutor(1)
    try:
        t0 = time.time()
        tsan = early.submit(build, a.prop, mkdir(d, "tsan"), tsan=True) if spec.get("tsan") and not a.opt and not a.replay else None
        exe = build(a.prop, d, a.opt)
        env = environment()
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        known = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
        common = ["--tier", a.tier, "--scratch", d, "--replay-dir", rdir, "--known", known, "--seed", str(a.seed)]
        if a.replay:
            if spec.get("tsan") and re.search(r"^test race$", open(a.replay).read(), re.M):
                exe = build(a.prop, mkdir(d, "tsan"), tsan=True)
            return subprocess.run([exe, "--replay", os.path.abspath(a.replay)] + common, env=env, cwd=d).returncode
        ev = a.evidence or os.path.join(VERIF, "evidence", a.prop + ".json")
        os.makedirs(os.path.dirname(ev), exist_ok=True)
        if os.path.exists(ev):
            os.unlink(ev)
        for line in known_lines(a.prop):
            print(line)
        sys.stdout.flush()
        cmd = [exe] + common + ["--jobs", str(JOBS), "--evidence", ev]
        wall = a.wall or (spec.get("thorough_wall", 240) if a.tier == "thorough" else None)
        if wall:
            cmd += ["--wall", str(wall)]
        if a.only:
            cmd += ["--only", a.only]
        rc = subprocess.run(cmd, env=env, cwd=d).returncode
        if rc not in (0, 1):
            print("check ended with status", rc)
            return 2
        if rc == 0 and tsan:
            rc = races(a, d, tsan.result(), env, common, ev)
        fz = a.fuzz_wall if a.fuzz_wall is not None else (spec.get("fuzz_wall", 90) if a.tier == "thorough" else 0)
        if rc == 0 and fz > 0:
            rc = fuzz(a, spec, d, exe, env, common, ev, fz)
        if os.path.exists(ev):
            e = json.load(open(ev))
            e["wall_s"] = round(time.time() - t0, 2)
            e["assumptions"] = e.get("assumptions", []) + ["the library is compiled from /repo's current tree with AddressSanitizer and UndefinedBehaviorSanitizer; one platform (x86-64, IEEE arithmetic)"]
            json.dump(e, open(ev, "w"), indent=1)
        return rc
    finally:
        early.shutdown(wait=True)
        shutil.rmtree(d, ignore_errors=True)


def mkdir(d, name):
    p = os.path.join(d, name)
    os.makedirs(p, exist_ok=True)
    return p


def races(a, d, exe, env, common, ev):
    """The same computations by concurrent threads, watched by ThreadSanitizer."""
    tev = os.path.join(d, "tsan.json")
    cmd = [exe] + common + ["--jobs", str(JOBS), "--evidence", tev]
    if a.tier == "thorough":
        cmd += ["--wall", "120"]
    rc = subprocess.run(cmd, env=env, cwd=d).returncode
    if rc != 1 and not os.path.exists(tev):
        print("ThreadSanitizer does not run on this kernel: stage left out")
        return 0
    if os.path.exists(tev) and os.path.exists(ev):
        e, f = json.load(open(ev)), json.load(open(tev))
        e["coverage"]["thread_sanitizer"] = f["coverage"]
        e["violations"] += f["violations"]
        json.dump(e, open(ev, "w"), indent=1)
    return rc if rc in (0, 1) else 2


def fuzz(a, spec, d, exe, env, common, ev, wall):
    """Coverage-guided search over the same generators (bytes decode to choices)."""
    fd = os.path.join(d, "fuzz")
    os.makedirs(os.path.join(fd, "corpus"))
    fexe = build(a.prop, fd, fuzz=True)
    procs = []
    for k in range(JOBS):
        art = os.path.join(fd, "art%d" % k)
        os.makedirs(art)
        log = open(os.path.join(fd, "log%d" % k), "w")
        cmd = [fexe, os.path.join(fd, "corpus"), "-seed=%d" % (a.seed * 100 + k + 1), "-max_total_time=%d" % wall, "-timeout=25", "-max_len=8192",
               "-rss_limit_mb=3000", "-artifact_prefix=%s/" % art, "-print_final_stats=1", "-reload=5", "-use_value_profile=1"]
        procs.append(subprocess.Popen(cmd, stdout=log, stderr=log, env=env, cwd=fd))
    for p in procs:
        try:
            p.wait(timeout=wall + 60)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
    units = 0
    cov = 0
    for k in range(JOBS):
        t = open(os.path.join(fd, "log%d" % k), errors="replace").read()
        m = re.search(r"number_of_executed_units:\s*(\d+)", t)
        units += int(m.group(1)) if m else 0
        for m in re.finditer(r"cov: (\d+)", t):
            cov = max(cov, int(m.group(1)))
    rc = 0
    for art in sorted(glob.glob(os.path.join(fd, "art*", "*"))):
        if os.path.basename(art).startswith(("slow-unit", "oom")):
            continue
        r = subprocess.run([exe, "--bytes", art] + common, env=env, cwd=d)
        if r.returncode == 1:
            rc = 1
            break
    if os.path.exists(ev):
        e = json.load(open(ev))
        e["coverage"]["fuzzing"] = {"executed_units": units, "edges_covered": cov, "seconds": wall, "processes": JOBS}
        e["violations"] += rc
        json.dump(e, open(ev, "w"), indent=1)
    print("%s coverage-guided: %d units, %d edges" % (a.prop, units, cov))
    return rc


if __name__ == "__main__":
    sys.exit(main())
