#!/usr/bin/env python3
"""Build and run the property-based check of one property against /repo's working tree.

usage: run.py ID [quick|thorough]      (VERIF_SEED, VERIF_TIER override the defaults)
       run.py ID replay FILE           re-run one recorded counterexample
Exit status: 0 property held on everything explored, 1 violation, 2 the check could not run.
"""
import sys, os, subprocess, json, glob, shutil, time, concurrent.futures as cf

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
CONF = json.load(open(os.path.join(HERE, "checks.json")))

INC = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(HERE, "harness"),
       "-I/usr/include/x86_64-linux-gnu"]
DEF = ["-DNO_REFLECTION", "-DNO_LIBUNWIND", "-DNO_LIBDWARF"]
WARN = ["-w"]
LIBS = ["-lcfitsio", "-lcurl", "-llapack", "-lblas", "-lgsl", "-lgslcblas", "-lwcs", "-lfftw3",
        "-lm", "-pthread", "-ldl"]


def log(*a):
    print(*a, flush=True)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build(pid, conf, fuzz=False, san=None):
    out = os.path.join(HERE, "build", pid + ("-fuzz" if fuzz else "") + ("-" + san if san else ""))
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    srcs = sorted(glob.glob(os.path.join(HERE, "harness", pid + ".cpp")) +
                  glob.glob(os.path.join(HERE, "harness", pid + "_*.cpp")))
    srcs.append(os.path.join(HERE, "harness", "vp_main.cpp"))
    if fuzz:
        cxx = ["clang++", "-std=gnu++14", "-O1", "-g", "-fsanitize=address,fuzzer-no-link", "-DVP_FUZZ"]
    else:
        sanit = san or conf.get("san", "address")
        cxx = [conf.get("cxx", "g++"), "-std=gnu++14", conf.get("opt", "-O1"), "-g1"]
        if sanit != "none":
            cxx += ["-fsanitize=" + sanit, "-fno-omit-frame-pointer"]
            if "undefined" in sanit:
                cxx += ["-fno-sanitize-recover=undefined"]
    flags = cxx + INC + DEF + WARN + conf.get("flags", [])
    objs, errs = [], []

    def one(s):
        o = os.path.join(out, os.path.basename(s)[:-4] + ".o")
        r = sh(flags + ["-c", s, "-o", o])
        return o, r
    with cf.ThreadPoolExecutor(8) as ex:
        for o, r in ex.map(one, srcs):
            objs.append(o)
            if r.returncode != 0:
                errs.append(r.stdout[-6000:])
    if errs:
        log("harness does not compile against the current tree:\n" + "\n".join(errs))
        return None
    exe = os.path.join(out, "check")
    link = [c for c in cxx if c != "-fsanitize=address,fuzzer-no-link"]
    if fuzz:
        link.append("-fsanitize=address,fuzzer")
    r = sh(link + objs + ["-o", exe] + LIBS)
    if r.returncode != 0:
        log("harness does not link:\n" + r.stdout[-4000:])
        return None
    for o in objs:
        os.unlink(o)
    return exe


def known_ids(pid):
    ids = []
    try:
        for line in open(os.path.join(HERE, "known-findings.txt")):
            line = line.strip()
            if line.startswith("finding:"):
                f = line.split()
                if len(f) > 2 and f[1] == "property=" + pid:
                    ids.append(f[2].rstrip(":"))
    except OSError:
        pass
    return ids


def fuzz_campaign(pid, conf, exe_main, evidence, replaydir, seconds, jobs):
    """coverage guided stage of the thorough tier; the tape it finds is replayed by the main binary."""
    exe = build(pid, conf, fuzz=True)
    if exe is None:
        log("note: fuzzing build unavailable, coverage guided stage skipped")
        return 0
    import tempfile
    tmp = tempfile.mkdtemp(prefix="vp-", dir="/tmp")
    procs = []
    for j in range(jobs):
        d = os.path.join(tmp, "c%d" % j)
        os.makedirs(os.path.join(d, "corpus"))
        os.makedirs(os.path.join(d, "scratch"))
        env = dict(os.environ, VP_FUZZ_OUT=os.path.join(d, "fail.tape"), VP_FUZZ_SCRATCH=os.path.join(d, "scratch"))
        procs.append((d, subprocess.Popen(
            [exe, "-max_total_time=%d" % seconds, "-max_len=4096", "-len_control=20", "-timeout=60",
             "-rss_limit_mb=3500", "-print_final_stats=1", "-detect_leaks=0", "-seed=%d" % (j + 1),
             "-artifact_prefix=" + d + "/", os.path.join(d, "corpus")],
            stdout=subprocess.DEVNULL, stderr=open(os.path.join(d, "log"), "w"), env=env, cwd=d)))
    found, execs, cov, feats = 0, 0, 0, 0
    for d, p in procs:
        try:
            p.wait(seconds + 180)
        except subprocess.TimeoutExpired:
            p.kill()
        txt = open(os.path.join(d, "log"), errors="replace").read()
        for l in txt.splitlines():
            if l.startswith("stat::number_of_executed_units:"):
                execs += int(l.split()[-1])
            if " cov: " in l:
                w = l.split()
                cov = max(cov, int(w[w.index("cov:") + 1]))
        cand = []
        t = os.path.join(d, "fail.tape")
        if os.path.exists(t):
            cand.append(t)
        if cand and not found:
            rp = os.path.join(replaydir, pid + "-fuzz.tape")
            shutil.copy(cand[0], rp)
            ok = all(subprocess.run([exe_main, "--replay", rp], stdout=subprocess.DEVNULL).returncode == 1 for _ in range(3))
            if ok:
                found = 1
                print(subprocess.run([exe_main, "--replay", rp], stdout=subprocess.PIPE, text=True).stdout)
                log("VIOLATION property=%s replay=%s" % (pid, rp))
            else:
                os.unlink(rp)
    try:
        e = json.load(open(evidence))
        e["coverage"]["coverage_guided_executions"] = execs
        e["coverage"]["coverage_guided_edges"] = cov
        e["coverage"]["evaluations"] += execs
        e["violations"] += found
        e["wall_s"] += seconds
        json.dump(e, open(evidence, "w"), indent=1)
    except (OSError, ValueError, KeyError):
        pass
    shutil.rmtree(tmp, ignore_errors=True)
    log("coverage guided stage: %d executions, %d edges" % (execs, cov))
    return found


def main():
    pid = sys.argv[1]
    conf = dict(CONF["default"], **CONF["checks"][pid])
    mode = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = os.environ.get("VERIF_SEED", "1")
    try:
        seed = str(int(seed) & 0x7fffffff)
    except ValueError:
        seed = "1"
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    replaydir = os.path.join(HERE, "build", "replay")
    os.makedirs(replaydir, exist_ok=True)
    exe = build(pid, conf)
    if exe is None:
        return 2
    if mode == "replay":
        return subprocess.run([exe, "--replay", sys.argv[3]]).returncode
    thorough = mode == "thorough"
    cases = conf["cases"] * (conf.get("factor", 20) if thorough else 1)
    maxtime = conf["thorough_time"] if thorough else conf["time"]
    evidence = os.path.join(HERE, "evidence", pid + ".json")
    cmd = [exe, "--prop", pid, "--tier", mode, "--seed", seed, "--cases", str(cases),
           "--maxtime", str(maxtime), "--jobs", str(conf["jobs"]), "--evidence", evidence,
           "--replaydir", replaydir, "--rule", conf["rule"], "--assume", conf["assume"],
           "--known", ",".join(known_ids(pid)), "--hang", str(conf.get("hang", 25)), "--stats", "x"] + sys.argv[3:]
    rc = subprocess.run(cmd).returncode
    if rc not in (0, 1):
        log("runner ended with status %d" % rc)
        return 2
    if rc == 0 and thorough and conf.get("fuzz", True):
        rc = fuzz_campaign(pid, conf, exe, evidence, replaydir, conf.get("fuzz_time", 120), conf["jobs"])
    return rc


if __name__ == "__main__":
    sys.exit(main())
