#!/opt/venv/bin/python
"""Driver: python mc/run.py C01 [quick|thorough] [--replay FILE]

Builds xboa from /repo's working tree in a scratch directory, runs
mc/checks/<id>.py against that build in a child process, and turns the child's
report into the exit code, the VIOLATION / KNOWN-FINDING lines and the evidence
file.  Nothing under /repo is written."""
import json, os, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("XBOA_REPO", "/repo")
PY = "/opt/venv/bin/python"
LIMIT = {"quick": 800, "thorough": 6 * 3600}
# checks that need no native code, or an instrumented build
MODE = {"C08": "asan"}

def env_for(scratch, asan):
    env = {k: v for k, v in os.environ.items() if k not in
           ("PYTHONPATH", "PYTHONHOME", "DISPLAY", "LD_PRELOAD")}
    env.update(HOME=scratch, LANG="C.UTF-8", LC_ALL="C.UTF-8",
               PATH="/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
               CC="/usr/bin/gcc", CXX="/usr/bin/g++", PYTHONDONTWRITEBYTECODE="1",
               PYTHONHASHSEED="0", MPLBACKEND="Agg", OMP_NUM_THREADS="1",
               OPENBLAS_NUM_THREADS="1", PYTHONWARNINGS="ignore",
               MPLCONFIGDIR=os.path.join(scratch, "mpl"), TMPDIR=os.path.join(scratch, "tmp"),
               XBOA_SCRATCH=scratch, PYTHONPATH=os.path.join(scratch, "tree") + ":" + HERE)
    return env

def build(scratch, asan):
    tree = os.path.join(scratch, "tree")
    os.makedirs(os.path.join(scratch, "tmp"))
    os.makedirs(tree)
    ignore = shutil.ignore_patterns("*.so", "__pycache__", "test", "example_data", "*.root")
    shutil.copytree(os.path.join(REPO, "xboa"), os.path.join(tree, "xboa"), ignore=ignore)
    shutil.copy(os.path.join(REPO, "setup.py"), tree)
    env = env_for(scratch, asan)
    env["PYTHONPATH"] = ""
    env["CFLAGS"] = "-O0 -g0 -w"
    if asan:
        env["CFLAGS"] = ("-O1 -g1 -w -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS "
                         "-fsanitize=address")
        env["LDFLAGS"] = "-fsanitize=address"
    r = subprocess.run([PY, os.path.join(HERE, "build_ext.py")], cwd=tree,
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        sys.stderr.write(r.stdout.decode(errors="replace")[-4000:])
        raise SystemExit(2)
    return tree

def asan_env():
    lib = subprocess.check_output(["g++", "-print-file-name=libasan.so"], text=True).strip()
    cxx = subprocess.check_output(["g++", "-print-file-name=libstdc++.so"], text=True).strip()
    return {"LD_PRELOAD": os.path.realpath(lib) + " " + os.path.realpath(cxx),
            "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:"
                            "allocator_may_return_null=1:detect_odr_violation=0"}

def known_findings(pid):
    path = os.path.join(VERIF, "known_findings.txt")
    found = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: property=%s " % pid):
                rest = line[len("known: property=%s " % pid):]
                sig, _, what = rest.partition(" | ")
                found.append((sig.strip(), what.strip()))
    return found

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    args = sys.argv[2:]
    while args:
        a = args.pop(0)
        if a in ("quick", "thorough"): tier = a
        elif a == "--replay": replay = os.path.abspath(args.pop(0))
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    asan = MODE.get(pid) == "asan"
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="xboa_mc_")
    child = None
    def stop(sig, frame):
        if child is not None:
            try: os.killpg(child.pid, signal.SIGKILL)
            except OSError: pass
        shutil.rmtree(scratch, ignore_errors=True)
        os._exit(3)
    signal.signal(signal.SIGTERM, stop)
    signal.signal(signal.SIGINT, stop)
    try:
        phases = [("asan", True), ("plain", False)] if asan else [("", False)]
        rep, log, t_build = None, "", 0.0
        for phase, instrumented in phases:
            sub = os.path.join(scratch, phase) if phase else scratch
            os.makedirs(sub, exist_ok=True)
            t1 = time.time()
            build(sub, instrumented)
            t_build += time.time() - t1
            env = env_for(sub, instrumented)
            env.update(VERIF_TIER=tier, VERIF_SEED=str(seed), MC_PHASE=phase,
                       MC_REPORT=os.path.join(sub, "report.json"))
            if replay: env["MC_REPLAY"] = replay
            if phase: env["PYTHONMALLOC"] = "malloc"
            if phase == "plain": env["GLIBC_TUNABLES"] = "glibc.malloc.tcache_count=0"
            if instrumented: env.update(asan_env())
            out = open(os.path.join(sub, "log"), "w+b")
            child = subprocess.Popen([PY, os.path.join(HERE, "checks", pid.lower() + ".py")],
                                     cwd=os.path.join(sub, "tmp"), env=env,
                                     stdout=out, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                                     start_new_session=True)
            try:
                rc = child.wait(timeout=LIMIT[tier] - (time.time() - t0))
            except subprocess.TimeoutExpired:
                rc = None
            try: os.killpg(child.pid, signal.SIGKILL)
            except OSError: pass
            child.wait()
            out.seek(0)
            log += out.read().decode(errors="replace")
            if not os.path.exists(env["MC_REPORT"]):
                sys.stderr.write(log[-6000:])
                sys.stderr.write("\nno report from check %s (exit %s)\n" % (pid, rc))
                return 2
            r = json.load(open(env["MC_REPORT"]))
            if rep is None: rep = r
            else:
                rep["violations"] += r["violations"]
                rep["harness_error"] = rep.get("harness_error") or r.get("harness_error")
                rep["coverage"]["%s_phase_evaluations" % phase] = r["coverage"].get("traces_validated_against_impl", 0)
                rep["coverage"]["exhaustive"] = rep["coverage"].get("exhaustive") and r["coverage"].get("exhaustive")
        if os.environ.get("MC_LOG"): sys.stderr.write(log[-20000:])
        return conclude(pid, tier, seed, rep, t0, t_build, log, replay)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def conclude(pid, tier, seed, rep, t0, t_build, log, replay):
    if rep.get("harness_error"):
        sys.stderr.write(log[-4000:] + "\n" + rep["harness_error"] + "\n")
        return 2
    known = known_findings(pid)
    hits, bad = {}, []
    for v in rep["violations"]:
        for sig, what in known:
            if v["sig"] == sig:
                hits.setdefault(sig, what)
                break
        else:
            bad.append(v)
    if not replay:
        ev = {"property": pid, "tier": tier, "seed": seed, "level": rep["level"],
              "coverage": rep["coverage"], "assumptions": rep.get("assumptions", []),
              "wall_s": round(time.time() - t0, 2), "violations": len(bad)}
        ev["coverage"]["build_s"] = round(t_build, 2)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    for sig, what in sorted(hits.items()):
        print("KNOWN-FINDING: property=%s [%s] %s" % (pid, sig, what))
    c = rep["coverage"]
    print("%s %s: %s" % (pid, tier, ", ".join("%s=%s" % (k, v) for k, v in c.items()
                                               if isinstance(v, (int, float)))))
    if not bad: return 0
    rdir = os.path.join(VERIF, "replays", pid)
    os.makedirs(rdir, exist_ok=True)
    for n, v in enumerate(bad[:20]):
        path = os.path.join(rdir, "%d.json" % n)
        if not replay:
            with open(path, "w") as f: json.dump(v, f, indent=1, default=repr)
        print("VIOLATION property=%s replay=%s" % (pid, replay or path))
        print("  [%s] case %s" % (v["sig"], json.dumps(v["case"], default=repr)[:600]))
        print("  " + v["msg"][:1500].replace("\n", "\n  "))
        if n >= 2:
            break
    return 1

if __name__ == "__main__":
    sys.exit(main())
