#!/usr/bin/env python3
"""Runs the check of one property against /repo's current working tree.

  check.py C05                     (tier from VERIF_TIER, seed from VERIF_SEED)
  check.py C05 --replay FILE       re-runs a replay file
  check.py --setup                 pre-builds the default variant (optional)

Exit 0: held on everything explored. Exit 1 + VIOLATION line: broken.
"""
import fcntl, glob, hashlib, json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, V)
from checks import CHECKS, VARIANTS  # noqa: E402

BUILD = os.path.join(V, "build")
REPLAYS = os.path.join(V, "replays")
H = os.path.join(V, "harness")
INC = ["include", "thirdparties/spqlios", "thirdparties/randen", "thirdparties/cereal/include"]
# programs of the repository that are linked into a harness, with main renamed
EXTRA = {"C27.cpp": {"tutorial/%s.cpp" % n: "tutorial_%s_main" % n for n in ("client", "cloud", "verify")}}
BASE = ["-std=gnu++20", "-fopenmp", "-march=x86-64-v3", "-maes", "-mpclmul", "-w"]


def lib_sources(fft="fma"):
    s = sorted(glob.glob(REPO + "/src/*.cpp"))
    sp = REPO + "/thirdparties/spqlios/"
    impl = "spqlios-fft-impl.cpp" if fft == "fma" else "spqlios-fft-impl-%s.cpp" % fft
    s += [sp + "fft_processor_spqlios.cpp", sp + impl, sp + "spqlios-fft-%s.s" % fft, sp + "spqlios-ifft-%s.s" % fft]
    s += [REPO + "/thirdparties/randen/randen.cc"]
    return s


def lib_inputs():
    fs = lib_sources()
    for d in ("include", "src", "thirdparties/spqlios", "thirdparties/randen"):
        for r, _, ns in os.walk(os.path.join(REPO, d)):
            fs += [os.path.join(r, n) for n in ns if n.endswith((".hpp", ".h", ".s", ".cpp", ".cc", ".S", ".inc", ".ipp"))]
    return sorted(set(fs))


def digest(files, extra):
    h = hashlib.sha256(json.dumps(extra).encode())
    for f in files:
        h.update(f.encode() + b"\0")
        h.update(open(f, "rb").read())
    return h.hexdigest()[:20]


def run(cmd, log):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        log.append(" ".join(cmd) + "\n" + p.stdout[-6000:])
    return p.returncode == 0


class BuildError(Exception):
    pass


def prune():
    try:
        ds = sorted((os.path.join(BUILD, d) for d in os.listdir(BUILD)), key=os.path.getmtime)
        for d in ds[:-120]:
            shutil.rmtree(d, ignore_errors=True) if os.path.isdir(d) else os.remove(d)
    except OSError:
        pass


def compile_all(jobs, log, workers=8):
    with ThreadPoolExecutor(workers) as ex:
        ok = list(ex.map(lambda c: run(c, log), jobs))
    if not all(ok):
        raise BuildError("\n".join(log))


def build_many(wanted):
    """Builds libraries and harnesses for (variant, harness) pairs, all in parallel; returns the binaries' paths."""
    os.makedirs(BUILD, exist_ok=True)
    res, log, jobs, links, renames, libs = {}, [], [], [], [], {}
    inputs = lib_inputs()
    with open(BUILD + "/.lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        tmp = tempfile.mkdtemp(prefix="tmp-", dir=BUILD)
        try:
            for variant, harness in wanted:
                if (variant, harness) in res:
                    continue
                var = VARIANTS[variant]
                cxx = var.get("cxx", "g++")
                flags = BASE + var["flags"] + ["-I" + REPO + "/" + i for i in INC] + ["-I" + H]
                fft = var.get("fft", "fma")
                lk = digest(inputs, ["lib", cxx, flags] + ([fft] if fft != "fma" else []))
                hfiles = sorted(glob.glob(H + "/*.hpp")) + [H + "/pbt.cpp", H + "/" + harness]
                extra = EXTRA.get(harness, {})
                bk = digest(hfiles + [REPO + "/" + f for f in extra], ["bin", lk, var])
                ldir, binp = os.path.join(BUILD, "lib-" + lk), os.path.join(BUILD, "bin-" + bk)
                res[variant, harness] = binp
                if os.path.exists(binp):
                    os.utime(binp)
                    continue
                d = "%s/%d" % (tmp, len(res))
                os.makedirs(d)
                eobjs = []
                for n, (f, sym) in enumerate(sorted(extra.items())):
                    o = "%s/extra%d.o" % (d, n)
                    eobjs.append(o)
                    jobs.append((1, [cxx, *flags, "-c", REPO + "/" + f, "-o", o]))
                    renames.append(["objcopy", "--redefine-sym", "main=" + sym, o])
                # the longest compilations first
                jobs.append((0, [cxx, *flags, *var.get("hflags", []), "-c", H + "/" + harness, "-o", d + "/harness.o"]))
                if lk not in libs:
                    objs = []
                    if os.path.isdir(ldir):
                        os.utime(ldir)
                        objs = sorted(glob.glob(ldir + "/*.o"))
                        new = False
                    else:
                        new = True
                        os.makedirs(tmp + "/lib-" + lk)
                        for s in lib_sources(fft):
                            o = "%s/lib-%s/lib_%s.o" % (tmp, lk, os.path.basename(s).replace(".", "_"))
                            objs.append(o)
                            jobs.append((1, [cxx, *flags, "-c", s, "-o", o]))
                    pf = [f for f in flags if not f.startswith("-O")] + ["-O1"]
                    pobj = "%s/pbt-%s.o" % (tmp, lk)
                    jobs.append((2, [cxx, *pf, "-c", H + "/pbt.cpp", "-o", pobj]))
                    libs[lk] = (objs, pobj, new, ldir)
                objs, pobj = libs[lk][:2]
                links.append(([cxx, *flags, *var.get("ldflags", []), "-o", d + "/bin", d + "/harness.o", *eobjs, pobj, *objs, "-lpthread"], d + "/bin", binp))
            compile_all([j for _, j in sorted(jobs, key=lambda j: j[0])], log)
            compile_all(renames, log)
            compile_all([l[0] for l in links], log)
            for lk, (_, _, new, ldir) in libs.items():
                if new and not os.path.isdir(ldir):
                    os.rename(tmp + "/lib-" + lk, ldir)
            for _, t, binp in links:
                os.rename(t, binp)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        prune()
    return res


def build(variant, harness):
    return build_many([(variant, harness)])[variant, harness]


def cpu_flags():
    try:
        return set(next(l for l in open("/proc/cpuinfo") if l.startswith("flags")).split())
    except (OSError, StopIteration):
        return set()


def load_known(pid):
    """Lines: KNOWN-FINDING entries are JSON objects; 'fixed:' lines suppress nothing."""
    r = {}
    try:
        for l in open(os.path.join(V, "known_findings.jsonl")):
            l = l.strip()
            if l.startswith("{"):
                e = json.loads(l)
                if e.get("property") == pid and e.get("status") == "known":
                    r[e["key"]] = e["what"]
    except FileNotFoundError:
        pass
    return r


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        for n in ("default",):
            build(n, "C01.cpp")
        return 0
    pid = a[0]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
    chk = CHECKS[pid]
    known = load_known(pid)
    os.makedirs(REPLAYS, exist_ok=True)
    os.makedirs(V + "/evidence", exist_ok=True)
    env = dict(os.environ, **chk.get("env", {}))
    env.setdefault("OMP_NUM_THREADS", "8")
    env.setdefault("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=0:exitcode=86:detect_stack_use_after_return=0:allocator_may_return_null=1")
    env.setdefault("TSAN_OPTIONS", "halt_on_error=1:exitcode=86:die_after_fork=0:report_signal_unsafe=0:history_size=2")
    env.setdefault("UBSAN_OPTIONS", "halt_on_error=1:exitcode=86:print_stacktrace=1")

    if "--replay" in a:
        r = json.load(open(a[a.index("--replay") + 1]))
        run_ = [x for x in chk["runs"] if x.get("label", x["variant"]) == r["variant"]][0]
        b = build(run_["variant"], run_["harness"])
        with tempfile.NamedTemporaryFile("w", suffix=".txt", delete=False) as f:
            if "history" in r:
                f.write("HISTORY\n" + "".join("%s %d\n" % tuple(h) for h in r["history"]))
            else:
                f.write("%s\n%d\n%s\n" % (r["test"], r.get("entropy", 0), " ".join(map(str, r.get("choices", [])))))
        try:
            return subprocess.run([b, "--prop", pid, "--variant", r["variant"], "--seed", str(r["fixture_seed"]), "--tier", r["tier"], "--replay", f.name], env=env).returncode
        finally:
            os.remove(f.name)

    t0 = time.time()
    runs = [r for r in chk["runs"] if tier == "thorough" or not r.get("thorough_only")]
    for r in [r for r in runs if not cpu_flags().issuperset(VARIANTS[r["variant"]].get("cpu", ()))]:
        print("this processor cannot run variant %s: skipping %s" % (r["variant"], r["harness"]))
        runs.remove(r)
    stats, viol, crashed = [], None, None
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    limit = 700 if tier == "quick" else 6 * 3600
    try:
        bins = build_many([(r["variant"], r["harness"]) for r in runs])
        t_build = time.time() - t0
        print("build: %.1f s" % t_build, flush=True)
        for i, r in enumerate(runs):
            left = limit - (time.time() - t0)
            if left < 20:
                print("time budget used up: skipping variant %s" % r["variant"])
                break
            out = "%s/stats%d.json" % (scratch, i)
            cmd = [bins[r["variant"], r["harness"]], "--prop", pid, "--variant", r.get("label", r["variant"]), "--seed", str(seed), "--tier", tier, "--out", out,
                   *(["--jobs", str(r["jobs"])] if "jobs" in r else []), "--replaydir", REPLAYS, "--scale", str(r.get("scale", 1) * float(os.environ.get("VERIF_SCALE", "1"))),
                   "--deadline", str(int(min(left * 0.75, r.get("deadline", 1e9))))]
            for k in known:
                cmd += ["--known", k]
            if "--only" in a:
                cmd += ["--only", a[a.index("--only") + 1]]
            for n in range(2):
                p = subprocess.run(cmd, env=dict(env, TMPDIR=scratch, **r.get("env", {})), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
                if p.returncode in (0, 1):
                    break
            sys.stdout.write(p.stdout[-8000:])
            sys.stdout.flush()
            if os.path.exists(out):
                s = json.load(open(out))
                stats.append(s)
                if p.returncode == 1:
                    viol = s["violation"]
            if p.returncode not in (0, 1):
                # Key generation (shared by all cases) crashed or failed, twice.
                crashed = p.returncode
                path = "%s/%s-%s-keygen.json" % (REPLAYS, pid, r.get("label", r["variant"]))
                json.dump({"property": pid, "variant": r.get("label", r["variant"]), "test": "(key generation)", "fixture_seed": seed, "tier": tier, "choices": [],
                           "message": "key generation failed, exit %d: %s" % (p.returncode, p.stdout[-1500:])}, open(path, "w"), indent=1)
                if p.returncode in (2, 77, -9):
                    print("error: harness ended with %d" % p.returncode)
                    return 2
                viol = path
            if viol:
                break
    except BuildError as e:
        print("BUILD ERROR\n" + str(e)[-6000:])
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    tests = [dict(t, variant=s["variant"]) for s in stats for t in s["tests"]]
    samples = []
    for t in tests:
        for x in t["samples"]:
            samples.append("%s/%s: %s" % (t["variant"], t["name"], x))
    # spread the samples over the tests
    samples = samples[:: max(1, len(samples) // 20)][:24]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {
              "evaluations": sum(t["cases"] for t in tests),
              "distinct_nontrivial": sum(t["nontrivial"] for t in tests),
              "rule": chk["rule"],
              "samples": samples,
              "planned": sum(s["planned"] for s in stats),
              "discarded": sum(t["discarded"] for t in tests),
              "known_finding_cases": sum(t["known"] for t in tests),
              "unreproduced": sum(s["unreproduced"] for s in stats),
              "shrink_attempts": sum(s["shrink_attempts"] for s in stats),
              "per_test": [{k: t[k] for k in ("variant", "name", "cases", "nontrivial", "labels", "max")} for t in tests],
          },
          "assumptions": chk.get("assumptions", []),
          "wall_s": round(time.time() - t0, 1), "violations": 1 if viol else 0}
    json.dump(ev, open("%s/evidence/%s.json" % (V, pid), "w"), indent=1, ensure_ascii=False)
    seen = set()
    for t in tests:
        for l in t["labels"]:
            if l.startswith("known:"):
                seen.add(l[6:])
    for k in sorted(seen):
        print("KNOWN-FINDING: property=%s %s" % (pid, known.get(k, k)))
    if viol:
        print("VIOLATION property=%s replay=%s" % (pid, viol))
        return 1
    if not tests or ev["coverage"]["evaluations"] == 0:
        print("error: nothing was explored")
        return 2
    print("%s held on %d cases (%d distinct non-trivial), %.1f s" % (pid, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], ev["wall_s"]))
    return 0


if __name__ == "__main__":
    sys.exit(main())
