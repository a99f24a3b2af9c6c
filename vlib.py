"""Builds the encoding of /repo's current sources, runs the symbolic executor on the harnesses of a property,
replays counterexamples natively, and writes the evidence.  See DESIGN.md."""
import concurrent.futures as cf, fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.path.join(V, "build")
ENGINE = os.path.join(B, "llsym")
CC = "clang-18"
BASE = ["-g", "-O0", "-DRGRAPH_VERIF", "-fno-builtin", "-w", "-std=gnu11", "-D_GNU_SOURCE", "-Wno-error=implicit-function-declaration", "-Wno-error=int-conversion",
        "-Wno-error=incompatible-function-pointer-types", "-ferror-limit=3"]
INC = ["-I" + REPO, "-I" + REPO + "/src"]
SAN = ["-fsanitize=address,signed-integer-overflow,integer-divide-by-zero,float-cast-overflow", "-fno-sanitize-recover=signed-integer-overflow,integer-divide-by-zero,float-cast-overflow", "-fno-omit-frame-pointer"]
WRAP = ["gsl_rng_uniform", "gsl_rng_uniform_pos", "gsl_rng_uniform_int", "gsl_eigen_symm", "gsl_sort_vector", "gsl_multiroot_fsolver_alloc", "gsl_multiroot_fsolver_set", "gsl_multiroot_fsolver_iterate",
        "gsl_multiroot_fsolver_free", "gsl_multiroot_test_residual"]
NCPU = min(8, os.cpu_count() or 8)


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def must(cmd, **kw):
    r = sh(cmd, **kw)
    if r.returncode:
        raise BuildError(" ".join(cmd[:6]) + " ...\n" + r.stdout[-3000:])
    return r.stdout


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:20]


def rd(f):
    with open(f, "rb") as x:
        return x.read()


class Lock:
    def __enter__(self):
        os.makedirs(B, exist_ok=True)
        self.f = open(os.path.join(B, "lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def build_engine():
    with Lock():
        srcs = sorted(glob.glob(V + "/llsym/*"))
        key = digest(*[rd(s) for s in srcs])
        stamp = os.path.join(B, "llsym.key")
        if os.path.exists(ENGINE) and os.path.exists(stamp) and rd(stamp).decode() == key:
            return
        must(["bash", V + "/llsym/build.sh"])
        with open(stamp, "w") as f:
            f.write(key)


def repo_sources():
    return sorted(glob.glob(REPO + "/src/*.c")) + [REPO + "/lib/search.c"]


def _headers_key():
    hs = sorted(glob.glob(REPO + "/src/*.h")) + [REPO + "/config.h"]
    return digest(*[h.encode() + rd(h) for h in hs if os.path.exists(h)])


def compile_all(flags, ext, sources, extra_key=""):
    """Compile each source (content-addressed cache); returns the object list."""
    cache = os.path.join(B, "cache")
    os.makedirs(cache, exist_ok=True)
    hk = _headers_key()

    def one(src):
        key = digest(src, rd(src), hk, " ".join(flags), extra_key)
        out = os.path.join(cache, os.path.basename(src)[:-2] + "-" + key + ext)
        if not os.path.exists(out):
            tmp = out + ".%d.tmp" % os.getpid()
            must([CC, "-c"] + flags + INC + [src, "-o", tmp])
            os.rename(tmp, out)
        return out
    with cf.ThreadPoolExecutor(NCPU) as ex:
        return list(ex.map(one, sources))


def repo_bitcode():
    objs = compile_all(BASE + ["-emit-llvm"], ".bc", repo_sources())
    out = os.path.join(B, "cache", "repo-" + digest(*objs) + ".bc")
    if not os.path.exists(out):
        tmp = out + ".%d.tmp" % os.getpid()
        must(["llvm-link-18", "-o", tmp] + objs)
        os.rename(tmp, out)
    return out


def models_bitcode():
    H = V + "/harness"
    key = digest(*[rd(f) for f in sorted(glob.glob(V + "/models/*.c"))], rd(H + "/sym.h"), rd(H + "/window.h"), rd(H + "/multiroot.h"))
    out = os.path.join(B, "cache", "models-" + key + ".bc")
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        bs = []
        for f in sorted(glob.glob(V + "/models/*.c")):
            o = out + "." + os.path.basename(f) + ".%d.o" % os.getpid()
            must([CC, "-c", "-emit-llvm"] + BASE + ["-I" + H, f, "-o", o])
            bs.append(o)
        tmp = out + ".%d.tmp" % os.getpid()
        must(["llvm-link-18", "-o", tmp] + bs)
        for o in bs:
            os.unlink(o)
        os.rename(tmp, out)
    return out


def link_job(job, work, defs):
    h = os.path.join(work, job["name"] + ".h.bc")
    must([CC, "-c", "-emit-llvm"] + BASE + ["-I" + V + "/harness"] + INC + defs + [os.path.join(V, "harness", job["src"]), "-o", h])
    m = os.path.join(work, job["name"] + ".bc")
    must(["llvm-link-18", "-o", m, h, repo_bitcode(), models_bitcode()])
    must(["opt-18", "-passes=internalize,globaldce", "-internalize-public-api-list=" + ",".join([job["entry"], MODELSYMS()] + ["__wrap_" + w for w in job.get("wrap", [])]), m, "-o", m + ".o"])
    os.rename(m + ".o", m)
    return m


def MODELSYMS():
    return ",".join("__m_" + x for x in ["printf", "fprintf", "sprintf", "snprintf", "fscanf", "sscanf", "scanf", "asprintf"])


def native_objs(san):
    fl = [x for x in BASE if x != "-fno-builtin"] + (SAN if san else [])
    return compile_all(fl, ".san.o" if san else ".nat.o", repo_sources())


def native_exe(job, work, defs, san=True):
    exe = os.path.join(work, job["name"] + (".san" if san else ".nat"))
    if os.path.exists(exe):
        return exe
    fl = [x for x in BASE if x != "-fno-builtin"] + (SAN if san else [])
    objs = native_objs(san)
    must([CC] + fl + ["-fno-pie", "-no-pie", "-I" + V + "/harness"] + INC + defs + ["-DHX_ENTRY=" + job["entry"], V + "/replay/rt.c", os.path.join(V, "harness", job["src"])] + objs +
         ["-Wl,--wrap=" + w for w in WRAP + job.get("wrap", [])] + ["-lgsl", "-lgslcblas", "-lm", "-o", exe])
    return exe


def replay_once(exe, values, timeout, valgrind=False, leaks=False):
    """Run one native replay in a scratch directory; returns (status, output)."""
    d = tempfile.mkdtemp(prefix="vreplay")
    try:
        vf = os.path.join(d, "values")
        with open(vf, "w") as f:
            for v in values:
                f.write("%d %s\n" % (v["k"], v["v"]))
        sub = os.path.join(d, "cwd")
        os.mkdir(sub)
        cmd = [exe, vf, sub]
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=99:detect_stack_use_after_return=1", UBSAN_OPTIONS="print_stacktrace=1")
        if valgrind:
            cmd = ["valgrind", "-q", "--error-exitcode=98", "--track-origins=no"] + (["--leak-check=full", "--show-leak-kinds=definite,indirect", "--errors-for-leak-kinds=definite"] if leaks else []) + cmd
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace", env=env, stdin=subprocess.DEVNULL)
            return r.returncode, r.stdout
        except subprocess.TimeoutExpired as e:
            return "timeout", (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or "")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def confirm(job, work, defs, viol):
    """Replay a counterexample on the real code. Returns (confirmed, description)."""
    kind = viol["kind"]
    tmo = 20
    if kind == "assert" and "releases all its memory" in viol["msg"]:
        rc, out = replay_once(native_exe(job, work, defs, False), viol["values"], 120, valgrind=True, leaks=True)
        return rc == 98, "\n".join(out.splitlines()[:40])
    exe = native_exe(job, work, defs, True)
    rc, out = replay_once(exe, viol["values"], tmo)
    last = "\n".join(out.splitlines()[-25:])
    if rc == "timeout":
        return True, "does not terminate (no end within %d s)\n%s" % (tmo, last)
    if rc == 71:
        return True, last
    if rc == 99 or "AddressSanitizer" in out or "runtime error" in out:
        if kind == "assert" and "REPLAY-ASSERT" not in out and "stack-overflow" not in out:
            pass
        return True, "\n".join(out.splitlines()[:40])
    if isinstance(rc, int) and (rc < 0 or rc in (134, 136, 139)):
        return True, "crash, status %s\n%s" % (rc, last)
    if "REPLAY-EXIT" in out and kind == "exit":
        return True, "program exits with status %s\n%s" % (rc, last)
    if kind == "memory":
        exe = native_exe(job, work, defs, False)
        rc, out = replay_once(exe, viol["values"], 120, valgrind=True)
        if rc == 98 or "uninitialised" in out or "Invalid read" in out or "Invalid write" in out:
            return True, "\n".join(out.splitlines()[:40])
        last = "\n".join(out.splitlines()[-25:])
    if kind == "arith" and "REPLAY-GSL-ERROR" in out:
        return True, last
    return False, "rc=%s\n%s" % (rc, last)


def run_engine(job, mod, work, tlimit, mem_gb=3):
    out = os.path.join(work, job["name"] + ".out")
    cmd = [ENGINE, mod, "--entry", job["entry"], "--mode", job.get("mode", "real"), "--jobs", str(job.get("jobs", NCPU)), "--time", str(tlimit), "--out", out, "--steps", str(job.get("steps", 3000000))]
    cmd += ["--maxviol", str(job.get("maxviol", 12))] + (["--qt", str(job["qt"])] if "qt" in job else [])
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=tlimit * 1.5 + 60)
        rc, err = r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        rc, err = 5, "hard timeout"
    recs = []
    if os.path.exists(out):
        for l in open(out, errors="replace"):
            try:
                recs.append(json.loads(l))
            except ValueError:
                pass
    return rc, err, recs


def load_known():
    """known findings: property -> list of (job, kind, regex on message|where)"""
    k = []
    p = os.path.join(V, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l or l.startswith("#") or l.startswith("fixed:"):
                continue
            m = re.match(r"finding: property=(\S+) match=/(.*)/ (.*)$", l)
            if m:
                k.append((m.group(1), re.compile(m.group(2)), m.group(3)))
    return k


def check(prop, spec, tier, seed, only=None, keep=None):
    t0 = time.time()
    build_engine()
    work = keep or tempfile.mkdtemp(prefix="verif-%s-" % prop)
    os.makedirs(work, exist_ok=True)
    known = load_known()
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": 0, "violations": 0,
          "coverage": {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "harnesses": []},
          "assumptions": list(spec.get("assumptions", []))}
    cov = ev["coverage"]
    problems, viols, knownhits = [], [], {}
    try:
        repo_bitcode()
        models_bitcode()
        jobs = [j for j in spec["jobs"] if (tier == "thorough" or not j.get("thorough_only")) and (not only or j["name"] == only)]
        for job in jobs:
            defs = ["-D%s=%s" % (a, b) for a, b in dict(job.get("defs", {}), **(job.get("tdefs", {}) if tier == "thorough" else {})).items()]
            tl = job.get("ttime", 1800) if tier == "thorough" else job.get("qtime", 200)
            mod = link_job(job, work, defs)
            rc, err, recs = run_engine(job, mod, work, tl)
            summ = [r for r in recs if r.get("type") == "summary"]
            summ = summ[-1] if summ else None
            hrec = {"harness": job["name"], "entry": job["entry"], "bounds": job.get("bounds", ""), "arithmetic": job.get("mode", "real"), "complete": False}
            cov["harnesses"].append(hrec)
            for r in recs:
                if r.get("type") == "engine_error":
                    problems.append("%s: engine: %s [%s]" % (job["name"], r["msg"], r.get("trace", "")[:200]))
                if r.get("type") == "undecided":
                    problems.append("%s: solver did not decide: %s" % (job["name"], r["msg"]))
            if not summ:
                problems.append("%s: engine ended without a summary (rc %s) %s" % (job["name"], rc, err[-300:]))
            else:
                for k in ("paths", "completed", "assume_pruned", "limit_pruned", "steps", "forks", "queries", "sat", "unsat", "unknown", "solver_s", "asserts", "asserts_by_normalisation", "asserts_by_query", "interval_decisions", "cache_hits", "wall_s", "functions", "reach"):
                    hrec[k] = summ[k]
                cov["states"] += summ["completed"]
                cov["transitions"] += summ["forks"] + summ["queries"]
                hrec["complete"] = not summ["timeout"] and not summ["err"]
                if summ["timeout"]:
                    problems.append("%s: not finished within %s s" % (job["name"], tl))
                if not summ["violations"]:
                    for tag in job.get("reach", ["end"]):
                        if not summ["reach"].get(tag):
                            problems.append("%s: vacuous: '%s' never reached" % (job["name"], tag))
            # counterexamples
            seen = {}
            for r in recs:
                if r.get("type") != "violation":
                    continue
                if job.get("assert_only") and r["kind"] != "assert":
                    continue
                key = (r["kind"], r["msg"], r["where"])
                seen.setdefault(key, []).append(r)
            for key, rs in seen.items():
                sig = "%s|%s|%s|%s" % (job["name"], key[0], key[1], key[2])
                kn = next((k for k in known if k[0] == prop and k[1].search(sig)), None)
                ok, desc = False, ""
                for r in rs:
                    ok, desc = confirm(job, work, defs, r)
                    if ok:
                        break
                if kn:
                    knownhits[kn[2]] = knownhits.get(kn[2], 0) + 1
                    continue
                if not ok:
                    problems.append("%s: counterexample not reproduced natively: %s\n%s" % (job["name"], sig, desc))
                    continue
                rp = os.path.join(B, "replays")
                os.makedirs(rp, exist_ok=True)
                path = os.path.join(rp, "%s-%s-%s.json" % (prop, job["name"], digest(sig)))
                with open(path, "w") as f:
                    json.dump({"property": prop, "job": job["name"], "defs": defs, "signature": sig, "violation": r, "native": desc}, f, indent=1)
                viols.append((sig, path, r, desc))
            # translation validation: sampled symbolic paths are re-run natively and must pass as well
            samples = [r for r in recs if r.get("type") == "sample"]
            if samples and not seen and summ:
                for s in samples[: (6 if tier == "thorough" else 2)]:
                    if len(cov["samples"]) < 12:
                        cov["samples"].append({"harness": job["name"], "inputs": " ".join("%s=%s" % (x["n"], x["v"]) for x in s["values"][:80])})
                    rc2, out2 = replay_once(native_exe(job, work, defs, True), s["values"], 60)
                    if rc2 == 0 and "REPLAY-END" in out2 or (rc2 in (0, 1, 255) and "REPLAY-EXIT" in out2 and job.get("exits")):
                        cov["traces_validated_against_impl"] += 1
                    else:
                        hrec.setdefault("sample_mismatch", []).append(str(rc2) + " " + "\n".join(out2.splitlines()[-8:])[:600])
        missing = [w for w in spec.get("must_encode", []) if not any(w in h.get("functions", []) for h in cov["harnesses"])]
        if missing and not viols:
            cov["not_encoded_this_run"] = missing
    finally:
        if not keep:
            shutil.rmtree(work, ignore_errors=True)
    ev["wall_s"] = round(time.time() - t0, 2)
    ev["violations"] = len(viols)
    fns = sorted({f for h in cov["harnesses"] for f in h.get("functions", [])})
    cov["functions_encoded"] = fns
    cov["queries_discharged"] = sum(h.get("queries", 0) for h in cov["harnesses"])
    cov["solver_time_s"] = round(sum(h.get("solver_s", 0) for h in cov["harnesses"]), 3)
    cov["exhaustive_within_bounds"] = bool(cov["harnesses"]) and all(h["complete"] for h in cov["harnesses"])
    if problems:
        cov["inconclusive"] = problems[:20]
    if knownhits:
        cov["known_findings"] = knownhits
    if not cov["samples"]:
        cov["samples"] = ["none recorded"]
    os.makedirs(V + "/evidence", exist_ok=True)
    if not only:
        with open(os.path.join(V, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    for h in cov["harnesses"]:
        print("%-26s %s paths=%s queries=%s solver=%ss wall=%ss%s" % (h["harness"], "complete" if h["complete"] else "INCOMPLETE", h.get("completed"), h.get("queries"), h.get("solver_s"), h.get("wall_s"), " SAMPLE-MISMATCH" if h.get("sample_mismatch") else ""))
        if h.get("sample_mismatch") and os.environ.get("VERBOSE"):
            print(h["sample_mismatch"][0])
    for k in knownhits:
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    for sig, path, r, desc in viols:
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  " + sig)
        print("  trace: " + r.get("trace", "")[:400])
        print("  inputs: " + " ".join("%s=%s" % (x["n"], x["v"]) for x in r["values"])[:600])
        print("  " + desc.replace("\n", "\n  ")[:1500])
    for p in problems:
        print("INCONCLUSIVE: " + p)
    if viols:
        return 1
    return 2 if problems else 0


def replay_file(path, specs):
    """Re-run a recorded counterexample natively."""
    d = json.load(open(path))
    job = next(j for j in specs[d["property"]]["jobs"] if j["name"] == d["job"])
    work = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        ok, desc = confirm(job, work, d["defs"], d["violation"])
    finally:
        shutil.rmtree(work, ignore_errors=True)
    print(d["signature"])
    print(desc)
    print("reproduced" if ok else "NOT reproduced")
    return 1 if ok else 0
