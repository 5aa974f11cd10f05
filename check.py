#!/usr/bin/env python3
"""Decide one property: compile /repo's sources to LLVM IR, execute the harnesses
symbolically (engine/vse, Z3), replay what is found on a native build.

  check.py PROPERTY            run the check (tier from VERIF_TIER, default quick)
  check.py --replay FILE       re-run a recorded counterexample natively
"""
import sys, os, re, json, time, shutil, subprocess, tempfile, threading, fcntl, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
VSE = os.path.join(BUILD, "vse")
NCPU = int(os.environ.get("VERIF_JOBS", "8"))
BUDGET = float(os.environ.get("VERIF_BUDGET", "840"))
T0 = time.time()

RENAMES = ("exit abort _exit atexit fork vfork execvp execv execve pipe pipe2 dup2 dup close open waitpid wait select read write "
           "fcntl kill gettimeofday getrusage time localtime localtime_r gmtime strftime ctime mkdir unlink rename symlink system gethostname "
           "getpid getppid sysconf openlog closelog vsyslog syslog random rand srandom fopen fdopen popen pclose sleep usleep "
           "clock_gettime wait4 wait3 dup3 nanosleep gmtime_r ctime_r pselect poll").split()
CONF = ["-DHAVE_HEADER_SYS_RESOURCE_H=1", "-DHAVE_HEADER_ALLOCA_H=1", "-DSIZEOF_LONG=8",
        "-DMAA_MAJOR=4", "-DMAA_MINOR=13", "-DMAA_TEENY=30", "-DNDEBUG_VP=1",
        "-Dnoreturn=unused"]      # a function declared noreturn that does return must not be assumed away


class Inconclusive(Exception):
    pass


def sh(cmd, cwd=None, timeout=300, ok=True):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if ok and p.returncode != 0:
        raise Inconclusive("%s failed:\n%s" % (" ".join(cmd[:3]) + " ... " + cmd[-1], p.stdout.decode(errors="replace")[-3000:]))
    return p


def build_engine():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        srcs = [os.path.join(VERIF, "engine", f) for f in ("expr.cpp", "expr.h", "solver.cpp", "solver.h", "main.cpp", "Makefile")]
        h = hashlib.sha256(b"".join(open(s, "rb").read() for s in srcs)).hexdigest()
        stamp = os.path.join(BUILD, "stamp")
        if os.path.exists(VSE) and os.path.exists(stamp) and open(stamp).read() == h:
            return
        if os.path.exists(VSE):
            os.unlink(VSE)
        sh(["make", "-C", os.path.join(VERIF, "engine"), "B=" + BUILD], timeout=900)
        open(stamp, "w").write(h)


class Tree:
    """The library, compiled from /repo's working tree for one set of extra renames."""

    def __init__(self, tmp, rename=(), keep=()):
        self.tmp = tmp
        self.rename = [r for r in RENAMES if r not in keep] + list(rename)
        self.key = hashlib.sha256(" ".join(self.rename).encode()).hexdigest()[:8]
        self.dir = os.path.join(tmp, "t" + self.key)
        self.lock = threading.Lock()
        self.natlock = threading.Lock()
        self.native_done = False
        self.bins = {}
        self.bcs = {}
        os.makedirs(self.dir)
        maa = os.path.join(REPO, "maa")
        self.maa = maa
        mk = open(os.path.join(maa, "Makefile")).read().replace("\\\n", " ")
        m = re.search(r"^SRCS\s*[+]?=\s*(.*)$", mk, re.M)
        self.srcs = [s for s in m.group(1).split() if s.endswith(".c")] if m else []
        for x in re.findall(r"^SRCS\s*\+=\s*(.*)$", mk, re.M):
            self.srcs += [s for s in x.split() if s.endswith(".c") and s not in self.srcs]
        if not self.srcs:
            raise Inconclusive("no SRCS in maa/Makefile")
        with open(os.path.join(self.dir, "arggram.c"), "w") as o:
            p = subprocess.run(["awk", "-f", os.path.join(maa, "arggram2c")], stdin=open(os.path.join(maa, "arggram.txt")), stdout=o)
            if p.returncode:
                raise Inconclusive("arggram2c failed")
        self.flags = ["-I" + maa, "-I" + self.dir] + CONF
        self.defs = ["-D%s=vp_%s" % (r, r) for r in self.rename]
        jobs = []
        bc = []
        for s in self.srcs:
            o = os.path.join(self.dir, s[:-2] + ".bc")
            bc.append(o)
            jobs.append(["clang-18", "-O0", "-Xclang", "-disable-O0-optnone", "-g", "-w", "-fno-builtin", "-ffp-contract=off", "-emit-llvm", "-c",
                         "-Werror=implicit-function-declaration"] + self.flags + self.defs + [os.path.join(maa, s), "-o", o])
        for s in ("mlibc", "vp_env"):
            o = os.path.join(self.dir, s + "_.bc")
            bc.append(o)
            jobs.append(["clang-18", "-O0", "-Xclang", "-disable-O0-optnone", "-g", "-w", "-fno-builtin", "-ffp-contract=off", "-emit-llvm", "-c", "-I" + os.path.join(VERIF, "lib"),
                         os.path.join(VERIF, "lib", s + ".c"), "-o", o])
        with ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(sh, jobs))
        self.lib = os.path.join(self.dir, "lib.bc")
        sh(["llvm-link-18"] + bc + ["-o", self.lib])
        sh(["opt-18", "-passes=mem2reg", self.lib, "-o", self.lib])

    def hflags(self, harness=""):
        """a harness name may carry definitions: list+MAXN=400"""
        return self.flags + ["-D" + d for d in harness.split("+")[1:]] + ["-I" + os.path.join(VERIF, "lib"), "-I" + os.path.join(VERIF, "harness")]

    def bitcode(self, harness):
        with self.lock:
            if harness in self.bcs:
                return self.bcs[harness]
            h = os.path.join(self.dir, "h_" + harness + ".bc")
            o = os.path.join(self.dir, "x_" + harness + ".bc")
            sh(["clang-18", "-O0", "-Xclang", "-disable-O0-optnone", "-g", "-w", "-fno-builtin", "-ffp-contract=off", "-emit-llvm", "-c", "-Werror=implicit-function-declaration"] + self.hflags(harness) +
               [os.path.join(VERIF, "harness", harness.split("+")[0] + ".c"), "-o", h])
            sh(["opt-18", "-passes=mem2reg", h, "-o", h])
            sh(["llvm-link-18", h, self.lib, "-o", o])
            self.bcs[harness] = o
            return o

    def native(self, harness):
        san = ["-g", "-O1", "-w", "-fsanitize=address", "-fno-omit-frame-pointer", "-fno-builtin", "-U_FORTIFY_SOURCE"]
        with self.natlock:
            if not self.native_done:
                jobs = []
                for s in self.srcs:
                    jobs.append(["gcc"] + san + self.flags + self.defs + ["-c", os.path.join(self.maa, s), "-o", os.path.join(self.dir, s[:-2] + ".no")])
                for s in ("vp_env", "vp_native"):
                    jobs.append(["gcc"] + san + ["-I" + os.path.join(VERIF, "lib"), "-c", os.path.join(VERIF, "lib", s + ".c"), "-o", os.path.join(self.dir, s + "_.no")])
                with ThreadPoolExecutor(NCPU) as ex:
                    list(ex.map(sh, jobs))
                self.native_done = True
            if harness in self.bins:
                return self.bins[harness]
            o = os.path.join(self.dir, "n_" + harness)
            sh(["gcc"] + san + self.hflags(harness) + [os.path.join(VERIF, "harness", harness.split("+")[0] + ".c")] +
               [os.path.join(self.dir, s[:-2] + ".no") for s in self.srcs] +
               [os.path.join(self.dir, s + "_.no") for s in ("vp_env", "vp_native")] + ["-o", o])
            self.bins[harness] = o
            return o


def run_native(tree, task, syms, tmp, n, timeout=20):
    """-> (verdict, text): verdict in fail, pass, assume, diverged, harness"""
    exe = tree.native(task["harness"])
    f = os.path.join(tmp, "vec-%s-%s.txt" % (re.sub(r"\W", "_", task["name"]), n))
    with open(f, "w") as o:
        for k, v in task.get("params", {}).items():
            o.write("P %s %d\n" % (k, v))
        for nm, w, v in syms:
            o.write("S %s %d %s\n" % (nm, w, v))
    d = tempfile.mkdtemp(dir=tmp)
    env = {"PATH": "/usr/bin:/bin", "LC_ALL": "C",
           "ASAN_OPTIONS": ("quarantine_size_mb=0:thread_local_quarantine_size_kb=0:" if task.get("params", {}).get("lifo") else "") + "detect_leaks=0:max_malloc_fill_size=16777216:malloc_fill_byte=190:exitcode=99:detect_stack_use_after_return=1:allocator_may_return_null=1:symbolize=1"}
    try:
        p = subprocess.run([exe, f], cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        return "fail", "does not terminate (killed after %d s)" % timeout, []
    finally:
        shutil.rmtree(d, ignore_errors=True)
    t = p.stdout.decode(errors="replace")
    notes = re.findall(r"^VP-NOTE (\d+)$", t, re.M)
    rc = p.returncode
    if rc == 0 and "VP-PASS" in t:
        return "pass", "", notes
    if rc == 77:
        m = re.search(r"VP-ASSERT (.*)", t)
        return "fail", m.group(1) if m else "assertion", notes
    if rc == 99 or rc < 0 or "AddressSanitizer" in t:
        m = re.search(r"ERROR: AddressSanitizer: (.*)", t)
        fr = re.findall(r"#\d+ 0x[0-9a-f]+ in (\S+) (\S+)", t)
        loc = next(("%s %s" % x for x in fr if "/maa/" in x[1]), fr[0][0] if fr else "")
        return "fail", (m.group(1)[:120] if m else "killed by signal %d" % -rc) + " in " + loc, notes
    if rc == 78:
        return "assume", t[-300:], notes
    if rc == 79:
        return "diverged", t[-300:], notes
    return "harness", "exit %d: %s" % (rc, t[-500:]), notes


def run_task(tree, task, tmp, tier):
    """-> dict with status ok / violation / inconclusive"""
    t0 = time.time()
    out = os.path.join(tmp, "out-" + re.sub(r"\W", "_", task["name"]) + ".jsonl")
    left = BUDGET - (time.time() - T0)
    mt = min(task.get("time", 200 if tier == "quick" else 3000), left)
    if mt < 5:
        return dict(status="incomplete", why="out of time", task=task, summ=None, bugs=[], tests=0, validated=0, errs=[], wall=0.0, sample=None)
    bc = tree.bitcode(task["harness"])
    cmd = [VSE, bc, "--entry", "vp_main", "--out", out, "-j", str(task.get("jobs", 2)), "--max-time", str(mt),
           "--max-tests", str(task.get("tests", 12 if tier == "quick" else 40)), "--max-path-insts", str(task.get("steps", 20000000))]
    for k, v in task.get("params", {}).items():
        cmd += ["-P", "%s=%d" % (k, v)]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=mt + 60)
        log = p.stdout.decode(errors="replace")
        rc = p.returncode
    except subprocess.TimeoutExpired:
        rc, log = -1, "engine timeout"
    rec = []
    if os.path.exists(out):
        for l in open(out):
            try:
                rec.append(json.loads(l))
            except ValueError:
                pass
    summ = next((r for r in rec if r["t"] == "sum"), None)
    bugs = [r for r in rec if r["t"] == "bug"]
    errs = [r for r in rec if r["t"] == "err"]
    tests = [r for r in rec if r["t"] == "test"]
    res = dict(task=task, summ=summ, bugs=[], tests=len(tests), validated=0, errs=errs, wall=0.0, status="ok", why="", sample=None)
    # counterexamples: only what the real build confirms
    unrep = []
    for i, b in enumerate(bugs[:12]):
        v, why, _ = run_native(tree, task, b["syms"], tmp, "b%d" % i)
        if v == "fail":
            b["native"] = why
            res["bugs"].append(b)
            if len(res["bugs"]) >= 3 or "terminate" in why or os.environ.get("VERIF_STOP"):
                break
        else:
            unrep.append((b, v, why))
    # samples of explored paths: engine and real build must agree
    for i, t in enumerate(tests if not res["bugs"] else []):
        v, why, notes = run_native(tree, task, t["syms"], tmp, "t%d" % i)
        if v == "pass" and notes == t["notes"]:
            res["validated"] += 1
        elif v == "fail":
            res["bugs"].append(dict(kind="native", msg=why, loc="", stack=[], syms=t["syms"], native=why))
        else:
            unrep.append((dict(kind="mismatch", msg="engine and native run disagree (%s)" % v, loc="notes engine=%s native=%s" % (t["notes"][:20], notes[:20]), syms=t["syms"]), v, why))
    if tests:
        res["sample"] = dict(task=task["name"], params=task.get("params", {}), inputs=[[a, v] for a, w, v in tests[-1]["syms"]][:40])
    if res["bugs"]:
        res["status"] = "violation"
    elif rc != 0 or summ is None:
        res["status"], res["why"] = "inconclusive", "engine failed: rc=%s %s" % (rc, log[-600:])
    elif errs:
        undecided = all("solver gave no answer" in e["msg"] for e in errs)
        res["status"], res["why"] = "incomplete" if undecided else "inconclusive", "engine: " + "; ".join("%s at %s" % (e["msg"], e["loc"]) for e in errs[:3])
    elif unrep:
        b, v, why = unrep[0]
        res["status"], res["why"] = "inconclusive", "not reproduced natively (%s %s): %s %s at %s; inputs %s" % (v, why, b["kind"], b["msg"], b.get("loc"), json.dumps(b.get("syms"))[:400])
    elif summ["timeout"] or summ["stopped"]:
        res["status"], res["why"] = "incomplete", "time limit (%.0f s) reached after %d paths" % (mt, summ["paths"])
    elif summ["unknown"]:
        res["status"], res["why"] = "incomplete", "solver gave no answer"
    elif summ["paths"] == 0:
        res["status"], res["why"] = "inconclusive", "no path reached the end (vacuous)"
    res["wall"] = time.time() - t0
    return res


def known_findings(pid):
    kf = []
    f = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"known: property=(\S+) match=/(.*)/ (.*)", l.strip())
            if m and m.group(1) == pid:
                kf.append((re.compile(m.group(2)), m.group(3)))
    return kf


def write_replay(pid, n, b, task, tree):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, "%s-%d.json" % (pid, n))
    json.dump(dict(property=pid, harness=task["harness"], params=task.get("params", {}), rename=task.get("rename", []), keep=task.get("keep", []), task=task["name"],
                   kind=b["kind"], msg=b["msg"], loc=b["loc"], stack=b.get("stack"), native=b.get("native"), syms=b["syms"],
                   how="python3 /verif/check.py --replay " + f), open(f, "w"), indent=1)
    return f


def main():
    if sys.argv[1] == "--replay":
        r = json.load(open(sys.argv[2]))
        tmp = tempfile.mkdtemp(prefix="vp-")
        try:
            tree = Tree(tmp, r.get("rename", ()), r.get("keep", ()))
            v, why, _ = run_native(tree, dict(name="replay", harness=r["harness"], params=r["params"]), r["syms"], tmp, "r")
            print(v, why)
            return 1 if v == "fail" else 0
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    if sys.argv[1] == "--setup":
        build_engine()
        return 0
    import tasks as T
    pid = sys.argv[1]
    only = sys.argv[2] if len(sys.argv) > 2 else None
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    global BUDGET
    if tier == "thorough" and "VERIF_BUDGET" not in os.environ:
        BUDGET = 6 * 3600.0
    tl = [t for t in T.tasks(pid, tier) if not only or only in t["name"]]
    tmp = tempfile.mkdtemp(prefix="vp-")
    results = []
    err = None
    try:
        build_engine()
        trees = {}
        for t in tl:
            k = (tuple(t.get("rename", ())), tuple(t.get("keep", ())))
            if k not in trees:
                trees[k] = Tree(tmp, *k)
        slots = threading.Semaphore(NCPU)
        big = threading.Lock()
        stop = []

        def go(t):
            j = min(t.get("jobs", 2), NCPU)
            with big:
                for _ in range(j):
                    slots.acquire()
            try:
                # a violation has been confirmed: the exit status is settled, do not risk the time limit
                if stop and (os.environ.get("VERIF_STOP") or time.time() - T0 > 150):
                    return dict(status="inconclusive", why="not run, a violation is known", task=t)
                r = run_task(trees[(tuple(t.get("rename", ())), tuple(t.get("keep", ())))], t, tmp, tier)
                kf = known_findings(pid)
                if any(not any(x[0].search("%s|%s|%s|%s" % (t["name"], b["kind"], b["msg"], b["loc"])) for x in kf) for b in r["bugs"]):
                    stop.append(t["name"])
                return r
            except Inconclusive as e:
                return dict(status="inconclusive", why=str(e), task=t)
            finally:
                for _ in range(j):
                    slots.release()
        with ThreadPoolExecutor(NCPU) as ex:
            results = list(ex.map(go, sorted(tl, key=lambda t: -t.get("jobs", 2))))
    except Inconclusive as e:
        err = str(e)
    finally:
        if os.environ.get("VERIF_KEEP"):
            print("kept", tmp)
        else:
            shutil.rmtree(tmp, ignore_errors=True)
    return report(pid, tier, seed, results, err, T)


def report(pid, tier, seed, results, err, T):
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], paths=0, forks=0, instructions=0, solver_queries=0,
               solver_sat=0, solver_unsat=0, query_cache_hits=0, model_reuse=0, solver_s=0.0, assertions_evaluated=0, paths_excluded_by_assumption=0, tasks=[], functions_encoded={})
    reach = {}
    fns = {}
    viol = []
    inc = [err] if err else []
    part = []      # explored or decided in part within the time: what was explored held, the bounds of these tasks are not claimed
    kf = known_findings(pid)
    seen_kf = {}
    for r in results:
        s = r.get("summ")
        t = r["task"]
        if s:
            cov["paths"] += s["paths"]; cov["forks"] += s["forks"]; cov["instructions"] += s["insts"]; cov["solver_queries"] += s["queries"]
            cov["solver_sat"] += s["sat"]; cov["solver_unsat"] += s["unsat"]; cov["query_cache_hits"] += s["cache"]; cov["model_reuse"] += s["modelhits"]
            cov["solver_s"] += s["solver_us"] / 1e6; cov["assertions_evaluated"] += s["asserts"]; cov["paths_excluded_by_assumption"] += s["killed"]
            for k, v in s["reach"].items():
                reach[(t["harness"].split("+")[0], k)] = reach.get((t["harness"].split("+")[0], k), False) or v
            for name, f, hb, nb in s["functions"]:
                if "/maa/" in f or f.startswith(REPO):
                    o = fns.get(name, (0, nb))
                    fns[name] = (max(o[0], hb), nb)
        cov["traces_validated_against_impl"] += r.get("validated", 0)
        if r.get("sample"):
            cov["samples"].append(r["sample"])
        cov["tasks"].append(dict(name=t["name"], harness=t["harness"], bounds=t.get("bounds", ""), params=t.get("params", {}), status=r["status"],
                                 paths=s["paths"] if s else 0, queries=s["queries"] if s else 0, solver_s=round(s["solver_us"] / 1e6, 3) if s else 0, slowest_query_s=round(s.get("slowest_us", 0) / 1e6, 3) if s else 0, wall_s=round(r.get("wall", 0), 2)))
        for b in r.get("bugs", []):
            ident = "%s|%s|%s|%s" % (t["name"], b["kind"], b["msg"], b["loc"])
            k = next((x for x in kf if x[0].search(ident)), None)
            if k:
                seen_kf[k[1]] = True
            else:
                viol.append((t, b))
        if r["status"] == "inconclusive":
            inc.append("%s: %s" % (t["name"], r["why"]))
        if r["status"] == "incomplete":
            part.append("%s: %s" % (t["name"], r["why"]))
    if part and not inc and not viol and not any(r["status"] == "ok" for r in results):
        inc.append("nothing was decided")
    if not inc and not viol and not part:
        miss = ["%s:%s" % k for k, v in reach.items() if not v]
        if miss:
            inc.append("vacuity: not reached: " + ", ".join(miss))
    cov["states"] = cov["paths"] + cov["forks"]
    cov["transitions"] = cov["instructions"]
    cov["explanation"] = ("states = completed symbolic paths plus forks of the path-wise exploration; transitions = LLVM instructions of the real code executed symbolically; "
                          "traces_validated = sampled paths whose solver model was run on the native ASan build with identical observations")
    cov["functions_encoded"] = {k: "%d/%d blocks" % v for k, v in sorted(fns.items())}
    cov["solver_s"] = round(cov["solver_s"], 3)
    cov["exhaustive"] = not inc and not viol and not part
    cov["incomplete_tasks"] = part
    cov["witness_labels_reached"] = sorted("%s:%s" % k for k, v in reach.items() if v)
    cov["samples"] = cov["samples"][:8]
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", coverage=cov, assumptions=T.assumptions(pid), wall_s=round(time.time() - T0, 2), violations=len(viol))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    for k in seen_kf:
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    print("%s %s: %d tasks, %d paths, %d forks, %d instructions, %d solver queries (%.1f s in the solver), %d native runs agree, %.1f s" % (
        pid, tier, len(results), cov["paths"], cov["forks"], cov["instructions"], cov["solver_queries"], cov["solver_s"], cov["traces_validated_against_impl"], time.time() - T0))
    if os.environ.get("VERIF_VERBOSE"):
        for t in cov["tasks"]:
            print("  ", json.dumps(t))
    if viol:
        for n, (t, b) in enumerate(viol[:int(os.environ.get("VERIF_MAXV", "5"))]):
            f = write_replay(pid, n, b, t, None)
            print("  %s: %s: %s at %s; natively: %s" % (t["name"], b["kind"], b["msg"], b["loc"], b.get("native")))
            print("VIOLATION property=%s replay=%s" % (pid, f))
        return 1
    for i in part:
        print("INCOMPLETE", i)
    if inc:
        for i in inc:
            print("INCONCLUSIVE", i)
        return 2
    return 0


if __name__ == "__main__":
    sys.path.insert(0, VERIF)
    sys.dont_write_bytecode = True
    sys.exit(main())
