#!/usr/bin/env python3
"""check.py <property> [quick|thorough] [--replay FILE]

Builds /repo's current sources with the monitors, runs the property's workloads,
and reports what the monitors saw.  Exit 0: held on everything observed; 1: a
violation (with a VIOLATION line); 2: the check itself could not give an answer."""
import zlib
import json, mmap, os, re, resource, shutil, signal, struct, subprocess, sys, tempfile, time
import vlib
from jobs import JOBS, INFO

VERIF = vlib.VERIF
KNOWN = os.path.join(VERIF, "known_findings.txt")
STALL_S = 150          # wall seconds without progress of a worker


def known_findings(prop):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


class Proc:
    def __init__(self, job, exe, cli, worker, workers, seed, tier, work, single=None):
        self.job, self.worker = job, worker
        # jobs of the same kind run side by side, so each gets files of its own
        base = os.path.join(work, "%d-%s-%s-%s-%d%s" % (job.get("id", 0), job["flavor"], job["prog"], job["mode"], worker, "-re" if single else ""))
        self.report, self.err = base + ".json", base + ".err"
        self.scratch = base + ".d"
        self.status = self.report + ".status"
        if os.path.exists(self.report):
            os.unlink(self.report)
        # every job looks at cases of its own
        seed = (seed << 32) ^ zlib.crc32(("%s/%s/%s/%s" % (job["flavor"], job["prog"], job["mode"], job.get("np", 0))).encode())
        cmd = [exe, "--mode", job["mode"], "--seed", str(seed), "--worker", str(worker), "--workers", str(workers),
               "--cases", str(job["cases"]), "--report", self.report, "--scratch", self.scratch, "--tier", tier,
               "--cpu-limit", str(job.get("cpu_limit", 100))]
        if job.get("max_seconds"):
            cmd += ["--max-seconds", str(job["max_seconds"])]
        if cli:
            cmd += ["--cli", cli]
        if single:
            cmd += ["--case-seed", str(single[0]), "--case-idx", str(single[1])]
        env = {k: v for k, v in os.environ.items() if not k.startswith(("KVTREE_", "ASAN_", "UBSAN_", "TSAN_"))}
        env.update(job.get("env", {}))
        if job["flavor"] == "tsan":
            env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=99:second_deadlock_stack=1:report_thread_leaks=0"
        pre = []
        if not job.get("np") and vlib.locales():
            env["LOCPATH"] = vlib.locales()
        if job.get("np"):
            env.update({"OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1",
                        "OMPI_MCA_rmaps_base_oversubscribe": "1", "OMPI_MCA_hwloc_base_binding_policy": "none",
                        "OMPI_MCA_plm": "isolated", "OMPI_MCA_btl": "self,vader", "OMPI_MCA_pml": "ob1",
                        "OMPI_MCA_btl_vader_single_copy_mechanism": "none", "OMPI_MCA_mpi_yield_when_idle": "1"})
            os.makedirs(self.scratch, exist_ok=True)
            env["TMPDIR"] = self.scratch
            pre = ["mpirun", "-np", str(job["np"])]
        if job.get("valgrind"):
            pre = ["valgrind", "-q", "--error-exitcode=99", "--leak-check=no", "--num-callers=20",
                   "--max-stackframe=8000000", "--main-stacksize=67108864"]
        stack = job.get("stack", 512 << 20)

        def setup():
            os.setsid()
            hard = resource.getrlimit(resource.RLIMIT_STACK)[1]
            s = stack if hard == resource.RLIM_INFINITY else min(stack, hard)
            resource.setrlimit(resource.RLIMIT_STACK, (s, hard))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            os.umask(0o022)

        self.cmd = pre + cmd
        self.p = subprocess.Popen(self.cmd, stdout=subprocess.DEVNULL, stderr=open(self.err, "wb"), stdin=subprocess.DEVNULL,
                                  env=env, preexec_fn=setup)
        self.last, self.last_t, self.stalled = None, time.time(), False
        self.t0 = time.time()

    def state(self):
        try:
            b = open(self.status, "rb").read()
            s, i = struct.unpack_from("<QQ", b)
            return s, i, b[16:].split(b"\0")[0].decode("latin1")
        except Exception:
            return None

    def poll(self):
        rc = self.p.poll()
        if rc is not None:
            self.kill()
            return rc
        st = self.state()
        if st != self.last:
            self.last, self.last_t = st, time.time()
        elif time.time() - self.last_t > self.job.get("stall", STALL_S):
            self.stalled = True
            self.kill()
            self.p.wait()
            return -999
        return None

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass

    def errtext(self, n=6000):
        try:
            with open(self.err, "rb") as f:
                f.seek(0, 2)
                sz = f.tell()
                f.seek(max(0, sz - 400000))
                t = f.read().decode("latin1")
        except OSError:
            return ""
        keep = [l for l in t.splitlines() if not re.match(r"KVTree \d|=+\d+=+WARNING: AddressSanitizer failed to alloc", l)]
        t = "\n".join(keep)
        for pat in (r"==\d+==ERROR", r"runtime error", r"WARNING: ThreadSanitizer", r"==\d+== (Invalid|Conditional|Use of|Syscall)", "LIBRARY-EXIT", "HARNESS-ERROR"):
            m = re.search(pat, t)
            if m:
                return t[max(0, m.start() - 200):m.start() + n]
        return t[-n:]


def classify(pr, rc):
    """what an abnormal end of a worker means: (kind, text)"""
    t = pr.errtext()
    if "HARNESS-ERROR" in t or rc == 70:
        return "harness", t
    if rc == -999:
        return "hang", "no progress for %d s" % pr.job.get("stall", STALL_S)
    if rc == 97 or "CPU-HANG" in t:
        return "hang", "one case burned more than its CPU limit"
    m = re.search(r"(AddressSanitizer: .*|runtime error: .*|ThreadSanitizer: .*|LIBRARY-EXIT: .*|==\d+== (?:Invalid|Conditional|Use of|Syscall).*)", t)
    if m:
        loc = re.findall(r"#\d+ .*?/(?:src|repo)/\S*", t) or re.findall(r"\S*/src/kvtree\S*:\d+\S*", t)
        return "report", m.group(1) + (" | " + " ".join(loc[:3]) if loc else "")
    if rc < 0:
        if -rc == signal.SIGKILL:
            return "killed", "worker was killed (out of memory?)"
        return "report", "worker ended by signal %d" % -rc
    return "report", "worker ended with exit code %d: %s" % (rc, t[-600:])


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in JOBS:
        print("usage: check.py <%s> [quick|thorough] [--replay FILE]" % "|".join(sorted(JOBS)))
        return 2
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    args = sys.argv[2:]
    while args:
        a = args.pop(0)
        if a in ("quick", "thorough"):
            tier = a
        elif a == "--replay":
            replay = json.load(open(args.pop(0)))
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
    work = tempfile.mkdtemp(prefix="kvv.%s." % prop, dir=base)
    try:
        return run(prop, tier, seed, work, t0, replay)
    except vlib.BuildError as e:
        print("BUILD FAILED: %s" % e)
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run(prop, tier, seed, work, t0, replay):
    info = INFO[prop]
    jobs = [dict(j) for j in JOBS[prop]]
    if replay:
        rj = replay["job"]
        jobs = [rj]
        rj["workers"] = 1
        tier = replay["tier"]
    todo_jobs = []
    for j in jobs:
        if tier == "quick" and j.get("thorough_only"):
            continue
        n = j["n"]
        j["cases"] = n[0] if tier == "quick" else n[1]
        if j["cases"] <= 0:
            continue
        j["id"] = len(todo_jobs)
        j.setdefault("workers", 8)
        j.setdefault("max_seconds", 170 if tier == "quick" else 520)
        todo_jobs.append(j)
    pairs = [(j["flavor"], j["prog"]) for j in todo_jobs]
    pairs += [("plain" if j["flavor"].startswith("plain") else "asan", "cli") for j in todo_jobs if j.get("cli")]
    notes = []
    try:
        exes = vlib.build_many(pairs)
    except vlib.BuildError:
        # The simulated MPI offers a subset of MPI: code that needs more of it can
        # still be judged on the real library.
        if not any(j["prog"] == "sim" for j in todo_jobs):
            raise
        vlib.build_many([p for p in pairs if p[1] != "sim"])
        todo_jobs = [j for j in todo_jobs if j["prog"] != "sim"]
        if not todo_jobs:
            raise
        notes.append("simulated MPI could not be built against this tree; only real MPI runs")
        exes = vlib.build_many([(j["flavor"], j["prog"]) for j in todo_jobs])
    vlib.locales()
    t_build = time.time() - t0

    queue = []
    for j in todo_jobs:
        for w in range(j["workers"]):
            queue.append((j, w))
    # longest first is not known; interleave the jobs
    queue.sort(key=lambda x: x[1])

    def cli_of(j):
        return exes.get(("plain" if j["flavor"].startswith("plain") else "asan", "cli")) if j.get("cli") else None

    running, done = [], []
    violations, harness_errors = [], []
    deadline = t0 + (700 if tier == "quick" else 840)
    timed_out = 0

    def weight(j):
        return j.get("cores", 1)

    while queue or running:
        if time.time() > deadline:
            timed_out += len(running) + len(queue)
            for pr in running:
                pr.kill()
                pr.p.wait()
            queue, running = [], []
            break
        used = sum(weight(p.job) for p in running)
        while queue and (not running or used + weight(queue[0][0]) <= vlib.CORES):
            j, w = queue.pop(0)
            single = None
            if replay:
                single = (replay["case_seed"], replay["case_idx"])
            running.append(Proc(j, exes[(j["flavor"], j["prog"])], cli_of(j), w, j["workers"], seed, tier, work, single))
            used += weight(j)
        time.sleep(0.03)
        still = []
        for pr in running:
            rc = pr.poll()
            if rc is None:
                still.append(pr)
                continue
            pr.rc = rc
            done.append(pr)
            shutil.rmtree(pr.scratch, ignore_errors=True)
        running = still
        # a worker that ended with a verdict settles the matter: the others may add to it for a while
        if not replay and any(d.rc not in (0, -999, 97, 70, -9) for d in done):
            deadline = min(deadline, time.time() + 45)
        # enough is known once several workers have found something
        if sum(1 for d in done if d.rc not in (0,)) >= 6:
            for pr in running:
                pr.kill()
                pr.p.wait()
            timed_out += len(running) + len(queue)
            running, queue = [], []

    tot = {"evaluations": 0, "nontrivial": 0, "cases": 0}
    sigs, counters, maxima, samples, findings = set(), {}, {}, [], {}
    per_job = {}
    for pr in done:
        rep = None
        if os.path.exists(pr.report):
            try:
                rep = json.load(open(pr.report))
            except ValueError:
                rep = None
        jn = "%s/%s/%s%s" % (pr.job["flavor"], pr.job["prog"], pr.job["mode"], "/np%d" % pr.job["np"] if pr.job.get("np") else "")
        pj = per_job.setdefault(jn, {"evaluations": 0, "distinct_nontrivial": 0, "workers": 0})
        pj["workers"] += 1
        if rep:
            tot["evaluations"] += rep["evaluations"]
            tot["nontrivial"] += rep["nontrivial"]
            tot["cases"] += rep["cases"]
            pj["evaluations"] += rep["evaluations"]
            pj["distinct_nontrivial"] += rep["distinct"]
            sf = pr.report + ".sigs"
            if os.path.exists(sf):
                b = open(sf, "rb").read()
                for i in range(0, len(b), 8):
                    sigs.add((hash(jn) & 0xffff, b[i:i + 8]) if pr.job.get("own_sigs") else b[i:i + 8])
            for k, v in rep["counters"].items():
                counters[k] = counters.get(k, 0) + v
            for k, v in rep["maxima"].items():
                maxima[k] = max(maxima.get(k, 0), v)
            if len(samples) < 8:
                samples += ["[%s] %s" % (jn, s) for s in rep["samples"][:2]]
            for f in rep["findings"]:
                findings.setdefault(f["key"], (f["msg"], pr))
            for v in rep["violations"]:
                violations.append((pr, int(v["case_seed"]), v["case_idx"], v["msg"]))
        # the other processes of a real MPI run
        for k in range(1, pr.job.get("np", 1)):
            try:
                r2 = json.load(open(pr.report + ".r%d" % k))
            except (OSError, ValueError):
                continue
            rep = rep or r2
            for v in r2["violations"]:
                violations.append((pr, int(v["case_seed"]), v["case_idx"], "[process %d] %s" % (k, v["msg"])))
                rep["violations"].append(v)
            for n, x in r2["counters"].items():
                counters[n] = counters.get(n, 0) + x
        if pr.rc != 0 and not (pr.rc == 1 and rep and rep["violations"]):
            kind, text = classify(pr, pr.rc)
            st = pr.state() or (0, 0, "")
            if kind == "hang" and not replay:
                # hangs are only believed when they happen again
                if violations or time.time() - t0 > 860:
                    notes.append("a stall in %s (case seed %d) was not tried again" % (jn, st[0]))
                    continue
                exe = exes[(pr.job["flavor"], pr.job["prog"])]
                again = Proc(pr.job, exe, cli_of(pr.job), pr.worker, pr.job["workers"], seed, tier, work, (st[0], st[1]))
                while again.poll() is None and time.time() - t0 < 880:
                    time.sleep(0.1)
                if again.p.poll() is None:
                    again.kill()
                    again.p.wait()
                    notes.append("no time left to try a stall in %s (case seed %d) again" % (jn, st[0]))
                    continue
                rc2 = again.p.returncode if not again.stalled else -999
                if rc2 == 0:
                    notes.append("a stall in %s (case seed %d) did not repeat" % (jn, st[0]))
                    continue
                k2, t2 = classify(again, rc2)
                kind, text = k2, t2 if k2 != "hang" else text + " (twice)"
            if kind in ("harness", "killed"):
                harness_errors.append("%s worker %d: %s" % (jn, pr.worker, text))
            else:
                violations.append((pr, st[0], st[1], "%s; while: %s" % (text, st[2])))
    known = known_findings(prop)
    kf_lines = []
    for k, (msg, pr) in findings.items():
        if k in known:
            kf_lines.append("KNOWN-FINDING: property=%s %s (%s)" % (prop, msg, k))
        else:
            violations.append((pr, 0, 0, msg))
    if timed_out and not violations:
        notes.append("%d workers were not run to completion" % timed_out)

    ev = {"property": prop, "tier": tier, "seed": seed, "level": info["level"],
          "coverage": {"evaluations": tot["evaluations"], "distinct_nontrivial": len(sigs), "rule": info["rule"],
                       "samples": samples or ["(none)"], "cases": tot["cases"], "observed": counters, "maxima": maxima,
                       "per_workload": per_job, "build_s": round(t_build, 1),
                       "known_findings_seen": sorted(k for k in findings if k in known), "notes": notes},
          "assumptions": info["assumptions"], "wall_s": round(time.time() - t0, 1), "violations": len(violations)}
    if not replay:
        os.makedirs(os.path.join(vlib.OUT, "evidence"), exist_ok=True)
        tmp = os.path.join(vlib.OUT, "evidence", ".%s.tmp" % prop)
        json.dump(ev, open(tmp, "w"), indent=1)
        os.replace(tmp, os.path.join(vlib.OUT, "evidence", prop + ".json"))

    for l in kf_lines:
        print(l)
    for n in notes:
        print("note: " + n)
    if violations:
        os.makedirs(os.path.join(vlib.OUT, "replays"), exist_ok=True)
        for i, (pr, cs, ci, msg) in enumerate(violations[:6]):
            path = os.path.join(vlib.OUT, "replays", "%s-%d.json" % (prop, i))
            json.dump({"property": prop, "tier": tier, "job": pr.job, "case_seed": cs, "case_idx": ci, "message": msg,
                       "cmd": pr.cmd, "stderr": pr.errtext()}, open(path, "w"), indent=1)
            print("%s (%s/%s/%s, case seed %d): %s" % (prop, pr.job["flavor"], pr.job["prog"], pr.job["mode"], cs, msg[:700]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if harness_errors:
        for h in harness_errors[:4]:
            print("CHECK ERROR: " + h[:1500])
        return 2
    if (tot["evaluations"] == 0 or not sigs) and not replay:
        print("CHECK ERROR: nothing was observed")
        return 2
    print("%s: held on %d evaluations (%d distinct nontrivial), %.0f s" % (prop, tot["evaluations"], len(sigs), time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
