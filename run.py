#!/usr/bin/env python3
"""Driver of the runtime-monitoring checks.

  run.py setup                 check that the tools are there
  run.py check <id> [...]      run the check of a property (tier from VERIF_TIER, seed from VERIF_SEED)
  run.py replay <file>         re-run the case a replay file names, with its trace
  run.py manifest              rewrite MANIFEST.json from the tables in checks.py

Each check compiles its harness against the headers of /repo's working tree in several
configurations, runs it in parallel shards, and turns what the monitors saw into a verdict:
exit 0 and evidence, exit 1 with a VIOLATION line, or exit 2 when there is no answer (a build that
fails, a monitor that observed too little)."""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, struct, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VM_REPO", "/repo")   # development only: registered commands use /repo
BUILD = os.environ.get("VM_BUILD", os.path.join(HERE, ".build"))
HARNESS = os.path.join(HERE, "harness")
sys.path.insert(0, HERE)
from checks import CHECKS, CONFIGS  # noqa: E402

JOBS = int(os.environ.get("VM_JOBS", "0")) or os.cpu_count() or 8
KNOWN_FILE = os.path.join(HERE, "known-findings.txt")


def tree_hash():
    h = hashlib.sha256()
    roots = [(REPO, ("amtl", "compat")), (HERE, ("harness",))]
    for base, subs in roots:
        for sub in subs:
            for dp, dn, fn in os.walk(os.path.join(base, sub)):
                dn.sort()
                for f in sorted(fn):
                    p = os.path.join(dp, f)
                    try:
                        with open(p, "rb") as fh:
                            h.update(os.path.relpath(p, base).encode() + b"\0" + fh.read() + b"\0")
                    except OSError:
                        pass
    return h.hexdigest()


_lock = threading.Lock()
_obj_locks = {}


def build(job, th):
    """Compiles one (source, config) pair; returns the binary's path or raises."""
    cfg = CONFIGS[job["config"]]
    src = job["src"]
    flags = cfg["flags"] + job.get("flags", [])
    cmds_key = json.dumps([cfg["cxx"], flags, src, job.get("link", []), cfg.get("extra_src", []), job.get("extra", [])])
    key = hashlib.sha256((th + cmds_key + REPO).encode()).hexdigest()[:24]
    d = os.path.join(BUILD, key)
    out = os.path.join(d, "bin")
    with _lock:
        lk = _obj_locks.setdefault(key, threading.Lock())
    with lk:
        if os.path.exists(out):
            os.utime(d)
            return out
        os.makedirs(d, exist_ok=True)
        objs = []
        inc = ["-I" + REPO, "-I" + HARNESS]
        jobs = [(os.path.join(HARNESS, src), flags)]
        for e in job.get("extra", []):
            jobs.append((e.replace("$REPO", REPO).replace("$HARNESS", HARNESS), flags))
        for e in cfg.get("extra_src", []):
            jobs.append((os.path.join(HARNESS, e), cfg.get("extra_flags", [])))
        for i, (s, fl) in enumerate(jobs):
            o = os.path.join(d, "o%d.%d.o" % (i, os.getpid()))
            cmd = [cfg["cxx"]] + fl + inc + ["-c", s, "-o", o]
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if r.returncode != 0:
                raise BuildError("compile failed: %s\n%s" % (" ".join(cmd), r.stdout[:6000]), jobs[i][0])
            objs.append(o)
        tmp = out + ".%d.tmp" % os.getpid()
        link = [cfg["cxx"]] + cfg.get("linkflags", flags) + objs + ["-o", tmp] + job.get("link", []) + cfg.get("libs", []) + ["-lpthread", "-ldl"]
        r = subprocess.run(link, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.returncode != 0:
            raise BuildError("link failed: %s\n%s" % (" ".join(link), r.stdout[:6000]))
        for o in objs:
            os.unlink(o)
        os.rename(tmp, out)
        return out


class BuildError(RuntimeError):
    def __init__(self, text, unit=None):
        RuntimeError.__init__(self, text)
        self.unit = unit


def rejected(job, err):
    """Is it the tree that this compiler rejects? The harness uses the documented interface only, in ways the property
    promises (move-only types, immovable types, ...), so if the compiler the project is built with (g++, C++17) rejects
    it too, while it compiles a plain program, the promise is broken. Returns the compiler's words, or None."""
    d = tempfile.mkdtemp(prefix="vm_probe_")
    try:
        plain = os.path.join(d, "plain.cpp")
        open(plain, "w").write("#include <algorithm>\n#include <memory>\n#include <string>\n#include <vector>\nint main() { return 0; }\n")
        cfg = CONFIGS["A"]
        inc = ["-I" + REPO, "-I" + HARNESS]

        def cc(src):
            r = subprocess.run([cfg["cxx"]] + cfg["flags"] + job.get("flags", []) + inc + ["-c", src, "-o", os.path.join(d, "o")],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            return r.returncode == 0, r.stdout
        ok, _ = cc(plain)
        if not ok or not err.unit:
            return None
        ok, out = cc(err.unit)
        if ok or " error: " not in out or "fatal error: Killed" in out or "No space left" in out:
            return None
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)


def prune():
    try:
        ds = [os.path.join(BUILD, x) for x in os.listdir(BUILD)]
    except OSError:
        return
    ds = sorted(((os.path.getmtime(d), d) for d in ds if os.path.isdir(d)), reverse=True)
    for _, d in ds[260:]:
        shutil.rmtree(d, ignore_errors=True)


def env_for(job, scratch):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(("ASAN_", "UBSAN_", "TSAN_", "LSAN_", "MALLOC_")):
            del e[k]
    e["ASAN_OPTIONS"] = ("detect_leaks=0:exitcode=66:detect_stack_use_after_return=1:allocator_may_return_null=1:"
                         "check_initialization_order=1:strict_init_order=1:detect_invalid_pointer_pairs=0:"
                         "max_allocation_size_mb=3000:quarantine_size_mb=64:allow_user_segv_handler=0:handle_abort=0")
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
    e["TSAN_OPTIONS"] = "exitcode=68:halt_on_error=1:report_signal_unsafe=0:history_size=4:second_deadlock_stack=1:report_thread_leaks=0"
    e["VM_SCRATCH"] = scratch
    e["LC_ALL"] = "C"
    e["TZ"] = "UTC"
    return e


def read_progress(path):
    try:
        b = open(path, "rb").read()
        name = b[:96].split(b"\0")[0].decode(errors="replace")
        idx, done = struct.unpack("<QQ", b[96:112])
        return name, idx, done
    except Exception:
        return "", 0, 0


def load_known():
    """finding: property=<id> key=<key> <what>   /   fixed: property=<id> <commit> <what>"""
    out = {}
    if os.path.exists(KNOWN_FILE):
        for line in open(KNOWN_FILE):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m:
                out.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    return out


def run_bin(binpath, job, args, scratch, timeout, run=None):
    pre = job.get("prefix", [])
    cmd = pre + [binpath] + args
    logp = os.path.join(scratch, "log")
    with open(logp, "wb") as lf:
        p = subprocess.Popen(cmd, stdout=lf, stderr=subprocess.STDOUT, env=env_for(job, scratch), cwd=scratch,
                             stdin=subprocess.DEVNULL, start_new_session=True)
        if run:
            run.track(p, True)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            rc = None
        if run:
            run.track(p, False)
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        if rc is None:
            p.wait()
    with open(logp, "rb") as lf:
        lf.seek(0, 2)
        n = lf.tell()
        lf.seek(max(0, n - 400000))
        log = lf.read().decode(errors="replace")
    return rc, log


def classify(rc, log):
    """-> (kind, key, message); kind in ok, fail, hang, usage"""
    if rc == 0:
        return "ok", "", ""
    m = re.search(r"^FAIL key=(\S+) (.*)$", log, re.M)
    if m:
        return "fail", m.group(1), m.group(2)
    if rc == 71 or rc is None:
        m = re.search(r"^HANG key=(\S+) (.*)$", log, re.M)
        return "hang", "nontermination", m.group(2) if m else "no progress within the driver's limit"
    m = re.search(r"ERROR: (AddressSanitizer: [^\n]{0,160})", log) or re.search(r"(runtime error: [^\n]{0,200})", log) \
        or re.search(r"WARNING: (ThreadSanitizer: [^\n]{0,120})", log) or re.search(r"(ERROR: ThreadSanitizer: [^\n]{0,120})", log) \
        or re.search(r"([^\n]*Assertion [^\n]* failed[^\n]*)", log) or re.search(r"(terminate called[^\n]*)", log) \
        or re.search(r"(==\d+== (?:Invalid|Conditional|Use of|Mismatched|Syscall|Source and dest|Jump to)[^\n]*)", log)
    msg = m.group(1) if m else ("killed by signal %d" % -rc if rc < 0 else "exit status %s" % rc)
    if rc == 3:
        return "usage", "usage", log[-500:]
    return "fail", "crash", msg


MEMCHECK = re.compile(r"==\d+== (?:Invalid|Conditional|Use of|Mismatched|Syscall|Source and dest|Jump to|Process terminating)")


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.spec = CHECKS[prop]
        self.thorough = tier == "thorough"
        self.known = load_known().get(prop, {})
        self.scratch = tempfile.mkdtemp(prefix="vm_%s_" % prop)
        os.chmod(self.scratch, 0o755)
        self.results, self.violations, self.errors = [], [], []
        self.known_seen = {}
        self.stop = False
        self.dropped = []
        self.procs, self.plock = set(), threading.Lock()

    def track(self, p, on):
        with self.plock:
            (self.procs.add if on else self.procs.discard)(p)
            if on and self.stop:
                os.killpg(p.pid, 9)

    def decided(self, v):
        """The first confirmed violation settles the check: what still runs is ended, and its end means nothing."""
        with self.plock:
            if self.stop:
                return
            self.stop = True
            self.violations.append(v)
            for p in self.procs:
                try:
                    os.killpg(p.pid, 9)
                except OSError:
                    pass

    def args(self, job):
        a = ["--seed", str(self.seed), "--config", job["name"]]
        if self.thorough:
            a.append("--thorough")
        for k in self.known:
            a += ["--known", k]
        for s in job.get("scenarios", []):
            a += ["--scenario", s]
        cpu, wall = self.limits(job)
        return a + ["--cpu", str(cpu), "--wall", str(wall)]

    def limits(self, job):
        """CPU and wall seconds one case may take."""
        k = 8 if self.thorough else 1  # longer cases
        return k * job.get("cpu", 20), k * job.get("wall", 120)

    def shard(self, job, binpath, i, n):
        if self.stop:
            return
        budget = job.get("budget", 1500 if self.thorough else 240)
        timeout = budget + 200
        for attempt in range(2):
            d = tempfile.mkdtemp(dir=self.scratch)
            out, sigs, prog = (os.path.join(d, x) for x in ("out.json", "sigs", "progress"))
            a = self.args(job) + ["--shard", "%d/%d" % (i, n), "--out", out, "--sigs", sigs, "--progress", prog, "--budget", str(budget)]
            t0 = time.time()
            rc, log = run_bin(binpath, job, a, d, timeout, self)
            if self.stop and rc != 0:
                return
            kind, key, msg = classify(rc, log)
            for m in re.finditer(r"^KNOWN key=(\S+) (.*)$", log, re.M):
                self.known_seen.setdefault(m.group(1), m.group(2))
            if kind == "ok":
                try:
                    r = json.load(open(out))
                    r["sigs"] = sigs
                    r["job"] = job["name"]
                    r["wall"] = time.time() - t0
                    self.results.append(r)
                except Exception as e:
                    self.errors.append("%s shard %d: no result (%s)" % (job["name"], i, e))
                return
            if kind == "usage":
                self.errors.append("%s: %s" % (job["name"], msg))
                return
            if job.get("memcheck") and kind == "fail" and key == "crash" and not MEMCHECK.search(log):
                # Not a finding of the monitor but its own end; the other configurations run these cases as well.
                self.dropped.append("%s shard %d: %s" % (job["name"], i, msg))
                return
            scn, idx, done = read_progress(prog)
            v = dict(job=job, config=job["name"], scenario=scn, index=idx, key=key, message=msg, log=log, bin=binpath, kind=kind)
            if kind == "hang":
                # Slowness of the machine is not a hang: the case has to repeat it alone, given more.
                cpu, wall = self.limits(job)
                a2 = self.args(job) + ["--replay", "%s:%d" % (scn, idx), "--cpu", str(max(60, 2 * cpu)), "--wall", str(max(120, 3 * wall))]
                d2 = tempfile.mkdtemp(dir=self.scratch)
                rc2, log2 = run_bin(binpath, job, a2, d2, 1800 if self.thorough else 400, self)
                if self.stop:
                    return
                k2, key2, msg2 = classify(rc2, log2)
                if k2 == "ok":
                    if attempt == 0:
                        continue
                    self.errors.append("%s shard %d: unconfirmed hang at %s:%d" % (job["name"], i, scn, idx))
                    return
                v.update(key=key2, message=msg2, log=log2, kind=k2)
            self.decided(v)
            return

    def report(self, v):
        """Writes the replay file, with a trace of the failing case if it reproduces alone."""
        if v["kind"] == "build":
            rc, log = 1, v["log"]
        else:
            a = self.args(v["job"]) + ["--replay", "%s:%d" % (v["scenario"], v["index"])]
            rc, log = run_bin(v["bin"], v["job"], a, tempfile.mkdtemp(dir=self.scratch), 120)
        kind, key, msg = classify(rc, log)
        trace = re.findall(r"^TRACE (.*)$", log, re.M)
        rep = dict(property=self.prop, tier=self.tier, seed=self.seed, config=v["config"], scenario=v["scenario"],
                   index=v["index"], key=v["key"], message=v["message"], reproduces_alone=kind != "ok",
                   trace=trace[-400:], report=v["log"][-12000:] if v["kind"] != "build" else v["log"][:12000],
                   how="python3 /verif/run.py replay <this file>")
        rd = os.path.join(HERE, "replays")
        os.makedirs(rd, exist_ok=True)
        name = "%s-%s-%s-%d.json" % (self.prop, v["config"], re.sub(r"\W+", "_", v["scenario"]), v["index"])
        p = os.path.join(rd, name)
        json.dump(rep, open(p, "w"), indent=1)
        print("%s: %s [%s] in %s #%d, config %s: %s" % (self.prop, v["kind"], v["key"], v["scenario"], v["index"], v["config"], v["message"]))
        print("VIOLATION property=%s replay=%s" % (self.prop, p))

    def go(self):
        t0 = time.time()
        th = tree_hash()
        jobs = [j for j in self.spec["jobs"] if self.thorough or not j.get("thorough_only")]
        for j in [j for j in jobs if j.get("memcheck") and not shutil.which(j["prefix"][0])]:
            self.dropped.append("%s: no %s" % (j["name"], j["prefix"][0]))
            jobs.remove(j)
        with cf.ThreadPoolExecutor(JOBS) as ex:
            futs = {}
            for j in jobs:
                futs[ex.submit(build, j, th)] = j
            runs = []
            for f in cf.as_completed(futs):
                j = futs[f]
                try:
                    b = f.result()
                except BuildError as e:
                    if j.get("optional") or "-std=c++17" not in CONFIGS[j["config"]]["flags"]:
                        # The project is built as C++17; other levels are an extra where the tree allows them.
                        self.dropped.append("%s: %s" % (j["name"], str(e)[-300:]))
                        continue
                    out = rejected(j, e)
                    if out is None:
                        self.errors.append("%s: %s" % (j["name"], e))
                        continue
                    first = re.search(r"error: ([^\n]{0,200})", out)
                    self.decided(dict(job=j, config=j["name"], scenario="build", index=0, key="does-not-compile",
                                      message="the compiler rejects the promised use: " + (first.group(1) if first else ""),
                                      log=out, bin=None, kind="build"))
                    continue
                except Exception as e:
                    self.errors.append("%s: %s" % (j["name"], e))
                    continue
                n = j.get("shards", JOBS)
                lim = j.get("run_shards", n)
                for i in range(lim):
                    runs.append(ex.submit(self.shard, j, b, i, n))
            for r in runs:
                r.result()
        prune()
        return self.finish(time.time() - t0, jobs)

    def finish(self, wall, jobs):
        spec = self.spec
        sigs = set()
        counters, scen, samples = {}, {}, []
        evals = 0
        heap = False
        truncated = False
        for r in sorted(self.results, key=lambda r: r["job"]):
            try:
                b = open(r["sigs"], "rb").read()
                sigs.update(struct.unpack("<%dQ" % (len(b) // 8), b[:len(b) // 8 * 8]))
            except OSError:
                pass
            heap |= r["heap_accounting"]
            truncated |= r["truncated"]
            for k, v in r["counters"].items():
                counters[k] = counters.get(k, 0) + v
            for k, (n, nt) in r["scenarios"].items():
                s = scen.setdefault(k, {"cases": 0, "nontrivial": 0})
                s["cases"] += n
                s["nontrivial"] += nt
                evals += n
            if len(samples) < 12:
                seen = {s.split("#")[0] for s in samples}
                for s in r["samples"]:
                    if s.split("#")[0] not in seen and len(samples) < 12:
                        seen.add(s.split("#")[0])
                        samples.append(s[:1500])
        scen = {k: v for k, v in scen.items() if v["cases"]}
        if not self.violations and not self.errors and not self.stop:
            for k, lo in spec.get("floors", {}).items():
                if counters.get(k, 0) < lo:
                    self.errors.append("the monitors observed too little: %s=%d, expected at least %d" % (k, counters.get(k, 0), lo))
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=spec["level"],
                  coverage=dict(evaluations=evals, distinct_nontrivial=len(sigs), rule=spec["rule"],
                                samples=samples or ["(none: the run ended at a violation or error)"],
                                events_observed=dict(sorted(counters.items())), scenarios=scen,
                                configurations=[dict(name=j["name"], compiler=CONFIGS[j["config"]]["cxx"],
                                                     flags=" ".join(CONFIGS[j["config"]]["flags"] + j.get("flags", []))) for j in jobs],
                                heap_balance_checked_per_case=heap, truncated_by_budget=truncated),
                  assumptions=spec.get("assumptions", []), wall_s=round(wall, 2), violations=len(self.violations))
        if self.dropped:
            ev["coverage"]["configurations_not_built"] = self.dropped
        if spec.get("exhaustive_note"):
            ev["coverage"]["exhaustive_parts"] = spec["exhaustive_note"]
        if self.known_seen:
            ev["coverage"]["known_findings_observed"] = self.known_seen
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        tmp = os.path.join(HERE, "evidence", ".%s.%d" % (self.prop, os.getpid()))
        json.dump(ev, open(tmp, "w"), indent=1)
        os.rename(tmp, os.path.join(HERE, "evidence", self.prop + ".json"))
        rc = 0
        if self.violations:
            self.report(self.violations[0])
            rc = 1
        elif self.errors:
            for e in self.errors:
                print("%s: NO ANSWER: %s" % (self.prop, e))
            rc = 2
        else:
            for k, what in self.known.items():
                if k in self.known_seen:
                    print("KNOWN-FINDING: property=%s %s" % (self.prop, what))
                else:
                    print("note: listed finding %s of %s was not observed in this run" % (k, self.prop))
            print("%s: held on %d cases (%d distinct non-trivial), %d configurations, %.1f s" % (self.prop, evals, len(sigs), len(jobs), wall))
        shutil.rmtree(self.scratch, ignore_errors=True)
        return rc


def replay(path):
    rep = json.load(open(path))
    run = Run(rep["property"], rep["tier"], rep["seed"])
    job = next(j for j in run.spec["jobs"] if j["name"] == rep["config"])
    try:
        b = build(job, tree_hash())
    except BuildError as e:
        print(e)
        print("replay: does not build")
        return 1
    if rep["scenario"] == "build":
        print("replay: builds")
        return 0
    rc, log = run_bin(b, job, run.args(job) + ["--replay", "%s:%d" % (rep["scenario"], rep["index"])], run.scratch, 600)
    print(log)
    kind, key, msg = classify(rc, log)
    print("replay: %s %s %s" % (kind, key, msg))
    shutil.rmtree(run.scratch, ignore_errors=True)
    return 0 if kind == "ok" else 1


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 3
    cmd = sys.argv[1]
    if cmd == "setup":
        for t in ("g++", "clang++"):
            if not shutil.which(t):
                print("missing", t)
                return 1
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        print("ok")
        return 0
    if cmd == "check":
        tier = os.environ.get("VERIF_TIER", "quick")
        seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        worst = 0
        ids = sys.argv[2:]
        if ids == ["all"]:
            ids = sorted(CHECKS)
        for p in ids:
            sys.stdout.flush()
            rc = Run(p, tier, seed).go()
            worst = rc if worst == 0 else (1 if 1 in (rc, worst) else max(rc, worst))
        return worst
    if cmd == "replay":
        return replay(sys.argv[2])
    if cmd == "manifest":
        import checks
        checks.write_manifest(os.path.join(HERE, "MANIFEST.json"))
        return 0
    print(__doc__)
    return 3


if __name__ == "__main__":
    sys.exit(main())
