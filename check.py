#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: builds the monitors against /repo's working tree,
runs the property's workloads under them, judges what they observed and writes evidence.
exit 0 held on everything explored; 1 VIOLATION; 2 the check itself could not decide."""
import fcntl, glob, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
from specs import SPECS
from check_job import Job

ENV = dict(os.environ)
ENV.update(OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_rmaps_base_oversubscribe="1",
           OMPI_MCA_hwloc_base_binding_policy="none", OMPI_MCA_mpi_yield_when_idle="1", OMPI_MCA_plm="isolated",
           OMPI_MCA_btl="self,vader", OMPI_MCA_pml="ob1", OMPI_MCA_btl_vader_single_copy_mechanism="none",
           ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:detect_stack_use_after_return=0:handle_abort=0",
           UBSAN_OPTIONS="print_stacktrace=1:abort_on_error=1")
VALGRIND = shutil.which("valgrind")
BUILD = os.environ.get("VH_BUILD") or os.path.join(HERE, "build")
SOURCES = {f for _, _, fs in os.walk(os.path.join(os.environ.get("VH_REPO", "/repo"), "src")) for f in fs}
VG_KINDS = re.compile(r"(Conditional jump or move depends|Use of uninitialised value|Invalid (?:read|write|free)|Mismatched free|Source and destination overlap)")
def valgrind_findings(files):
    """reports whose innermost frame outside the libraries lies in the code under test"""
    out = []
    for f in files:
        kind, frames = None, []
        for line in open(f, errors="replace").read().split("\n") + ["==1== "]:
            line = re.sub(r"^==\d+== ?", "", line)
            m = re.match(r"\s+(?:at|by) 0x[0-9A-F]+: (\S+).*\((?:in )?([^()]*)\)$", line)
            if m and kind:
                frames.append((m.group(1), m.group(2)))
            elif not m:
                if kind and frames:
                    own = next(((fn, w) for fn, w in frames if re.match(r"[\w.+-]+\.(c|h|cpp|hpp):\d+$", w) and (w.split(":")[0] in SOURCES or w.split(":")[0].endswith("pp"))), None)
                    if own and own[1].split(":")[0] in SOURCES:
                        out.append((kind, f"{kind} in {own[0]} ({own[1]})"))
                if frames or not line.strip(): kind, frames = None, []
                k = VG_KINDS.search(line)
                if k: kind, frames = k.group(1), []
    return out

MAXRANKS = int(os.environ.get("VH_MAXRANKS", "12"))

def build():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        e = dict(os.environ, VH_BUILD=BUILD)
        subprocess.run([sys.executable, os.path.join(HERE, "harness", "mk.py")], check=True, env=e, stdout=subprocess.DEVNULL)
        r = subprocess.run(["ninja", "-C", BUILD], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            print(r.stdout[-4000:])
            print("ERROR: build of the monitors failed")
            sys.exit(2)

def known_findings(prop):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"KNOWN property=(\S+) key=(\S+) match=/(.*)/ :: (.*)$", line.strip())
            if m and m.group(1) == prop:
                out.append(dict(key=m.group(2), match=re.compile(m.group(3)), what=m.group(4)))
    return out

CRASH_PATTERNS = [
    (re.compile(r"runtime error: (.*)"), "ubsan"),
    (re.compile(r"ERROR: AddressSanitizer: (\S+)"), "asan"),
    (re.compile(r"Abort: (Assertion .*)"), "assert"),
    (re.compile(r"Abort: (.*)"), "abort"),
    (re.compile(r"(MPI_ERR_\w+)"), "mpi"),
    (re.compile(r"Signal: (.*)"), "signal"),
    (re.compile(r"harness: (.*)"), "HARNESS"),
]
def crash_key(text):
    kind, what = "died", ""
    for pat, k in CRASH_PATTERNS:
        m = pat.search(text)
        if m:
            kind, what = k, m.group(1)[:160]
            line = text[:m.start()].split("\n")[-1]
            mm = re.search(r"/repo/src/(\w+\.c):(\d+)", line) or re.search(r"/repo/src/(\w+\.c):(\d+)", text)
            if mm:
                what += " @" + mm.group(1)
            break
    return "crash:" + kind, what

RUNNING = {}
def kill_batch(p, out):
    try: os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError: pass
    subprocess.run(["pkill", "-KILL", "-f", "--", out + " "], stdout=subprocess.DEVNULL)

def run_batch(job, prop, seed, tier, tmp, first=None, count=None, timeout=300, stall=60, stopped=None):
    """stall: seconds without a case beginning or ending after which the execution counts as hanging"""
    d = tempfile.mkdtemp(dir=tmp)
    out = os.path.join(d, "o")
    env = dict(ENV, TMPDIR=d, VH_DELAY=str(job.delay))
    if job.cfg == "vg":
        timeout, stall = timeout * 2, stall * 5
    if job.cfg == "rel":
        env["MALLOC_PERTURB_"] = str((0, 85, 223)[job.P % 3])
    if job.eager:
        env["OMPI_MCA_btl_vader_eager_limit"] = str(job.eager)
    first = job.first if first is None else first
    count = job.count if count is None else count
    vg = job.cfg == "vg"
    exe = os.path.join(BUILD, f"vh{job.dim}-{'rel' if vg else job.cfg}")
    cmd = ["mpiexec", "-n", str(job.P)] + ([VALGRIND, "-q", "--log-file=" + os.path.join(d, "vg.%p"), "--num-callers=20"] if vg else []) + [exe, prop, str(seed), str(first), str(count), str(tier), out, d]
    errf = os.path.join(d, "stderr")
    with open(errf, "wb") as ef:
        p = subprocess.Popen(cmd, env=env, stdout=ef, stderr=ef, stdin=subprocess.DEVNULL, cwd=d, start_new_session=True)
        t0 = mark = time.time()
        size, hang, aborted = -1, False, False
        step = 0.01
        while True:
            try:
                rc = p.wait(timeout=step)
                break
            except subprocess.TimeoutExpired:
                step = min(0.25, step * 1.5)
            now = time.time()
            try: s = os.path.getsize(out + ".progress")
            except OSError: s = -1
            if s != size: size, mark = s, now
            aborted = stopped is not None and stopped()
            hang = not aborted and (now - t0 > timeout or now - mark > stall or
                                    (now - mark > 12 and any(os.path.getsize(f) for f in glob.glob(out + ".viol.*"))))
            if hang or aborted:
                kill_batch(p, out)
                p.wait()
                rc = -9
                break
    text = open(errf, "rb").read().decode("utf8", "replace")
    res = dict(rc=rc, hang=hang, aborted=aborted, text=text[:6000] + ("\n...\n" + text[-3000:] if len(text) > 9000 else ""), stats=None, viol=[], last=None, done=0,
               cmd=" ".join(cmd[:3] + (["valgrind"] if vg else []) + ["build/" + os.path.basename(exe)] + cmd[-7:-2]) + f" (VH_DELAY={job.delay})")
    if os.path.exists(out + ".stats"):
        try:
            res["stats"] = json.load(open(out + ".stats"))
        except ValueError:
            pass
    for f in sorted(glob.glob(out + ".viol.*")):
        for line in open(f):
            try:
                res["viol"].append(json.loads(line))
            except ValueError:
                res["viol"].append(dict(key="unparsed", msg=line[:300], case=-1, rank=-1, size=job.P, dim=job.dim, where="", desc=""))
    if vg:
        for k, w in sorted(set(valgrind_findings(glob.glob(os.path.join(d, "vg.*"))))):
            res["viol"].append(dict(key="valgrind", msg=w, case=first, rank=-1, size=job.P, dim=job.dim, where="", desc=f"cases {first}..{first + count - 1}"))
    if os.path.exists(out + ".progress"):
        begun = None
        for line in open(out + ".progress"):
            w = line.split()
            if len(w) == 2:
                if w[0] == "begin": begun = int(w[1])
                elif w[0] == "end": begun = None; res["done"] += 1
        res["last"] = begun
    shutil.rmtree(d, ignore_errors=True)
    return res

class Checker:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.spec = SPECS[prop]
        self.t0 = time.time()
        self.known = known_findings(prop)
        self.known_hit = {}
        self.violations = []
        self.inconclusive = []
        self.counters, self.distinct, self.samples = {}, set(), []
        self.evals = 0
        self.judged = 0
        self.jobs_done = 0
        self.lock = threading.Lock()
        self.stop = False
        self.budget = self.spec.get("budget", 600 if tier == "quick" else 14400)

    def absorb(self, st, job):
        if not st: return
        self.evals += st["evals"]
        self.judged += st["judged"]
        for k, v in st["counters"].items():
            self.counters[k] = self.counters.get(k, 0) + v
        self.distinct.update(f"{st['dim']}:{h}" for h in st["distinct"])
        for s in st["samples"][:1]:
            self.samples.append(f"{job.dim}D {job.cfg} {job.P} procs: {s}")

    def report(self, key, msg, job, case, res):
        """returns True if known"""
        full = f"{job.dim}D P={job.P} {msg}"
        for k in self.known:
            if k["key"] == key and k["match"].search(full):
                self.known_hit[k["what"]] = self.known_hit.get(k["what"], 0) + 1
                return True
        self.violations.append(dict(key=key, msg=full, case=case, job=job.key(), replay=dict(
            prop=self.prop, seed=self.seed, dim=job.dim, cfg=job.cfg, P=job.P, case=case, first=job.first, delay=job.delay, eager=job.eager,
            tier=self.tier, cmd=res["cmd"]), output=res["text"]))
        self.stop = True
        return False

    def run_job(self, job, tmp):
        tier = 0 if self.tier == "quick" else 1
        first, count = job.first, job.count
        end = first + count
        tmo = self.spec.get("timeout", 400 if tier == 0 else 3600)
        stall = self.spec.get("stall", 40)
        while first < end and not self.stop:
            res = run_batch(job, self.prop, self.seed, tier, tmp, first, end - first, tmo, stall, lambda: self.stop)
            if res["aborted"]: return
            with self.lock:
                for v in res["viol"]:
                    self.report(v["key"], v["msg"] + " | " + v["desc"], job, v["case"], res)
                if res["stats"] is not None and res["rc"] in (0, 3) and not (res["rc"] == 3 and not res["viol"]):
                    self.absorb(res["stats"], job)
                    self.jobs_done += 1
                    return
                if res["viol"]:
                    if self.stop: return
            # the process died or hung: reproduce before judging
            case = res["last"]
            kind, what = ("hang", "no progress") if res["hang"] else crash_key(res["text"])
            if kind == "crash:HARNESS":
                with self.lock: self.inconclusive.append(f"{job.key()}: {what}")
                return
            again = None
            if case is not None:
                again = run_batch(job, self.prop, self.seed, tier, tmp, case, 1, tmo, stall, lambda: self.stop)
            if again is None or (again["rc"] in (0, 3) and again["stats"] is not None and not again["viol"]):
                again = run_batch(job, self.prop, self.seed, tier, tmp, first, (case - first + 1) if case is not None else 1, tmo, stall, lambda: self.stop)
            if again["aborted"]: return
            repro = again["hang"] or again["viol"] or again["stats"] is None or again["rc"] not in (0, 3)
            with self.lock:
                if not repro:
                    self.inconclusive.append(f"{job.key()} case {case}: {kind} {what} not reproduced")
                    self.stop_known = True
                else:
                    if again["viol"]:
                        for v in again["viol"]:
                            self.report(v["key"], v["msg"], job, v["case"], again)
                    else:
                        kind2, what2 = ("hang", "no progress") if again["hang"] else crash_key(again["text"])
                        # a hang that turns into a crash (or vice versa) is still a failure
                        self.report(kind2, what2, job, case, again)
                if res["stats"] is None:
                    self.evals += res["done"]
                if self.stop: return
            if case is None:
                return
            first = case + 1
        return

    def main(self):
        build()
        tb = time.time()
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        jobs = self.spec["jobs"](self.tier)
        tmp = tempfile.mkdtemp(prefix="vh.", dir="/tmp")
        pending = list(jobs)
        total = len(pending)
        tokens = [MAXRANKS]
        cond = threading.Condition()
        threads = []
        def worker(j):
            try:
                self.run_job(j, tmp)
            except Exception as e:
                with self.lock: self.inconclusive.append(f"{j.key()}: driver {e!r}")
            with cond:
                tokens[0] += min(j.P, MAXRANKS)
                cond.notify_all()
        try:
            pending.sort(key=lambda j: -j.P)
            with cond:
                while pending and not self.stop and time.time() - self.t0 < self.budget:
                    k = next((i for i, j in enumerate(pending) if min(j.P, MAXRANKS) <= tokens[0]), None)
                    if k is None:
                        cond.wait(1.0)
                        continue
                    j = pending.pop(k)
                    tokens[0] -= min(j.P, MAXRANKS)
                    t = threading.Thread(target=worker, args=(j,))
                    t.start()
                    threads.append(t)
            for t in threads: t.join()
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        skipped = len(pending)
        wall = time.time() - self.t0
        rule = self.spec["rule"]
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level="exploration",
                  coverage=dict(evaluations=max(self.judged, len(self.distinct)), cases=self.evals, distinct_nontrivial=len(self.distinct), rule=rule,
                                samples=self.samples[:6], observed_events=self.counters, batches=total, batches_completed=self.jobs_done,
                                batches_skipped_for_time=skipped, inconclusive=self.inconclusive,
                                known_findings_seen=self.known_hit, build_s=round(tb - self.t0, 1)),
                  assumptions=self.spec.get("assumptions", []), wall_s=round(wall, 1), violations=len(self.violations))
        with open(os.path.join(HERE, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            print(f"KNOWN-FINDING: property={self.prop} {k['what']}")
        if self.violations:
            rd = os.path.join(HERE, "evidence", "replays")
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, f"{self.prop}.json")
            with open(path, "w") as f:
                json.dump(self.violations[:20], f, indent=1)
            v = self.violations[0]
            print(f"{self.prop}: {v['key']}: {v['msg']} (case {v['case']}, {v['job']})")
            print(f"VIOLATION property={self.prop} replay={path}")
            return 1
        need = self.spec.get("need", [])
        missing = [n for n in need if not self.counters.get(n)]
        if self.evals == 0 or self.jobs_done == 0 or missing or self.jobs_done < 0.5 * total:
            print(f"ERROR: {self.prop} observed too little: {self.evals} cases, {self.jobs_done}/{total} batches, missing {missing}; {self.inconclusive}")
            return 2
        print(f"{self.prop} held on {self.evals} cases, {len(self.distinct)} distinct states, {self.jobs_done} batches, {wall:.0f} s" +
              (f"; inconclusive: {self.inconclusive}" if self.inconclusive else "") + (f"; skipped {skipped}" if skipped else ""))
        return 0

def replay(path):
    v = json.load(open(path))[0]["replay"]
    build()
    j = Job(v["dim"], v["cfg"], v["P"], v["case"], 1, v["delay"], v["eager"])
    tmp = tempfile.mkdtemp(prefix="vh.", dir="/tmp")
    r = run_batch(j, v["prop"], v["seed"], 0 if v["tier"] == "quick" else 1, tmp)
    shutil.rmtree(tmp, ignore_errors=True)
    print(r["text"]); print(json.dumps(r["viol"], indent=1)); print("rc", r["rc"])

if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        replay(sys.argv[2]); sys.exit(0)
    if sys.argv[1] == "--build":
        build(); sys.exit(0)
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    sys.exit(Checker(sys.argv[1], tier).main())
