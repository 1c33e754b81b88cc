"""Machinery shared by all checks: build the harness programs from /repo's working tree,
run them under MPI, validate the recorded executions with TLC, model-check the designs.

Outcomes: a trace that TLC rejects, or a run that fails (crash, abort, no end), is repeated;
only what repeats is reported.  Anything that is not the code's doing (compiler missing,
MPI or TLC unable to start, specification unreadable) ends the check with status 2.
"""
import atexit, json, os, random, re, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CAFES_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
PETSC = "/usr/lib/petscdir/petsc3.19/x86_64-linux-gnu-real"
NCPU = os.cpu_count() or 4


class Broken(Exception):
    """the check itself could not do its work"""


def mpi_env():
    e = dict(os.environ)
    e.update(LC_ALL="C.UTF-8", OMPI_CC="gcc", OMPI_CXX="g++",
             OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1",
             OMPI_MCA_btl="self,vader", OMPI_MCA_rmaps_base_oversubscribe="1",
             OMPI_MCA_ess_singleton_isolated="1", OMPI_MCA_oob_tcp_if_include="lo",
             OMPI_MCA_hwloc_base_binding_policy="none",
             OMPI_MCA_btl_vader_single_copy_mechanism="none",
             OMPI_MCA_mpi_yield_when_idle="1",
             OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    e.pop("PETSC_OPTIONS", None)
    return e


def run_group(cmd, timeout, cwd, env=None, out=None):
    """run in a process group of its own; (rc, output), rc None on timeout"""
    with open(out or os.devnull, "w+b") as f:
        p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=f, stderr=subprocess.STDOUT,
                             stdin=subprocess.DEVNULL, start_new_session=True)
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            rc = None
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        if rc is None:
            p.wait()
        f.seek(0)
        txt = f.read(400000).decode("utf8", "replace") if out else ""
    return rc, txt


class Engine:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier != "thorough"
        self.rng = random.Random("%s/%d" % (prop, seed))
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="cafesv_%s_" % prop)
        atexit.register(shutil.rmtree, self.dir, True)
        for s in (signal.SIGTERM, signal.SIGINT):
            signal.signal(s, lambda *a: sys.exit(2))
        self.states = self.transitions = 0
        self.traces = self.events = self.cases = 0
        self.samples, self.models, self.violations, self.kf = [], [], [], []
        self.lock = threading.Lock()
        self.bins = {}
        self.nfile = 0

    def path(self, name):
        with self.lock:
            self.nfile += 1
            return os.path.join(self.dir, "%04d_%s" % (self.nfile, name))

    # -- building ---------------------------------------------------------
    def qhull(self):
        """the bundled qhull, as archives in the directory of the run"""
        src, out = REPO + "/external_packages/qhull", os.path.join(self.dir, "qhull")
        os.makedirs(out, exist_ok=True)
        def one(f):
            cc = ["gcc"] if f.endswith(".c") else ["g++", "-std=gnu++14"]
            o = os.path.join(out, os.path.basename(f) + ".o")
            rc, txt = run_group(cc + ["-O1", "-w", "-I" + src, "-I" + src + "/libqhull_r", "-c", f, "-o", o], 300, out, dict(os.environ), o + ".log")
            if rc != 0:
                raise Broken("cannot build qhull:\n" + txt[:2000])
            return o
        libs = []
        for part, ext in (("libqhullcpp", ".cpp"), ("libqhull_r", ".c")):
            d = os.path.join(src, part)
            fs = sorted(os.path.join(d, x) for x in os.listdir(d) if x.endswith(ext) and "rbox" not in x.lower() and x != "usermem_r-cpp.cpp")
            with ThreadPoolExecutor(NCPU) as ex:
                objs = list(ex.map(one, fs))
            libs.append(os.path.join(out, part + ".a"))
            rc, txt = run_group(["ar", "rcs", libs[-1]] + objs, 60, out, dict(os.environ), libs[-1] + ".log")
            if rc != 0:
                raise Broken("cannot build qhull:\n" + txt[:2000])
        return libs

    def build(self, *names):
        libs = self.qhull() if "h_tri" in names and "h_tri" not in self.bins else []
        def one(n):
            exe = os.path.join(self.dir, n)
            cmd = ["mpicxx", "-std=gnu++14", "-O1" if n in ("h_solve", "h_real") else "-O0", "-w", "-pipe", "-ftrivial-auto-var-init=pattern",
                   "-include", "/opt/vp/support/petsc_compat.h",
                   "-I" + REPO + "/cafes", "-I" + REPO + "/external_packages/qhull",
                   "-I" + PETSC + "/include", "-I/usr/include/hdf5/openmpi", "-I" + HARN + "/vtk",
                   os.path.join(HARN, n + ".cpp"), "-o", exe,
                   "-Wl,-rpath," + PETSC + "/lib", "-L" + PETSC + "/lib", "-lpetsc_real",
                   "-L/usr/lib/x86_64-linux-gnu/hdf5/openmpi", "-lhdf5"]
            if n == "h_tri":
                cmd += libs
            rc, txt = run_group(cmd, 600, self.dir, mpi_env(), exe + ".log")
            if rc != 0:
                raise Broken("cannot build %s against %s:\n%s" % (n, REPO, txt[:3000]))
            return n, exe
        with ThreadPoolExecutor(NCPU) as ex:
            self.bins.update(ex.map(one, [n for n in names if n not in self.bins]))

    # -- TLC --------------------------------------------------------------
    def tlc(self, module, cfg, env=None, workers=1, timeout=600, mem="1500m", extra=()):
        md = self.path("md")
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
               "-Xss64m", "-Xmx" + mem, "-XX:TieredStopAtLevel=4", "-Djava.io.tmpdir=" + self.dir,
               "-cp", TLA, "tlc2.TLC", "-workers", str(workers), "-metadir", md,
               "-config", os.path.join(SPEC, cfg), *extra, os.path.join(SPEC, module + ".tla")]
        rc, txt = run_group(cmd, timeout, self.dir, e, md + ".out")
        shutil.rmtree(md, True)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", txt)
        st = (int(m[-1][1]), int(m[-1][0])) if m else (0, 0)
        return rc, txt, st

    def model(self, module, cfg, timeout=800, workers=4, mem="6g"):
        """exhaustive check of a design configuration: it has to pass (it does not look at
        the code), so anything else is an error of the check"""
        t = time.time()
        rc, txt, st = self.tlc(module, cfg, workers=workers, timeout=timeout, mem=mem)
        if rc != 0 or "No error has been found" not in txt:
            raise Broken("model %s/%s does not pass (rc %s):\n%s" % (module, cfg, rc, txt[-3000:]))
        with self.lock:
            self.states += st[0]
            self.transitions += st[1]
            self.models.append({"module": module, "config": cfg, "distinct_states": st[0],
                                "states_generated": st[1], "seconds": round(time.time() - t, 1)})

    # -- running the code -------------------------------------------------
    def execute(self, harness, lines, np, timeout):
        cf = self.path("cases")
        tr = cf + ".ndjson"
        with open(cf, "w") as f:
            f.write("\n".join(lines) + "\n")
        wd = cf + ".d"
        os.mkdir(wd)
        rc, txt = run_group(["mpirun", "-np", str(np), self.bins[harness], cf, tr], timeout, wd, mpi_env(), cf + ".log")
        shutil.rmtree(wd, True)
        return rc, txt, tr

    def judge(self, harness, module, lines, np, timeout):
        """-> (verdict, text, trace, stats): verdict ok | rejected"""
        # several process counts: one recording after the other, judged as one
        many = np if isinstance(np, tuple) else (np,)
        merged = None
        for i, k in enumerate(many):
            rc, txt, tr = self.execute(harness, lines, k, timeout)
            if rc != 0 or len(many) == 1:
                break
            with open(tr) as f:
                ev = f.read().splitlines()
            if not ev or json.loads(ev[-1]).get("ev") != "end":
                break
            merged = merged or tr + ".all"
            with open(merged, "a") as f:
                f.write("\n".join(ev if i == len(many) - 1 else ev[:-1]) + "\n")
            if i == len(many) - 1:
                tr = merged
        if rc != 0:
            return "rejected", "the run %s\n%s" % (
                "did not end within %d s" % timeout if rc is None else "failed with status %s" % rc, txt[-2500:]), tr, (0, 0, 0)
        with open(tr) as f:
            ev = f.read().splitlines()
        last = json.loads(ev[-1]) if ev else {}
        if last.get("ev") != "end" or last.get("cases") != len(lines):
            return "rejected", "the trace is not complete\n" + txt[-1500:], tr, (0, 0, 0)
        rc, out, st = self.tlc(module, module + ".cfg", {"TRACE": tr}, timeout=800)
        if rc == 0 and "No error has been found" in out:
            return "ok", "", tr, st + (len(ev),)
        if rc is None or "Parsing or semantic analysis failed" in out or "OutOfMemory" in out \
                or "StackOverflow" in out or "Finished" not in out and "Error:" not in out:
            raise Broken("TLC could not judge a trace of %s (rc %s):\n%s" % (module, rc, out[-3000:]))
        keep = [re.sub(r"\s+", " ", m) for m in re.findall(r'<<\s*"MISMATCH".*?>>[ \t]*(?=\n(?!\s))', out, re.S)]
        keep += [x for x in out.splitlines() if re.search(r"rror|ttempted|violated|postcondition", x)]
        return "rejected", "\n".join(keep[:20]) or out[-1500:], tr, st + (len(ev),)

    def ping(self):
        """can anything run here at all?"""
        rc, txt = run_group(["mpirun", "-np", "2", "true"], 120, self.dir, mpi_env(), self.path("ping"))
        if rc != 0:
            raise Broken("mpirun cannot start a process: %s" % txt[-1000:])

    def traces_job(self, job):
        harness, module, lines, np, timeout, kf = job
        v, txt, tr, st = self.judge(harness, module, lines, np, timeout)
        with self.lock:
            self.states += st[0]
            self.transitions += st[1]
            self.cases += len(lines)
            if v == "ok":
                self.traces += 1
                self.events += st[2]
                if len(self.samples) < 4:
                    self.samples.append({"np": np, "case": lines[0], "events": st[2]})
        if v == "ok":
            os.unlink(tr)
            return
        with self.lock:
            if len(self.violations) >= 4 and not kf:
                return          # enough to report
        # it has to repeat
        v2, txt2, tr2, _ = self.judge(harness, module, lines, np, 2 * timeout)
        if v2 == "ok":
            self.ping()
            with self.lock:
                self.samples.append({"not_repeated": txt[:300], "np": np})
            return
        self.ping()
        bad = lines
        if len(lines) > 1:      # narrow down to one case, where one suffices
            m = re.search(r'"line", (\d+)', txt2)
            order = list(range(len(lines)))
            if m:
                try:
                    with open(tr2) as f:
                        k = json.loads(f.read().splitlines()[int(m.group(1)) - 1]).get("id")
                    order = [i for i, x in enumerate(lines) if " id=%s " % k in x + " "][:1]
                except Exception:
                    order = []
            else:
                order = order[:0]
            for i in order:
                v3, txt3, tr3, _ = self.judge(harness, module, [lines[i]], np, 2 * timeout)
                if v3 != "ok":
                    bad, txt2, tr2 = [lines[i]], txt3, tr3
        with self.lock:
            if kf:
                self.kf.append(kf)
                return
            n = len(self.violations) + 1
            d = os.path.join(VERIF, "out", self.prop, "violation_%d" % n)
            shutil.rmtree(d, True)
            os.makedirs(d)
            with open(os.path.join(d, "cases"), "w") as f:
                f.write("\n".join(bad) + "\n")
            with open(os.path.join(d, "why.txt"), "w") as f:
                f.write("property %s, harness %s, specification %s, np %s\n%s\n" % (self.prop, harness, module, np, txt2))
            if os.path.exists(tr2):
                shutil.copy(tr2, os.path.join(d, "trace.ndjson"))
            with open(os.path.join(d, "replay.sh"), "w") as f:
                f.write("exec python3 %s/tools/replay.py %s %s %s %s/cases\n" % (
                    VERIF, harness, module, ",".join(map(str, np)) if isinstance(np, tuple) else np, d))
            self.violations.append(d)
            print("VIOLATION property=%s replay=%s" % (self.prop, d))
            print("\n".join("  " + x for x in txt2.splitlines()[:6]), flush=True)

    def run_jobs(self, jobs, par=None):
        """jobs: (harness, trace module, case lines, np[, timeout[, known finding]])"""
        full = [tuple(j) + (120, None)[len(j) - 4:] if len(j) < 6 else tuple(j) for j in jobs]
        self.build(*sorted({j[0] for j in full}))
        # heavy ones first
        with ThreadPoolExecutor(par or max(2, NCPU - 1)) as ex:
            for _ in ex.map(self.traces_job, full):
                pass

    # -- the end ----------------------------------------------------------
    def finish(self, assumptions, extra=None):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "events_validated": self.events,
               "cases_run_on_the_code": self.cases, "models": self.models, "samples": self.samples}
        cov.update(extra or {})
        ev = {"property": self.prop, "tier": "quick" if self.quick else "thorough", "seed": self.seed,
              "level": "model_checking", "coverage": cov, "assumptions": assumptions,
              "wall_s": round(time.time() - self.t0, 1), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        return 1 if self.violations else 0
