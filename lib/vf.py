"""Common machinery: builds Athena from /repo's working tree with a harness problem generator, runs it,
runs TLC, and reports.  Everything lives under /verif/_work (scratch, removed) and /verif/_cache (optional)."""
import atexit, concurrent.futures as cf, glob, hashlib, json, os, re, shlex, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TLAJARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
T0 = time.time()

_work = None


def work():
    global _work
    if _work is None:
        base = os.path.join(VERIF, "_work")
        os.makedirs(base, exist_ok=True)
        _work = tempfile.mkdtemp(prefix="w", dir=base)
        atexit.register(lambda: None if os.environ.get("VERIF_KEEP") else shutil.rmtree(_work, ignore_errors=True))
    return _work


def sub(name):
    d = os.path.join(work(), name)
    os.makedirs(d, exist_ok=True)
    return d


def die(msg):
    """An error of the check itself (neither pass nor violation)."""
    print("CHECK-ERROR:", msg, flush=True)
    if CHECK and CHECK.violations:      # already decided
        CHECK.finish()
    sys.exit(3)


CHECK = None


def _hook(*a):
    sys.__excepthook__(*a)
    if CHECK and CHECK.violations:
        try:
            CHECK.finish()
        except SystemExit:
            sys.stdout.flush()
            os._exit(1)


sys.excepthook = _hook


# ------------------------------------------------------------------ building
ENV = dict(os.environ, LC_ALL="C", OMPI_CC="gcc", OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1",
           OMPI_MCA_btl="self,vader", OMPI_MCA_rmaps_base_oversubscribe="1", OMPI_MCA_hwloc_base_binding_policy="none",
           OMPI_MCA_mpi_yield_when_idle="1", OMPI_MCA_plm="isolated", OMPI_MCA_btl_vader_single_copy_mechanism="none")
for v in ("MAKEFLAGS", "CFLAGS", "MAKELEVEL", "CONFIG_SITE", "CC"):
    ENV.pop(v, None)

_treehash = None


def treehash():
    global _treehash
    if _treehash is None:
        h = hashlib.sha256()
        files = [os.path.join(REPO, f) for f in ("configure.ac", "Makefile.in", "Makeoptions.in", "install-sh")]
        for d, ds, fs in os.walk(os.path.join(REPO, "src")):
            ds.sort()
            files += [os.path.join(d, f) for f in sorted(fs) if f.endswith((".c", ".h", ".in"))
                      and not (os.path.islink(os.path.join(d, f)))]
        for f in files:
            if os.path.basename(f) in ("defs.h", "problem.c", "config.h"):
                continue
            h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
        _treehash = h.hexdigest()[:20]
    return _treehash


def _run(cmd, cwd, log, env=None, timeout=600):
    with open(log, "a") as f:
        f.write("+ " + (cmd if isinstance(cmd, str) else " ".join(cmd)) + "\n")
        f.flush()
        return subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=f, stderr=subprocess.STDOUT,
                              stdin=subprocess.DEVNULL, timeout=timeout, shell=isinstance(cmd, str)).returncode


def _copysrc(dst):
    shutil.copytree(os.path.join(REPO, "src"), dst, symlinks=True,
                    ignore=shutil.ignore_patterns("*.o", "*.a", "Makedepend", "Makefile", "defs.h", "problem.c"))
    for n in ("defs.h", "problem.c"):
        p = os.path.join(dst, n)
        if os.path.lexists(p):
            os.remove(p)


def _configure_script():
    """autoconf once per run."""
    d = sub("autoconf")
    if not os.path.exists(d + "/configure"):
        shutil.copy(REPO + "/configure.ac", d)
        if _run(["autoconf"], d, d + "/log"):
            die("autoconf failed")
    return d + "/configure"


def build(args, harness, cflags="-O1 -w", post=None):
    """Configure and make one configuration with /verif/harness/<harness>.c as the problem generator.
    Returns the path of the executable, or None if it does not build."""
    mpi = "--enable-mpi" in args
    hsrc = os.path.join(VERIF, "harness", harness + ".c")
    hh = hashlib.sha256()
    for f in [hsrc] + sorted(glob.glob(os.path.join(VERIF, "harness", "*.h"))):
        hh.update(open(f, "rb").read())
    key = hashlib.sha256("|".join([treehash(), args, hh.hexdigest(), harness, cflags]).encode()).hexdigest()[:24]
    cdir = os.path.join(VERIF, "_cache", "exe")
    os.makedirs(cdir, exist_ok=True)
    exe = os.path.join(cdir, key)
    if os.path.exists(exe):
        os.utime(exe)
        return exe
    d = tempfile.mkdtemp(prefix="b", dir=sub("build"))
    log = d + "/log"
    _copysrc(d + "/src")
    for f in ("Makefile.in", "Makeoptions.in", "install-sh"):
        shutil.copy(os.path.join(REPO, f), d)
    shutil.copy(_configure_script(), d)
    for f in glob.glob(os.path.join(VERIF, "harness", "*.h")):
        shutil.copy(f, d + "/src/")
        shutil.copy(f, d + "/src/prob/")
    shutil.copy(hsrc, d + "/src/prob/vf_%s.c" % harness)
    env = dict(ENV, CCACHE_DIR=os.path.join(VERIF, "_cache", "ccache"), CCACHE_MAXSIZE="600M",
               CCACHE_SLOPPINESS="include_file_mtime,include_file_ctime", CCACHE_NOHASHDIR="1")
    cc = "mpicc" if mpi else "gcc"
    cch = "ccache " if shutil.which("ccache") else ""
    ok = not _run(["./configure", "--with-problem=vf_" + harness] + shlex.split(args), d, log, env) and \
        not _run(["make", "all", "-j4", "MACHINE=macosx", "CC=%s%s -fcommon" % (cch, cc), "LDR=%s -fcommon" % cc,
                  "OPT=" + cflags], d, log, env)
    out = d + "/bin/athena"
    if not ok or not os.path.exists(out):
        keep = os.path.join(VERIF, "_cache", "buildlog-" + key)
        shutil.copy(log, keep)
        shutil.rmtree(d, ignore_errors=True)
        print("build failed: %s (%s), log %s" % (args, harness, keep), flush=True)
        print("".join(open(keep, errors="replace").readlines()[-15:]), flush=True)
        return None
    tmp = exe + ".%d" % os.getpid()
    shutil.copy(out, tmp)
    os.rename(tmp, exe)
    shutil.rmtree(d, ignore_errors=True)
    return exe


def build_many(specs):
    """specs: {name: (args, harness)} -> {name: exe}; a configuration that does not build is an error of the check."""
    _configure_script()
    treehash()
    # old executables of other trees: keep the cache small
    cdir = os.path.join(VERIF, "_cache", "exe")
    os.makedirs(cdir, exist_ok=True)
    old = sorted(((os.path.getmtime(p), p) for p in glob.glob(cdir + "/*")), reverse=True)
    for _, p in old[400:]:
        os.remove(p)
    with cf.ThreadPoolExecutor(max(1, NCPU)) as ex:
        fut = {n: ex.submit(build, *s) for n, s in specs.items()}
        res = {n: f.result() for n, f in fut.items()}
    bad = [n for n, e in res.items() if e is None]
    if bad:
        die("configurations do not build: " + ", ".join(bad))
    return res


# ------------------------------------------------------------------ running
class R:
    __slots__ = ("rc", "out", "dir", "timeout")


def run(exe, args=(), cwd=None, np=0, env=None, timeout=120, input=None, files=None):
    """Run an executable (np>0: under mpirun) in its own process group; returns R(rc,out,dir,timeout)."""
    e = dict(ENV)
    if env:
        e.update({k: str(v) for k, v in env.items()})
    os.makedirs(cwd, exist_ok=True)
    for n, t in (files or {}).items():
        with open(os.path.join(cwd, n), "w") as f:
            f.write(t)
    tmpd = None
    if np:
        tmpd = tempfile.mkdtemp(prefix="o", dir="/tmp")
        e["TMPDIR"] = tmpd
        cmd = ["mpirun", "--allow-run-as-root", "--oversubscribe", "-np", str(np), exe] + list(args)
    else:
        cmd = [exe] + list(args)
    r = R()
    r.dir, r.timeout = cwd, False
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         stdin=subprocess.DEVNULL, start_new_session=True)
    try:
        r.out = p.communicate(timeout=timeout)[0].decode(errors="replace")
    except subprocess.TimeoutExpired:
        r.timeout = True
        try:
            os.killpg(p.pid, signal.SIGTERM)
            time.sleep(1.0)
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        r.out = p.communicate()[0].decode(errors="replace")
    r.rc = p.returncode
    if tmpd:
        shutil.rmtree(tmpd, ignore_errors=True)
    return r


def pmap(fn, items, workers=None):
    with cf.ThreadPoolExecutor(workers or NCPU) as ex:
        return list(ex.map(fn, items))


# ------------------------------------------------------------------ TLC
class Tlc:
    def __init__(s, rc, out, wall):
        s.rc, s.out, s.wall = rc, out, wall
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        s.generated, s.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        m = re.findall(r"Generated (\d+) states|(\d+) states checked|The number of states generated: (\d+)", out)
        if not s.generated and m:
            s.generated = max(int(x) for t in m for x in t if x)
        s.scn = _scn(out)

    @property
    def ok(s):
        return s.rc == 0

    @property
    def violated(s):  # 10 assumption, 11 deadlock, 12 safety, 13 liveness
        return s.rc in (10, 11, 12, 13) or "is violated" in s.out or "evaluated to FALSE" in s.out and s.rc != 0


def _scn(out):
    res = []
    for l in out.splitlines():
        m = re.match(r'^"SCN (.*)"$', l)
        if m:
            res.append(json.loads(m.group(1).replace('\\"', '"').replace("\\\\", "\\")))
    return res


def tlc(module, cfg, env=None, workers="auto", timeout=600, extra=(), heap="6g"):
    """Run TLC on spec/<module>.tla with spec/<cfg>."""
    meta = tempfile.mkdtemp(prefix="tlc", dir=work())
    e = dict(ENV)
    if env:
        e.update({k: str(v) for k, v in env.items()})
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", TLAJARS, "tlc2.TLC", "-noGenerateSpecTE",
           "-metadir", meta, "-workers", str(workers), "-config", cfg] + list(extra) + [module + ".tla"]
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=os.path.join(VERIF, "spec"), env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
        rc, out = p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as x:
        rc, out = 999, (x.stdout or b"").decode(errors="replace")
    shutil.rmtree(meta, ignore_errors=True)
    return Tlc(rc, out, time.time() - t)


def write_ndjson(path, recs):
    with open(path, "w") as f:
        for r in recs:
            f.write(json.dumps(r, separators=(",", ":")) + "\n")


# ------------------------------------------------------------------ reporting
class Check:
    def __init__(self, pid, level="model_checking"):
        global CHECK
        CHECK = self
        self.pid, self.level = pid, level
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.violations, self.assumptions, self.known = [], [], []
        self.findings = {}
        kf = os.path.join(VERIF, "known_findings.json")
        if os.path.exists(kf):
            self.findings = {k["id"]: k for k in json.load(open(kf)) if k.get("property") == pid and
                             k.get("status") == "known"}

    def model(self, name, t):
        """Record (and require) a successful model-checking run of the specification itself."""
        if not t.ok:
            print(t.out[-4000:])
            die("TLC run %s failed (rc %d)" % (name, t.rc))
        self.cov["states"] += t.distinct
        self.cov["transitions"] += t.generated
        self.cov.setdefault("models", {})[name] = dict(distinct=t.distinct, generated=t.generated, wall_s=round(t.wall, 1))

    def sample(self, s):
        if len(self.cov["samples"]) < 6:
            self.cov["samples"].append(s)

    def count(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def violation(self, what, replay, finding=None):
        """what: one line; replay: dict with everything needed to repeat it."""
        if finding and finding in self.findings:
            self.known.append((finding, what))
            return
        if len(self.violations) >= 40:
            return
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        p = os.path.join(VERIF, "replays", "%s-%d.json" % (self.pid, len(self.violations) + 1))
        with open(p, "w") as f:
            json.dump(dict(property=self.pid, what=what, seed=SEED, tier=TIER, replay=replay), f, indent=1, default=str)
        self.violations.append((what, p))

    def model_fails(self, name, t):
        """Negative control: a deliberately broken variant of the specification must be rejected by its own invariants."""
        if not t.violated:
            print(t.out[-3000:])
            die("negative control %s was not rejected (rc %d)" % (name, t.rc))
        self.cov.setdefault("negative_controls", {})[name] = "rejected"

    def validate(self, module, recs, what, env=None, jobs=1, timeout=600, describe=None, cfg=None, finding=None):
        """Validate recorded runs (JSON records) with the TLC trace specification spec/<module>.tla: it reads $VF_TRACE,
        and its postcondition prints <<"REJECTED", n>> for each record n (1-based) it has no behaviour for.
        Keys beginning with "_" are kept out of TLC's sight (but go into the replay file)."""
        if not recs:
            die("no traces for " + module)
        n0 = self.cov.get("batches", 0)
        self.cov["batches"] = n0 + 1

        def chunk(c):
            p = os.path.join(work(), "%s-%d-%d.ndjson" % (module, n0, c))
            part = recs[c::jobs]
            write_ndjson(p, [{k: v for k, v in r.items() if k[0] != "_"} for r in part])
            for attempt in (1, 2):          # report a rejection only if it repeats
                t = tlc(module, cfg or module + ".cfg", dict(env or {}, VF_TRACE=p), timeout=timeout, workers=1,
                        heap="3g" if jobs > 1 else "8g")
                rej = [int(x) for x in re.findall(r'<<"REJECTED", (\d+)', t.out)]
                if t.ok and not rej:
                    return part, [], t
                if not rej:
                    print(t.out[-6000:])
                    die("TLC could not evaluate %s (rc %d)" % (module, t.rc))
            return part, rej, t
        jobs = max(1, min(jobs, len(recs)))
        okall = True
        for part, rej, t in pmap(chunk, range(jobs), jobs):
            self.cov["states"] += t.distinct
            self.cov["transitions"] += t.generated
            self.cov["traces_validated_against_impl"] += len(part)
            for n in rej:
                okall = False
                r = part[n - 1]
                why = re.findall(r'^"?WHY %s (.*?)"?$' % re.escape(str(r.get("id"))), t.out, re.M)[:2]
                self.violation("%s: %s%s" % (what, "".join("[%s] " % w[:300] for w in why), describe(r) if describe else json.dumps(
                    {k: v for k, v in r.items() if k[0] != "_"})[:700]), dict(module=module, record=r),
                    finding=finding(r) if finding else None)
        return okall

    def selftest(self, module, recs, corrupt, env=None, cfg=None):
        """The trace specification must reject a record with a corrupted observation: shows that it binds."""
        if self.violations:
            return
        bad = []
        for r in recs:
            c = corrupt(json.loads(json.dumps({k: v for k, v in r.items() if k[0] != "_"})))
            if c is not None:
                bad.append(c)
        if not bad:
            die("self-test of %s has no record" % module)
        p = os.path.join(work(), "%s-self%d.ndjson" % (module, self.cov.get("corrupted_traces_rejected", 0)))
        write_ndjson(p, bad)
        t = tlc(module, cfg or module + ".cfg", dict(env or {}, VF_TRACE=p), workers=1)
        rej = set(int(x) for x in re.findall(r'<<"REJECTED", (\d+)', t.out))
        if len(rej) != len(bad):
            print(t.out[-3000:])
            die("self-test: %s accepted %d of %d corrupted records" % (module, len(bad) - len(rej), len(bad)))
        self.count("corrupted_traces_rejected", len(bad))

    def finish(self):
        ev = dict(property=self.pid, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED, level=self.level,
                  coverage=self.cov, wall_s=round(time.time() - T0, 1), violations=len(self.violations),
                  assumptions=self.assumptions)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        seen = set()
        for fid, what in self.known:
            if fid not in seen:
                print("KNOWN-FINDING: property=%s %s: %s" % (self.pid, fid, what))
                seen.add(fid)
        for what, p in self.violations[:8]:
            print("  " + what[:1500])
            print("VIOLATION property=%s replay=%s" % (self.pid, p), flush=True)
        if not self.violations:
            print("OK property=%s traces=%d states=%d wall=%.1fs" % (
                self.pid, self.cov["traces_validated_against_impl"], self.cov["states"], time.time() - T0), flush=True)
        sys.exit(1 if self.violations else 0)
