#!/usr/bin/env python3
"""C04: continuing from any checkpoint stays on the one history. RunHistory.tla generates problems, checkpoint cycles and
restart chains; states and files of the restarted runs of the real code are validated by TLC against the uninterrupted run."""
import sys, os, json, glob, hashlib, re, shutil, struct
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, evrun

ck = vf.Check("C04")
thorough = vf.TIER == "thorough"
M = "--enable-mpi "
CFG = [
    ("h", "--enable-mpi --enable-smr --with-gas=hydro --with-eos=adiabatic --with-flux=hllc --with-nscalars=2"),
    ("m", "--enable-mpi --enable-smr --with-gas=mhd --with-eos=adiabatic --with-flux=hlld --with-nscalars=1 --with-order=3"),
    ("r", "--with-gas=mhd --with-eos=isothermal --with-flux=hlle --with-integrator=vl --with-order=2p --enable-resistivity"),
    ("v", "--with-gas=hydro --with-eos=isothermal --with-flux=roe --enable-viscosity --enable-sts --with-nscalars=1"),
    ("g", M + "--with-gas=hydro --with-eos=adiabatic --with-flux=roe --with-gravity=fft --enable-fft"),
    ("s", M + "--with-gas=mhd --with-eos=isothermal --with-flux=hlld --enable-shearing-box --enable-fargo --with-order=3"),
    ("p", M + "--with-gas=hydro --with-eos=isothermal --with-flux=hllc --with-particles=feedback"),
]
NSMR = 2
if thorough:
    CFG += [("sp", M + "--with-gas=hydro --with-eos=isothermal --with-flux=hllc --enable-shearing-box --with-nscalars=1"),
            ("pm", "--with-gas=mhd --with-eos=adiabatic --with-flux=roe --with-particles=passive"),
            ("gm", "--with-gas=mhd --with-eos=isothermal --with-flux=roe --with-gravity=multigrid"),
            ("st", M + "--with-gas=mhd --with-eos=adiabatic --with-flux=hlle --enable-resistivity --enable-conduction --enable-sts"),
            ("cy", M + "--with-gas=mhd --with-eos=isothermal --with-flux=hlld --with-coord=cylindrical --with-nscalars=1")]
KCFG = [("kr", "--enable-smr --with-gas=hydro --with-eos=isothermal --with-flux=roe --enable-viscosity"),
        ("kw", "--with-gas=mhd --with-eos=isothermal --with-flux=hlld")]
exe = vf.build_many({n: (a, "evolve") for n, a in CFG + KCFG})
ck.model("RunHistory NP=2", vf.tlc("RunHistory", "MC_RunHistory.cfg"))
if thorough:
    ck.model("RunHistory NP=2, 3 cycles", vf.tlc("RunHistory", "MC_RunHistoryBig.cfg"))
ck.model_fails("RunHistory with a checkpoint that lacks the step", vf.tlc("RunHistory", "MC_RunHistoryBad_nodt.cfg"))
# one problem larger than the write buffer (32768 values)
BIG = dict(s=dict(nd=3, np=1, bc=[True] * 3, bcv=[2] * 6, M=[dict(level=0, nx=[40, 32, 26], disp=[0, 0, 0])], u=[1, 1, 1], x0=[0, 0, 0],
                  cfg=2, seed=77, cycles=2, jump=1, ckpt=[0, 1], x=[0, 1, 0, 0]), d=[], close=False)
scn = [BIG] + evrun.generate(1200 if thorough else 110, NSMR, len(CFG))[:400 if thorough else 44]
FMT = [dict(out_fmt="vtk", out="cons"), dict(out_fmt="vtk", out="prim"), dict(out_fmt="bin", out="prim"), dict(out_fmt="tab", out="cons"),
       dict(out_fmt="tab", out="d", x1="0:1", id="av")]


def outputs(x, nd):
    f = dict(FMT[x[0] % (len(FMT) - (nd == 1))])
    if f.get("id"):      # ranges of coordinates: an average over x1
        f["x1"] = ":"
    f["dt"] = 0.0
    o = [dict(name="probe", dt=0.0), dict(out_fmt="rst", dt=0.0), dict(out_fmt="hst", dt=0.0), f]
    return o if x[1] % 2 else [o[1], o[3], o[0], o[2]]


def part(d, p):
    """Where process p puts its files."""
    return d + "/id%d" % p if os.path.isdir(d + "/id%d" % p) else d


def collect(d, np):
    """{cycle: {kind: digest}} of the files of a run (all outputs are written together, so that the restart file of the
    same number tells the cycle)."""
    res, num, rst = {}, {}, {}
    for p in range(max(np, 1)):
        for r in sorted(glob.glob(part(d, p) + "/*.rst")):
            b = open(r, "rb").read()
            k = b.index(b"N_STEP\n")
            c = struct.unpack_from("i", b, k + 7)[0]
            n = int(r.split(".")[-2])
            num[n] = c
            rst.setdefault(c, n)
            res.setdefault(c, {})["rst" + str(p)] = hashlib.sha1(b[k:]).hexdigest()[:16]
    for r in glob.glob(d + "/**/*.*", recursive=True):
        m = re.search(r"/(id(\d+)/)?(lev\d/)?[^/]*\.(\d{4})\.(?:[^/]*\.)?(vtk|bin|tab)$", r)
        if m and int(m.group(4)) in num:
            k = "%s-%s-%s" % (m.group(2) or 0, re.sub(r"/(?:ev|other)|\.\d{4}", "", "/" + os.path.basename(r)), m.group(3) or "")
            res[num[int(m.group(4))]][k] = hashlib.sha1(open(r, "rb").read()).hexdigest()[:16]
    return res, rst


def hst(d):
    """{time: row} of the history files."""
    out = {}
    for f in sorted(glob.glob(d + "/*.hst") + glob.glob(d + "/id0/*.hst") + glob.glob(d + "/**/lev*/*.hst", recursive=True)):
        for l in open(f):
            if l[0] != "#" and l.strip():
                out.setdefault(l.split()[0], {})[re.sub("^(ev|other)", "", os.path.basename(f))] = " ".join(l.split())
    return out


def gather(src, dst, np, num):
    """Puts the parts of one checkpoint together in one directory; returns the name to give to -r."""
    for p in range(max(np, 1)):
        for f in glob.glob(part(src, p) + "/*.%04d.rst" % num):
            if os.path.dirname(f) != dst:
                shutil.copy(f, dst)
            if p == 0:
                name = os.path.basename(f)
    return name


def record(d, np, r, frm, last, name):
    files, rst = collect(d, np)
    L = evrun.logs(d, max(np, 1))
    o = evrun.obs(L)
    h = hst(d)
    for k in o:
        k["files"] = [dict(n=a, d=b) for a, b in sorted(files.get(k["c"], {}).items())]
        t = "%.8e" % struct.unpack("d", bytes.fromhex(k["t"][0])[::-1])[0] if k["t"] else ""
        for key in h:
            try:
                if "%.8e" % float(key) == t:
                    k["files"] += [dict(n="hst" + a, d=b) for a, b in sorted(h[key].items())]
            except ValueError:
                pass
    return {"name": name, "from": frm, "status": r.rc if not r.timeout else 999, "obs": o, "rows": [], "cmpfiles": True, "exact": True,
            "_out": r.out[-400:] if r.rc else ""}, rst


def one(a):
    n, x = a
    s = dict(x["s"])
    name, args = CFG[s["cfg"] - 1]
    prob = dict(nu_iso=0.01, kappa_iso=0.01, eta_Ohm=0.01, Q_AD=0.005, four_pi_G=2.0, parevery=3, tstop=0.4)
    extra = ""
    if name in ("g", "gm", "s", "sp"):
        s["bc"] = [True, True, True]
    if name in ("s", "sp", "gm", "cy") and s["nd"] < (3 if name == "gm" else 2):
        return None
    if name == "gm":
        s["M"] = [dict(s["M"][0], nx=[16, 16, 16])]
    if name == "cy":
        s["x0"] = [1, 0, 0]
        s["bcv"] = [2] * 6
        s["bc"] = [False, True, True]
    if "mhd" in args:        # reflecting walls: finding K03
        s["bcv"] = [5 if v == 1 else v for v in s["bcv"]]
    if "particles" in args:
        s["bcv"] = [1 if v == 2 else v for v in s["bcv"]]
        extra = "<particle>\npartypes = 2\nparnumcell = 1\ninterp = %d\nintegrator = %d\ntsmode = 3\n" % (1 + s["x"][2] % 3, 1 + s["x"][3] % 3)
    if "sts" in args:
        prob.update(nu_iso=0.3, kappa_iso=0.2, eta_Ohm=0.3, Q_AD=0.0)
    decs = [d for d in x["d"]] if "mpi" in args else []
    if "particles" in args:      # five ghost zones
        decs = [d for d in decs if all(s["M"][0]["nx"][m] // d["ng"][0][m] >= 5 for m in range(s["nd"]))]
    np, ng = (decs[n % len(decs)]["np"], decs[n % len(decs)]["ng"]) if decs and s["x"][0] % 2 else (1, None)
    L = s["cycles"]
    outs = outputs(s["x"], s["nd"])
    e = exe[name]
    runs = []
    d0 = vf.sub("r%d_0" % n)
    r = evrun.run(e, d0, evrun.infile(s, ng, prob, outs, extra=extra), np=np, timeout=120)
    base, rst = record(d0, np, r, 0, L, "uninterrupted")
    runs.append(base)
    k1 = s["ckpt"][0]
    k2 = min(L - 1, k1 + s["ckpt"][1])
    todo = []

    def cont(src, srcrst, k, nlim, tag, over=(), inp=None):
        d = vf.sub("r%d_%s" % (n, tag))
        if k not in srcrst:
            return None, None, None
        f = gather(src, d, np, srcrst[k])
        # a new dir for the run's own files
        dd = vf.sub("r%d_%s/run" % (n, tag))
        args = ["-r", "../" + f]
        if inp:
            open(dd + "/in", "w").write(inp)
            args = ["-i", "in"] + args
        else:
            args += ["time/nlim=%d" % nlim]
        r = evrun.run(e, dd, None, np=np, args=args + list(over), timeout=120)
        q, rs = record(dd, np, r, k, nlim, "%s from cycle %d" % (tag, k))
        return q, rs, dd
    if base["status"] == 0:
        # a: from a checkpoint of the uninterrupted run to the end
        q, _, _ = cont(d0, rst, k1, L, "direct")
        runs.append(q)
        # b: a run that ends at k1, continued to k2 under another name, continued to the end
        db = vf.sub("r%d_b" % n)
        r = evrun.run(e, db, evrun.infile(s, ng, prob, outs, time=dict(nlim=k1), extra=extra), np=np, timeout=120)
        q0, rs0 = record(db, np, r, 0, k1, "first part")
        if q0["status"]:
            runs.append(q0)
        q, rs, dd = cont(db, rs0, k1, k2, "second part", over=["job/problem_id=other"])
        if q is not None:
            if q["status"] or len(q["obs"]) != k2 - k1 + 1:
                runs.append(q)
            else:
                runs.append(dict(q, obs=q["obs"], _part=1))
            q2, _, _ = cont(dd, rs, k2, L, "third part")
            runs.append(q2)
        # c: with an input file of its own
        q, _, _ = cont(d0, rst, k2, L, "with input file", inp=evrun.infile(s, ng, prob, outs, extra=extra))
        runs.append(q)
    bad = [q for q in runs if q is None]
    runs = [q for q in runs if q is not None]
    # a part that ends earlier is compared on the cycles it has
    for q in runs:
        q["upto"] = L
    for q in runs:
        if q.pop("_part", 0):
            q["upto"] = k2
    info = [q.pop("_out", "") for q in runs]
    return dict(id=n, last=L, runs=runs, _s=s, _ng=ng, _np=np, _name=name, _info=info, _missing=len(bad))


recs = [r for r in vf.pmap(one, list(enumerate(scn)), 6) if r]
for i, r in enumerate(recs):
    if any(q["status"] != 0 for q in r["runs"]):
        recs[i] = one((r["id"], scn[r["id"]]))


def describe(r):
    w = []
    ref = {o["c"]: o for o in r["runs"][0]["obs"]}
    for q, inf in zip(r["runs"], r["_info"]):
        if q["status"]:
            w.append("%s: exit status %d %s" % (q["name"], q["status"], inf[-200:]))
            continue
        for b in q["obs"]:
            a = ref.get(b["c"])
            if a is None or a["h"] != b["h"] or set(a["t"]) != set(b["t"]) or set(a["dt"]) != set(b["dt"]):
                w.append("%s: state differs at cycle %d" % (q["name"], b["c"]))
                break
            fa = {f["n"]: f["d"] for f in a["files"]}
            fb = {f["n"]: f["d"] for f in b["files"]}
            if fa != fb:
                w.append("%s: files differ at cycle %d: %s" % (q["name"], b["c"], [(k, fa.get(k), fb.get(k)) for k in sorted(set(fa) | set(fb)) if fa.get(k) != fb.get(k)][:4]))
                break
        if len(q["obs"]) != q["upto"] - q["from"] + 1:
            w.append("%s: %d reports instead of %d" % (q["name"], len(q["obs"]), q["upto"] - q["from"] + 1))
    return "%s %s np=%d ng=%s: %s" % (CFG[r["_s"]["cfg"] - 1][1], evrun.brief(r["_s"]), r["_np"], r["_ng"], "; ".join(w))[:900]


for r in recs:
    if r["_missing"]:
        ck.violation("no restart file for a cycle of the run: " + describe(r), dict(s=r["_s"]))
ck.cov["problems"] = len(recs)
ck.cov["restarted_runs"] = sum(len(r["runs"]) - 1 for r in recs)
ck.cov["parallel"] = sum(1 for r in recs if r["_np"] > 1)
ck.cov["by_configuration"] = {n: sum(1 for r in recs if r["_name"] == n) for n, _ in CFG}
ck.cov["files_compared"] = sum(len(o["files"]) for r in recs for q in r["runs"][1:] for o in q["obs"])
ck.sample(evrun.brief(recs[0]["_s"]))
ck.validate("Trace_RunHistory", recs, "a restarted run leaves the history", jobs=4, describe=describe)


def corrupt(r):
    r["runs"][-1]["obs"][-1]["h"] = "0" * 16
    return r


def corrupt2(r):
    r["runs"][1]["obs"][-1]["files"][0]["d"] = "x"
    return r


good = [r for r in recs if len(r["runs"]) > 3 and all(q["status"] == 0 for q in r["runs"])][:3]
if good:
    ck.selftest("Trace_RunHistory", good, corrupt)
    ck.selftest("Trace_RunHistory", good, corrupt2)
# the listed findings, each on its specific input
for kid, cname, sc, what in (
        ("K02", "kr",
         dict(nd=1, bc=[True] * 3, bcv=[2] * 6, M=[dict(level=0, nx=[16, 1, 1], disp=[0, 0, 0]), dict(level=1, nx=[12, 1, 1], disp=[10, 0, 0])]),
         "explicit diffusion on a refined mesh: the flux correction of the previous step is applied again, so that a run restarted in between differs"),
        ("K03", "kw",
         dict(nd=2, bc=[False, True, True], bcv=[1] * 6, M=[dict(level=0, nx=[16, 16, 1], disp=[0, 0, 0])]),
         "MHD with a reflecting wall: the normal field on the wall is reset after each step but not the field of the zone next to it, which a restart recomputes")):
    if kid not in ck.findings:
        continue
    sc = dict(sc, np=1, u=[1, 1, 1], x0=[0, 0, 0], cfg=1, seed=5, cycles=4, jump=1, ckpt=[2, 1], x=[0, 1, 0, 0])
    e = exe[cname]
    d0, d1 = vf.sub(kid), vf.sub(kid + "/run")
    evrun.run(e, d0, evrun.infile(sc, None, dict(nu_iso=0.01), outputs(sc["x"], sc["nd"])))
    b, rst = evrun.obs(evrun.logs(d0, 1)), collect(d0, 1)[1]
    evrun.run(e, d1, None, args=["-r", "../" + gather(d0, d0, 1, rst[2])])
    q = evrun.obs(evrun.logs(d1, 1))
    if [o["h"] for o in b[2:]] != [o["h"] for o in q]:
        ck.violation(what, dict(scn=sc), finding=kid)
ck.assumptions = ["at most 9000 zones (one run beyond the size of the write buffer), 4 to 7 cycles, up to 6 processes", "digest collisions excluded",
                  "restart file contents are compared from N_STEP on (the parameter text differs in recorded defaults)"]
ck.finish()
