#!/usr/bin/env python3
"""C18: the gravitational potential solves the discrete Poisson equation and acts as a force. Poisson.tla generates problems; potentials, ghost
zones, totals and accelerations of the real code are validated by TLC."""
import sys, os, json, subprocess
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, evrun

ck = vf.Check("C18")
thorough = vf.TIER == "thorough"
M, G, D = "--enable-mpi --enable-fft ", "--with-gravity=fft ", "--with-gravity=fft_disk "
CFG = [("a", M + G + "--with-gas=hydro --with-eos=adiabatic --with-flux=hllc"),
       ("b", M + G + "--with-gas=mhd --with-eos=isothermal --with-flux=hlld --with-order=3"),
       ("c", M + G + "--with-gas=hydro --with-eos=isothermal --with-flux=roe --with-integrator=vl --with-order=2p"),
       ("d", M + G + "--with-gas=mhd --with-eos=adiabatic --with-flux=roe --with-integrator=vl --with-order=3p"),
       ("s", "--enable-fft " + G + "--with-gas=mhd --with-eos=adiabatic --with-flux=hlle"),
       ("k", M + D + "--with-gas=hydro --with-eos=isothermal --with-flux=hllc")]
if thorough:
    CFG += [("e", M + G + "--with-gas=hydro --with-eos=adiabatic --with-flux=hlle --with-integrator=vl --with-order=3p --with-nscalars=1"),
            ("f", M + G + "--with-gas=hydro --with-eos=isothermal --with-flux=roe --with-order=1"),
            ("g", M + G + "--with-gas=mhd --with-eos=adiabatic --with-flux=roe --enable-h-correction")]
exe = vf.build_many({n: (a, "evolve") for n, a in CFG})
ck.model("Poisson ring of %d" % (5 if thorough else 4), vf.tlc("MC_Poisson", "MC_Poisson%s.cfg" % ("Big" if thorough else "_none")))
for f in ("ghost", "mean", "stale"):
    ck.model_fails("Poisson with fault " + f, vf.tlc("MC_Poisson", "MC_Poisson_%s.cfg" % f))
num = 700 if thorough else 130
g = vf.tlc("Gen_Poisson", "Gen_Poisson.cfg", workers=1, env=dict(VF_NCFG=len(CFG)), extra=["-simulate", "num=%d" % num, "-depth", "4", "-seed", str(vf.SEED)])
if not g.scn:
    print(g.out[-2000:])
    vf.die("scenario generation")


def fix(i, s):
    """Restrict a scenario to what the configuration supports."""
    s = dict(s, id=i)
    name, args = CFG[s["cfg"] - 1]
    if "mpi" not in args:
        s["g"] = [1, 1, 1]
    s["open"] = 0
    if D in args:
        s["nd"] = 3
        s["n"] = [s["n"][0], max(s["n"][1], 6), max(s["n"][2], 6)]
        s["g"] = [s["g"][m] if s["n"][m] // s["g"][m] >= 4 else 1 for m in range(3)]
        s["open"] = 3
        s["kind"] = "solve"
    if s["kind"] == "force":
        s["g"] = [1, 1, 1]
        s["n"] = [[16, 12, 12][m] if m < s["nd"] else 1 for m in range(3)]
        s["dep"] = [d and m < s["nd"] for m, d in enumerate(s["dep"])]
        if not any(s["dep"]):
            s["dep"] = [m == s["nd"] - 1 for m in range(3)]
        if sum(s["dep"]) == 1:
            s["n"] = [s["n"][m] if s["dep"][m] or s["n"][m] == 1 else 4 for m in range(3)]
        s["jump"], s["noise"], s["cycles"] = 1, 0, 1
    s["dep"] = [bool(d) and s["n"][m] > 1 for m, d in enumerate(s["dep"])] if s["kind"] == "force" else [s["n"][m] > 1 for m in range(3)]
    return s


scn = [fix(i, s) for i, s in enumerate(g.scn)]


def one(s):
    name, args = CFG[s["cfg"] - 1]
    np = s["g"][0] * s["g"][1] * s["g"][2]
    t = dict(nd=s["nd"], bc=[True] * 3, bcv=[4] * 6, M=[dict(level=0, nx=s["n"], disp=[0, 0, 0])], u=s["u"], x0=[0, 0, 0], seed=s["seed"], cycles=s["cycles"], jump=s["jump"], cfg=1)
    bc = [4] * 6
    if s["open"]:
        bc[2 * s["open"] - 2:2 * s["open"]] = [2, 2]
    force = s["kind"] == "force"
    pr = dict(truemean=1, four_pi_G=float(s["fpg"]), noise=s["noise"] * 0.1)
    if force:
        pr.update(damp=0.3, vamp=0.05)
        pr.update({"base%d" % (m + 1): s["n"][m] if s["dep"][m] else 1 for m in range(3)})
    st = 0
    ds = []
    for v in range(2 if force else 1):
        d = vf.sub("r%d_%d" % (s["id"], v))
        ds.append(d)
        if v:
            pr["four_pi_G"] = 1e-20
        inp = evrun.infile(t, [s["g"]], pr, bc=bc, time=dict(cour_no=1e-4) if force else None)
        env = dict(VF_DUMP=d + "/dump", VF_DUMPAT=",".join(map(str, range(s["cycles"] + 1))))
        if not force:
            env["VF_GHOST"] = "1"
        r = evrun.run(exe[name], d, inp, np=np if "mpi" in args else 0, env=env)
        st = st or (999 if r.timeout else r.rc)
        if r.rc:
            s["_out"] = r.out[-300:]
    job = dict(id=s["id"], status=st, kind=s["kind"], n=s["n"], u=s["u"], nd=s["nd"], open=s["open"], fpg=float(s["fpg"]), ad="isothermal" not in args,
               dump=ds[0] + "/dump", dump0=ds[-1] + "/dump", dep=s["dep"], snaps=s["cycles"] + 1)
    jf = ds[0] + "/job"
    json.dump(job, open(jf, "w"))
    q = subprocess.run(["python3-vt", os.path.join(vf.VERIF, "lib", "evgrav.py"), jf], capture_output=True, text=True)
    for d in ds:
        for f in os.listdir(d):
            if f.startswith("dump"):
                os.remove(os.path.join(d, f))
    if q.returncode:
        print(q.stderr[-1500:])
        rec = dict(id=s["id"], status=96, kind=s["kind"], n=s["n"], u=s["u"], open=0, tol=0, mtol=0, snaps=[], force=[])
    else:
        rec = json.loads(q.stdout)
    rec["_s"] = s
    return rec


def dl(r):
    s = r["_s"]
    return "%s %s n=%s g=%s u=%s jump=%s noise=%s 4piG=%s dep=%s cycles=%d seed=%d status=%d %s %s" % (
        CFG[s["cfg"] - 1][1], s["kind"], s["n"], s["g"], s["u"], s["jump"], s["noise"], s["fpg"], s["dep"], s["cycles"], s["seed"], r["status"], r.get("_w"), s.get("_out", ""))


recs = vf.pmap(one, scn, 4)
recs = [one(r["_s"]) if r["status"] else r for r in recs]
ck.cov.update(runs=len(recs), solves=sum(len(r["snaps"]) for r in recs), forces=sum(len(r["force"]) for r in recs), parallel=sum(1 for s in scn if s["g"] != [1, 1, 1]))
if os.environ.get("VF_SHOW"):
    for r in recs:
        print(dl(r))
ck.sample(dl(recs[0]))
ck.validate("Trace_Poisson", recs, "the potential or its action is wrong", jobs=8, describe=dl)
sol = [r for r in recs if r["kind"] != "force" and not r["open"]][:2]
frc = [r for r in recs if r["kind"] == "force"][:2]


def c1(r):
    r["snaps"][-1]["phi"][2] += 100
    return r


def c2(r):
    r["snaps"][-1]["grids"][0]["v"][0] += 1
    return r


def c3(r):
    r["snaps"][-1]["tot"][1] += 5000
    return r


def c4(r):
    r["force"][0]["acc"][0][3] += 2 * r["force"][0]["ftol"]
    return r


for f in (c1, c2, c3):
    ck.selftest("Trace_Poisson", sol, f)
ck.selftest("Trace_Poisson", frc, c4)
ck.assumptions = ["boxes up to 31 zones (1D), 14 x 10 (2D), 14 x 10 x 12 (3D), 1 to 4 cycles, up to 8 or more processes, spacings 1:1 to 1:2; residual resolved to 1e-6 of the potential",
                  "solvers: FFT (periodic) in 1D, 2D, 3D and FFT for disks in 3D (inner zones only); multigrid (a fixed number of iterations) and fft_obc (another discretisation) do not solve the discrete equation",
                  "forces: one step of 1e-4 Courant numbers; 0.1% for states that depend on one coordinate, 2% otherwise, energy 8% of the largest"]
ck.finish()
