#!/usr/bin/env python3
"""C17: no direction or orientation is preferred. One problem is run by the real code in several frames (axes permuted, mirrored,
embedded in more dimensions); TLC checks that the solutions correspond as Symmetry.tla says."""
import sys, os, json, random, subprocess, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, evrun

ck = vf.Check("C17")
thorough = vf.TIER == "thorough"
H, M, AD, ISO = "--with-gas=hydro ", "--with-gas=mhd ", "--with-eos=adiabatic ", "--with-eos=isothermal "
VL = "--with-integrator=vl "
SR = "--enable-special-relativity "
CFG = [
    ("h1", H + AD + "--with-flux=roe --with-nscalars=1", 1),
    ("h2", H + AD + "--with-flux=hllc --with-order=3 --enable-viscosity --enable-conduction", 0),
    ("h3", H + ISO + VL + "--with-flux=exact --with-order=2p --with-nscalars=1", 1),
    ("h4", H + AD + VL + "--with-flux=hlle --with-order=3p", 0),
    ("m1", M + AD + "--with-flux=hlld --with-order=3 --with-nscalars=1", 1),
    ("m2", M + AD + VL + "--with-flux=roe --with-order=3p --enable-resistivity --enable-conduction", 0),
    ("m3", M + ISO + "--with-flux=hlle --enable-resistivity", 0),
    ("m4", M + ISO + "--with-flux=roe --enable-h-correction", 0),
    ("m5", M + AD + "--with-flux=roe --with-order=2", 0),
    ("s2", M + AD + VL + SR + "--with-flux=hlld --with-order=3p", 0),
]
if True:
    CFG += [("h5", H + ISO + "--with-flux=two-shock --with-order=1 --with-nscalars=1", 1),
            ("h6", H + AD + "--with-flux=force --with-nscalars=1", 1),
            ("h7", H + ISO + "--with-flux=hllc --with-order=3 --enable-viscosity --with-nscalars=1", 1),
            ("h8", H + AD + VL + "--with-flux=exact --with-order=3p", 0),
            ("ha", H + ISO + "--with-flux=roe --with-order=2 --with-nscalars=1", 1),
            ("hc", H + AD + "--with-flux=roe --enable-h-correction --with-order=3", 0),
            ("hd", H + AD + VL + "--with-flux=roe --enable-h-correction --with-order=2p --with-nscalars=1", 1),
            ("m6", M + ISO + VL + "--with-flux=hlld --with-order=2p --with-nscalars=1", 1),
            ("m7", M + AD + "--with-flux=roe --with-order=1 --enable-resistivity", 0),
            ("m8", M + AD + VL + "--with-flux=hlle --with-order=2p --enable-conduction", 0),
            ("m9", M + ISO + "--with-flux=hlld --with-order=3", 0),

            ("s1", H + AD + VL + SR + "--with-flux=hllc --with-order=2p", 0),
            ("s3", M + AD + VL + SR + "--with-flux=hlle --with-order=2p", 0),
            ("s4", M + AD + VL + SR + "--with-flux=hlld --with-order=2p", 0)]
# the first-order flux correction (steps in which one zone was corrected: with more, the order of the sweep may matter)
FCFG = [("f1", H + AD + VL + "--with-flux=roe --with-order=2p --enable-fofc --with-nscalars=1", 1),
        ("f2", M + ISO + VL + "--with-flux=hlle --with-order=2p --enable-fofc --with-nscalars=1", 1),
        ("f3", M + AD + VL + "--with-flux=roe --with-order=3p --enable-fofc", 0),
        ("f4", H + AD + VL + SR + "--with-flux=hllc --with-order=2p --enable-fofc", 0),
        ("f5", M + AD + VL + SR + "--with-flux=hlld --with-order=2p --enable-fofc", 0)]
KCFG = ("k7", M + ISO + VL + "--with-flux=roe --enable-h-correction --with-order=3p", 0)
NC = len(CFG)
CFG += FCFG
ONLY = os.environ.get("VF_ONLY")
if ONLY:
    CFG = [c for c in CFG if c[0] in ONLY.split(",")]
    NC = len([c for c in CFG if c not in FCFG])
exe = vf.build_many({n: (a, "evolve") for n, a, _ in CFG + [KCFG]})
ck.model("Symmetry", vf.tlc("MC_Symmetry", "MC_Symmetry%s.cfg" % ("Big" if thorough else "_none")))
for f in ("bias", "split"):
    ck.model_fails("Symmetry with fault " + f, vf.tlc("MC_Symmetry", "MC_Symmetry_%s.cfg" % f))
TOL = 100               # 1e-6 of the largest value
PI = [(0, 1, 2), (1, 2, 0), (2, 0, 1), (1, 0, 2), (0, 2, 1), (2, 1, 0)]
rng = random.Random(vf.SEED)
PHYS = dict(nu_iso=0.02, kappa_iso=0.02, kappa_aniso=0.01, eta_Ohm=0.02, Q_AD=0.005)


def scenarios(num):
    out = []
    for n in range(num):
        ci = n % NC
        nd = rng.choice([1, 2, 2, 3, 3, 3])
        nx = [rng.choice([7, 8, 10, 12]) if m < nd else 1 for m in range(3)]
        if nd < 3:
            nx[0] = rng.choice([12, 16, 21])
        mhd = "mhd" in CFG[ci][1]
        bc = []
        for m in range(3):
            bc += rng.choice([[4, 4], [4, 4], [2, 2], [1, 2], [2, 1], [1, 1]] if not mhd else [[4, 4], [4, 4], [2, 2], [5, 2], [5, 5]]) if m < nd and SR not in CFG[ci][1] else [4, 4]
        frames = []
        # same dimension
        perms = {1: [0], 2: [0, 3], 3: [0, 1, 2, 3, 4, 5]}[nd]
        cand = [(p, [bool(b & 1), bool(b & 2) and nd > 1, bool(b & 4) and nd > 2], [1, 1, 1]) for p in perms for b in range(2 ** nd) if p or b]
        rng.shuffle(cand)
        frames += cand[:4 if nd < 3 else 3]
        # embeddings
        if nd == 1:
            e = [(0, (5, 1)), (3, (6, 1)), (0, (5, 5)), (1, (5, 5)), (2, (6, 5))]
        elif nd == 2:
            e = [(p, (5, 5)) for p in range(6)]
        else:
            e = []
        # anisotropic conduction is defined from 2D on; the H-correction and, in ghost zones whose field is not divergence free, the MHD terms of CTU use other stencils in 3D
        if "h-correction" in CFG[ci][1] or (mhd and VL not in CFG[ci][1] and 2 in bc) or (mhd and "conduction" in CFG[ci][1] and nd == 1):
            e = []
        rng.shuffle(e)
        for p, (x, y) in e[:3 if nd == 1 else 2]:
            frames.append((p, [rng.random() < .4 and m < nd for m in range(3)], [1, x, y] if nd == 1 else [1, 1, x]))
        sr = SR in CFG[ci][1]
        flow = rng.choice(["sub", "trans", "trans", "super"]) if not sr else rng.choice(["sub", "fast"])
        v = [rng.choice([-1, 1]) * rng.uniform(0.3, 1.3) * rng.choice([0.2, 1, 1]) for m in range(3)]
        pr = {}
        if flow == "trans":
            pr = dict(vamp=0.7, vmean1=v[0], vmean2=v[1], vmean3=v[2])
        elif flow == "super":
            pr = dict(vamp=0.3, vmean1=3 * v[0], vmean2=3 * v[1], vmean3=3 * v[2])
        elif flow == "fast":
            pr = dict(vamp=0.15, vmean1=0.35 * v[0], vmean2=0.35 * v[1], vmean3=0.35 * v[2])
        if mhd and not sr and rng.random() < .4:
            mag = rng.choice([0.2, 3, 6])
            pr.update(b01=0.3 * mag, b02=-0.2 * mag, b03=0.15 * mag, bamp=rng.choice([0.05, 0.3]))
        if (n + n // NC) % 2:       # a static potential; cooling
            pr.update(gpot=rng.choice([0.0, 0.3, 0.6, 0.6]), cool=rng.choice([0.0, 0.0, 0.3]))
        out.append(dict(pr=pr, flow=flow, n=n, ci=ci, nd=nd, nx=nx, bc=bc, u=[rng.choice([1, 2]) if m < nd else 24 for m in range(3)], seed=rng.randrange(10000), cycles=rng.choice([2, 3, 5]),
                        jump=rng.choice([1, 1, 2, 4]) if SR not in CFG[ci][1] else 1, noise=rng.choice([0.02, 0.1, 0.3]), frames=frames))
    return out


SPOT = [[(3.0, 3.0, 2.0), (10.0, 5.0, 2.0), (1.0, 4.0, 2.0)], [(0.15, 5.0, 1.0), (0.2, 4.0, 1.0), (0.25, 3.0, 1.0)]]


def strong(num):
    out = []
    for n in range(num if NC < len(CFG) else 0):
        ci = NC + n % (len(CFG) - NC)
        nd = rng.choice([2, 3])
        cand = [(p, [bool(b & 1), bool(b & 2), bool(b & 4) and nd > 2], [1, 1, 1]) for p in {2: [0, 3], 3: range(6)}[nd] for b in range(2 ** nd) if p or b]
        rng.shuffle(cand)
        v, g, z = rng.choice(SPOT[SR in CFG[ci][1]])
        pr = dict(vamp=v, dlog=g, spot=0.4)
        if rng.random() < .5:
            pr.update(bamp=0.02, b01=0.03, b02=0.02, b03=0.02)
        out.append(dict(pr=pr, flow="strong", n=100000 + n, ci=ci, nd=nd, nx=[rng.choice([9, 10, 12]) if m < nd else 1 for m in range(3)], bc=[4] * 6, u=[1, 1, 1] if nd == 3 else [1, 1, 24],
                        seed=rng.randrange(10000), cycles=1 + n % 2, jump=1, noise=z, frames=cand[:3]))
    return out


def infile(s, p, mir, emb):
    """The problem in the frame (p, mir); emb[m]: zones along an axis that is ignorable in the base frame."""
    nx, u, bc, prob = [1] * 3, [1.0] * 3, [4] * 6, {}
    for m in range(3):
        a = PI[p][m]
        nx[a] = s["nx"][m] if s["nx"][m] > 1 else emb[m]
        u[a] = s["u"][m]
        b = s["bc"][2 * m:2 * m + 2]
        bc[2 * a:2 * a + 2] = b[::-1] if mir[m] else b
        prob["mir%d" % (m + 1)] = int(mir[m])
        prob["base%d" % (m + 1)] = s["nx"][m]
    for m in range(3):
        if 1 in s["bc"][2 * m:2 * m + 2]:
            prob["wall%d" % (m + 1)] = 1
    prob.update(PHYS, perm=p, noise=s["noise"], **s["pr"])
    nd = max([1] + [m + 1 for m in range(3) if nx[m] > 1])
    t = dict(nd=nd, bc=[True] * 3, bcv=[1] * 6, M=[dict(level=0, nx=nx, disp=[0, 0, 0])], u=u, x0=[0, 0, 0], seed=s["seed"], cycles=s["cycles"], jump=s["jump"], cfg=1)
    return evrun.infile(t, None, prob, bc=bc, time=dict(cour_no=0.5) if s["flow"] == "strong" else None), nx


def one(s):
    name, args, ns = (CFG + [KCFG])[s["ci"]]
    st = 0
    job = dict(id=s["n"], ad="isothermal" not in args, mhd="mhd" in args, ns=ns, cyc=s["cycles"], tol=TOL, frames=[])
    for i, (p, mir, emb) in enumerate([(0, [False] * 3, [1, 1, 1])] + s["frames"]):
        inp, nx = infile(s, p, mir, emb)
        d = vf.sub("r%d_%d" % (s["n"], i))
        r = evrun.run(exe[name], d, inp, env=dict(VF_DUMPAT=str(s["cycles"]), VF_DUMP=d + "/dump"), timeout=120)
        if s["flow"] == "strong" and not i:
            c = [(a, int(b) + int(x)) for a, b, x in re.findall(r"Step(14|15a|15b)\].*?(\d+) cells had d<0; (\d+) cells had P<0", r.out)]
            v1 = [int(x) for x in re.findall(r"Step15a\]: (\d+) cells had v>1", r.out)]
            if r.rc or not c or any(a == "15b" or k + (v1[j] if v1 and a == "15a" else 0) != 1 for j, (a, k) in enumerate(c)):
                return None
        st = st or (999 if r.timeout else r.rc)
        if r.rc:
            print(name, s["n"], p, mir, emb, r.out[-200:])
        f = dict(dump=d + "/dump", p=p, mir=mir, nx=nx)
        if i:
            job["frames"].append(f)
        else:
            job["base"] = f
    job["status"] = st
    jf = vf.sub("r%d_0" % s["n"]) + "/job"
    json.dump([job], open(jf, "w"))
    q = subprocess.run(["python3-vt", os.path.join(vf.VERIF, "lib", "evsym.py"), jf], capture_output=True, text=True)
    if q.returncode:
        print(q.stderr[-1500:])
        vf.die("extraction")
    for i in range(len(s["frames"]) + 1):
        for f in os.listdir(vf.sub("r%d_%d" % (s["n"], i))):
            if f.startswith("dump"):
                os.remove(os.path.join(vf.sub("r%d_%d" % (s["n"], i)), f))
    rec = json.loads(q.stdout)
    rec["_s"] = s
    return rec


scn = scenarios((900 if thorough else 100) // (3 if ONLY else 1))
recs = vf.pmap(one, scn, 7)
recs = [one(r["_s"]) if r["status"] else r for r in recs]
fo = vf.pmap(one, strong((2000 if thorough else 160) // (3 if ONLY else 1)), 7)
fo = [r for r in fo if r]
ck.cov["first_order_corrections"] = {c[0]: sum(1 for r in fo if CFG[r["_s"]["ci"]] == c) for c in FCFG}
recs += fo
ck.cov.update(problems=len(recs), runs=sum(1 + len(r["frames"]) for r in recs), configurations=len(set(r["_s"]["ci"] for r in recs)),
              permuted=sum(1 for r in recs for f in r["_s"]["frames"] if f[0]), mirrored=sum(1 for r in recs for f in r["_s"]["frames"] if any(f[1])),
              potential=sum(1 for r in recs if r["_s"]["pr"].get("gpot")), cooling=sum(1 for r in recs if r["_s"]["pr"].get("cool")),
              embedded=sum(1 for r in recs for f in r["_s"]["frames"] if any(x > 1 for x in f[2])))


def dl(r):
    s = r["_s"]
    return "%s %s nd=%d nx=%s u=%s bc=%s jump=%s noise=%s cycles=%d seed=%d: largest differences (1e-8) %s, frames %s %s" % (
        CFG[s["ci"]][1], s["flow"] + " potential" * bool(s["pr"].get("gpot")) + " cooling" * bool(s["pr"].get("cool")), s["nd"], s["nx"], s["u"], s["bc"], s["jump"], s["noise"], s["cycles"], s["seed"], r.get("_w"), s["frames"], "status %d" % r["status"] if r["status"] else "")


if os.environ.get("VF_SHOW"):
    for r in recs:
        print(r["id"], max(r.get("_w", [1e30])), dl(r))
ck.sample(dl(recs[0]))
ck.validate("Trace_Symmetry", recs, "the solution depends on the orientation", jobs=8, describe=dl)


def c1(r):
    r["frames"][0]["vars"][0]["v"][3] += 3 * TOL
    return r


def c2(r):
    v = r["frames"][-1]["vars"][1]["v"]
    v[0], v[1] = v[1], v[0]
    return r


ck.selftest("Trace_Symmetry", recs[:3], c1)
ck.selftest("Trace_Symmetry", recs[:3], c2)
# the listed finding, on its specific input
k = one(dict(pr={}, flow="sub", n=200000, ci=len(CFG), nd=2, nx=[12, 10, 1], bc=[5, 2, 5, 2, 4, 4], u=[2, 1, 24], seed=6915, cycles=5, jump=1, noise=0.3,
             frames=[(0, [True, False, False], [1, 1, 1])]))
if k["status"] or max(k["_w"]) > TOL:
    ck.violation("MHD, van Leer integrator, H-correction: the mirrored problem gives another solution (%s of 1e-8)" % k.get("_w"), dict(scenario=k["_s"]), finding="K07")
ck.assumptions = ["the H-correction with the van Leer integrator: hydrodynamics only (MHD: K07)",
                  "boxes up to 21 x 12 x 12 zones, 2 to 5 cycles; agreement to 1e-6 of the largest value of each variable",
                  "walls for MHD: conducting (reflecting walls: K05); no external forces, shearing box or refined meshes",
                  "embeddings: not with the H-correction, nor 1D problems with anisotropic conduction (defined from 2D on), nor MHD with outflow boundaries and the CTU integrator (their 3D form is a different scheme)"]
ck.finish()
