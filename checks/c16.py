#!/usr/bin/env python3
"""C16: shearing box. ShearBox.tla says what a displaced row looks like; rows displaced by the real code are judged by TLC."""
import sys, os, json
try:
    import numpy
except ImportError:
    os.execvp("python3-vt", ["python3-vt"] + sys.argv)
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, mesh, shear, evrun, evledger

ck = vf.Check("C16")
thorough = vf.TIER == "thorough"
H, M, AD, ISO = "--with-gas=hydro ", "--with-gas=mhd ", "--with-eos=adiabatic ", "--with-eos=isothermal "
SB, MPI, FG = "--enable-shearing-box ", "--enable-mpi ", "--enable-fargo "
CG = [("g1", H + ISO + SB + MPI + "--with-flux=hlle --with-order=2 --with-nscalars=1", 1),
      ("g2", M + AD + SB + MPI + "--with-flux=hlld --with-order=3 --with-nscalars=2", 2),
      ("g3", M + ISO + SB + MPI + "--with-flux=hlle --with-order=2", 0),
      ("g4", M + AD + SB + FG + MPI + "--with-flux=hlld --with-order=2", 0),
      ("g5", H + AD + SB + "--with-flux=hllc --with-order=3 --with-gravity=fft --enable-fft", 0)]
CF = [("f1", H + AD + SB + FG + MPI + "--with-flux=hllc --with-order=3 --with-nscalars=2", 2),
      ("f2", M + AD + SB + FG + MPI + "--with-flux=hlld --with-order=2", 0),
      ("f3", M + ISO + SB + FG + MPI + "--with-flux=hlle --with-order=3 --with-nscalars=1", 1)]
VL = "--with-integrator=vl "
CR = [("r1", M + AD + SB + MPI + "--with-flux=hlld --with-order=2"),
      ("r2", M + ISO + SB + FG + MPI + "--with-flux=hlle"),
      ("r3", H + AD + SB + MPI + VL + "--with-flux=hllc --with-order=3p"),
      ("r4", M + ISO + SB + MPI + VL + "--with-flux=hlld --with-order=2p --enable-resistivity"),
      ("r5", M + AD + SB + FG + MPI + VL + "--with-flux=hlld --with-order=2p")]
B = {n: (a, "shear") for n, a, _ in CG + CF}
B.update({n: (a, "evolve") for n, a in CR})
exe = vf.build_many(B)
if thorough:
    ck.model("ShearBox", vf.tlc("MC_ShearBox", "MC_ShearBoxBig.cfg"))
else:
    ck.model("ShearBox", vf.tlc("MC_ShearBox", "MC_ShearBox.cfg"))
for f in (["direction", "nowrap", "overlap", "neighbour", "unlimited", "slope"] if thorough else ["direction", "overlap"]):
    ck.model_fails("ShearBox " + f, vf.tlc("MC_ShearBox", "MC_ShearBox_%s.cfg" % f))
N = 900 if thorough else 84
g = vf.tlc("Gen_ShearBox", "Gen_ShearBox.cfg", workers=1, extra=["-simulate", "num=%d" % N, "-depth", "6", "-seed", str(vf.SEED)])
if not g.ok or len(g.scn) < N:
    print(g.out[-2000:])
    vf.die("scenario generation")


def whole(n, sc):
    """A run on one process and on several: what is kept, and the same answer."""
    name, args = CR[sc["cfg"] - 1]
    s = dict(M=[dict(level=0, nx=sc["n"], disp=[0, 0, 0])], nd=sc["nd"], bc=[1, 1, 1], bcv=[4] * 6, seed=sc["seed"], jump=1, cycles=sc["cycles"], u=[1, 1, 1], x0=[-sc["n"][0] / 8.0, 0, 0])
    pr = dict(omega=float(sc["om"]), qshear=[1.0, 1.5][sc["q"]], shcoord=sc["xz"])
    if "resist" in args:
        pr.update([dict(eta_Ohm=0.02), dict(eta_Ohm=0.01, Q_H=0.02), dict(Q_AD=0.05)][sc["dif"]])
    G = list(sc["g"])
    out, ref = [], None
    for w, g in enumerate([[1, 1, 1], G]):
        np = g[0] * g[1] * g[2]
        if w and np == 1:
            break
        d = vf.sub("w%d_%d" % (n, w))
        inp = evrun.infile(s, [g], prob=pr)
        r = evrun.run(exe[name], d, inp, np, env=dict(VF_SUM=1))
        if FG in args and "FARGO offset exceeded" in r.out and g[1] > 1:
            out.append(dict(refused=1))
            break
        L = evrun.logs(d, np)
        rec = evledger.record(10 * n + w, s, args, 0, r.rc, L, bc=[4] * 6, keepB=True, source=True, tol=2000)
        i3 = rec["quant"].index("M3")
        keep = [i for i, q in enumerate(rec["quant"]) if q in ("d", "B1", "B3")] if sc["nd"] == 3 else []
        h = [o["h"] for o in evrun.obs(L)]
        for c, row in enumerate(rec["rows"]):
            if sc["nd"] == 3:
                row["zero"].append(dict(n="M3", x=row["dev"][i3], tol=2000))
            row["dev"] = [row["dev"][i] for i in keep]
            if ref is not None:
                row["zero"].append(dict(n="unlike one process", x=int(c >= len(ref) or c >= len(h) or ref[c] != h[c]), tol=0))
        ref = h
        rec["quant"] = [rec["quant"][i] for i in keep]
        rec.update(_in=inp, _sc=sc, _G=g, _cfg=name, _out=r.out[-300:] if r.rc else "")
        out.append(rec)
    return out


def one(a):
    n, sc = a
    if sc["part"] == "run":
        return whole(n, sc)
    far = sc["part"] == "fargo"
    name, args, ns = (CF if far else CG)[sc["cfg"] - 1]
    mpi = MPI in args
    G = list(sc["g"])
    if not mpi:
        G = [1, 1, 1]
    while G[0] * G[1] * G[2] > 8:
        G[0 if G[0] > 1 else 2] = 1
    np = G[0] * G[1] * G[2]
    dx2 = [0.5, 1.0, 0.1][sc["dx2"]]
    dx = [1.0, dx2, 1.0] if far else [0.25, dx2, 0.5]
    qs = [1.0, 1.5][sc["q"]]
    x0 = -dx[0] * sc["n"][0] / 2 + (sc["off"] * dx[0] if far else 0.0)
    inp = mesh.athinput("sh", [dict(level=0, nx=sc["n"], disp=[0, 0, 0], ngrid=G)], sc["nd"], time=dict(cour_no=0.5, nlim=0, tlim=1.0),
                        problem=dict(omega=1.0, qshear=qs, seed=sc["seed"], shcoord=sc["xz"], iso_csound=1.0, gamma=1.5), bc=4, dx=dx, x0=[x0, 0.0, 0.0], outputs=[dict(name="rows", dt=1e9)])
    d = vf.sub("s%d" % n)
    r = vf.run(exe[name], ["-i", d + "/in"], cwd=d, np=np if mpi else 0, env=dict(VF_DUMP=d + "/dump", VF_SHIFTS=",".join(map(str, sc["shifts"])), VF_FARGO=int(far)), files={"in": inp}, timeout=90)
    out = []
    fl = [shear.read("%s/dump.%d" % (d, p)) for p in range(np) if os.path.exists("%s/dump.%d" % (d, p))]
    if r.rc != 0 or len(fl) != np or any(len(f) != 2 * len(sc["shifts"]) for f in fl):
        far_off = int(max(map(abs, sc["shifts"])) / 8.0 * (max(abs(x0), abs(x0 + dx[0] * sc["n"][0])) / dx[0] + 0.5)) if far else 0
        if far and G[1] > 1 and "FARGO offset exceeded" in r.out and far_off + 4 > sc["n"][1] // G[1]:
            return [dict(refused=1)]        # zones are needed from beyond the next Grid: refusing is right
        return [dict(id=n, bad="run failed (status %s): %s" % (r.rc, " | ".join([l for l in r.out.splitlines() if "rror" in l or "ignal" in l or "corrupt" in l][:3]) or r.out[-300:]), _in=inp, _sc=sc)]
    wide = "order=3" in args
    for m, s in enumerate(sc["shifts"]):
        part = [f[2 * m + w] for f in fl for w in (0, 1)]
        if far:
            rec = shear.fargo_record(10 * n + m, sc, args, ns, part, s, wide, dx, x0)
        else:
            rec = shear.ghost_record(10 * n + m, sc, args, ns, part, s, wide, dx2, qs * dx[0] * sc["n"][0])
        rec.update(_in=inp, _sc=sc, _G=G, _cfg=name, _s=s)
        out.append(rec)
    return out


recs = sum(vf.pmap(one, list(enumerate(g.scn)), 6), [])
for r in recs:
    if "bad" in r:
        ck.violation("run %d: %s" % (r["id"], r["bad"]), r)
ck.cov["refused"] = sum(1 for r in recs if "refused" in r)
good = [r for r in recs if "bad" not in r and "refused" not in r and r["_sc"]["part"] != "run"]
runs = [r for r in recs if "_sc" in r and "bad" not in r and r["_sc"]["part"] == "run"]
ck.cov["whole_runs"] = len(runs)
ck.cov["rows"] = sum(len(r["rows"]) for r in good)
ck.cov["fargo_steps"] = sum(1 for r in good if r["_sc"]["part"] == "fargo")
brief = lambda r: "%s, n=%s divided %s, displacement %s/8 zones (%s)" % (r["_sc"]["part"], r["_sc"]["n"], r["_G"], r["_s"], r["_cfg"])
ck.sample([brief(r) for r in good[:4]])
good.sort(key=lambda r: -sum(len(x["src"]) for x in r["rows"]))
ck.validate("Trace_ShearBox", good, "rows not displaced as specified", jobs=7, describe=brief)
say = lambda r: "run n=%s divided %s (%s) omega=%s %s" % (r["_sc"]["n"], r["_G"], r["_cfg"], r["_sc"]["om"], evledger.worst(r))
ck.validate("Trace_Ledger", runs, "run in a shearing box", jobs=2, describe=say)
small = [r for r in good if len(r["rows"]) < 400][:3]


def corrupt(r):
    r["rows"][-1]["got"][0] += 4000
    return r


def spoil(r):
    r["rows"][-1]["dev"][0] += 3000
    return r


if not ck.violations:
    ck.selftest("Trace_ShearBox", small, corrupt)
    ck.selftest("Trace_Ledger", [r for r in runs if r["quant"]][:3], spoil)
ck.assumptions = ["Grids of equal size along y (as the code requires)", "periodic in y and z", "displacements of n/8 zones, up to three periods"]
ck.finish()
