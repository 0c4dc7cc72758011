#!/usr/bin/env python3
"""C02: time-step control. TimeStep.tla generates flow-state scenarios, the real code runs them, TLC validates."""
import sys, os, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, mesh

ck = vf.Check("C02")
thorough = vf.TIER == "thorough"
BUILDS = {
    "iso": ("--with-gas=hydro --with-eos=isothermal --with-flux=hlle --enable-mpi", "drive"),
    "adb": ("--with-gas=hydro --with-eos=adiabatic --with-flux=hllc --enable-mpi --enable-smr", "drive"),
    "mhdadb": ("--with-gas=mhd --with-eos=adiabatic --with-flux=hlld --enable-mpi --enable-smr", "drive"),
    "mhdiso": ("--with-gas=mhd --with-eos=isothermal --with-flux=hlle", "drive"),
    "adbser": ("--with-gas=mhd --with-eos=adiabatic --with-flux=hlle --enable-smr", "drive"),
    "visc": ("--with-gas=hydro --with-eos=adiabatic --with-flux=hllc --enable-viscosity --enable-mpi", "drive"),
}
exe = vf.build_many(BUILDS)
ck.model("MC_TimeStep", vf.tlc("MC_TimeStep", "MC_TimeStep.cfg"))
N = 1000 if thorough else 110
g = vf.tlc("Gen_TimeStep", "Gen_TimeStep.cfg", workers=1, extra=["-simulate", "num=%d" % N, "-depth", "40", "-seed", str(vf.SEED)])
if not g.ok or len(g.scn) < N:
    print(g.out[-2000:])
    vf.die("scenario generation")

TICK, NLIM = 12, 22


def one(arg):
    n, sc = arg
    key = sc["gas"]
    if key == "mhdadb" and n % 3 == 0:
        key = "adbser"
    if key == "adb" and n % 4 == 0:
        key = "visc"          # tiny viscosity: the diffusive limit never binds
    b = BUILDS[key][0]
    mpi, smr = "--enable-mpi" in b, "--enable-smr" in b
    nlev = sc["nlev"] if smr else 1
    np = sc["np"] if mpi else 0
    nd = sc["ndim"]
    doms = mesh.nested(nd, nlev, two=(n % 2 == 0))
    inp = mesh.athinput("drive", doms, nd, np=max(np, 1), seed=n, time=dict(cour_no=sc["cn"] / 8.0, nlim=NLIM, tlim=repr(sc["tl"] / 2.0**TICK)),
                        problem=dict(gamma=2.0, iso_csound=1.0, nu_iso=1e-30, nu_aniso=0.0), bc=(n % 2) * 2 + 2, dx=[float(x) for x in sc["u"]],
                        outputs=[dict(name="probe", dt=0.0)])
    w = {0: 4, 1: 2, 2: 1}
    st, lines = [], []
    for c, ovr in enumerate(sc["st"]):
        cur = {}
        for o in ovr:
            lev = o["p"]["lev"] % nlev
            cand = [d for d in doms if d["level"] == lev]
            di = o["p"]["dom"] % len(cand)
            D = cand[di]
            idx = [min(D["nx"][m] - 1, o["p"]["x"][m] * D["nx"][m] // 16) if m < nd else 0 for m in range(3)]
            if c == 0 and (lev > 0 or any(E["level"] == lev + 1 and all(E["disp"][m] <= 2 * (D["disp"][m] + idx[m]) < E["disp"][m] + E["nx"][m]
                              for m in range(nd)) for E in doms)):
                continue    # initially, the coarse state under a finer Domain is the restriction of the finer state
            z = dict(o["z"])
            if key in ("iso", "mhdiso"):
                z["a2"] = 1
            if nd == 1 and "mhd" in sc["gas"]:      # keep the longitudinal face field cell-consistent in 1D
                z["c"] = [z["f"][0]] + z["c"][1:]
            if nd < 3 and "mhd" in sc["gas"]:       # no face field in ignored directions
                z["c"] = z["c"][:nd] + z["f"][nd:]
            cur[(lev, di) + tuple(idx)] = z
        for (lev, di, i, j, k), z in cur.items():
            lines.append("Z %d %d %d %d %d %d %s" % (c, lev, di, i, j, k, " ".join(
                repr(float(v)) for v in [z["d"]] + z["v"] + [z["a2"]] + z["c"] + z["f"])))
        st.append([dict(w=w[k[0]], z=z) for k, z in cur.items()])
    d = vf.sub("run%d" % n)
    r = vf.run(exe[key], ["-i", d + "/in"], cwd=d, np=np, env=dict(VF_LOG=d + "/log", VF_SCN=d + "/scn", VF_TICK=TICK, VF_A2=1),
               files={"in": inp, "scn": "\n".join(lines) + "\n"}, timeout=120)
    obs = {}
    for p in range(max(np, 1)):
        f = d + "/log.%d" % p
        seen = set()
        for l in (open(f) if os.path.exists(f) else []):
            e = json.loads(l)
            o = obs.setdefault(e["cyc"], set())
            o.add((e["t"], e["dt"]))
            o.update(tuple(x) for x in e["g"])
            seen.add(e["cyc"])
        if r.rc == 0 and seen != set(range(0, max(seen or [-1]) + 1)):
            obs.setdefault(0, set()).add((-1, -1))
        obs.setdefault("last", set()).add(max(seen or [-1]))
    last = obs.pop("last")
    rec = dict(id=n, build=key, np=np, ndim=nd, k=128 * sc["cn"], u=sc["u"], w=[w[l] for l in range(nlev)], a2=1, tl=sc["tl"], nlim=NLIM, st=st,
               obs=[[list(x) for x in sorted(obs[c])] for c in sorted(obs)], rc=r.rc)
    rec["_in"], rec["_scn"], rec["_out"] = inp, lines, r.out[-600:]
    if r.rc != 0 or len(last) != 1:
        rec["bad"] = "exit status %s, last cycles %s: %s" % (r.rc, sorted(last), r.out[-300:])
    return rec


recs = vf.pmap(one, list(enumerate(g.scn)), 5)
for r in recs:
    if "bad" in r:
        # repeat before reporting
        r2 = one((r["id"], g.scn[r["id"]]))
        if "bad" in r2:
            ck.violation("run %d (%s np=%d): %s" % (r["id"], r["build"], r["np"], r2["bad"]), r2)
good = [r for r in recs if "bad" not in r]
ck.cov["cycles"] = sum(len(r["obs"]) - 1 for r in good)
ck.cov["by_build"] = {b: sum(1 for r in good if r["build"] == b) for b in BUILDS}
ck.sample({k: v for k, v in good[0].items() if k[0] != "_"})
ck.validate("Trace_TimeStep", good, "time step differs from the specification", jobs=4)


def corrupt(r):
    r["obs"][-1] = [[r["obs"][-1][0][0], r["obs"][-1][0][1] + 1]]
    return r


ck.selftest("Trace_TimeStep", good[:3], corrupt)
ck.assumptions = ["speeds are powers of two so that all steps are exact binary fractions", "Courant numbers 1/4, 3/8 and 1/2",
                  "zone states are prescribed through the documented user hook after each cycle"]
ck.finish()
