#!/usr/bin/env python3
"""C09: one history for every decomposition. RunHistory.tla generates problems and divisions; the runs of the real code are
validated by TLC against the one history."""
import sys, os, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, evrun

ck = vf.Check("C09")
thorough = vf.TIER == "thorough"
A = "--enable-mpi --enable-smr "
CFG = [
    ("h", A + "--with-gas=hydro --with-eos=adiabatic --with-flux=roe --with-nscalars=2"),
    ("m", A + "--with-gas=mhd --with-eos=adiabatic --with-flux=hlld --with-nscalars=1 --with-order=3"),
    ("r", A + "--with-gas=mhd --with-eos=isothermal --with-flux=hlle --with-integrator=vl --with-order=2p --enable-resistivity"),
    ("v", A + "--with-gas=hydro --with-eos=adiabatic --with-flux=hllc --enable-viscosity --enable-conduction"),
    ("m2", A + "--with-gas=mhd --with-eos=isothermal --with-flux=roe --with-nscalars=1 --with-order=2 --enable-h-correction"),
]
SER = {"h": CFG[0][1].replace("--enable-mpi", ""), "m": CFG[1][1].replace("--enable-mpi", "")}
if thorough:
    CFG += [("hv", A + "--with-gas=hydro --with-eos=isothermal --with-flux=hllc --with-integrator=vl --with-order=3p --with-nscalars=1"),
            ("ad", A + "--with-gas=mhd --with-eos=adiabatic --with-flux=roe --enable-resistivity --enable-conduction")]
NSMR = len(CFG)
builds = {n: (a, "evolve") for n, a in CFG}
builds.update({"ser_" + n: (a, "evolve") for n, a in SER.items()})
exe = vf.build_many(builds)
ck.model("RunHistory NP=2", vf.tlc("RunHistory", "MC_RunHistory.cfg"))
if thorough:
    ck.model("RunHistory NP=2, 3 cycles", vf.tlc("RunHistory", "MC_RunHistoryBig.cfg"))
    ck.model("RunHistory NP=3", vf.tlc("RunHistory", "MC_RunHistory3.cfg", timeout=900))
for f in ("untagged", "localdt"):
    ck.model_fails("RunHistory with fault " + f, vf.tlc("RunHistory", "MC_RunHistoryBad_%s.cfg" % f))
scn = [x for x in evrun.generate(1500 if thorough else 170, NSMR, len(CFG)) if x["d"]]
scn = scn[:600 if thorough else 64]
PHYS = dict(nu_iso=0.01, kappa_iso=0.01, eta_Ohm=0.01, Q_AD=0.005)


def one(a):
    n, x = a
    s = x["s"]
    name = CFG[s["cfg"] - 1][0]
    mhd = "mhd" in CFG[s["cfg"] - 1][1]
    # four Grids of a parent meeting at the edge of a refined Domain: finding K01 (MHD)
    ds = [d for d in x["d"] if not (mhd and d["corner"])]
    if not ds:
        return None
    prob = dict(PHYS)
    outs = [dict(name="probe", dt=0.0), dict(out_fmt="hst", dt=0.0)]
    ser = name in SER and n % 2 == 0
    todo = [("undivided" + (", serial build" if ser else ""), exe["ser_" + name] if ser else exe[name], 0 if ser else 1, None)]
    todo += [("np=%d ng=%s" % (d["np"], d["ng"]), exe[name], d["np"], d["ng"]) for d in ds]
    runs, info, ref = [], [], None
    for k, (nm, e, np, ng) in enumerate(todo):
        d = vf.sub("r%d_%d" % (n, k))
        inp = evrun.infile(s, ng, prob, outs)
        r = evrun.run(e, d, inp, np=np, timeout=90)
        o = evrun.obs(evrun.logs(d, max(np, 1)))
        rows = evrun.hst_rows(d + "/ev.hst") or evrun.hst_rows(d + "/id0/ev.hst")
        if ref is None:
            ref = rows
        runs.append({"name": nm, "from": 0, "status": r.rc if not r.timeout else 999, "obs": o, "rows": evrun.scale_rows(ref, rows[:s["cycles"] + 1]),
                     "cmpfiles": False, "upto": s["cycles"], "exact": not x["close"]})
        info.append(dict(out=r.out[-300:] if r.rc else "", inp=inp))
    return dict(id=n, last=s["cycles"], runs=runs, _s=s, _d=ds, _name=name, _info=info)


recs = [r for r in vf.pmap(one, list(enumerate(scn)), 6) if r]
# a run that failed is repeated once (a loaded machine)
for i, r in enumerate(recs):
    if any(q["status"] != 0 for q in r["runs"]):
        recs[i] = one((r["id"], scn[r["id"]]))


def describe(r):
    w = []
    ref = r["runs"][0]
    for q in r["runs"]:
        if q["status"]:
            w.append("%s: exit status %d %s" % (q["name"], q["status"], r["_info"][r["runs"].index(q)]["out"][-200:]))
            continue
        for a, b in zip(ref["obs"], q["obs"]):
            if a["h"] != b["h"] or set(a["t"]) != set(b["t"]) or set(a["dt"]) != set(b["dt"]):
                w.append("%s differs from cycle %d on" % (q["name"], a["c"]))
                break
        if len(ref["obs"]) != len(q["obs"]):
            w.append("%s: %d reports instead of %d" % (q["name"], len(q["obs"]), len(ref["obs"])))
    return "%s %s: %s" % (CFG[r["_s"]["cfg"] - 1][1], evrun.brief(r["_s"]), "; ".join(w) or "history rows differ")


ck.cov["problems"] = len(recs)
ck.cov["runs"] = sum(len(r["runs"]) for r in recs)
ck.cov["refined"] = sum(1 for r in recs if len(r["_s"]["M"]) > 1)
ck.cov["cycles"] = sum(len(q["obs"]) for r in recs for q in r["runs"])
ck.sample(evrun.brief(recs[0]["_s"], recs[0]["_d"][0]))
ck.validate("Trace_RunHistory", recs, "runs of one problem are not on one history", jobs=4, describe=describe)


def corrupt(r):
    r["runs"][-1]["obs"][-1]["h"] = "0" * 16
    return r


def corrupt2(r):
    r["runs"][1]["obs"][1]["dt"][-1] = "3ff0000000000000"
    return r


good = [r for r in recs if len(r["runs"]) > 1 and all(q["status"] == 0 and q["exact"] for q in r["runs"])][:3]
if good:
    ck.selftest("Trace_RunHistory", good, corrupt)
    ck.selftest("Trace_RunHistory", good, corrupt2)
# the listed finding, on its specific input
K01 = dict(nd=2, np=1, bc=[True, True, True], bcv=[1] * 6, M=[dict(level=0, nx=[16, 16, 1], disp=[0, 0, 0]),
           dict(level=1, nx=[8, 8, 1], disp=[16, 8, 0])], u=[1, 1, 1], x0=[0, 0, 0], cfg=2, seed=5, cycles=4, jump=1)
dif = False
H = []
for k, (np, ng) in enumerate(((1, None), (4, [[2, 2, 1], [1, 1, 1]]))):
    d = vf.sub("k01_%d" % k)
    r = evrun.run(exe["m"], d, evrun.infile(K01, ng), np=np)
    H.append([o["h"] for o in evrun.obs(evrun.logs(d, np))])
if H[0] != H[1]:
    ck.violation("MHD: edge of a refined Domain where four Grids of its parent meet: face fields differ from the undivided run", dict(scn=K01), finding="K01")
ck.assumptions = ["up to 6 processes and 3 levels, at most 9000 zones, 4 to 7 cycles", "digest collisions (64 bit) excluded",
                  "self-gravity (FFT) agrees to rounding only and is covered by C18, the shearing box by C16, particles by C13"]
ck.finish()
