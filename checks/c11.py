#!/usr/bin/env python3
"""C11: closed boxes conserve. Runs of the real code over integrators, solvers, orders, dimensions and boundaries, validated by
TLC against Ledger.tla."""
import sys, os, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, evrun, evledger

ck = vf.Check("C11")
thorough = vf.TIER == "thorough"
H, M, AD, ISO = "--with-gas=hydro ", "--with-gas=mhd ", "--with-eos=adiabatic ", "--with-eos=isothermal "
VL = "--with-integrator=vl "
SR = "--enable-special-relativity "
CFG = [
    ("h1", H + AD + "--with-flux=roe --with-nscalars=2", 2),
    ("h2", H + AD + "--with-flux=hllc --with-order=3 --enable-viscosity --enable-conduction --with-nscalars=1", 1),
    ("h3", H + ISO + VL + "--with-flux=exact --with-order=2p --with-nscalars=1", 1),
    ("h4", H + AD + VL + "--with-flux=hlle --with-order=3p --enable-fofc --with-nscalars=1", 1),
    ("h5", H + ISO + "--with-flux=two-shock --with-order=1 --with-nscalars=1 --enable-mpi", 1),
    ("h6", H + AD + "--with-flux=force --with-nscalars=1", 1),
    ("m1", M + AD + "--with-flux=hlld --with-order=3 --with-nscalars=1 --enable-mpi", 1),
    ("m2", M + AD + VL + "--with-flux=roe --with-order=3p --enable-resistivity --enable-conduction", 0),
    ("m3", M + ISO + "--with-flux=hlle --enable-resistivity --with-nscalars=2", 2),
    ("m4", M + ISO + "--with-flux=roe --enable-h-correction --with-nscalars=1", 1),
    ("s1", H + AD + VL + SR + "--with-flux=hllc --with-order=2p", 0),
    ("s2", M + AD + VL + SR + "--with-flux=hlld --with-order=3p", 0),
]
if thorough:
    CFG += [("h7", H + ISO + "--with-flux=hllc --with-order=3 --enable-viscosity --with-nscalars=1", 1),
            ("h8", H + AD + VL + "--with-flux=exact --with-order=3p", 0),
            ("h9", H + AD + VL + "--with-flux=force --with-order=2p --with-nscalars=3", 3),
            ("ha", H + ISO + "--with-flux=hlle --with-order=2 --with-nscalars=1", 1),
            ("hb", H + AD + "--enable-viscosity --enable-conduction --enable-sts --with-flux=roe", 0),
            ("hc", H + AD + "--with-flux=roe --enable-h-correction --with-order=3", 0),
            ("m5", M + AD + "--with-flux=force --with-order=2", 0),
            ("m6", M + ISO + VL + "--with-flux=hlld --with-order=2p --enable-fofc --with-nscalars=1", 1),
            ("m7", M + AD + "--with-flux=roe --with-order=1 --enable-resistivity --enable-sts", 0),
            ("m8", M + AD + VL + "--with-flux=hlle --with-order=2p --enable-conduction", 0),
            ("s3", M + AD + VL + SR + "--with-flux=hlle --with-order=2p", 0),
            ("s4", H + AD + VL + SR + "--with-flux=exact --with-order=2p", 0)]
exe = vf.build_many({n: (a, "evolve") for n, a, _ in CFG})
for c in ("", "Wall", "Open"):
    ck.model("Ledger " + c, vf.tlc("MC_Ledger", "MC_Ledger%s.cfg" % c))
for c in ("periodic", "wall"):
    ck.model("LedgerPot " + c, vf.tlc("MC_LedgerPot", "MC_LedgerPot_%s_none.cfg" % c))
ck.model_fails("LedgerPot without the work of the potential", vf.tlc("MC_LedgerPot", "MC_LedgerPot_periodic_start.cfg"))
scn = evrun.generate(2200 if thorough else 260, 0, len(CFG))[:1800 if thorough else 200]
PHYS = dict(nu_iso=0.02, kappa_iso=0.02, kappa_aniso=0.01, eta_Ohm=0.02, Q_AD=0.005)


def one(a):
    n, x = a
    s = json.loads(json.dumps(x["s"]))
    name, args, ns = CFG[s["cfg"] - 1]
    mhd = "mhd" in args
    s["jump"] = 1 if SR in args else s["jump"]
    if thorough:
        s["cycles"] *= 4
    for m in range(3):
        s["bcv"][2 * m:2 * m + 2] = [1, 1]
        if mhd:
            s["bc"][m] = True
    prob = dict(PHYS)
    if mhd and s["nd"] == 3:
        prob["Q_H"] = 0.0
    uni = n % 6 == 5 and all(s["bc"][m] for m in range(s["nd"]))
    sq = ns > 0 and n % 2 == 0
    if uni:
        prob["uniform"] = 1
    if sq:
        prob["scaleq"] = 1
    src, grav = [], ""
    acc = None
    if not uni and n % 3 == 1 and all(s["bc"][m] for m in range(s["nd"])):       # a uniform gravitational field
        acc = [x if m < s["nd"] else 0 for m, x in enumerate((0.5, -0.35, 0.7))]
        prob.update(gpot=1, glin1=-acc[0], glin2=-acc[1], glin3=-acc[2])
        src, grav = ["E"], "uniform field"
    elif not uni and n % 3:         # a static potential; cooling
        if n % 4 < 3:
            prob.update(gpot=0.4, gwall=int(not all(s["bc"][m] for m in range(s["nd"]))))
            src.append("M")
            grav = "potential "
        if n % 4 > 1 and "isothermal" not in args:
            prob["cool"] = 0.3
            src.append("E")
            grav += "cooling"
    ds = x["d"] if "mpi" in args else []
    d0 = ds[0] if ds and n % 2 else None
    np = d0["np"] if d0 else (1 if "mpi" in args else 0)
    inp = evrun.infile(s, d0["ng"] if d0 else None, prob)
    d = vf.sub("r%d" % n)
    r = evrun.run(exe[name], d, inp, np=np, env=dict(VF_SUM=1), timeout=120)
    rec = evledger.record(n, s, args, ns, r.rc if not r.timeout else 999, evrun.logs(d, max(np, 1)), div=False, dq=sq, spread=uni, tol=TOL, keepB=True, source=src, accel=acc)
    rec["_s"], rec["_inp"], rec["_np"], rec["_out"], rec["_name"], rec["_x"], rec["_full"] = s, inp, np, (r.out[-300:] if r.rc else ""), args, "uniform" if uni else grav, r.out
    return rec


# strong flows in which zones need the first-order flux correction: everywhere (sp=1: only seeds that leave the edges alone, K06) or around the centre
FOFC = dict(h4=CFG[3], f1=("f1", H + AD + VL + "--with-flux=roe --with-order=2p --enable-fofc --with-nscalars=1", 1),
            f2=("f2", M + ISO + VL + "--with-flux=hlle --with-order=2p --enable-fofc --with-nscalars=1", 1),
            f3=("f3", M + AD + VL + "--with-flux=roe --with-order=3p --enable-fofc --with-nscalars=1", 1),
            f4=("f4", H + AD + VL + SR + "--with-flux=hllc --with-order=2p --enable-fofc", 0),
            f5=("f5", M + AD + VL + SR + "--with-flux=hlld --with-order=2p --enable-fofc", 0))
exe.update(vf.build_many({n: (a, "evolve") for n, (_, a, _) in FOFC.items() if n != "h4"}))
SPOT = [[(3.0, 3.0, 2.0), (10.0, 5.0, 2.0), (1.0, 4.0, 2.0), (60.0, 1.5, 2.0)], [(0.15, 5.0, 1.0), (0.2, 4.0, 1.0), (0.15, 2.0, 1.5), (0.25, 3.0, 1.0)]]


def strong(a, grav=False):
    n, name, nd, seed, spot = a
    _, args, ns = FOFC[name]
    N = 14 if spot else 8
    s = dict(nd=nd, bc=[True] * 3, bcv=[1] * 6, M=[dict(level=0, nx=[N, N, N if nd == 3 else 1], disp=[0, 0, 0])], u=[1, 1, 1], x0=[0, 0, 0],
             seed=seed, cycles=4 if spot else 6, jump=1 if spot else 3, cfg=4)
    if spot:
        v, g, z = SPOT[SR in args][n % 4]
        prob = dict(vamp=v, dlog=g, noise=z, spot=0.3)
        if n % 3 == 0:
            prob.update(bamp=0.02, b01=0.03, b02=0.02, b03=0.02)
        if grav or (n % 2 and SR not in args):      # special relativity: K08
            prob["gpot"] = 1.0
    else:
        prob = dict(vamp=30.0, damp=0.8, pamp=0.8, noise=0.5)
    inp = evrun.infile(s, None, prob, time=dict(cour_no=0.5) if spot else None)
    d = vf.sub("s%d" % n)
    r = evrun.run(exe[name], d, inp, env=dict(VF_SUM=1))
    L = evrun.logs(d, 1)
    rec = evledger.record(100000 + n, s, args, ns, r.rc if not r.timeout else 999, L, div=False, tol=TOL, source=["M"] if "gpot" in prob else [])
    if "Step15b" in r.out:          # SR MHD: a zone the correction cannot repair is reset (documented); nothing to keep
        rec["quant"] = []
        for row in rec["rows"]:
            row["dev"] = []
    rec["_s"], rec["_inp"], rec["_np"], rec["_out"], rec["_name"], rec["_x"], rec["_full"] = s, inp, 0, (r.out[-300:] if r.rc else ""), args, "strong", r.out
    rec["_lost"] = any(x is None for x in L[0])     # not-a-number in the state: such a flow is beyond the scheme, and nothing can be totalled
    return rec


TOL = 500
led = vf.pmap(one, list(enumerate(scn)), 7)
led = [one((r["id"], scn[r["id"]])) if r["status"] else r for r in led]
todo = [("h4", 2, sd, 0) for sd in (20, 25, 31, 72, 178)]
todo += [(c, nd, vf.SEED * 1000 + 10 * i + nd, 1) for c in FOFC for nd in (2, 3) for i in range(30 if thorough else 9)]
fo = vf.pmap(strong, [(n,) + t for n, t in enumerate(todo)], 7)
ck.cov["strong flows that fail"] = sum(1 for r in fo if r["_lost"] or r["status"] and "Fatal error" in r["_out"])
fo = [r for r in fo if not (r["_lost"] or r["status"] and "Fatal error" in r["_out"])]
for c in FOFC:
    ck.cov["first_order_corrections " + c] = sum(1 for r in fo if r["_name"] == FOFC[c][1] and ("Step14" in r["_full"] or "Step15a" in r["_full"]))
led += fo
k = strong((99, "h4", 2, 30, 0))
if any(abs(x) > TOL for row in k["rows"] for x in row["dev"]) or k["status"]:
    ck.violation("first-order flux correction of a zone at the edge of a periodic box", dict(record=k), finding="K06")
k = strong((97, "f4", 2, 1032, 1), True)
if k["status"] or any(abs(row["dev"][k["quant"].index("E")]) > TOL for row in k["rows"]):
    ck.violation("special relativity, first-order flux correction in a static potential: the energy including that in the potential is not kept", dict(record=k), finding="K08")
ck.cov.update(runs=len(led), cycles=sum(len(r["rows"]) for r in led), configurations=len(set(r["_name"] for r in led)), walls=sum(1 for r in led if "W" in r["bc"]),
              parallel=sum(1 for r in led if r["_np"] > 1), uniform=sum(1 for r in led if r["_x"] == "uniform"),
              potential=sum(1 for r in led if r["_x"].startswith("pot")), uniform_field=sum(1 for r in led if "field" in r["_x"]), cooling=sum(1 for r in led if "cooling" in r["_x"]))


def dl(r):
    return "%s %s np=%d %s: %s %s" % (r["_name"], evrun.brief(r["_s"]), r["_np"], r["_x"], "exit status %s %s" % (r["status"], r["_out"]) if r["status"] else "", evledger.worst(r))


if os.environ.get("VF_SHOW"):
    for r in led:
        print(dl(r), "Step14" if "Step14" in r["_full"] else "")
ck.sample(dl(led[0]))
ck.validate("Trace_Ledger", led, "a closed box does not conserve", jobs=3, describe=dl)


def c2(r):
    r["rows"][-1]["dev"][0] += 2 * r["tol"]
    return r


def c3(r):
    z = r["rows"][-1]["zero"]
    if z:
        z[0]["x"] = 2 * r["tol"]
        return r


ck.selftest("Trace_Ledger", led[:5], c2)
ck.selftest("Trace_Ledger", [r for r in led if r["rows"][-1]["zero"]][:5], c3)
ck.assumptions = ["totals are compared to %g (relative, after up to %d cycles)" % (TOL * 1e-13, max(s["s"]["cycles"] for s in scn) * (4 if thorough else 1)),
                  "up to 9000 zones; shearing box: C16, self-gravity: C18, refined meshes: C10"]
ck.finish()
