#!/usr/bin/env python3
"""C12: the magnetic field stays divergence-free. Runs of the real code over MHD integrators, solvers, orders, resistive terms,
boundaries, refined meshes and decompositions; divergence, cell averages and net fluxes validated by TLC against Ledger.tla, whose
update rule for fluxes is Induction.tla's."""
import sys, os, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, evrun, evledger

ck = vf.Check("C12")
thorough = vf.TIER == "thorough"
M, AD, ISO = "--with-gas=mhd ", "--with-eos=adiabatic ", "--with-eos=isothermal "
VL = "--with-integrator=vl "
SR = "--enable-special-relativity "
A = "--enable-mpi --enable-smr "
# refined first
CFG = [
    ("r1", A + M + AD + "--with-flux=hlld --with-order=3 --with-nscalars=1", 1),
    ("r2", A + M + ISO + VL + "--with-flux=roe --with-order=2p", 0),
    ("r3", A + M + ISO + "--with-flux=hlle --with-order=2", 0),
    ("m1", M + AD + "--with-flux=roe --with-order=3 --enable-resistivity", 0),
    ("m2", M + ISO + "--with-flux=hlld --with-order=2 --enable-h-correction", 0) if 0 else ("m2", M + ISO + "--with-flux=roe --enable-h-correction --enable-mpi", 0),
    ("m3", M + AD + VL + "--with-flux=hlld --with-order=3p --enable-resistivity --enable-mpi", 0),
    ("m4", M + ISO + VL + "--with-flux=hlle --with-order=2p --enable-fofc", 0),
    ("m5", M + AD + "--with-flux=force --with-order=1", 0),
    ("s2", M + AD + VL + SR + "--with-flux=hlld --with-order=3p", 0),
]
NS = 3
if thorough:
    CFG = CFG[:3] + [("r4", A + M + AD + VL + "--with-flux=hlle --with-order=3p --with-nscalars=1", 1),
                     ("r5", A + M + AD + "--with-flux=roe --with-order=1", 0)] + CFG[3:] + [
        ("m6", M + ISO + VL + "--with-flux=hlld --with-order=2p --enable-fofc --with-nscalars=1", 1),
        ("m7", M + AD + "--with-flux=roe --with-order=1 --enable-resistivity --enable-sts", 0),
        ("m8", M + AD + VL + "--with-flux=hlle --with-order=2p --enable-conduction", 0),
        ("m9", M + ISO + "--with-flux=hlld --with-order=3 --enable-resistivity", 0),
        ("s3", M + AD + VL + SR + "--with-flux=hlle --with-order=2p", 0)]
    NS = 5
KW = M + ISO + "--with-flux=hlld"
B = {n: (a, "evolve") for n, a, _ in CFG}
B["kw"] = (KW, "evolve")
exe = vf.build_many(B)
ck.model("Induction", vf.tlc("Induction", "MC_Induction_none.cfg"))
if thorough:
    ck.model("Induction, two steps", vf.tlc("Induction", "MC_InductionBig.cfg"))
for f in ("noemf", "norestrict", "wallreset"):
    ck.model_fails("Induction with fault " + f, vf.tlc("Induction", "MC_Induction_%s.cfg" % f))
scn = evrun.generate(2400 if thorough else 300, NS, len(CFG))[:1600 if thorough else 160]
PHYS = dict(eta_Ohm=0.02, Q_AD=0.005, kappa_iso=0.02, kappa_aniso=0.01)
TOL = 500


def one(a):
    n, x = a
    s = json.loads(json.dumps(x["s"]))
    name, args, ns = CFG[s["cfg"] - 1]
    s["jump"] = 1 if SR in args else s["jump"]
    if SR in args:
        for m in range(3):
            s["bc"][m] = True
    if thorough:
        s["cycles"] *= 4
    elif n % 3 == 0:
        s["cycles"] *= 2
    bc = [5 if b == 1 else b for b in evrun.bcs(s)]      # walls: conducting (reflecting: K05)
    prob = dict(PHYS)
    if n % 4 == 1:
        prob.update(bclip=1, b01=0.0, b02=0.0, b03=0.0, bamp=0.4)
    if n % 4 == 3 and SR not in args:
        prob.update(vamp=0.8, noise=0.2)
    ds = [d for d in x["d"] if not d["corner"]] if "mpi" in args else []
    d0 = ds[n % len(ds)] if ds and n % 2 else None
    np = d0["np"] if d0 else (1 if "mpi" in args else 0)
    inp = evrun.infile(s, d0["ng"] if d0 else None, prob, bc=bc)
    d = vf.sub("r%d" % n)
    r = evrun.run(exe[name], d, inp, np=np, env=dict(VF_SUM=2), timeout=150)
    rec = evledger.record(n, s, args, ns, r.rc if not r.timeout else 999, evrun.logs(d, max(np, 1)), bc=bc, div=True, tol=TOL, keepB=True)
    # only the field is judged here
    keep = [i for i, q in enumerate(rec["quant"]) if q[0] == "B"]
    rec["quant"] = [rec["quant"][i] for i in keep]
    for row in rec["rows"]:
        row["dev"] = [row["dev"][i] for i in keep]
    rec["_s"], rec["_inp"], rec["_np"], rec["_out"], rec["_name"] = s, inp, np, (r.out[-300:] if r.rc else ""), args
    return rec


# strong flows in which zones need the first-order flux correction: everywhere (non-relativistic; only the divergence is judged: K06) or around the centre
FOFC = dict(m4=[c for c in CFG if c[0] == "m4"][0], f3=("f3", M + AD + VL + "--with-flux=roe --with-order=3p --enable-fofc", 0),
            f5=("f5", M + AD + VL + SR + "--with-flux=hlld --with-order=2p --enable-fofc", 0))
exe.update(vf.build_many({n: (a, "evolve") for n, (_, a, _) in FOFC.items() if n != "m4"}))
SPOT = [[(3.0, 3.0, 2.0), (10.0, 5.0, 2.0), (1.0, 4.0, 2.0), (60.0, 1.5, 2.0)], [(0.15, 5.0, 1.0), (0.2, 4.0, 1.0), (0.15, 2.0, 1.5), (0.25, 3.0, 1.0)]]


def strong(a):
    n, name, nd, seed, spot = a
    _, args, ns = FOFC[name]
    N = 12 if spot else 8
    s = dict(nd=nd, bc=[True] * 3, bcv=[1] * 6, M=[dict(level=0, nx=[N, N, N if nd == 3 else 1], disp=[0, 0, 0])], u=[1, 1, 1], x0=[0, 0, 0], seed=seed, cycles=4,
             jump=1 if spot else 10, cfg=4)
    if spot:
        v, g, z = SPOT[SR in args][n % 4]
        prob = dict(vamp=v, dlog=g, noise=z, spot=0.3)
        if n % 3 == 0:
            prob.update(bamp=0.02, b01=0.03, b02=0.02, b03=0.02)
    else:
        prob = dict(vamp=60.0, damp=0.95, pamp=0.8, noise=0.5)
    inp = evrun.infile(s, None, prob, time=dict(cour_no=0.5) if spot else None)
    d = vf.sub("s%d" % n)
    r = evrun.run(exe[name], d, inp, env=dict(VF_SUM=1))
    L = evrun.logs(d, 1)
    rec = evledger.record(100000 + n, s, args, ns, r.rc if not r.timeout else 999, L, div=True, tol=TOL)
    rec["quant"] = []
    for row in rec["rows"]:
        row["dev"] = []
    rec["_s"], rec["_inp"], rec["_np"], rec["_out"], rec["_name"] = s, inp, 0, (r.out[-300:] if r.rc else ""), args
    rec["_fo"] = "tep14" in r.out or "tep15a" in r.out
    rec["_lost"] = any(x is None for x in L[0])     # not-a-number in the state: such a flow is beyond the scheme, and nothing can be totalled
    return rec


led = vf.pmap(one, list(enumerate(scn)), 7)
led = [one((r["id"], scn[r["id"]])) if r["status"] else r for r in led]
todo = [("m4", nd, sd, 0) for nd, sd in [(2, 61), (2, 125), (2, 169), (2, 178), (2, 191), (2, 197), (3, 42), (3, 46), (3, 76)]]
todo += [(c, nd, vf.SEED * 1000 + 10 * i + nd, 1) for c in FOFC for nd in (2, 3) for i in range(24 if thorough else 6)]
fo = vf.pmap(strong, [(n,) + t for n, t in enumerate(todo)], 7)
ck.cov["strong flows that fail"] = sum(1 for r in fo if r["_lost"] or r["status"] and "Fatal error" in r["_out"])
fo = [r for r in fo if not (r["_lost"] or r["status"] and "Fatal error" in r["_out"])]
for c in FOFC:
    ck.cov["first_order_corrections " + c] = sum(1 for r in fo if r["_name"] == FOFC[c][1] and r["_fo"])
led += fo
ck.cov.update(runs=len(led), cycles=sum(len(r["rows"]) for r in led), refined=sum(1 for r in led if r["refined"]), parallel=sum(1 for r in led if r["_np"] > 1),
              configurations=len(set(r["_name"] for r in led)))


def dl(r):
    return "%s %s np=%d: %s %s" % (r["_name"], evrun.brief(r["_s"]), r["_np"], "exit status %s %s" % (r["status"], r["_out"]) if r["status"] else "", evledger.worst(r))


if os.environ.get("VF_SHOW"):
    for r in led:
        print(r["id"], dl(r))
ck.sample(dl(led[0]))
ck.validate("Trace_Ledger", led, "the magnetic field does not stay divergence-free", jobs=3, describe=dl)


def c1(r):
    r["rows"][-1]["zero"][0]["x"] = 2 * r["tol"]
    return r


def c2(r):
    if r["nd"] == 1:
        r["rows"][-1]["dev"][0] += 2 * r["tol"]
        return r


ck.selftest("Trace_Ledger", led[:5], c1)
ck.selftest("Trace_Ledger", [r for r in led if r["nd"] == 1][:3], c2)
# the listed finding, on its specific input
K05 = dict(nd=2, bc=[False, True, True], bcv=[1] * 6, M=[dict(level=0, nx=[16, 16, 1], disp=[0, 0, 0])], u=[1, 1, 1], x0=[0, 0, 0], cfg=1, seed=5, cycles=5, jump=1)
d = vf.sub("k05")
r = evrun.run(exe["kw"], d, evrun.infile(K05), env=dict(VF_SUM=2))
k = evledger.record(0, K05, KW, 0, r.rc, evrun.logs(d, 1), div=True, tol=TOL)
if r.rc or any(abs(z["x"]) > TOL for row in k["rows"] for z in row["zero"]):
    ck.violation("MHD with a reflecting wall: " + evledger.worst(k), dict(record=k), finding="K05")
ck.assumptions = ["divergence in units of field/zone size to %g after up to %d cycles" % (TOL * 1e-13, max(r["cycles"] for r in led)),
                  "at most 9000 zones, up to 6 processes and 3 levels; shearing box: C16"]
ck.finish()
