#!/usr/bin/env python3
"""C10: refinement boundaries. Recorded states of refined runs are checked by TLC against Transfer.tla (restriction and
prolongation) and Ledger.tla (totals over the composite mesh)."""
import sys, os, json, subprocess
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, evrun, evledger

ck = vf.Check("C10")
thorough = vf.TIER == "thorough"
A = "--enable-mpi --enable-smr "
CFG = [
    ("h", A + "--with-gas=hydro --with-eos=adiabatic --with-flux=hllc --with-nscalars=2", 2),
    ("m", A + "--with-gas=mhd --with-eos=adiabatic --with-flux=hlld --with-nscalars=1 --with-order=3", 1),
    ("i", A + "--with-gas=mhd --with-eos=isothermal --with-flux=hlle --with-integrator=vl --with-order=2p --with-nscalars=1", 1),
    ("j", A + "--with-gas=hydro --with-eos=isothermal --with-flux=roe --with-nscalars=1 --with-integrator=vl --with-order=3p", 1),
    ("o", A + "--with-gas=mhd --with-eos=adiabatic --with-flux=roe --with-order=1", 0),
]
if thorough:
    CFG += [("k", A + "--with-gas=hydro --with-eos=isothermal --with-flux=hlle --with-order=3", 0),
            ("n", A + "--with-gas=mhd --with-eos=isothermal --with-flux=roe --with-nscalars=2 --enable-h-correction", 2),
            ("f", A + "--with-gas=hydro --with-eos=adiabatic --with-flux=roe --with-integrator=vl --with-order=2p --enable-fofc", 0)]
V = A + "--with-gas=hydro --with-eos=adiabatic --with-flux=roe --enable-viscosity --enable-conduction"
B = {n: (a, "evolve") for n, a, _ in CFG}
B["v"] = (V, "evolve")
exe = vf.build_many(B)
ck.model("Transfer", vf.tlc("MC_Transfer", "MC_Transfer.cfg"))
for c in ("", "Wall", "Open", "3"):
    ck.model("Ledger " + c, vf.tlc("MC_Ledger", "MC_Ledger%s.cfg" % c))
for f in ("nocorrect", "norestrict"):
    ck.model_fails("Ledger with fault " + f, vf.tlc("MC_Ledger", "MC_LedgerBad_%s.cfg" % f))
scn = [x for x in evrun.generate(2500 if thorough else 260, len(CFG), len(CFG)) if len(x["s"]["M"]) > 1]
scn = scn[:500 if thorough else 56]


def touches(s):
    r = s["M"][0]["nx"]
    return [any(d["level"] > 0 and (d["disp"][m] == 0 or d["disp"][m] + d["nx"][m] == r[m] * 2 ** d["level"]) for d in s["M"]) for m in range(3)]


def one(a):
    n, x = a
    s = json.loads(json.dumps(x["s"]))
    name, args, ns = CFG[s["cfg"] - 1]
    mhd = "mhd" in args
    t = touches(s)
    # closed boxes for the totals: periodic where no refined Domain touches the edge, else walls
    if n % 3:
        for m in range(s["nd"]):
            if not t[m]:
                s["bc"][m] = True
            elif not s["bc"][m]:
                s["bcv"][2 * m:2 * m + 2] = [1, 1]
    bc = evrun.bcs(s)
    if mhd:
        bc = [5 if b == 1 else b for b in bc]        # a wall for MHD: conducting (reflecting: C12, K05)
    ds = [d for d in x["d"] if not (mhd and d["corner"])]
    d0 = ds[n % len(ds)] if ds and n % 2 else None
    prob = dict(lin=1) if n % 7 == 3 and not s["nd"] == 1 else {}
    if mhd and n % 5 < 2:                            # field-free regions
        prob = dict(bclip=1, b01=0.0, b02=0.0, b03=0.0, bamp=0.4)
    inp = evrun.infile(s, d0["ng"] if d0 else None, prob, bc=bc)
    np = d0["np"] if d0 else 1
    d = vf.sub("r%d" % n)
    at = "0,%d" % s["cycles"] if n % 2 else "%d" % (n % s["cycles"] + 1)
    r = evrun.run(exe[name], d, inp, np=np, env=dict(VF_SUM=2, VF_DUMPAT=at, VF_DUMP=d + "/dump", VF_GHOST=1), timeout=120)
    rec = evledger.record(n, s, args, ns, r.rc if not r.timeout else 999, evrun.logs(d, np), bc=bc, div=False)
    if mhd:
        rec["bc"] = ["O" if b == "W" else b for b in rec["bc"]]
    rec["_s"], rec["_inp"], rec["_np"], rec["_out"], rec["_name"] = s, inp, np, (r.out[-300:] if r.rc else ""), args
    job = dict(id=str(n), dump=d + "/dump", nd=s["nd"], ad="adiabatic" in args, mhd=mhd, first="--with-order=1" in args, u=s["u"], M=s["M"],
               nsamp=(120 if thorough else 44) // (2 if mhd and s["nd"] == 3 else 1), seed=vf.SEED * 1000 + n)
    json.dump([job], open(d + "/job", "w"))
    p = subprocess.run(["python3-vt", os.path.join(vf.VERIF, "lib", "evtransfer.py"), d + "/job"], capture_output=True, text=True)
    if p.returncode:
        print(p.stderr[-1500:])
        vf.die("extraction")
    tr = [json.loads(l) for l in p.stdout.splitlines()]
    for q in tr:
        q["_n"] = n
    for f in os.listdir(d):
        if f.startswith("dump"):
            os.remove(os.path.join(d, f))
    return rec, tr


res = vf.pmap(one, list(enumerate(scn)), 6)
res = [one((r[0]["id"], scn[r[0]["id"]])) if r[0]["status"] else r for r in res]
led = [r[0] for r in res]
trs = [q for r in res for q in r[1]]
by = {r["id"]: r for r in led}
ck.cov.update(runs=len(led), parallel=sum(1 for r in led if r["_np"] > 1), closed=sum(1 for r in led if "O" not in r["bc"]),
              cycles=sum(len(r["rows"]) for r in led), transfer_records=len(trs), blocks=sum(len(t["blocks"]) for t in trs))


def dl(r):
    return "%s %s np=%d: %s %s" % (r["_name"], evrun.brief(r["_s"]), r["_np"], "exit status %s %s" % (r["status"], r["_out"]) if r["status"] else "", evledger.worst(r))


def dt(r):
    q = by[r["_n"]]
    return "%s: %s %s np=%d" % (r["id"], q["_name"], evrun.brief(q["_s"]), q["_np"])


ck.sample(dl(led[0]))
ck.validate("Trace_Ledger", led, "totals over the composite mesh change", jobs=2, describe=dl)
ck.validate("Trace_Transfer", trs, "parent and child do not agree", jobs=8, describe=dt)


def c1(r):
    z = r["blocks"][0]["z"]
    z[0][1] += 60
    return r


def c2(r):
    r["rows"][-1]["dev"][0] += 2 * r["tol"]
    return r


def c3(r):
    for b in r["blocks"]:
        if b["kind"] == "P" and b["f"]:
            b["f"][0 if r["nd"] == 1 else 1][0] += 80
            return r
    return None


ck.selftest("Trace_Transfer", trs[:5], c1)
ck.selftest("Trace_Transfer", [t for t in trs if t["mhd"]][:5], c3)
ck.selftest("Trace_Ledger", [r for r in led if "O" not in r["bc"]][:5], c2)
# the listed finding, on its specific input
K04 = dict(nd=1, bc=[True] * 3, bcv=[1] * 6, M=[dict(level=0, nx=[16, 1, 1], disp=[0, 0, 0]), dict(level=1, nx=[12, 1, 1], disp=[10, 0, 0])],
           u=[1, 1, 1], x0=[0, 0, 0], cfg=1, seed=5, cycles=5, jump=1)
d = vf.sub("k04")
r = evrun.run(exe["v"], d, evrun.infile(K04, None, dict(nu_iso=0.02, kappa_iso=0.02)), np=1, env=dict(VF_SUM=2))
k = evledger.record(0, K04, V, 0, r.rc, evrun.logs(d, 1), div=False)
if r.rc or any(abs(x) > k["tol"] for row in k["rows"] for x in row["dev"]):
    ck.violation("explicit diffusion on a refined mesh: " + evledger.worst(k), dict(record=k), finding="K04")
ck.assumptions = ["up to 6 processes and 3 levels, at most 9000 zones, 4 to 7 cycles; zones sampled",
                  "prolongation is compared to 1e-3, restriction to 1e-6, totals to 2e-10 (relative)",
                  "explicit diffusion is excluded (finding K04), MHD walls are conducting ones (finding K05 of C12)"]
ck.finish()
