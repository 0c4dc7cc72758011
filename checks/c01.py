#!/usr/bin/env python3
"""C01: how a run stops.  SignalStop.tla generates scenarios; deliveries are injected into the real code at MPI-call and
machine-instruction granularity; TLC validates the recorded outcome."""
import json, os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, mesh

ck = vf.Check("C01")
thorough = vf.TIER == "thorough"
C = "--with-gas=hydro --with-eos=isothermal --with-flux=hlle --with-order=1"
exe = vf.build_many({"ser": (C, "stop"), "mpi": (C + " --enable-mpi", "stop")})
ck.model("MC_SignalStop", vf.tlc("MC_SignalStop", "MC_SignalStop3.cfg" if thorough else "MC_SignalStop.cfg"))
ck.model_fails("blind reset of the latch", vf.tlc("MC_SignalStop", "MC_SignalStopBlind.cfg"))
N = 900 if thorough else 150
g = vf.tlc("Gen_SignalStop", "Gen_SignalStop.cfg", workers=1, extra=["-simulate", "num=%d" % N, "-depth", "250", "-seed", str(vf.SEED)])
if len(g.scn) < N * 0.8:
    print(g.out[-2000:])
    vf.die("scenario generation")


def execute(name, key, np, nlim, tcyc, sigs, wall=True):
    d = vf.sub(name)
    inp = mesh.athinput("stop", mesh.nested(1, 1), 1, np=max(np, 1), time=dict(cour_no=0.5, nlim=nlim, tlim=tcyc * 0.5),
                        problem=dict(iso_csound=1.0), outputs=[dict(name="probe", dt=0.0)])
    for f in os.listdir(d):
        if f.startswith("log."):
            os.remove(d + "/" + f)
    r = vf.run(exe[key], ["-i", d + "/in"] + (["-t", "50:00:00"] if np else []), cwd=d, np=np, timeout=60,
               env=dict(VF_LOG=d + "/log", VF_SIG=";".join("%d:%d:%s:%d" % s for s in sigs)), files={"in": inp})
    n = max(np, 1)
    rec = dict(id=name, np=n, nlim=nlim, tcyc=tcyc, sig=[], done=[-1] * n, fin=[0] * n, ok=r.rc == 0 and not r.timeout,
               _key=key, _sigs=sigs, _in=inp, _out=r.out[-400:], _calls=[], _steps=0)
    for p in range(n):
        f = d + "/log.%d" % p
        ended = False
        for l in (open(f) if os.path.exists(f) else []):
            e = json.loads(l)
            if e["ev"] == "sig":
                rec["sig"].append(dict(r=p + 1, c=e["cyc"], ph={"w": "work", "o": "work", "t": "wall", "f": "end", "F": "end"}.get(e["k"], "dec")))
            elif e["ev"] == "end":
                rec["done"][p], ended = e["cyc"], True
            elif e["ev"] == "final":
                rec["fin"][p] += 1 if e["cyc"] == rec["done"][p] else 100
            elif e["ev"] == "top":
                rec["_calls"].append(e["n"])
            elif e["ev"] == "miss":
                rec["_steps"] = e["n"]
    return rec


prof = execute("prof", "mpi", 2, 3, 9, [])
ncalls = max(prof["_calls"] + [4])
rnd = random.Random(vf.SEED)
jobs = []
for i, sc in enumerate(g.scn):
    sigs = []
    for h in sc["sig"]:
        at = h["at"]
        if at == "wall":
            k, n = "t", 0
        elif at == "work":
            k, n = rnd.choice("wo"), 0
        elif at in ("sample", "reduce", "reset", "ready"):
            k = {"sample": "e", "reduce": rnd.choice("ex"), "reset": "x", "ready": "x"}[at]
            n = max(0, ncalls - 1 - rnd.choice([0, 0, 0, 0, 1, 1, 2, 3, rnd.randrange(ncalls + 1)]))
        elif at in ("final", "gone"):
            k, n = rnd.choice("fF"), 0
        if k in "fF":
            sigs.append((h["r"] - 1, 0, k, 0))
        else:
            sigs.append((h["r"] - 1, h["c"], k, n))
    sigs = list(dict.fromkeys(sigs))
    if sc["np"] == 1 and i % 2 == 0:      # also the serial program
        s1 = [s for s in sigs if s[2] in "wofF"]
        jobs.append(("s%d" % i, "ser", 0, sc["nlim"], sc["tcyc"], s1))
    jobs.append(("m%d" % i, "mpi", sc["np"], sc["nlim"], sc["tcyc"], sigs))
for n, (nl, tc) in enumerate([(0, 4), (3, 0), (-1, 1), (1, 1), (-1, 0)]):   # degenerate limits
    jobs.append(("d%d" % n, "mpi", 2, nl, tc, []))
    jobs.append(("e%d" % n, "ser", 0, nl, tc, []))
recs = vf.pmap(lambda j: execute(*j), jobs, 6)

# every machine instruction of the decision part of a cycle, serial
p = execute("profs", "ser", 0, 6, 4, [(0, 2, "i", 99999999)])
steps = p["_steps"]
if steps == 0:
    ck.assumptions.append("single-stepping unavailable: instruction-level deliveries not explored")
stride = 1 if thorough else max(1, steps // 800)
pts = sorted(set(range(vf.SEED % stride, steps, stride)))


def ser(n):
    return execute("i%d" % n, "ser", 0, 6, 4, [(0, 2, "i", n)])


irecs = vf.pmap(ser, pts, 8)
if not thorough and steps:
    # bisect down to single instructions around each change of outcome, where the latch is sampled and cleared
    todo = set()
    last = [(n, r) for n, r in zip(pts, irecs)]
    for (a, ra), (b, rb) in zip(last, last[1:]):
        if ra["done"] != rb["done"]:
            todo |= set(range(max(0, a - 150), min(steps, b + 150)))
    todo -= set(pts)
    ck.cov["dense_instruction_points"] = len(todo)
    irecs += vf.pmap(ser, sorted(todo)[:1200], 8)
recs += irecs
# repeat what looks wrong before believing it (a start-up failure of mpirun is not a finding)
out = []
for r in recs:
    if not r["ok"] or len(set(r["done"])) != 1:
        r = execute(r["id"] + "r", r["_key"], r["np"] if r["_key"] == "mpi" else 0, r["nlim"], r["tcyc"], r["_sigs"])
    out.append(r)
recs = out
ck.cov["instruction_points"] = len(irecs)
ck.cov["mpi_runs"] = sum(1 for r in recs if r["_key"] == "mpi")
ck.cov["deliveries"] = sum(len(r["sig"]) for r in recs)
ck.cov["instructions_after_hook"] = steps
ck.sample({k: v for k, v in recs[0].items() if k[0] != "_"})
ck.validate("Trace_SignalStop", recs, "no behaviour of SignalStop explains the run", jobs=6)


def corrupt(r):
    if r["np"] < 2:
        return None
    r["done"][1] += 1
    return r


ck.selftest("Trace_SignalStop", recs[:12], corrupt)
ck.assumptions += ["a request during the stop decision of cycle c may take effect after c or c+1"]
ck.finish()
