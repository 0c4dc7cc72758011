#!/usr/bin/env python3
"""C14: output files contain the right zones, variables and names. OutFiles.tla says which files there are and what they hold; the files of runs
with generated output blocks are validated by TLC."""
import sys, os, json, subprocess, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, evrun

ck = vf.Check("C14")
thorough = vf.TIER == "thorough"
M, S = "--enable-mpi ", "--enable-smr "
CFG = [("a", M + S + "--with-gas=hydro --with-eos=adiabatic --with-flux=hllc --with-nscalars=2"),
       ("b", M + S + "--with-gas=mhd --with-eos=isothermal --with-flux=hlld"),
       ("c", M + S + "--with-gas=mhd --with-eos=adiabatic --with-flux=hlld --with-nscalars=1"),
       ("s", S + "--with-gas=mhd --with-eos=adiabatic --with-flux=hlld --with-nscalars=1"),
       ("g", M + "--enable-fft --with-gravity=fft --with-gas=mhd --with-eos=adiabatic --with-flux=hlld --with-nscalars=1")]
if thorough:
    CFG[4:4] = [("h", S + "--with-gas=hydro --with-eos=isothermal --with-flux=hllc")]
NSMR = len(CFG) - 1
exe = vf.build_many({n: (a, "evolve") for n, a in CFG})
ck.model("OutFiles: divided Meshes and pairs of blocks", vf.tlc("MC_OutFiles", "MC_OutFiles%s.cfg" % ("Big" if thorough else "_none")))
for f in ("closed", "nolev", "noid"):
    ck.model_fails("OutFiles with fault " + f, vf.tlc("MC_OutFiles", "MC_OutFiles_%s.cfg" % f))
num = 900 if thorough else 260
g = vf.tlc("Gen_OutFiles", "Gen_OutFiles.cfg", workers=1, env=dict(VF_NSMR=NSMR, VF_NCFG=len(CFG)),
           extra=["-simulate", "num=%d" % num, "-depth", "20", "-seed", str(vf.SEED)])
if not g.ok or not g.scn:
    print(g.out[-2000:])
    vf.die("scenario generation")
scn, seen = [], set()
for x in g.scn:
    k = json.dumps(x, sort_keys=True)
    if k not in seen:
        seen.add(k)
        scn.append(x)


def shape(x):
    """kind of Mesh: 1D, a second Domain before a finer level (names), refined, 2D, 3D"""
    lv = [m["level"] for m in x["s"]["M"]]
    two = any(lv.count(l) > 1 and l < max(lv) for l in lv)
    return "two" if two else "1" if x["s"]["nd"] == 1 else "%d%s" % (x["s"]["nd"], "r" if len(lv) > 1 else "")


quota = {"1": 3, "two": 4, "2": 4, "2r": 5, "3": 7, "3r": 7}
if thorough:
    quota = {k: 6 * n for k, n in quota.items()}
left, keep = dict(quota), []
for x in scn:
    k = shape(x)
    if left[k] > 0 and (x["d"] or "mpi" not in CFG[x["s"]["cfg"] - 1][1] or left[k] == quota[k]):
        left[k] -= 1
        keep.append(x)
scn = keep


def names(args):
    ad, mhd = "isothermal" not in args, "mhd" in args
    return ["d", "M1", "M2", "M3", "V1", "V2", "V3", "P"] + (["E", "cs2", "S"] if ad else []) + (["B1c", "B2c", "B3c", "ME"] if mhd else [])


def one(a):
    i, x, dec = a
    s = x["s"]
    name, args = CFG[s["cfg"] - 1]
    if name == "g":
        s = dict(s, bc=[True] * 3)
    vs = names(args)
    blocks, outs = [], [dict(name="probe", dt=0.0), dict(out_fmt="hst", dt=1000.0)]
    off = dict(on=False, lo=0, hi=0)
    for b in x["dumps"]:
        o = dict(out_fmt=b["fmt"], dt=1000.0)
        if b["out"]:
            o["out"] = b["out"]
        for e, k in (("lev", "level"), ("dom", "domain")):
            if b[e] >= 0:
                o[k] = b[e]
        if b["dat"] and b["fmt"] == "tab":
            o["dat_fmt"] = "%17.9e"
        outs.append(o)
        blocks.append(dict(fmt=b["fmt"], out=b["out"] or "cons", id="", lev=b["lev"], dom=b["dom"], red=[off] * 3, fix=0, lo=0, hi=0))
    for b in x["blocks"]:
        v = vs[b["var"] % len(vs)]
        pos = v in ("d", "P", "E", "cs2", "S")
        lo, hi = (0.95, 1.1) if pos else (-0.05, 0.1)
        o = dict(out_fmt=b["fmt"], out=v, dt=1000.0)
        if b["id"]:
            o["id"] = b["id"]
        for e, k in (("lev", "level"), ("dom", "domain")):
            if b[e] >= 0:
                o[k] = b[e]
        if b["dat"] and b["fmt"] == "tab":
            o["dat_fmt"] = "%17.9e"
        if b["fmt"] == "ppm":
            o["palette"] = "heat"
        if b["fix"] in (1, 3):
            o["dmin"] = lo
        if b["fix"] in (2, 3):
            o["dmax"] = hi
        for m in range(3):
            r = b["red"][m]
            if r["on"]:
                p = lambda z: repr(s["x0"][m] + 0.25 * s["u"][m] * z / 16)
                o["x%d" % (m + 1)] = [p(r["lo"]), p(r["lo"]) + ":" + p(r["hi"]), p(r["lo"]) + ":", ":" + p(r["hi"]), ":"][r["form"]]
        outs.append(o)
        blocks.append(dict(fmt=b["fmt"], out={"B1c": "B1", "B2c": "B2", "B3c": "B3"}.get(v, v), id=b["id"] or "out%d" % len(outs), lev=b["lev"], dom=b["dom"],
                           red=[dict(on=r["on"], lo=r["lo"], hi=r["hi"]) for r in b["red"]], fix=b["fix"], lo=lo, hi=hi))
    d = vf.sub("r%d" % i)
    mpi = "mpi" in args
    env = dict(VF_DUMP=d + "/dump", VF_DUMPAT="0,%d" % s["cycles"])
    pr = dict(truemean=1, four_pi_G=1.0) if name == "g" else None
    inp = evrun.infile(s, dec["ng"] if dec else None, pr, outputs=outs)
    r = evrun.run(exe[name], d, inp, np=(dec["np"] if dec else 1) if mpi else 0, env=env)
    st = 999 if r.timeout else r.rc
    job = dict(id=i, status=st, nd=s["nd"], ns=2 if "scalars=2" in args else 1 if "scalars=1" in args else 0, ad="isothermal" not in args, mhd="mhd" in args, sg=name == "g", dir=d,
               dump=d + "/dump", base="ev", last=s["cycles"], dx=[0.25 * u for u in s["u"]], x0=s["x0"], blocks=blocks, mpi=mpi)
    json.dump(job, open(d + "/job", "w"))
    q = subprocess.run(["python3-vt", os.path.join(vf.VERIF, "lib", "evout.py"), d + "/job"], capture_output=True, text=True)
    if q.returncode:
        print(q.stderr[-1500:])
        rec = dict(id=i, status=96, grids=[], blocks=blocks, snaps=[], files=[], hist=[], other=0)
    else:
        rec = json.loads(q.stdout)
        if q.stderr and os.environ.get("VF_SHOW"):
            print(i, q.stderr[-500:])
    if not os.environ.get("VERIF_KEEP"):
        shutil.rmtree(d)
    rec["_s"], rec["_d"], rec["_o"], rec["_x"] = s, dec, [{k: v for k, v in o.items() if k != "dt"} for o in outs], r.out[-300:] if st else ""
    rec["_a"] = a
    return rec


def dl(r):
    return "%s %s status=%d other=%d outputs=%s %s" % (CFG[r["_s"]["cfg"] - 1][1], evrun.brief(r["_s"], r["_d"]), r["status"], r["other"], r["_o"][2:], r["_x"])


todo = []
for x in scn:
    mpi = "mpi" in CFG[x["s"]["cfg"] - 1][1]
    for dec in [None] if not mpi or not x["d"] else [None] + x["d"][:3] if thorough or shape(x) == "2" else x["d"][:1]:
        todo.append((len(todo), x, dec))
recs = vf.pmap(one, todo, 4)
recs = [one(r["_a"]) if r["status"] else r for r in recs]
for r in recs:
    r.pop("_a")
ck.cov.update(runs=len(recs), files=sum(len(r["files"]) for r in recs), histories=sum(len(r["hist"]) for r in recs), numbers=sum(len(c["x"]) for r in recs for f in r["files"] for c in f["cols"]),
              formats={f: sum(1 for r in recs for q in r["files"] if q["name"]["ext"] == f) for f in ("vtk", "bin", "tab", "pgm", "ppm")})
ck.sample(dl(recs[0]))
ck.validate("Trace_OutFiles", recs, "a file is missing, misplaced or does not hold the state", jobs=8, describe=dl)


def pick(ext, dump=None):
    return [r for r in recs if any(f["name"]["ext"] == ext for f in r["files"])][:1]


def damage(ext, h):
    def f(r):
        h(next(x for x in r["files"] if x["name"]["ext"] == ext and len(x["cols"]) > 0))
        return r
    return f


def bump(f):
    f["cols"][-1]["x"][0] += 9


def rename(f):
    f["name"]["lev"] += 1


def move(f):
    f["origin"][0] += 1


def hist(r):
    r["hist"][0]["rows"][1]["v"][0] += 9
    return r


ck.selftest("Trace_OutFiles", pick("vtk"), damage("vtk", bump))
ck.selftest("Trace_OutFiles", pick("bin"), damage("bin", bump))
ck.selftest("Trace_OutFiles", pick("tab"), damage("tab", rename))
ck.selftest("Trace_OutFiles", [r for r in pick("vtk") if r["nd"] == 1] or pick("vtk"), damage("vtk", move))
ck.selftest("Trace_OutFiles", recs[:1], hist)
ck.assumptions = ["formats vtk, bin, tab (all variables: conserved or primitive; single variables), pgm, ppm (palette heat), history; restart files are C02 and C03",
                  "values are compared to 1e-5 of the largest magnitude of the variable; images to one grey level, or by order of brightness",
                  "Cartesian coordinates, no particles, no ghost zones in the files, at most one dump of all variables per format; the spacing of VTK files along a reduced direction is not judged"]
ck.finish()
