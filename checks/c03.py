#!/usr/bin/env python3
"""C03: output schedule and numbering, over chains of runs and restarts."""
import json, os, re, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, mesh, files

ck = vf.Check("C03")
thorough = vf.TIER == "thorough"
C = "--with-gas=hydro --with-eos=isothermal --with-flux=hlle --with-order=1"
exe = vf.build_many({"ser": (C, "drive"), "mpi": (C + " --enable-mpi", "drive")})
ck.model("MC_OutputSchedule", vf.tlc("MC_OutputSchedule", "MC_OutputScheduleBig.cfg" if thorough else "MC_OutputSchedule.cfg"))
ck.model_fails("restart forgets simultaneous writes", vf.tlc("MC_OutputSchedule", "MC_OutputScheduleBad.cfg"))
N = 700 if thorough else 90
g = vf.tlc("Gen_OutputSchedule", "Gen_OutputSchedule.cfg", workers=1, extra=["-simulate", "num=%d" % N, "-depth", "3", "-seed", str(vf.SEED)])
if len(g.scn) < N:
    print(g.out[-2000:])
    vf.die("scenario generation")
TICK = 12
U = 2.0 ** TICK
EXT = dict(vtk="vtk", bin="bin", tab="tab", vtk1="vtk", pgm1="pgm", ppm1="ppm", pdf1="prb", tab1="tab", hst="hst", rst="rst")


def tick(t, loose=False):
    x = t * U
    return int(round(x)) if loose or x == round(x) else -999


def configure(sc):
    """-> list of dict(n, kind, dt, t, num) in the order of the blocks and the input text of the blocks"""
    outs, lines, n, used = [], [], 0, set()
    bl = list(sc["blocks"])
    if sc["rst"]:
        bl.insert(min(sc["rpos"], len(bl)) - 1, dict(kind="rst", dt=sc["rdt"], t0=-1, num0=0, gap=0))
    for b in bl:
        n += 1 + b["gap"]
        k = b["kind"]
        if k in ("vtk", "bin", "tab", "hst"):
            if k in used:
                k = "vtk1"
            used.add(k)
        outs.append(dict(n=n, kind=k, dt=b["dt"], t=max(b["t0"], 0), num=b["num0"]))
        lines.append("<output%d>" % n)
        if k == "probe":
            lines.append("name = named")
        else:
            lines.append("out_fmt = " + (k[:-1] if k.endswith("1") else k))
        if k.endswith("1"):
            lines += ["out = d", "id = v%d" % n]
            if k == "pgm1" or k == "ppm1":
                lines += ["dmin = 0.0", "dmax = 2.0"]
        lines.append("dt = %r" % (b["dt"] / U))
        if b["t0"] >= 0:
            lines.append("time = %r" % (b["t0"] / U))
        if b["num0"]:
            lines.append("num = %d" % b["num0"])
    maxout = n + 3
    if sc["cut"] and len(outs) > 2 + sc["cut"]:
        maxout = outs[-1 - sc["cut"]]["n"]
        outs = outs[:len(outs) - sc["cut"]]
    return outs, lines, maxout


def observe(d, outs, np):
    """per output: list of [num, tick] (sorted by number), from the files and the log; all ranks must agree"""
    res = {o["n"]: [] for o in outs}
    per = {}
    for p in range(max(np, 1)):
        dd = d + "/id%d" % p if np else d
        base = "drive" if not np or p == 0 else "drive-id%d" % p
        got = {o["n"]: {} for o in outs}
        for f in os.listdir(dd):
            nm = files.split_name(f, "drive")
            if not nm or (np and p > 0 and nm["idn"] != str(p)):
                continue
            for o in outs:
                k = o["kind"]
                if k in ("probe", "hst") or EXT[k] != nm["ext"] or nm["num"] is None:
                    continue
                if (nm["id"] or "") != ("v%d" % o["n"] if k.endswith("1") else ""):
                    continue
                path, t = os.path.join(dd, f), -1
                if k in ("vtk", "vtk1"):
                    t = tick(files.vtk(path)["time"], True)
                elif k == "bin":
                    t = tick(files.binary(path)["time"])
                elif k == "rst":
                    t = tick(files.rst_time(path)[1])
                elif k == "pdf1":
                    t = tick(float(re.search(r"# Time = (\S+)", open(path).read()).group(1)))
                got[o["n"]][nm["num"]] = t
        for o in outs:
            if o["kind"] == "hst" and p == 0:
                h = dd + "/drive.hst"
                rows = files.hst(h) if os.path.exists(h) else []
                got[o["n"]] = {i: tick(r[0], True) for i, r in enumerate(rows)}
        log = d + "/log.%d" % p
        times, order = [], {o["n"]: [] for o in outs}
        for l in (open(log) if os.path.exists(log) else []):
            e = json.loads(l)
            if e["ev"] == "named":
                order.setdefault(e["n"], []).append([e["num"], e["t"]])
            elif e["ev"] in ("top", "end"):
                times.append(e["t"])
        for o in outs:
            n = o["n"]
            if o["kind"] == "probe":
                v = order[n]
            else:
                v = [[-1 if o["kind"] == "hst" else k, got[n][k]] for k in sorted(got[n])]
            if o["kind"] == "hst" and p > 0 or o["kind"] == "pdf1" and p > 0:
                continue
            per.setdefault(n, []).append(v)
        per.setdefault("times", []).append(times)
    bad = [k for k, v in per.items() if any(x != v[0] for x in v)]
    return {k: v[0] for k, v in per.items()}, bad


def one(arg):
    i, sc = arg
    np = 0 if i % 4 else 2
    key = "mpi" if np else "ser"
    outs, lines, maxout = configure(sc)
    d0 = vf.sub("s%d" % i)
    rec = dict(id=i, np=np, o=[dict(t=o["t"], dt=o["dt"], num=o["num"],
                                    kind="rst" if o["kind"] == "rst" else o["kind"]) for o in outs], runs=[])
    rec["_in"], rec["_bad"] = [], []
    prev = None
    for rn, run in enumerate(sc["runs"]):
        d = d0 + "/r%d" % rn
        os.makedirs(d, exist_ok=True)
        scn = "".join("Z %d 0 0 1 1 0 1 %r 0 0 1 0 0 0 0 0 0\n" % (c, float(s - 1)) for c, s in enumerate(run["steps"] * 4) if s > 1)
        env = dict(VF_LOG=d + "/log", VF_SCN=d + "/scn", VF_TICK=TICK, VF_TOP=1)
        fl = {"scn": scn}
        ovr = []
        if rn == 0:
            inp = mesh.athinput("drive", [dict(level=0, nx=[8, 4, 1], disp=[0, 0, 0])], 2, np=max(np, 1), seed=i,
                                time=dict(cour_no=0.5, nlim=run["nlim"], tlim=run["tl"] / U), problem=dict(iso_csound=1.0),
                                job=dict(maxout=maxout), extra="\n".join(lines) + "\n")
            fl["in"] = inp
            args, frm = ["-i", d + "/in"], -1
            rec["_in"].append(inp)
        else:
            ro = next((o for o in outs if o["kind"] == "rst"), None)
            if ro is None or prev is None or not prev[ro["n"]]:
                break
            ks = [x[0] for x in prev[ro["n"]]]
            frm = ks[run["pick"] % len(ks)]
            pd = d0 + "/r%d" % (rn - 1)
            src = "%s/drive.%04d.rst" % (pd, frm)
            for p in range(np):     # a parallel restart reads the files of all processes from one directory
                nm = "drive%s.%04d.rst" % ("-id%d" % p if p else "", frm)
                shutil.copy("%s/id%d/%s" % (pd, p, nm), "%s/%s" % (pd, nm))
            n0 = files.rst_time(src)[0]
            args = ["-r", src, "time/nlim=%d" % (n0 + run["nlim"]), "time/tlim=%r" % (run["tl"] * (rn + 1) / U)]
            if run["ovr"] and run["ovr"] <= len(outs) and outs[run["ovr"] - 1]["kind"] != "rst":
                ovr = [run["ovr"], run["odt"]]
                args.append("output%d/dt=%r" % (outs[run["ovr"] - 1]["n"], run["odt"] / U))
            rec["_in"].append(" ".join(args))
        r = vf.run(exe[key], args, cwd=d, np=np, env=env, files=fl, timeout=60)
        if r.rc != 0:
            rec["_bad"].append("run %d exit status %s: %s" % (rn, r.rc, r.out[-300:]))
            break
        obs, bad = observe(d, outs, np)
        if bad:
            rec["_bad"].append("processes disagree in run %d on output %s" % (rn, bad))
        times = obs["times"]
        w = [obs[o["n"]] for o in outs]
        rec["runs"].append({"from": frm, "ovr": ovr, "times": times, "w": w})
        prev = obs
    return rec


recs = vf.pmap(one, list(enumerate(g.scn)), 6)
for r in recs:
    if r["_bad"]:
        r2 = one((r["id"], g.scn[r["id"]]))
        if r2["_bad"]:
            ck.violation("chain %d: %s" % (r["id"], r2["_bad"][0]), r2)
recs = [r for r in recs if not r["_bad"]]
ck.cov["runs"] = sum(len(r["runs"]) for r in recs)
ck.cov["writes"] = sum(len(v) for r in recs for q in r["runs"] for v in q["w"])
ck.sample({k: v for k, v in recs[0].items() if k[0] != "_"})
ck.validate("Trace_OutputSchedule", recs, "outputs differ from the specified schedule", jobs=4)


def corrupt(r):
    w = r["runs"][-1]["w"]
    for v in w:
        if len(v) > 1:
            v.pop()
            return r
    return None


ck.selftest("Trace_OutputSchedule", recs[:4], corrupt)
ck.finish()
