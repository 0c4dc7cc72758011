"""Runs of harness/evolve.c on generated problems (checks C04, C09, C10, C11, C12 ...)."""
import json, os
import vf, mesh


def generate(num, nsmr, ncfg, seed=None):
    g = vf.tlc("Gen_RunHistory", "Gen_RunHistory.cfg", workers=1, env=dict(VF_NSMR=nsmr, VF_NCFG=ncfg),
               extra=["-simulate", "num=%d" % num, "-depth", "20", "-seed", str(seed or vf.SEED)])
    if not g.ok or not g.scn:
        print(g.out[-2000:])
        vf.die("scenario generation")
    out, seen = [], set()
    for x in g.scn:
        k = json.dumps(x, sort_keys=True)
        if k not in seen:
            seen.add(k)
            out.append(x)
    return out


def bcs(s):
    b = []
    for m in range(3):
        b += [4, 4] if s["bc"][m] else s["bcv"][2 * m:2 * m + 2]
    return b


def problem(s, extra=None):
    p = dict(gamma=1.4, iso_csound=0.8, seed=s["seed"], damp=0.2, vamp=0.3, pamp=0.2, bamp=0.1, noise=0.05, jump=float(s["jump"]),
             vmean1=0.1, vmean2=-0.15, vmean3=0.05, b01=0.3, b02=-0.2, b03=0.15)
    b = bcs(s)
    for m in range(3):      # a reflecting wall admits no normal field
        if 1 in b[2 * m:2 * m + 2]:
            p["wall%d" % (m + 1)] = 1
    p.update(extra or {})
    return p


def infile(s, ng=None, prob=None, outputs=None, time=None, pid="ev", extra="", bc=None):
    doms = [dict(level=d["level"], nx=d["nx"], disp=d["disp"], ngrid=(ng[i] if ng else [1, 1, 1])) for i, d in enumerate(s["M"])]
    t = dict(cour_no=0.3, nlim=s["cycles"], tlim=1000.0)
    t.update(time or {})
    return mesh.athinput(pid, doms, s["nd"], np=1, time=t, problem=problem(s, prob), bc=bc or bcs(s), dx=[0.25 * x for x in s["u"]],
                         x0=[float(x) for x in s["x0"]], outputs=outputs or [dict(name="probe", dt=0.0)], extra=extra)


def logs(d, np):
    res = []
    for p in range(np):
        f = "%s/log.%d" % (d, p)
        L = []
        for l in (open(f) if os.path.exists(f) else []):
            try:
                L.append(json.loads(l))
            except ValueError:
                L.append(None)
        res.append(L)
    return res


def run(exe, d, inp, np=0, env=None, args=None, timeout=120):
    """np=0: without mpirun."""
    e = dict(VF_LOG=d + "/log")
    e.update(env or {})
    for p in range(max(np, 1)):
        f = "%s/log.%d" % (d, p)
        if os.path.exists(f):
            os.remove(f)
    return vf.run(exe, args or ["-i", "in"], cwd=d, np=np, env=e, files={"in": inp} if inp else None, timeout=timeout)


def obs(L, files=None):
    """Combines the reports of all processes into one sequence over cycles (the last report of a cycle counts)."""
    per = []
    for x in L:
        m = {}
        for r in x:
            if r:
                m[r["cyc"]] = r
        per.append(m)
    act = [m for m in per if m]
    if not act:
        return []
    cyc = sorted(set(c for m in act for c in m))
    out = []
    for c in cyc:
        rs = [m[c] for m in act if c in m]
        full = len(rs) == len(act)
        out.append(dict(c=c, t=[r["t"] for r in rs], dt=[r["dt"] for r in rs],
                        h="%016x" % (sum(int(r["h"], 16) for r in rs) % 2 ** 64) if full else "missing",
                        files=(files or {}).get(c, [])))
    return out


def hst_rows(path):
    rows = []
    for l in (open(path) if os.path.exists(path) else []):
        if l.strip() and l[0] != "#":
            rows.append([float(x) for x in l.split()])
    return rows


def scale_rows(ref, rows):
    """Integers for comparison with a tolerance: each column in units of 1e-8 of its largest entry in ref (and 1e-8)."""
    n = len(ref[0]) if ref else 0
    sc = [max([abs(r[i]) for r in ref] + [1e-6]) for i in range(n)]
    return [[int(max(-2e9, min(2e9, round(v / sc[i] * 1e7)))) for i, v in enumerate(r[:n])] for r in rows]


def brief(s, d=None):
    return "cfg=%s nd=%d bc=%s jump=%s %s%s" % (s["cfg"], s["nd"], bcs(s), s["jump"],
                                               [(m["level"], m["nx"], m["disp"]) for m in s["M"]],
                                               " np=%d ng=%s" % (d["np"], d["ng"]) if d else "")
