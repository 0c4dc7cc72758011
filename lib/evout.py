"""python3-vt: reads the files and the probe dumps of one run, writes a Trace_OutFiles record. argv[1]: json dict(id, status, nd, ns, ad, mhd, sg, dir,
dump, base, last, dx, x0, blocks, mpi)."""
import glob, json, os, re, struct, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np
import files

j = json.load(open(sys.argv[1]))
GAM, CS = 1.4, 0.8
BIG = 2000000000


def grids():
    """{(cycle): [(rank, lev, dom, off, nx, cell)]}, (t, dt)"""
    res, tt = {}, {}
    for f in sorted(glob.glob(j["dump"] + ".*")):
        b = open(f, "rb").read()
        rank = int(f.rsplit(".", 1)[1])
        o = 0
        while o < len(b):
            hd = struct.unpack_from("12i", b, o)
            o += 48
            tt[hd[1]] = struct.unpack_from("2d", b, o)
            o += 16
            _, cyc, nl, nd, d0, d1, d2, n0, n1, n2, nv, mhd = hd
            c = np.frombuffer(b, "d", n0 * n1 * n2 * nv, o).reshape(-1, nv)
            o += c.nbytes
            if mhd:
                o += 8 * ((n0 + 1) * n1 * n2 + n0 * (n1 + (n1 > 1)) * n2 + n0 * n1 * (n2 + (n2 > 1)))
            res.setdefault(cyc, {})[(rank, nl, nd)] = ([d0, d1, d2], [n0, n1, n2], c)
    return res, tt


def variables(c):
    v, n = {}, 4
    d, m = c[:, 0], [c[:, 1], c[:, 2], c[:, 3]]
    v["d"] = d
    for i in range(3):
        v["M%d" % (i + 1)], v["V%d" % (i + 1)], v["KE%d" % (i + 1)] = m[i], m[i] / d, 0.5 * m[i] ** 2 / d
    ke = 0.5 * sum(x ** 2 for x in m) / d
    if j["ad"]:
        e = v["E"] = c[:, n]
        n += 1
    me = 0
    if j["mhd"]:
        for i in range(3):
            v["B%d" % (i + 1)], v["ME%d" % (i + 1)] = c[:, n + i], 0.5 * c[:, n + i] ** 2
        me = v["ME"] = 0.5 * sum(c[:, n + i] ** 2 for i in range(3))
        n += 3
    for i in range(j["ns"]):
        v["s%d" % i], v["r%d" % i] = c[:, n], c[:, n] / d
        n += 1
    if j["sg"]:
        v["Phi"], v["PE"] = c[:, n], c[:, n] * d
        n += 1
    v["P"] = (GAM - 1) * (e - ke - me) if j["ad"] else CS * CS * d
    if j["ad"]:
        v["cs2"], v["S"] = GAM * v["P"] / d, v["P"] / d ** GAM
    assert n == c.shape[1]
    return v


def q(x, un):
    x = np.asarray(x, float)
    y = np.where(np.isfinite(x), np.clip(np.round(x / un), -BIG, BIG), BIG)
    return [int(a) for a in y.ravel()]


def exact(x):
    return int(round(x)) if abs(x - round(x)) < 2e-3 and abs(x) < 1e9 else -BIG


rec = dict(id=j["id"], status=j["status"], nd=j["nd"], ns=j["ns"], ad=j["ad"], mhd=j["mhd"], sg=j["sg"], grids=[], blocks=[], snaps=[], files=[], hist=[], other=0)
if rec["status"] == 0:
    D, tt = grids()
    cyc = [0, j["last"]]
    if sorted(D) != cyc or set(D[0]) != set(D[cyc[1]]):
        rec["status"] = 98
if rec["status"] == 0:
    keys = sorted(D[0])
    for i, kk in enumerate(keys):
        off, nx, _ = D[0][kk]
        rec["grids"].append(dict(ix=i + 1, rank=kk[0] if j["mpi"] else 0, lev=kk[1], dom=kk[2], nx=nx, off=off))
    tun = max(tt[cyc[1]][0], 1e-30) / 1e4
    dun = max(tt[c][1] for c in cyc) / 1e4
    V = {c: [variables(D[c][kk][2]) for kk in keys] for c in cyc}
    un = {w: max(max(float(np.max(np.abs(v[w]))) for v in V[c]) for c in cyc) / 2e5 for w in V[0][0]}
    un = {w: (x if np.isfinite(x) and x > 1e-15 else 1.0) for w, x in un.items()}
    use = set()
    for b in j["blocks"]:
        if b["out"] == "cons":
            use |= {"d", "M1", "M2", "M3", "E", "B1", "B2", "B3", "Phi"} | set("s%d" % i for i in range(j["ns"]))
        elif b["out"] == "prim":
            use |= {"d", "V1", "V2", "V3", "P", "B1", "B2", "B3", "Phi"} | set("r%d" % i for i in range(j["ns"]))
        else:
            use.add(b["out"])
    hv = ["d"] + (["E"] if j["ad"] else []) + ["M1", "M2", "M3", "KE1", "KE2", "KE3"] + (["ME1", "ME2", "ME3"] if j["mhd"] else []) + (["PE"] if j["sg"] else []) + ["s%d" % i for i in range(j["ns"])]
    use |= set(hv)
    for c in cyc:
        rec["snaps"].append(dict(t=int(round(tt[c][0] / tun)), dt=int(round(tt[c][1] / dun)), v=[{w: q(v[w], un[w]) for w in v if w in use} for v in V[c]]))
    for b in j["blocks"]:
        b = dict(b)
        if b["out"] in un:
            for e in ("lo", "hi"):
                b[e] = q([b[e]], un[b["out"]])[0]
        rec["blocks"].append(b)
    byid = {b["id"]: b for b in rec["blocks"] if b["id"]}
    dumpvar = {b["fmt"]: b["out"] for b in rec["blocks"] if b["out"] in ("cons", "prim")}
    u16 = [d / 16 for d in j["dx"]]
    nd = j["nd"]
    pos = lambda m, x: exact((x - j["x0"][m]) / u16[m])
    VN = {"density": "d", "momentum1": "M1", "momentum2": "M2", "momentum3": "M3", "velocity1": "V1", "velocity2": "V2", "velocity3": "V3", "total_energy": "E",
          "pressure": "P", "cell_centered_B1": "B1", "cell_centered_B2": "B2", "cell_centered_B3": "B3", "gravitational_potential": "Phi"}
    for i in range(j["ns"]):
        VN["scalar[%d]" % i], VN["specific_scalar[%d]" % i] = "s%d" % i, "r%d" % i
    TN = {"B1c": "B1", "B2c": "B2", "B3c": "B3"}

    def put(f, **k):
        rec["files"].append(dict(dict(dims=[], origin=[], spacing=[], lev=0, dom=0, time=0, dt=0, coord=0, nvar=0, ns=0, sg=0, par=0, gm1=0, cs=0, x=[[], [], []], ijk=[],
                                      xyz=[], dmin=0, dmax=0, cols=[]), name=f, **k))

    def scaled(w, x):
        return q(x, un.get(w, 1.0))

    for root, _, fs in os.walk(j["dir"]):
        for fn in sorted(fs):
            if fn == "in" or fn == "job" or fn.startswith(("log", "dump", "stdout", "stderr")):
                continue
            path = os.path.join(root, fn)
            rel = [x for x in os.path.relpath(root, j["dir"]).split("/") if x != "."]
            n = files.split_name(fn, j["base"])
            dr = dl = 0
            bad = n is None
            if j["mpi"]:
                if rel and re.match(r"id\d+$", rel[0]):
                    dr = int(rel[0][2:])
                    rel = rel[1:]
                else:
                    bad = True
            if rel and re.match(r"lev\d+$", rel[0]):
                dl = int(rel[0][3:])
                rel = rel[1:]
            if bad or rel or (n["lev"] != dl):
                rec["other"] += 1
                print("unexpected", path, file=sys.stderr)
                continue
            br = int(n["idn"] or 0)
            if n["ext"] == "hst":
                rows = []
                for r in files.hst(path):
                    rows.append(dict(t=q(r[:1], tun)[0], dt=q(r[1:2], dun)[0], v=[scaled(w, [x])[0] for w, x in zip(hv + ["d"] * 9, r[2:])]))
                rec["hist"].append(dict(lev=n["lev"], dom=n["dom"], home=dr == 0, rows=rows))
                continue
            if br != dr or n["num"] is None:
                rec["other"] += 1
                continue
            nm = dict(rank=br, lev=n["lev"], dom=n["dom"], num=n["num"], id=n["id"] or "", ext=n["ext"])
            blk = byid.get(nm["id"])
            try:
                if n["ext"] == "vtk":
                    r = files.vtk(path)
                    if blk:
                        cols = [dict(n=a, x=scaled(blk["out"], x)) for a, x in r["vars"].items()]
                    else:
                        cols = [dict(n=VN.get(a, a), x=scaled(VN.get(a), x)) for a, x in r["vars"].items()]
                    ok = r["n"] and r["loc"] == "CELL_DATA" and r["dataset"] == "STRUCTURED_POINTS" and r["mode"].strip() == "BINARY"
                    sp = [exact(r["spacing"][m] / u16[m]) for m in range(3)]
                    put(nm, dims=r["dims"] if ok else [], origin=[pos(m, r["origin"][m]) for m in range(3)], spacing=sp, lev=r["level"], dom=r["dom"], time=q([r["time"]], tun)[0], cols=cols)
                elif n["ext"] == "bin":
                    r = files.binary(path)
                    vs = (["d", "M1", "M2", "M3"] + (["E"] if j["ad"] else [])) if dumpvar.get("bin") == "cons" else (["d", "V1", "V2", "V3"] + (["P"] if j["ad"] else []))
                    vs += (["B1", "B2", "B3"] if j["mhd"] else []) + [("s%d" if dumpvar.get("bin") == "cons" else "r%d") % i for i in range(j["ns"])] + (["Phi"] if j["sg"] else [])
                    cols = [dict(n="", x=scaled(w, x)) for w, x in zip(vs + ["d"] * 9, r["data"])]
                    if r["excess"]:
                        cols.append(dict(n="excess", x=[]))
                    put(nm, coord=r["coord"], dims=r["nx"], nvar=r["nvar"], ns=r["nscal"], sg=r["selfg"], par=r["par"], gm1=int(round(r["gm1"] * 1000)), cs=int(round(r["cs"] * 1000)),
                        time=q([r["time"]], tun)[0], dt=q([r["dt"]], dun)[0], x=[[exact(2 * (v - j["x0"][m]) / u16[m]) if m < nd else 0 for v in r["x"][m]] for m in range(3)], cols=cols)
                elif n["ext"] == "tab" and not blk:
                    txt = open(path).read().split("\n")
                    hd = [l for l in txt if l.startswith("#")]
                    dims, size = [1, 1, 1], [0, 0, 0]
                    for l in hd:
                        m = re.match(r"# x(\d)-size = (\S+)", l)
                        if m:
                            size[int(m.group(1)) - 1] = exact(float(m.group(2)) / u16[int(m.group(1)) - 1])
                        m = re.match(r"# Nx(\d) = (\d+)", l)
                        if m:
                            dims[int(m.group(1)) - 1] = int(m.group(2))
                        m = re.search(r"Time *= *(\S+), level= (\d+), domain= (\d+)", l)
                        if m:
                            t, lv, dm = float(m.group(1)), int(m.group(2)), int(m.group(3))
                    lab = [x.split("=")[1] for x in re.findall(r"\[\d+\]=\S+", " ".join(hd))]
                    lab = [x for x in lab if x not in ("i-zone", "j-zone", "k-zone", "x1", "x2", "x3")]
                    lab = [TN.get(x, x) for x in lab]
                    if dumpvar.get("tab") == "prim":        # concentrations carry the names of the scalars
                        lab = ["r" + x[1:] if re.match(r"s\d", x) else x for x in lab]
                    a = np.array([[float(x) for x in l.split()] for l in txt if l.strip() and l[0] != "#"])
                    ijk = [[int(round(x)) for x in r[:nd]] for r in a]
                    lo = [min(x[m] for x in ijk) for m in range(nd)]
                    ijk = [[x[m] - lo[m] for m in range(nd)] for x in ijk]
                    xyz = [[exact(2 * (r[nd + m] - j["x0"][m]) / u16[m]) for m in range(nd)] for r in a]
                    cols = [dict(n=l, x=scaled(l, a[:, 2 * nd + i])) for i, l in enumerate(lab)]
                    if a.shape[1] != 2 * nd + len(lab):
                        cols.append(dict(n="excess", x=[]))
                    put(nm, dims=dims, spacing=size, lev=lv, dom=dm, time=q([t], tun)[0], ijk=ijk, xyz=xyz, cols=cols)
                elif n["ext"] == "tab":
                    a = np.array(files.tab(path))
                    ijk = [[exact(x) for x in r[:-1]] for r in a]
                    put(nm, ijk=ijk, cols=[dict(n="", x=scaled(blk["out"], a[:, -1]))])
                elif n["ext"] in ("pgm", "ppm"):
                    b = open(path, "rb").read()
                    p, mm = 0, dict(dmin=0, dmax=0)
                    w = []
                    while len(w) < 4:
                        e = b.index(b"\n", p)
                        l = b[p:e].decode()
                        p = e + 1
                        if l.startswith("#"):
                            m = re.search(r"dmin= (\S+), dmax= (\S+),", l)
                            mm = dict(dmin=scaled(blk["out"], [float(m.group(1))])[0], dmax=scaled(blk["out"], [float(m.group(2))])[0])
                        else:
                            w += l.split()
                    ok = w[0] == ("P5" if n["ext"] == "pgm" else "P6") and w[3] == "255"
                    d = list(b[p:])
                    if n["ext"] == "ppm":
                        d = [d[i] + d[i + 1] + d[i + 2] for i in range(0, len(d) - 2, 3)] + [0] * (len(d) % 3)
                    put(nm, dims=[int(w[1]), int(w[2])] if ok else [0, 0], cols=[dict(n="", x=d)], **mm)
                else:
                    rec["other"] += 1
            except Exception as e:
                print("unreadable", path, repr(e), file=sys.stderr)
                rec["other"] += 1
print(json.dumps(rec))
