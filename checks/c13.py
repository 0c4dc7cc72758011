#!/usr/bin/env python3
"""C13: particles. Particles.tla models the exchange of particles and says where a particle belongs and how it is binned; generated moves are executed by the
real code (Integrate_Particles, bvals_particle, particle_to_grid, particle lists), TLC validates every particle of every process after every move."""
import sys, os, json, random, shutil, struct
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, evrun, mesh, files

ck = vf.Check("C13")
thorough = vf.TIER == "thorough"
CFG = [("m", "--enable-mpi --with-gas=hydro --with-eos=isothermal --with-flux=hlle --with-particles=passive"),
       ("f", "--enable-mpi --with-gas=hydro --with-eos=isothermal --with-flux=roe --with-particles=feedback"),
       ("s", "--with-gas=mhd --with-eos=adiabatic --with-flux=hlle --with-particles=passive")]
exe = vf.build_many({n: (a, "parts") for n, a in CFG})
ms = [("one direction, every move of a particle", "one"), ("two directions, every move of a particle", "Big" if thorough else "none")]
if thorough:
    ms.append(("three directions", "three"))
fs = ["noclamp", "closed", "nodelete", "corner"]
rs = vf.pmap(lambda f: vf.tlc("MC_Particles", "MC_Particles_%s.cfg" % f, timeout=3000 if thorough else 400), [m[1] for m in ms] + fs, 6)
for (n, _), r in zip(ms, rs):
    ck.model("Particles: " + n, r)
for f, r in zip(fs, rs[len(ms):]):
    ck.model_fails("Particles with fault " + f, r)
g = vf.tlc("Gen_Particles", "Gen_Particles.cfg", workers=1, env=dict(VF_NCFG=len(CFG)),
           extra=["-simulate", "num=%d" % (1500 if thorough else 110), "-depth", "3", "-seed", str(vf.SEED)])
if not g.ok or not g.scn:
    print(g.out[-2000:])
    vf.die("scenario generation")


def bcflags(x):
    r = []
    for k in range(3):
        for c in x["bc"][k]:
            r.append({"p": 4, "r": x["refl"], "o": 2}[c.strip()])
    return r


def lists(d, n):
    """entries of the particle lists written by all processes at the start: [process, id, type, init, x, v]"""
    out = []
    for root, _, fs in os.walk(d):
        for f in fs:
            if not f.endswith(".0000.out2.lis"):
                continue
            b = open(os.path.join(root, f), "rb").read()
            p = files.split_name(f, "pa")
            rank = int((p or {}).get("idn") or 0)
            o = 48
            nt, = struct.unpack_from("=i", b, o)
            o += 4 + 4 * nt + 8
            cnt, = struct.unpack_from("=q", b, o)
            o += 8
            for _ in range(cnt):
                x = struct.unpack_from("=7f", b, o)
                ty, idn, ini = struct.unpack_from("=iqi", b, o + 28)
                o += 28 + 16
                out.append((rank, idn, ty, ini, x[:3], x[3:6]))
            if o != len(b):
                out.append((rank, -1, -1, -1, (0, 0, 0), (0, 0, 0)))
    return out


def ints(w):
    return [round(v) if abs(v - round(v)) < 0.01 and abs(v) < 2e9 else 2000000001 for v in w]


def one(t):
    i, x = t
    name, args = CFG[x["cfg"]]
    mpi = "mpi" in args
    ng = x["ng"] if mpi else [1, 1, 1]
    np_ = ng[0] * ng[1] * ng[2]
    rnd = random.Random(x["seed"])
    nd, n = x["nd"], x["n"]
    if x["big"]:      # more particles cross at once than the buffers hold at first
        n = 2000 if thorough else 1000
        nd, ng = 1, [min(ng[0], 2), 1, 1]
        np_ = ng[0]
        x = dict(x, nd=1, n=n, nx=[5 * ng[0] + 1, 1, 1], mv=[[[[0, s_ * rnd.randint(34, 39), 0]] + [[0, 0, 0]] * 2 for _ in range(n)] for s_ in rnd.choice([(1, -1), (-1, 1)])])
    ok = x["interp"] != 3
    L = []
    for q in range(n):
        p = [rnd.randrange(8 * x["nx"][m]) if m < nd else 0 for m in range(3)]
        if not ok:
            p = [v | 1 for v in p]
        L.append("%d %d %d %d %d" % (q, rnd.randrange(x["ty"]), p[0], p[1], p[2]))
    for r in x["mv"]:
        for mv in r:
            z = []
            for mode, val, e in mv:
                if not ok:
                    val, e = (val // 2 * 2, 0) if mode == 0 else (val | 1, 0)
                z += [mode, val, e]
            L.append(" ".join(map(str, z)))
    d = vf.sub("r%d" % i)
    dx = [[0.1, 0.3, 0.7][v - 1] for v in x["dx"]]
    inp = mesh.athinput("pa", [dict(level=0, nx=x["nx"], disp=[0, 0, 0], ngrid=ng)], nd, time=dict(cour_no=0.3, nlim=0, tlim=10.0),
                        problem=dict(gamma=1.4, iso_csound=1.0), bc=bcflags(x), dx=dx, x0=[0.9 * v for v in x["x0"]],
                        outputs=[dict(name="probe", dt=100.0), dict(out_fmt="lis", dt=100.0)],
                        extra="<particle>\npartypes = %d\nparnumcell = 1\ninterp = %d\nintegrator = %d\ntsmode = 3\ntshuf = %d\n" % (x["ty"], x["interp"], x["integ"], x["tshuf"]))
    open(d + "/parts", "w").write("%d %d\n%s\n" % (n, len(x["mv"]), "\n".join(L)))
    r = evrun.run(exe[name], d, inp, np_ if mpi else 0, env=dict(VF_PARTS=d + "/parts"))
    logs = evrun.logs(d, np_)
    note = "cfg=%s nd=%d nx=%s ng=%s bc=%s interp=%d" % (name, nd, x["nx"], ng, x["bc"][:nd], x["interp"])
    rec = dict(id=i, nd=nd, n=n, interp=x["interp"], mass=[q + 1 if "feedback" in args else 1 for q in range(x["ty"])], cut=[], bc=[[c.strip() for c in b] for b in x["bc"][:nd]],
               first=[], rounds=[], lis=[], haslis=True, _n=note, _x="rc=%s %s" % (r.rc, r.out[-200:] if r.rc else ""))
    if r.rc or r.timeout or any(len(l) != 1 + len(x["mv"]) or None in l for l in logs):
        shutil.rmtree(d)
        rec["n"] = 99999       # nothing matches
        return rec
    heads = [l[0] for l in logs]
    u, rmin = heads[0]["u"], heads[0]["rmin"]
    cut, face = [], []
    for m in range(nd):
        c = sorted(set(h["grid"][m] for h in heads) | set(h["grid"][m] + h["grid"][3 + m] for h in heads))
        f = {}
        for h in heads:
            f.setdefault(h["grid"][m], h["min"][m])
            f[h["grid"][m] + h["grid"][3 + m]] = h["max"][m] if h["grid"][m] + h["grid"][3 + m] == c[-1] else f.get(h["grid"][m] + h["grid"][3 + m], h["max"][m])
        cut.append(c)
        face.append(f)
    gi = [[cut[m].index(h["grid"][m]) + 1 for m in range(nd)] for h in heads]
    rec["cut"] = cut

    def q_(m, v, tol):
        p = (v - rmin[m]) / u[m]
        k = round(p)
        if not abs(p - k) < tol:
            return 99999999
        f = face[m].get(k // 8) if k % 8 == 0 else None
        return 4 * k + (0 if f is None or v == f else 1 if v > f else -1)

    def v_(m, v, tol):
        k = v / u[m]
        return round(k) if abs(k - round(k)) < tol else 99999999

    def ent(rank, e, tol=1e-6):
        return dict(i=e[0], g=gi[rank], ty=e[1], ii=e[2], q=[q_(m, e[4 + m], tol) for m in range(nd)], v=[v_(m, e[7 + m], tol) for m in range(3)])
    rec["first"] = [ent(p, e) for p, h in enumerate(heads) for e in h["a"]]
    sc = 128 ** nd
    for k in range(len(x["mv"])):
        ls = [l[1 + k] for l in logs]
        rd = dict(b=[ent(p, e) for p, l in enumerate(ls) for e in l["b"]], a=[ent(p, e) for p, l in enumerate(ls) for e in l["a"]], z=[],
                  num=[sum(l["num"][q] for l in ls) for q in range(x["ty"])], fb="feedback" in args and not x["big"], fp=[], fc=[])
        off = dict(((p, o[0]), o[1:]) for p, l in enumerate(ls) for o in l.get("o", []))
        n_ = 0
        for p, l in enumerate(ls):
            for e in l["a"]:
                rd["a"][n_]["o"] = off.get((p, e[0]), [0, 0, 0])
                n_ += 1
        rd["bin"] = ok or all(q % 8 == 4 for a in rd["a"] for q in a["q"])
        if ok or rd["bin"]:
            for l in ls:
                for z in l["c"]:
                    w = [z[3] * sc] + [z[4 + m] / u[m] * sc for m in range(3)]
                    w = ints(w)
                    if any(w):
                        rd["z"].append(z[:3] + w)
        if rd["bin"]:
            for l in ls:
                for z in l.get("k", []):
                    w = ints([z[3 + m] / u[m] * sc for m in range(3)])
                    if any(w):
                        rd["fc"].append(z[:3] + w)
            # no integrator uses the outermost ghost zone (in Grids of nghost zones it lacks what the Grid gets from its other side)
            dep = [4] * nd
            at = set(tuple(z[:3]) for l in ls for z in l.get("p", []))
            for h, l in zip(heads, ls):
                if "p" not in l:
                    continue
                mine = dict((tuple(z[:3]), z[3:]) for z in l["p"])
                for z in at - set(mine):        # zones that might have to hold something
                    if all(h["grid"][m] - 5 <= z[m] < h["grid"][m] + h["grid"][3 + m] + 5 for m in range(nd)):
                        mine[z] = [0, 0, 0, 0]
                for z in sorted(mine):
                    if any(not h["grid"][m] - dep[m] <= z[m] < h["grid"][m] + h["grid"][3 + m] + dep[m] for m in range(nd)):
                        continue
                    w = mine[z]
                    w = ints([w[0] * 64 * sc] + [w[1 + m] * 128 / u[m] * sc for m in range(3)])
                    rd["fp"].append(list(z) + w)
            if len(rd["fp"]) > (400 if thorough else 120):
                rd["fp"] = rnd.sample(rd["fp"], 400 if thorough else 120)
        rec["rounds"].append(rd)
    # the lists hold single precision numbers
    exact = {}
    for a in (rec["rounds"][-1]["a"] if rec["rounds"] else []):
        exact[(a["i"], tuple(a["g"]))] = a
    for rank, idn, ty, ini, xx, vv in lists(d, np_):
        e = ent(rank if rank < len(gi) else 0, [idn, ty, ini if mpi else -1, 1] + list(xx) + list(vv), 2e-3)
        o = exact.get((e["i"], tuple(e["g"])))
        if o:       # the deviation e of q is lost in single precision
            e["q"] = [b if (b + 2) // 4 == (a + 2) // 4 else a for a, b in zip(e["q"], o["q"])]
        rec["lis"].append(e)
    shutil.rmtree(d)
    return rec


def dl(r):
    return "%s %s" % (r["_n"], r["_x"])


seen, todo = set(), []
for x in g.scn:
    k = json.dumps(x, sort_keys=True)
    if k not in seen:
        seen.add(k)
        todo.append((len(todo), x))
recs = vf.pmap(one, todo, 3)
ck.cov.update(runs=len(recs), parallel_runs=sum(1 for r in recs if r["cut"] and any(len(c) > 2 for c in r["cut"])), moves=sum(len(q["b"]) for r in recs for q in r["rounds"]),
              crossings=sum(1 for r in recs for q in r["rounds"] for e in q["b"] if [(a["g"], a["q"]) for a in q["a"] if a["i"] == e["i"]] != [(e["g"], e["q"])]), zones_judged=sum(len(q["z"]) for r in recs for q in r["rounds"]),
              feedback_zones=sum(len(q["fp"]) + len(q["fc"]) for r in recs for q in r["rounds"]), binned_rounds=sum(q["bin"] for r in recs for q in r["rounds"]), listed=sum(len(r["lis"]) for r in recs))
ck.sample(dl(recs[0]))
ck.validate("Trace_Particles", recs, "a particle was lost, duplicated, misplaced or altered, or binned wrongly", jobs=8, describe=dl)


def d1(r):
    r["rounds"][-1]["a"].pop()
    return r


def d2(r):
    z = r["rounds"][0]["z"][0]
    z[3] += 8
    return r


def d3(r):
    a = r["lis"][0]
    a["ty"] += 1
    return r


full = [r for r in recs if all(b[0] != "o" and b[1] != "o" for b in r["bc"]) and r["rounds"] and r["rounds"][0]["bin"]]
ck.selftest("Trace_Particles", full[:3], d1)
ck.selftest("Trace_Particles", full[:3], d2)
ck.selftest("Trace_Particles", [r for r in full if r["lis"]][:3], d3)
ck.assumptions = ["moves of at most 39/8 zones on Grids of at least 5 zones: no move passes a whole Grid; gas at rest, no drag, so that moves are exact",
                  "one level (the particle module has no SMR); shearing box and FARGO are not part of this check",
                  "binned sums: positions in 1/8 zone; quadratic polynomial only off the zone faces, where its weights jump"]
ck.finish()
