#!/usr/bin/env python3
"""C15: joining per-process files. Join.tla models join_vtk (sort the pieces, read every file once) and says what a joined data set is; the real tools are
run on generated sets of files and on the files of real runs, TLC validates the results."""
import sys, os, json, random, re, shutil, struct, subprocess
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, evrun, files

ck = vf.Check("C15")
thorough = vf.TIER == "thorough"
tool = {}
td = vf.sub("tools")
for t in ("vtk/join_vtk", "particle/join_lis", "particle/sort_lis"):
    e = os.path.join(td, os.path.basename(t))
    r = subprocess.run(["gcc", "-w", "-g", "-O1", "-fsanitize=address", "-fno-omit-frame-pointer", "-o", e, os.path.join(vf.REPO, "vis", t + ".c"), "-lm"], capture_output=True, text=True)
    if r.returncode:
        print(r.stderr[-2000:])
        vf.die("compiling " + t)
    tool[os.path.basename(t)] = e
SAN = dict(ASAN_OPTIONS="detect_leaks=0:halt_on_error=1")
CFG = [("a", "--enable-mpi --enable-smr --with-gas=mhd --with-eos=adiabatic --with-flux=hlld --with-nscalars=2")]
exe = vf.build_many({n: (a, "evolve") for n, a in CFG})
ck.model("Join: every division of small boxes, orders of the files", vf.tlc("MC_Join", "MC_Join%s.cfg" % ("Big" if thorough else "_none")))
for f in ("nosort", "swap"):
    ck.model_fails("Join with fault " + f, vf.tlc("MC_Join", "MC_Join_%s.cfg" % f))
g = vf.tlc("Gen_Join", "Gen_Join.cfg", workers=1, extra=["-simulate", "num=%d" % (3000 if thorough else 330), "-depth", "3", "-seed", str(vf.SEED)])
if not g.ok or not g.scn:
    print(g.out[-2000:])
    vf.die("scenario generation")


def call(cmd, cwd):
    r = vf.run(cmd[0], cmd[1:], cwd=cwd, env=SAN, timeout=60)
    return 999 if r.timeout else r.rc, r.out


def ints(b):
    """bit patterns of 4-byte words"""
    return [max(x, -2147483647) for x in struct.unpack(">%di" % (len(b) // 4), b)]


def raw(path):
    """a VTK file: cells, header, names and bit patterns of the variables (vectors by component)"""
    b = open(path, "rb").read()
    p = 0

    def line():
        nonlocal p
        e = b.index(b"\n", p)
        l = b[p:e].decode("latin1").strip()
        p = e + 1
        return l
    r = dict(magic=line(), comment=line(), mode=line(), dataset=line(), names=[], v=[])
    dims = [int(x) for x in line().split()[1:]]
    r["nx"] = [max(d - 1, 1) for d in dims]
    r["origin"] = ["%e" % float(x) for x in line().split()[1:]]
    r["spacing"] = ["%e" % float(x) for x in line().split()[1:]]
    n = int(line().split()[1])
    if n != r["nx"][0] * r["nx"][1] * r["nx"][2] or r["mode"] != "BINARY" or r["dataset"] != "DATASET STRUCTURED_POINTS" or not r["magic"].startswith("# vtk DataFile Version"):
        r["nx"] = [0, 0, 0]
    while p < len(b):
        if b[p:p + 1] == b"\n":
            p += 1
            continue
        w = line().split()
        c = 3 if w[0] == "VECTORS" else 1
        if w[0] == "SCALARS":
            if line().split() != ["LOOKUP_TABLE", "default"]:
                raise ValueError("lookup table")
        elif c != 3 or w[2] != "float":
            raise ValueError("line " + " ".join(w))
        x = ints(b[p:p + 4 * c * n])
        if len(x) != c * n:
            raise ValueError("short")
        p += 4 * c * n
        for i in range(c):
            r["names"].append(w[1] + (str(i + 1) if c > 1 else ""))
            r["v"].append(x[i::c])
    return r


def word(rnd, mode):
    if mode == 1:
        return struct.pack(">I", rnd.getrandbits(32))
    if mode == 2:
        return bytes(rnd.choice(b" \n\t\r\v\f") for _ in range(4))
    if mode == 3:
        return bytes([rnd.choice(b" \n\t\r")]) + struct.pack(">I", rnd.getrandbits(32))[1:]
    return struct.pack(">f", rnd.choice([0.0, 1.0, -1.0, 1e-30, rnd.random(), 1e30]))


def synth(x, d):
    """the pieces of x as files; returns [(off, nx, path)] in order (first direction fastest)"""
    rnd = random.Random(x["seed"])
    c = x["cuts"]
    tot = [sum(q) for q in c]
    dx = [0.1 * q for q in x["dx"]]
    res = []
    for k in range(len(c[2])):
        for j in range(len(c[1])):
            for i in range(len(c[0])):
                pick = (i, j, k)
                nx = [c[m][pick[m]] for m in range(3)]
                off = [sum(c[m][:pick[m]]) for m in range(3)]
                s = len(res) + 1
                bad = x["bad"] if s == x["which"] else ""
                n = nx[0] * nx[1] * nx[2]
                o = "# vtk DataFile Version 2.0\n" if bad != "notvtk" else "# some other file\n"
                o += "Really cool Athena data at time= %e, level= 0, domain= 0\n" % (0.1 * x["t"])
                o += "BINARY\n" if bad != "ascii" else "ASCII\n"
                o += "DATASET STRUCTURED_POINTS\nDIMENSIONS %d %d %d\n" % tuple(nx[m] + 1 if tot[m] > 1 else 1 for m in range(3))
                o += "ORIGIN %e %e %e \n" % tuple(0.1 * x["x0"][m] + off[m] * dx[m] for m in range(3)) + "SPACING %e %e %e \n" % tuple(dx)
                o += "CELL_DATA %d \n" % (n + (1 if bad == "celldata" else 0))
                o = o.encode()
                for q, v in enumerate(x["vars"]):
                    if bad == "fewer" and q == len(x["vars"]) - 1:
                        break
                    last = q == len(x["vars"]) - 1
                    vec = (v == "V") != (bad == "type" and last)
                    name = "var%d%s" % (q, "x" if bad == "names" and last else "")
                    o += b"\n" if q else b""
                    o += (("VECTORS %s float\n" if vec else "SCALARS %s float\nLOOKUP_TABLE default\n") % name).encode()
                    data = b"".join(word(rnd, x["mode"]) for _ in range(n * (3 if vec else 1)))
                    o += data[:-4] if bad == "short" and last else data
                p = os.path.join(d, "p%d.vtk" % s)
                if bad != "missing":
                    open(p, "wb").write(o)
                res.append((off, nx, p))
    return res


def joined(i, d, pieces, order, note):
    out = os.path.join(d, "joined-%d.vtk" % i)
    st, txt = call([tool["join_vtk"], "-o", out] + [pieces[o][2] for o in order], d)
    rec = dict(kind="vtk", id=i, status=st, pieces=[dict(nx=p[1], off=p[0]) for p in pieces], _n=note, _x=txt[-300:] if st else "")
    P = [raw(p[2]) for p in pieces]
    try:
        J = raw(out)
    except Exception as e:
        J = dict(nx=[0, 0, 0], comment="", origin=[], spacing=[], names=[], v=[])
        rec["_x"] += repr(e)
    first = min(range(len(pieces)), key=lambda q: pieces[q][0][::-1])
    rec.update(names=P[first]["names"], pv=[q["v"] for q in P], joined={e: J[e] for e in ("nx", "comment", "origin", "spacing", "names", "v")},
               first={e: P[first][e] for e in ("comment", "origin", "spacing")})
    return rec


def one_vtk(a):
    i, x = a
    d = vf.sub("v%d" % i)
    P = synth(x, d)
    note = {k: x[k] for k in ("cuts", "vars", "order", "mode", "bad", "which", "seed")}
    order = [o - 1 for o in x["order"]]
    if x["bad"].startswith("none"):
        rec = joined(i, d, P, order, note)
    else:
        st, txt = call([tool["join_vtk"], "-o", os.path.join(d, "out.vtk")] + [P[o][2] for o in order], d)
        rec = dict(kind="refuse", id=i, status=st, _n=note, _x=txt[-200:])
        if st == 999 or "AddressSanitizer" in txt:     # neither refused nor joined
            rec["status"] = 0
    shutil.rmtree(d)
    return rec


LH, LR = 12 * 4, 7 * 4 + 4 + 8 + 4


def lis(path, code):
    b = open(path, "rb").read()
    nt, = struct.unpack_from("i", b, LH)
    o = LH + 4 + 4 * nt + 8
    n, = struct.unpack_from("q", b, o)
    o += 8
    L = []
    while o + LR <= len(b):
        e = b[o:o + LR]
        pid, cpu = struct.unpack_from("qi", e, 32)
        L.append(dict(e=code.setdefault(e, len(code)), cpu=cpu, pid=pid))
        o += LR
    return dict(n=n if o == len(b) else -1, list=L, head=[str(x) for x in b[:LH + 4 + 4 * nt + 8]])


def one_lis(a):
    i, x = a
    d = vf.sub("l%d" % i)
    rnd = random.Random(x["seed"])
    np, code, recs = len(x["n"]), {}, []
    pid = 0
    truth = {}
    for f in range(x["first"], x["first"] + x["count"]):
        lists = []
        lo = [float(rnd.randint(-5, 0)) for _ in range(6)]
        types = [rnd.random() for _ in range(x["ntype"])]
        ids = [(p, q) for p in range(np) for q in range(30)]
        rnd.shuffle(ids)
        for p in range(np):
            os.makedirs("%s/id%d" % (d, p), exist_ok=True)
            n = x["n"][p]
            b = struct.pack("12f", *[float(p + q) for q in range(6)], *lo) + struct.pack("i", x["ntype"]) + struct.pack("%df" % x["ntype"], *types)
            b += struct.pack("2f", 0.5 * f, 0.25) + struct.pack("q", n)
            for _ in range(n):
                c, q = ids.pop()
                b += struct.pack("7f", *[rnd.random() for _ in range(7)]) + struct.pack("i", rnd.randrange(x["ntype"])) + struct.pack("q", q) + struct.pack("i", c)
            fn = "%s/id%d/pp%s.%04d.ds.lis" % (d, p, "-id%d" % p if p else "", f)
            if x["miss"] != p + 1:
                open(fn, "wb").write(b)
                lists.append(lis(fn, code)["list"])
        truth[f] = (lists, [str(q) for q in struct.pack("12f", *lo, *lo) + struct.pack("i", x["ntype"]) + struct.pack("%df" % x["ntype"], *types) + struct.pack("2f", 0.5 * f, 0.25)])
    rg = "%d:%d" % (x["first"], x["first"] + x["count"] - 1)
    st, txt = call([tool["join_lis"], "-p", str(np), "-i", "pp", "-s", "ds", "-f", rg, "-d", "comb", "-o", "jj"], d)
    if x["miss"]:
        shutil.rmtree(d)
        return [dict(kind="refuse", id=i, status=st if st != 999 and "AddressSanitizer" not in txt else 0, _n=x, _x=txt[-200:])]
    J = {}
    for f in truth:
        try:
            J[f] = lis("%s/comb/jj.%04d.ds.lis" % (d, f), code)
        except Exception:
            J[f] = dict(n=-1, list=[], head=[])
    st2, txt2 = call([tool["sort_lis"], "-d", "comb", "-i", "jj", "-s", "ds", "-f", rg], d)
    for f in truth:
        try:
            S = lis("%s/comb/jj.%04d.ds.lis" % (d, f), code)
        except Exception:
            S = dict(n=-1, list=[], head=[])
        recs.append(dict(kind="lis", id=i, status=st or st2, lists=truth[f][0], head=truth[f][1], joined=J[f], sorted=S, _n=dict(x, file=f), _x=(txt + txt2)[-200:] if st or st2 else ""))
    shutil.rmtree(d)
    return recs


def one_run(a):
    """the VTK files of a real run, joined per output, level and Domain"""
    i, x, dec = a
    s = x["s"]
    d = vf.sub("r%d" % i)
    outs = [dict(out_fmt="vtk", dt=1000.0)] + ([dict(out_fmt="vtk", out="P", id="pp", dt=1000.0)] if s["nd"] > 1 else [])
    mid = lambda m: repr(s["x0"][m] + 0.25 * s["u"][m] * (s["M"][0]["nx"][m] / 2 + 0.3))
    for m in range(3 if s["nd"] == 3 else 0):
        outs.append({"out_fmt": "vtk", "out": "d", "id": "s%d" % (m + 1), "dt": 1000.0, "x%d" % (m + 1): mid(m)})
    r = evrun.run(exe["a"], d, evrun.infile(s, dec["ng"], outputs=outs), np=dec["np"])
    if r.timeout or r.rc:
        return [dict(kind="vtk", id=i, status=998, pieces=[], names=[], pv=[], joined={}, first={}, _n=evrun.brief(s, dec), _x=r.out[-300:])]
    groups, recs = {}, []
    for root, _, fs in os.walk(d):
        for f in sorted(fs):
            n = files.split_name(f, "ev") if f.endswith(".vtk") else None
            if n:
                groups.setdefault((n["lev"], n["dom"], n["num"], n["id"] or ""), []).append(os.path.join(root, f))
    rnd = random.Random(s["seed"])
    for k, g in sorted(groups.items()):
        if len(g) < 2:
            continue
        red = int(k[3][1]) - 1 if re.match(r"s\d", k[3]) else -1
        h = [raw(p) for p in g]
        org = [[float(v) for v in q["origin"]] for q in h]
        sp = [float(v) for v in h[0]["spacing"]]
        off = [[0 if m == red else int(round((o[m] - min(z[m] for z in org)) / sp[m])) for m in range(3)] for o in org]
        P = [(off[q], h[q]["nx"], g[q]) for q in range(len(g))]
        order = list(range(len(g)))
        rnd.shuffle(order)
        recs.append(joined(i, d, P, order, "%s output %s" % (evrun.brief(s, dec), (k,))))
    shutil.rmtree(d)
    return recs


def dl(r):
    return "%s %s status=%d %s" % (r["kind"], r["_n"], r["status"], r["_x"])


seen, todo = set(), []
for x in g.scn:
    k = json.dumps(x, sort_keys=True)
    if k not in seen and (x["kind"] == "lis" or len(x["order"]) > 1):
        seen.add(k)
        todo.append((len(todo), x))
nv = len(todo)
recs = vf.pmap(one_vtk, [t for t in todo if t[1]["kind"] == "vtk"])
for r in vf.pmap(one_lis, [t for t in todo if t[1]["kind"] == "lis"]):
    recs += r
runs = [x for x in evrun.generate(300 if thorough else 90, 1, 1) if x["d"]]
runs.sort(key=lambda x: -x["s"]["nd"])
runs = runs[::max(1, len(runs) // (40 if thorough else 10))]
for r in vf.pmap(one_run, [(nv + i, x, x["d"][-1]) for i, x in enumerate(runs)], 4):
    recs += r
ck.cov.update(synthetic_vtk_sets=sum(1 for r in recs if r["kind"] == "vtk" and r["id"] < nv), refused=sum(1 for r in recs if r["kind"] == "refuse"),
              particle_lists=sum(1 for r in recs if r["kind"] == "lis"), joins_of_real_runs=sum(1 for r in recs if r["id"] >= nv),
              refusals={b: sum(1 for r in recs if r["kind"] == "refuse" and r["_n"].get("bad") == b) for b in ("missing", "notvtk", "ascii", "names", "type", "short", "fewer", "celldata")},
              numbers=sum(len(v) for r in recs if r["kind"] == "vtk" for v in r["joined"].get("v", [])))
ck.sample(dl(recs[0]))
ck.validate("Trace_Join", recs, "joining gave the wrong data set, or files that do not fit together were joined", jobs=8, describe=dl)


def d1(r):
    v = next(v for v in r["joined"]["v"] if len(set(v)) > 1)
    i = next(i for i in range(len(v) - 1) if v[i] != v[i + 1])
    v[i], v[i + 1] = v[i + 1], v[i]
    return r


def d2(r):
    r["joined"]["list"][0] = r["joined"]["list"][-1]
    return r


def d3(r):
    r["status"] = 0
    return r


ck.selftest("Trace_Join", [r for r in recs if r["kind"] == "vtk" and any(len(set(v)) > 1 for v in r["joined"].get("v", []))][:4], d1)
ck.selftest("Trace_Join", [r for r in recs if r["kind"] == "lis" and len(r["joined"]["list"]) > 1][:3], d2)
ck.selftest("Trace_Join", [r for r in recs if r["kind"] == "refuse"][:3], d3)
ck.assumptions = ["the tools are compiled with gcc and AddressSanitizer; legacy VTK files as Athena writes them",
                  "refusals: a file that is missing, not a VTK file, ASCII, cut short, has a wrong number of cells or other variables; sets with gaps, overlaps or different times are not judged",
                  "particle lists: synthetic, in the format of dump_particle_binary"]
ck.finish()
