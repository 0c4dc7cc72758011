"""Runs meshes generated by Gen_Mesh.tla in the real code (checks C06, C07)."""
import json, os, random
import vf, mesh

BUILDS = {
    "smr": ("--with-gas=hydro --with-eos=isothermal --with-flux=hlle --enable-mpi --enable-smr", "meshdump"),
    "ser": ("--with-gas=mhd --with-eos=isothermal --with-flux=hlle --enable-smr", "meshdump"),
    "mpi": ("--with-gas=mhd --with-eos=adiabatic --with-flux=hlle --enable-mpi", "meshdump"),
    "msmr": ("--with-gas=mhd --with-eos=isothermal --with-flux=hlle --enable-mpi --enable-smr", "meshdump"),
}


def scenarios(n):
    g = vf.tlc("Gen_Mesh", "Gen_Mesh.cfg", workers=1, extra=["-simulate", "num=%d" % n, "-depth", "20", "-seed", str(vf.SEED)])
    if not g.ok or len(g.scn) < n:
        print(g.out[-2000:])
        vf.die("scenario generation")
    return g.scn


def go(exe, arg):
    n, sc = arg
    rnd = random.Random(n)
    M, nd, np = sc["M"], sc["nd"], sc["np"]
    key = "smr"
    if len(M) == 1 and n % 2:
        key = "mpi"
    elif np == 1 and n % 2:
        key = "ser"
    elif n % 4 == 0:
        key = "msmr"
    order = list(range(len(M)))
    if n % 3 == 0:
        rnd.shuffle(order)          # the order of the blocks in the input must not matter
    doms = []
    for i in order:
        d = dict(level=M[i]["level"], nx=M[i]["nx"], disp=M[i]["disp"])
        if key != "ser":
            if M[i]["ng"][0] == 0:
                d["auto"] = True
            else:
                d["ngrid"] = M[i]["ng"]
        doms.append(d)
    bc = []
    for m in range(3):
        p = sc["bc"][m]
        bc += [4, 4] if p else [rnd.choice([1, 2, 5]), rnd.choice([1, 2])]
    inp = mesh.athinput("md", [dict(d, ngrid=d.get("ngrid") or [1, 1, 1]) for d in doms], nd, np=1, time=dict(cour_no=0.3, nlim=0, tlim=1.0),
                        problem=dict(iso_csound=1.0, gamma=1.5), bc=bc, x0=[float(x) for x in sc["x0"]], dx=[float(x) for x in sc["u"]],
                        outputs=[dict(name="mesh", dt=1e9)])
    # automatic division
    lines, k = [], -1
    for l in inp.split("\n"):
        if l.startswith("<domain"):
            k += 1
        if l.startswith("NGrid_") and doms[k].get("auto"):
            if not l.startswith("NGrid_x1"):
                continue
            l = "AutoWithNProc = %d" % np
        lines.append(l)
    inp = "\n".join(lines)
    d = vf.sub("mesh%d" % n)
    r = vf.run(exe[key], ["-i", d + "/in"], cwd=d, np=0 if key == "ser" else np, env=dict(VF_LOG=d + "/log"), files={"in": inp}, timeout=90)
    # domain numbers within a level follow the input order
    idx = {}
    cnt = {}
    for i in order:
        l = M[i]["level"]
        idx[(l, cnt.get(l, 0))] = i + 1
        cnt[l] = cnt.get(l, 0) + 1
    grids, bad = [], None
    for p in range(np):
        f = "%s/log.%d" % (d, p)
        for l in (open(f) if os.path.exists(f) else []):
            g = json.loads(l)
            g["dom"] = idx.get((g["level"], g["domn"]), 0)
            if g["dom"] == 0 or g["dnx"] != M[g["dom"] - 1]["nx"] or (g["level"] and g["ddisp"] != M[g["dom"] - 1]["disp"]):
                bad = "Domain %d on level %d is %r at %r" % (g["domn"], g["level"], g["dnx"], g["ddisp"])
            for e in g["kids"]:
                e["dom"] = idx.get((g["level"] + 1, e["domn"]), 0)
            for e in g["pars"]:
                e["dom"] = idx.get((g["level"] - 1, e["domn"]), 0)
            grids.append(g)
    acc = r.rc == 0
    if r.timeout or r.rc < 0 or "on signal" in r.out:
        bad = "crashed or hung (status %s): %s" % (r.rc, r.out[-400:])
    if acc and not grids:
        bad = "no mesh reported"
    rec = dict(id=n, build=key, nd=nd, np=np, bc=sc["bc"], x0=sc["x0"], u=sc["u"], M=M, accepted=acc, g=grids if acc else [])
    rec["_in"], rec["_out"] = inp, r.out[-800:]
    if bad:
        rec["_bad"] = bad
    return rec


def all_runs(exe, scn):
    recs = vf.pmap(lambda a: go(exe, a), list(enumerate(scn)), 6)
    for i, r in enumerate(recs):
        if "_bad" in r:
            recs[i] = go(exe, (r["id"], scn[r["id"]]))
    return recs


def brief(r):
    return "np=%d nd=%d bc=%s %s %s" % (r["np"], r["nd"], r["bc"], "accepted" if r["accepted"] else "refused",
                                        [(d["level"], d["nx"], d["disp"], d["ng"]) for d in r["M"]]) + " " + " ".join(
        l for l in r["_out"].split("\n") if "rror" in l)[:200]
