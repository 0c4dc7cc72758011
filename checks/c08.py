#!/usr/bin/env python3
"""C08: boundary values. BVals.tla says what every ghost zone holds; generated domains are set up in the real code, TLC compares."""
import sys, os, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, mesh

ck = vf.Check("C08")
thorough = vf.TIER == "thorough"
BUILDS = {
    "iso": ("--with-gas=hydro --with-eos=isothermal --with-flux=hlle --with-nscalars=1 --enable-mpi", "ghost"),
    "adb": ("--with-gas=hydro --with-eos=adiabatic --with-flux=hllc --enable-mpi --enable-smr", "ghost"),
    "mhd": ("--with-gas=mhd --with-eos=adiabatic --with-flux=hlld --with-nscalars=2 --enable-mpi --enable-smr", "ghost"),
    "mhdser": ("--with-gas=mhd --with-eos=isothermal --with-flux=hlle", "ghost"),
}
exe = vf.build_many(BUILDS)
cfg = "MC_BValsBig.cfg" if thorough else "MC_BVals.cfg"
ck.model("MC_BVals", vf.tlc("MC_BVals", cfg))
ck.model_fails("MC_BValsBad (directions not ordered)", vf.tlc("MC_BVals", "MC_BValsBad.cfg"))
N = 700 if thorough else 70
g = vf.tlc("Gen_BVals", "Gen_BVals.cfg", workers=1, extra=["-simulate", "num=%d" % N, "-depth", "6", "-seed", str(vf.SEED)])
if not g.ok or len(g.scn) < N:
    print(g.out[-2000:])
    vf.die("scenario generation")


def variables(key):
    a = BUILDS[key][0]
    v = [dict(k="s", c=0)] + [dict(k="m", c=c) for c in (1, 2, 3)]
    if "adiabatic" in a:
        v.append(dict(k="s", c=0))
    if "mhd" in a:
        v += [dict(k="b", c=c) for c in (1, 2, 3)]
    v += [dict(k="s", c=0)] * (1 if "nscalars=1" in a else 2 if "nscalars=2" in a else 0)
    if "mhd" in a:
        v += [dict(k="f", c=c) for c in (1, 2, 3)]
    return v


def one(arg):
    n, sc = arg
    key, nd, nx, b = sc["gas"], sc["nd"], sc["n"], list(sc["b"])
    smr = "smr" in BUILDS[key][0] and sc["child"] and 9 not in b
    G = list(sc["g"])
    while G[0] * G[1] * G[2] > 8:
        G[G.index(max(G))] -= 1
    np = G[0] * G[1] * G[2]
    mpi = "mpi" in BUILDS[key][0]
    doms = [dict(level=0, nx=nx, disp=[0, 0, 0], ngrid=G)]
    cb = None
    if smr:     # a child in the left corner, or touching both sides of periodic directions
        if any(nx[m] < 8 for m in range(nd)):
            smr = False
        else:
            cw = [(nx[m] if b[2 * m] == 4 else nx[m] // 2) if m < nd else 1 for m in range(3)]
            doms.append(dict(level=1, nx=[2 * cw[m] if m < nd else 1 for m in range(3)], disp=[0, 0, 0], ngrid=[1, 1, 1]))
            cg = [1, 1, 1]
            if np > 1:      # as many Grids as processes: the total stays a multiple
                for m in range(nd):
                    if (doms[1]["nx"][m] // np) >= 4 and doms[1]["nx"][m] % (2 * np) == 0:
                        cg[m] = np
                        break
                else:
                    smr = False
                    doms.pop()
            if smr:
                doms[1]["ngrid"] = cg
                cb = [b[s] if (s % 2 == 0 or b[s] == 4) else 3 for s in range(6)]
                cb = [cb[s] if s // 2 < nd else 2 for s in range(6)]
    # the user function is enrolled on sides with code 9 (any flag in the input)
    user = sum(1 << s for s in range(2 * nd) if b[s] == 9)
    inp = mesh.athinput("gh", doms, nd, np=1, time=dict(cour_no=0.3, nlim=0, tlim=1.0), problem=dict(iso_csound=1.0, gamma=1.5),
                        bc=[2 if x == 9 else x for x in b], outputs=[dict(name="bv", dt=1e9)])
    d = vf.sub("run%d" % n)
    env = dict(VF_LOG=d + "/log", VF_USER=user)
    for m in range(3):
        if b[2 * m] == 4 and m < nd:
            env["VF_PER%d" % (m + 1)] = 1
    r = vf.run(exe[key], ["-i", d + "/in"], cwd=d, np=np if mpi else 0, env=env, files={"in": inp}, timeout=90)
    out = []
    gs = []
    for p in range(np):
        f = "%s/log.%d" % (d, p)
        gs += [json.loads(l) for l in (open(f) if os.path.exists(f) else [])]
    if r.rc != 0 or not gs:
        return [dict(id=n, bad="run failed (status %s): %s" % (r.rc, r.out[-500:]), _in=inp)]
    cov = [dict(lo=[0, 0, 0], hi=cw)] if smr else []
    for lev in (0, 1):
        gl = [x for x in gs if x["level"] == lev]
        if not gl:
            continue
        out.append(dict(id=2 * n + lev, n=doms[lev]["nx"], b=cb if lev else b, vars=variables(key), cov=cov if lev == 0 else [],
                        g=[{k: x[k] for k in ("disp", "nx", "v")} for x in gl], _in=inp, _key=key, _np=np, _G=G))
        if sum(x["nx"][0] * x["nx"][1] * x["nx"][2] for x in gl) != doms[lev]["nx"][0] * doms[lev]["nx"][1] * doms[lev]["nx"][2]:
            out[-1]["bad"] = "Grids do not cover the Domain"
    return out


recs = sum(vf.pmap(one, list(enumerate(g.scn)), 5), [])
for r in recs:
    if "bad" in r:
        ck.violation("run %d: %s" % (r["id"], r["bad"]), r)
good = [r for r in recs if "bad" not in r]
ck.cov["zones"] = sum(len(x["v"][0]) for r in good for x in r["g"])
ck.cov["values"] = sum(len(x["v"]) * len(x["v"][0]) for r in good for x in r["g"])
ck.cov["grids"] = sum(len(r["g"]) for r in good)
ck.cov["with_user_function"] = sum(1 for r in good if 9 in r["b"])
ck.cov["refined"] = sum(1 for r in good if r["id"] % 2)
brief = lambda r: "n=%s bc=%s divided %s (%s)" % (r["n"], r["b"], r["_G"], r["_key"])
ck.sample([brief(r) for r in good[:4]])
good.sort(key=lambda r: -sum(len(x["v"][0]) * len(x["v"]) for x in r["g"]))
ck.validate("Trace_BVals", good, "ghost zones differ from the specification", jobs=7, describe=brief)


def corrupt(r):
    a = r["g"][0]["v"][1]
    a[0] = -a[0] + 1
    return r


small = [r for r in good if 3 not in r["b"] and not r["cov"] and sum(len(x["v"][0]) for x in r["g"]) < 3000][:3]
if not ck.violations:
    ck.selftest("Trace_BVals", small, corrupt)
ck.assumptions = ["four ghost zones", "domains of 8-14 x 4-10 x 4-9 zones, up to 8 processes"]
ck.finish()
