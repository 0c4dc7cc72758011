"""python3-vt: reads dumps of one problem in several frames, writes a Trace_Symmetry record. argv[1]: json [dict(id, args(mhd, ad), ns,
base=dict(dump, nx), frames=[dict(dump, p, mir, nx)], cyc, tol)]."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np
import evdump


def arrays(dump, cyc, ad, mhd, ns):
    r = evdump.read(dump)
    if (cyc, 0, 0) not in r:
        return None
    r = r[(cyc, 0, 0)]
    c = r["cell"]
    o = [("s", [c[..., 0]]), ("p", [c[..., 1], c[..., 2], c[..., 3]])]
    i = 4
    if ad:
        o.append(("s", [c[..., i]]))
        i += 1
    if mhd:
        o.append(("a", [c[..., i], c[..., i + 1], c[..., i + 2]]))
        i += 3
    for n in range(ns):
        o.append(("s", [c[..., i + n]]))
    return r["t"], o


def q(x, u):
    y = np.where(np.isfinite(x), np.clip(np.round(x / u), -2e9, 2e9), 2e9)
    return [int(v) for v in y.ravel()]


for j in json.load(open(sys.argv[1])):
    b = arrays(j["base"]["dump"], j["cyc"], j["ad"], j["mhd"], j["ns"])
    fr, st = [], j["status"]
    rec = dict(id=j["id"], status=st, nx=j["base"]["nx"], t=0, vars=[], frames=[], tol=j["tol"])
    worst = 0.0
    if b is None or st:
        rec["status"] = st or 99
    else:
        units = [max(max(float(np.max(np.abs(a))) for a in v), 1e-3) * 1e-8 for k, v in b[1]]
        tu = b[0] * 1e-8 or 1.0
        mk = lambda t, o: (int(round(t / tu)), [dict(kind=k, v=q(v[0], u) if k == "s" else [q(a, u) for a in v]) for (k, v), u in zip(o, units)])
        rec["t"], rec["vars"] = mk(*b)
        for f in j["frames"]:
            a = arrays(f["dump"], j["cyc"], j["ad"], j["mhd"], j["ns"])
            if a is None:
                rec["status"] = 98
                continue
            t, v = mk(*a)
            rec["frames"].append(dict(p=f["p"] + 1, mir=f["mir"], nx=f["nx"], t=t, vars=v))
            # for the message only: largest difference
            PI = [(0, 1, 2), (1, 2, 0), (2, 0, 1), (1, 0, 2), (0, 2, 1), (2, 1, 0)][f["p"]]
            det = (1 if f["p"] < 3 else -1) * (-1) ** sum(f["mir"])
            w = 0.0
            for (k, vb), (_, vf), u in zip(b[1], a[1], units):
                for m in range(len(vb)):
                    x = vb[m]                      # axes k,j,i = 2,1,0
                    s = 1 if k == "s" else (-1 if f["mir"][m] else 1) * (1 if k == "p" else det)
                    y = vf[m if k == "s" else PI[m]]
                    # bring y to base axes
                    y = np.transpose(y, [2 - PI[2], 2 - PI[1], 2 - PI[0]])
                    for c in range(3):
                        if x.shape[2 - c] > 1 and f["mir"][c]:
                            y = np.flip(y, 2 - c)
                    try:
                        w = max(w, float(np.max(np.abs(y - s * x))) / u)
                    except ValueError:
                        w = 1e30
            worst = max(worst, w)
            rec.setdefault("_w", []).append(float("%.3g" % w))
    print(json.dumps(rec))
