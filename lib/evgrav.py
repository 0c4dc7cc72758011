"""python3-vt: reads dumps of self-gravitating runs, writes a Trace_Poisson record. argv[1]: json dict(id, status, kind, n, u, nd, open, fpg, ad, np,
dump[, dump0], mean)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np
import evdump

j = json.load(open(sys.argv[1]))
n, u, nd, fpg = j["n"], j["u"], j["nd"], j["fpg"]
DX = 0.25
TOL = 40


def q(x, un):
    y = np.where(np.isfinite(x), np.clip(np.round(x / un), -2e9, 2e9), 2e9)
    return [int(v) for v in y.ravel()]


rec = dict(id=j["id"], status=j["status"], kind=j["kind"], n=n, u=u, open=j["open"], tol=TOL, mtol=1000, snaps=[], force=[])
worst = {}
if rec["status"] == 0 and j["kind"] != "force":
    D = evdump.readg(j["dump"])
    keys = sorted(D)
    if len(keys) != j["snaps"]:
        rec["status"] = 98
    t0 = None
    for key in keys:
        gs, seen = [], set()
        for g in D[key]:
            if (g["disp"], g["nx"]) not in seen:        # a cycle may be reported twice
                seen.add((g["disp"], g["nx"]))
                gs.append(g)
        gh = [4 if n[m] > 1 else 0 for m in range(3)]
        U = np.full((n[2], n[1], n[0], gs[0]["cell"].shape[3]), np.nan)
        for g in gs:
            s = [g["disp"][m] + gh[m] for m in range(3)]
            w = [g["nx"][m] - 2 * gh[m] for m in range(3)]
            U[s[2]:s[2] + w[2], s[1]:s[1] + w[1], s[0]:s[0] + w[0]] = g["cell"][gh[2]:gh[2] + w[2], gh[1]:gh[1] + w[1], gh[0]:gh[0] + w[0]]
        phi, rho = U[..., -1], U[..., 0]
        mean = 0.0 if j["open"] else float(np.mean(rho))
        rhs = 4 * fpg * DX * DX * (rho - mean)
        big = max(float(np.max(np.abs(phi))), float(np.max(np.abs(rhs))) / 40, 1e-12)
        un = big / 2e7 if np.isfinite(big) else 1.0
        tot = [float(np.sum(U[..., i].astype(np.longdouble))) for i in range(4)]
        t0 = t0 or tot
        sc = float(np.sum(np.abs(rho)))
        rec["snaps"].append(dict(phi=q(phi, un), rhs=q(rhs, un), tot=[0] if j["open"] else [int(np.clip(round((a - b) / sc * 1e14), -2e9, 2e9)) if np.isfinite(a) else 2000000000 for a, b in zip(tot, t0)],
                                 grids=[dict(d=list(g["disp"]), s=list(g["nx"]), v=q(g["cell"][..., -1], un)) for g in gs] if key == keys[-1] else []))
        P = q(phi, un)
        worst.setdefault("tot", []).append(rec["snaps"][-1]["tot"])
if rec["status"] == 0 and j["kind"] == "force":
    A, B = evdump.read(j["dump"]), evdump.read(j["dump0"])
    a0, a1, b1 = A[(0, 0, 0)], A[(1, 0, 0)], B[(1, 0, 0)]
    dt = a0["dt"]
    phi, rho = a0["cell"][..., -1], a0["cell"][..., 0]
    up, ur = max(float(np.max(np.abs(phi))), 1e-12) / 5e4, 1e-3
    if a1["dt"] != b1["dt"] and abs(B[(0, 0, 0)]["dt"] / dt - 1) > 1e-12:
        rec["status"] = 97
    un = up * ur / (2 * DX)                  # unit of Pull
    acc = [(a1["cell"][..., 1 + m] - b1["cell"][..., 1 + m]) / dt for m in range(3)]
    F = [-rho * (np.roll(phi, -1, 2 - m) - np.roll(phi, 1, 2 - m)) / (2 * DX * u[m]) if n[m] > 1 else 0 * phi for m in range(3)]
    fm = max(float(np.max(np.abs(f))) for f in F)
    one = sum(j["dep"]) == 1
    vel = [a0["cell"][..., 1 + m] / rho for m in range(3)]
    vm = max(float(np.max(np.abs(v))) for v in vel)
    f = dict(phi=q(phi, up), rho=q(rho, ur), acc=[q(a, un) for a in acc], pow=[], vel=[q(v, 1e-3) for v in vel],
             ftol=int(round((1e-3 if one else 0.02) * fm / un)) + 5000, etol=0)
    worst["f"] = [float(np.max(np.abs(acc[m] - F[m]))) / fm for m in range(3)]
    if j["ad"]:
        dE = (a1["cell"][..., 4] - b1["cell"][..., 4]) / dt
        f["pow"] = q(dE, un)
        f["etol"] = int(round(0.08 * fm * vm / un)) + 5000
        worst["e"] = float(np.max(np.abs(dE - sum(F[m] * vel[m] for m in range(3))))) / (fm * vm)
    worst["lim"] = [f["ftol"] * un / fm, f["etol"] * un / fm / vm]
    rec["force"].append(f)
rec["_w"] = worst
print(json.dumps(rec))
