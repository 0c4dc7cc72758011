"""Ledger records (totals, divergence ...) from the reports of harness/evolve.c with VF_SUM."""
import math, struct
import evrun


def names(args, nscal):
    q = ["d", "M1", "M2", "M3"]
    if "isothermal" not in args:
        q.append("E")
    if "mhd" in args:
        q += ["B1", "B2", "B3"]
    return q + ["s"] * nscal


def axes(s, bc=None):
    b = bc or evrun.bcs(s)
    r = []
    for m in range(s["nd"]):
        p = b[2 * m:2 * m + 2]
        r.append("P" if p == [4, 4] else "W" if all(x in (1, 5) for x in p) else "O")
    return r


def clip(x, unit):
    if not math.isfinite(x):
        return 2000000000
    return int(max(-2e9, min(2e9, round(x / unit))))


def record(rid, s, args, nscal, status, L, bc=None, tol=2000, source=False, div=True, dq=False, keepB=False, spread=False, unit=1e-13, accel=None):
    """L: logs of all processes. One row per cycle (the last report of a cycle).
    accel: uniform acceleration; the momentum is then compared with that of the beginning plus mass x acceleration x time."""
    nm = names(args, nscal)
    per = [{r["cyc"]: r for r in x if r} for x in L]
    per = [m for m in per if m]
    cyc = sorted(set(c for m in per for c in m))
    keep = [i for i, n in enumerate(nm) if n[0] != "B" or keepB]
    rows, first, sc = [], None, None
    for c in cyc:
        gs = [g for m in per if c in m for g in m[c]["g"]]
        tot = [math.fsum(g["s"][i] for g in gs) for i in range(len(nm))]
        if first is None:
            first = tot
            sc = [abs(tot[0]) if n[0] in "M" else max(abs(t), abs(tot[0]) if n[0] == "B" else 0) or 1.0 for n, t in zip(nm, tot)]
        if accel:
            t = [struct.unpack(">d", bytes.fromhex(m[c]["t"]))[0] for m in per if c in m][0]
            tot = [v - first[0] * accel[int(n[1]) - 1] * t if n[0] == "M" else v for n, v in zip(nm, tot)]
        z = []
        if "mhd" in args and div:
            for g in gs:
                # divergence in units of field/zone size
                z.append(dict(n="div", x=clip(g["div"] * g["dx"] / max(g["bmax"], 1e-30), unit), tol=tol))
                z.append(dict(n="bc", x=clip(g["bc"] / max(g["bmax"], 1e-30), unit), tol=tol))
        if dq:
            for g in gs:
                z.append(dict(n="dq", x=clip(g["dq"], unit), tol=tol))
        if spread:
            for g in gs:
                z.append(dict(n="spread", x=clip(g["sp"], unit), tol=tol))
        rows.append(dict(c=c, dev=[clip((tot[i] - first[i]) / sc[i], unit) for i in keep], zero=z))
    return dict(id=rid, status=status, nd=s["nd"], cycles=s["cycles"], bc=axes(s, bc), quant=[nm[i] for i in keep], rows=rows, tol=tol, source=["M", "E"] if source is True else list(source or []), refined=len(s["M"]) > 1)


def worst(r):
    """(largest deviation per quantity, largest zero) in units, with the cycle."""
    w = {}
    for row in r["rows"]:
        for n, x in zip(r["quant"], row["dev"]):
            if abs(x) > abs(w.get(n, (0, 0))[0]):
                w[n] = (x, row["c"])
        for z in row["zero"]:
            if abs(z["x"]) > abs(w.get(z["n"], (0, 0))[0]):
                w[z["n"]] = (z["x"], row["c"])
    return " ".join("%s:%.1e@%d" % (n, x * 1e-13, c) for n, (x, c) in sorted(w.items()))
