"""Rows of a shearing box: reads the dumps of harness/shear.c and builds records for Trace_ShearBox."""
import struct, os
import numpy as np
SC = 4096


def names(args, nscal):
    v = ["d", "M1", "M2", "M3"]
    if "isothermal" not in args:
        v.append("E")
    m = "mhd" in args
    if m:
        v += ["B1c", "B2c", "B3c"]
    v += ["s%d" % i for i in range(nscal)]
    if m:
        v += ["B1i", "B2i", "B3i"]
    if "gravity" in args:
        v.append("Phi")
    return v


def read(path):
    """[(what, s, disp, nx, ng, array[v][k][j][i] with ghost zones)]"""
    b = open(path, "rb").read()
    o, out = 0, []
    while o + 48 <= len(b):
        h = struct.unpack_from("12i", b, o)
        assert h[0] == 0x5ea6
        o += 48
        nv, nx, ng = h[3], h[7:10], h[11]
        sh = [x + (2 * ng if x > 1 else 0) for x in nx]
        n = nv * sh[0] * sh[1] * sh[2]
        if o + 8 * n > len(b):      # the run ended in the middle
            break
        a = np.frombuffer(b, dtype="<f8", count=n, offset=o).reshape(nv, sh[2], sh[1], sh[0])
        o += 8 * n
        out.append((h[1], h[2], h[4:7], nx, ng, a))
    return out


def whole(gs, N):
    """One array over the Domain with ghost zones at its edges (Grids overlap consistently or the difference is reported by
    the caller); also the ghost values of every Grid."""
    ng = gs[0][4]
    G = [ng if x > 1 else 0 for x in N]
    nv = gs[0][5].shape[0]
    A = np.full((nv, N[2] + 2 * G[2], N[1] + 2 * G[1], N[0] + 2 * G[0]), np.nan)
    B = np.full(A.shape, np.nan)
    for _, _, disp, nx, _, a in gs:       # ghost zones first, then active ones
        sl = tuple(slice(disp[m], disp[m] + nx[m] + 2 * G[m]) for m in (2, 1, 0))
        B[(slice(None),) + sl] = a
    for _, _, disp, nx, _, a in gs:       # active zones, extended by ghost zones at the edges of the Domain
        src, dst = [slice(None)], [slice(None)]
        for m in (2, 1, 0):
            lo = 0 if disp[m] == 0 else G[m]
            hi = nx[m] + 2 * G[m] - (0 if disp[m] + nx[m] == N[m] else G[m])
            src.append(slice(lo, hi))
            dst.append(slice(disp[m] + lo, disp[m] + hi))
        A[tuple(dst)] = a[tuple(src)]
    return A, G


def sci(a):
    a = np.asarray(a, dtype=float)
    a = np.where(np.isfinite(a), a, 3e4)
    return [int(x) for x in np.rint(np.clip(a, -3e4, 3e4) * SC)]


def ints(a):
    return sci(a)


def ghost_record(rid, sc, args, nscal, ng_files, s, wide, dx2, qomL):
    N = sc["n"]
    V = names(args, nscal)
    bef, G = whole([g for g in ng_files if g[0] == 0], N)
    aft, _ = whole([g for g in ng_files if g[0] == 1], N)
    grids = [g for g in ng_files if g[0] == 1]
    xz, fargo = sc["xz"], "fargo" in args
    ng = G[0]
    nx = N[0]
    act = lambda a: a[:, G[2]:G[2] + N[2], G[1]:G[1] + N[1], G[0]:G[0] + N[0]]
    B = act(bef)            # [v][k][j][i]
    rows, mean, same, seen = [], [], [], set()
    iv = {n: i for i, n in enumerate(V)}
    for side in (0, 1):
        q = (qomL if side == 0 else -qomL) * (0.0 if fargo else 1.0)
        S = 0 if xz else (s if side == 0 else -s)
        src = B.copy()
        mv = iv["M3"] if xz else iv["M2"]
        if "E" in iv:
            src[iv["E"]] = B[iv["E"]] + q * B[mv] + 0.5 * q * q * B[0]
        src[mv] = B[mv] + q * B[0]
        for a in range(ng):
            gi = (ng - 1 - a) if side == 0 else (ng + nx + a)       # index with ghost zones
            ci = (nx - 1 - a) if side == 0 else a
            for v, n in enumerate(V):
                if n in ("B2c",) or (n == "B3c" and N[2] > 1):
                    continue
                if n == "B1i" and (a == 0 if side else a == ng - 1):     # a boundary face is computed; the outermost one has no image
                    continue
                sr = src[v][:, :, ci]
                for kg in range(aft.shape[1]):
                    k = (kg - G[2]) % N[2]
                    if n == "B3i" and N[2] > 1 and kg == 0:
                        continue
                    full = aft[v, kg, :, gi]
                    got = full[G[1]:G[1] + N[1]]
                    gh = []
                    for gr in grids:        # ghost zones along y of every Grid at this edge
                        d, gx, a5 = gr[2], gr[3], gr[5]
                        if side == 0 and d[0] != 0 or side == 1 and d[0] + gx[0] != nx:
                            continue
                        kk = kg - d[2]
                        if not (0 <= kk < a5.shape[1]) or (N[2] > 1 and not (G[2] <= kk < G[2] + gx[2]) and not (kg < G[2] or kg >= G[2] + N[2])):
                            continue
                        gl = gi - d[0]
                        y = a5[v, kk, :, gl]
                        for jj in list(range(ng)) + list(range(ng + gx[1], 2 * ng + gx[1])):
                            if n == "B2i" and jj == 0:
                                continue
                            gh.append([d[1] + jj - ng + 1, sci([y[jj]])[0]])
                    r = dict(n="%s in ghost column %d %s, plane %d" % (n, a + 1, "ix1" if side == 0 else "ox1", kg - G[2]), src=ints(sr[k]), got=sci(got), s=int(S), wide=wide, gh=gh)
                    key = (v, tuple(r["src"]), tuple(r["got"]), S, tuple(map(tuple, gh)))
                    if key not in seen:
                        seen.add(key)
                        rows.append(r)
            if "B2c" in iv:
                for kg in range(aft.shape[1]):
                    y, f = aft[iv["B2c"], kg, :, gi], aft[iv["B2i"], kg, :, gi]
                    mean.append(dict(n="B2c in ghost column %d %s, plane %d" % (a + 1, "ix1" if side == 0 else "ox1", kg - G[2]), a=sci(f[1:-1]), b=sci(f[2:]), got=sci(y[1:-1])))
                    if N[2] > 1 and 0 < kg < aft.shape[1] - 1:
                        y, f, h = aft[iv["B3c"], kg, :, gi], aft[iv["B3i"], kg, :, gi], aft[iv["B3i"], kg + 1, :, gi]
                        mean.append(dict(n="B3c in ghost column %d %s, plane %d" % (a + 1, "ix1" if side == 0 else "ox1", kg - G[2]), a=sci(f), b=sci(h), got=sci(y)))
    # active zones are left alone
    for v, n in enumerate(V):
        x, y = act(bef)[v].ravel(), act(aft)[v].ravel()
        if not np.array_equal(x, y):
            same.append(dict(n="%s of the active zones changed" % n, a=sci(x), b=sci(y), tol=0))
    if "B1i" in iv:
        x, y = bef[iv["B1i"], G[2]:G[2] + N[2], G[1]:G[1] + N[1], ng + nx].ravel(), aft[iv["B1i"], G[2]:G[2] + N[2], G[1]:G[1] + N[1], ng + nx].ravel()
        same.append(dict(n="B1 on the outer boundary face changed", a=sci(x), b=sci(y), tol=0))
    return dict(id=rid, rows=rows, mean=mean, same=same)


def fargo_record(rid, sc, args, nscal, files, r, wide, dx, x0):
    """r: displacement over one zone in x1 (eighths)."""
    N = sc["n"]
    V = names(args, nscal)
    bef, G = whole([g for g in files if g[0] == 0], N)
    aft, _ = whole([g for g in files if g[0] == 1], N)
    iv = {n: i for i, n in enumerate(V)}
    rows, mean, same = [], [], []
    ks, js, i0 = G[2], G[1], G[0]
    xs = x0 / dx[0]
    cs = [-r * (xs + i + 0.5) for i in range(N[0])]
    fs = [-r * (xs + i) for i in range(N[0] + 1)]
    qd = r / 8.0 * dx[1] / dx[0]
    for i in range(N[0]):
        S = int(round(cs[i]))
        for v, n in enumerate(V):
            if n in ("B1c", "B2c", "B3c", "B1i", "B2i"):
                continue
            for k in range(N[2] + (1 if n == "B3i" and N[2] > 1 else 0)):
                src = bef[v, ks + k, js:js + N[1], i0 + i]
                got = aft[v, ks + k, js:js + N[1], i0 + i]
                if n == "E":
                    u = lambda m: bef[iv[m], ks + k, js:js + N[1], i0 + i]
                    src = src + qd * u("M1") * u("M2") / u("d")
                    if "B1c" in iv:
                        src = src - qd * u("B1c") * (u("B2c") - 0.5 * qd * u("B1c"))
                rows.append(dict(n="%s of row i=%d k=%d" % (n, i, k), src=sci(src), got=sci(got), s=S, wide=wide, gh=[]))
    if "B1i" in iv:
        f1, f2, f3 = iv["B1i"], iv["B2i"], iv["B3i"]
        for i in range(N[0] + 1):
            for k in range(N[2]):
                rows.append(dict(n="B1 of row i=%d k=%d" % (i, k), src=sci(bef[f1, ks + k, js:js + N[1], i0 + i]), got=sci(aft[f1, ks + k, js:js + N[1], i0 + i]), s=int(round(fs[i])), wide=wide, gh=[]))
        for k in range(N[2]):
            for i in range(N[0]):
                J = slice(js, js + N[1])
                J1 = slice(js + 1, js + N[1] + 1)
                dv = lambda A: (A[f1, ks + k, J, i0 + i + 1] - A[f1, ks + k, J, i0 + i]) / dx[0] + (A[f2, ks + k, J1, i0 + i] - A[f2, ks + k, J, i0 + i]) / dx[1] + \
                    ((A[f3, ks + k + 1, J, i0 + i] - A[f3, ks + k, J, i0 + i]) / dx[2] if N[2] > 1 else 0.0)
                same.append(dict(n="divergence changed in row i=%d k=%d" % (i, k), a=sci(dv(bef)), b=sci(dv(aft)), tol=2))
                mean.append(dict(n="B1c of row i=%d k=%d" % (i, k), a=sci(aft[f1, ks + k, J, i0 + i]), b=sci(aft[f1, ks + k, J, i0 + i + 1]), got=sci(aft[iv["B1c"], ks + k, J, i0 + i])))
                mean.append(dict(n="B2c of row i=%d k=%d" % (i, k), a=sci(aft[f2, ks + k, J, i0 + i]), b=sci(aft[f2, ks + k, J1, i0 + i]), got=sci(aft[iv["B2c"], ks + k, J, i0 + i])))
                mean.append(dict(n="B3c of row i=%d k=%d" % (i, k), a=sci(aft[f3, ks + k, J, i0 + i]), b=sci(aft[f3, ks + k + (1 if N[2] > 1 else 0), J, i0 + i]), got=sci(aft[iv["B3c"], ks + k, J, i0 + i])))
                # rows without structure along y: the shear winds up the radial and vertical field
                b1l, b1r, b3l = bef[f1, ks + k, J, i0 + i], bef[f1, ks + k, J, i0 + i + 1], bef[f3, ks + k, J, i0 + i]
                b3r = bef[f3, ks + k + 1, J, i0 + i] if N[2] > 1 else b3l
                if all(np.ptp(z) == 0 for z in (b1l, b1r, b3l, b3r)):
                    w = dx[1] / dx[0] * (fs[i + 1] * b1r - fs[i] * b1l) / 8.0 + (dx[1] / dx[2] * cs[i] / 8.0 * (b3r - b3l) if N[2] > 1 else 0.0)
                    same.append(dict(n="B2 not wound up by the shear in row i=%d k=%d" % (i, k), a=sci(bef[f2, ks + k, J, i0 + i] + w), b=sci(aft[f2, ks + k, J, i0 + i]), tol=3))
    return dict(id=rid, rows=rows, mean=mean, same=same)
