"""Reads the binary dumps of harness/evolve.c: {(cycle, level, dom): dict(nx, disp, t, dt, cell[var][k,j,i], f1, f2, f3)} assembled
over all processes (faces on Grid edges are taken from both sides; a difference between the two copies is kept in 'split')."""
import glob, os, struct
import numpy as np


def read(prefix, doms=None):
    parts = {}
    for f in sorted(glob.glob(prefix + ".*")):
        b = open(f, "rb").read()
        o = 0
        while o < len(b):
            hd = struct.unpack_from("12i", b, o)
            assert hd[0] == 0x7e57, "bad dump"
            o += 48
            t, dt = struct.unpack_from("2d", b, o)
            o += 16
            _, cyc, nl, nd, d0, d1, d2, n0, n1, n2, nv, mhd = hd
            c = np.frombuffer(b, "d", n0 * n1 * n2 * nv, o).reshape(n2, n1, n0, nv)
            o += c.nbytes
            F = []
            if mhd:
                for m, s in ((0, (n2, n1, n0 + 1)), (1, (n2, n1 + (n1 > 1), n0)), (2, (n2 + (n2 > 1), n1, n0))):
                    x = np.frombuffer(b, "d", s[0] * s[1] * s[2], o).reshape(s)
                    o += x.nbytes
                    F.append(x)
            parts.setdefault((cyc, nl, nd), []).append(((d0, d1, d2), (n0, n1, n2), c, F, t, dt))
    res = {}
    for key, ps in parts.items():
        lo = [min(p[0][m] for p in ps) for m in range(3)]
        hi = [max(p[0][m] + p[1][m] for p in ps) for m in range(3)]
        n = [hi[m] - lo[m] for m in range(3)]
        nv = ps[0][2].shape[3]
        cell = np.full((n[2], n[1], n[0], nv), np.nan)
        F = [np.full((n[2] + (m == 2 and n[2] > 1), n[1] + (m == 1 and n[1] > 1), n[0] + (m == 0)), np.nan) for m in range(3)] if ps[0][3] else []
        split = 0
        for d, nx, c, f, t, dt in ps:
            s = [d[m] - lo[m] for m in range(3)]
            cell[s[2]:s[2] + nx[2], s[1]:s[1] + nx[1], s[0]:s[0] + nx[0]] = c
            for m in range(len(f)):
                v = F[m][s[2]:s[2] + f[m].shape[0], s[1]:s[1] + f[m].shape[1], s[0]:s[0] + f[m].shape[2]]
                split += int(np.count_nonzero(~np.isnan(v) & (v != f[m])))
                v[...] = f[m]
        res[key] = dict(nx=n, disp=lo, t=ps[0][4], dt=ps[0][5], cell=cell, f=F, split=split)
    return res


def readg(prefix):
    """Dumps with ghost zones ($VF_GHOST): {(cycle, level, dom): [dict(disp, nx, cell, f)]}, one entry per Grid; disp and nx
    include the ghost zones, every face array has the shape of the zones (lower faces)."""
    res = {}
    for f in sorted(glob.glob(prefix + ".*")):
        b = open(f, "rb").read()
        o = 0
        while o < len(b):
            hd = struct.unpack_from("12i", b, o)
            assert hd[0] == 0x7e57 and hd[11] & 2, "bad dump"
            o += 64
            _, cyc, nl, nd, d0, d1, d2, n0, n1, n2, nv, fl = hd
            c = np.frombuffer(b, "d", n0 * n1 * n2 * nv, o).reshape(n2, n1, n0, nv)
            o += c.nbytes
            F = []
            if fl & 1:
                for m in range(3):
                    F.append(np.frombuffer(b, "d", n0 * n1 * n2, o).reshape(n2, n1, n0))
                    o += 8 * n0 * n1 * n2
            res.setdefault((cyc, nl, nd), []).append(dict(disp=(d0, d1, d2), nx=(n0, n1, n2), cell=c, f=F))
    return res
