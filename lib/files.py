"""Readers of Athena's output formats (independent of the code under test)."""
import os, re, struct


def vtk(path):
    """Legacy VTK (structured points, binary big-endian float or ASCII): dict(time, level, dom, dims, origin, spacing, vars)."""
    b = open(path, "rb").read()
    pos = 0

    def line():
        nonlocal pos
        e = b.index(b"\n", pos)
        l = b[pos:e].decode("latin1")
        pos = e + 1
        return l
    r = dict(magic=line(), title=line(), mode=line())
    m = re.search(r"time= *([-+0-9.einfa]+)", r["title"])
    r["time"] = float(m.group(1)) if m else None
    m = re.search(r"level= *(\d+), domain= *(\d+)", r["title"])
    r["level"], r["dom"] = (int(m.group(1)), int(m.group(2))) if m else (None, None)
    r["vars"], n = {}, 0
    while pos < len(b):
        if b[pos:pos + 1] in b"\n":
            pos += 1
            continue
        l = line().strip()
        w = l.split()
        if not w:
            continue
        if w[0] == "DATASET":
            r["dataset"] = w[1]
        elif w[0] == "DIMENSIONS":
            r["dims"] = [int(x) for x in w[1:4]]
        elif w[0] == "ORIGIN":
            r["origin"] = [float(x) for x in w[1:4]]
        elif w[0] == "SPACING":
            r["spacing"] = [float(x) for x in w[1:4]]
        elif w[0] in ("CELL_DATA", "POINT_DATA"):
            n = int(w[1])
            r["n"], r["loc"] = n, w[0]
        elif w[0] == "SCALARS":
            name = w[1]
            line()
            r["vars"][name] = list(struct.unpack(">%df" % n, b[pos:pos + 4 * n]))
            pos += 4 * n
        elif w[0] == "VECTORS":
            v = struct.unpack(">%df" % (3 * n), b[pos:pos + 12 * n])
            pos += 12 * n
            for c in range(3):
                r["vars"]["%s%d" % (w[1], c + 1)] = list(v[c::3])
        else:
            raise ValueError("unknown VTK line %r in %s" % (l, path))
    return r


def binary(path):
    """dump_binary: dict(coord, nx, nvar, nscal, selfg, par, gm1, cs, time, dt, x[3], data[nvar(+..)][n])"""
    b = open(path, "rb").read()
    h = struct.unpack("=8i4d", b[:64])
    r = dict(coord=h[0], nx=list(h[1:4]), nvar=h[4], nscal=h[5], selfg=h[6], par=h[7], gm1=h[8], cs=h[9], time=h[10], dt=h[11])
    p = 64
    r["x"] = []
    for n in r["nx"]:
        r["x"].append(list(struct.unpack("=%dd" % n, b[p:p + 8 * n])))
        p += 8 * n
    n = r["nx"][0] * r["nx"][1] * r["nx"][2]
    rest = (len(b) - p) // 8
    a = struct.unpack("=%dd" % rest, b[p:p + 8 * rest])
    r["data"] = [list(a[i * n:(i + 1) * n]) for i in range(rest // n)]
    r["excess"] = len(b) - p - 8 * n * (rest // n)
    return r


def hst(path):
    """history file: list of rows (floats)"""
    return [[float(x) for x in l.split()] for l in open(path) if not l.startswith("#") and l.strip()]


def rst_time(path):
    b = open(path, "rb").read()
    i = b.index(b"N_STEP\n") + 7
    n = struct.unpack("=i", b[i:i + 4])[0]
    i = b.index(b"\nTIME\n", i) + 6
    return n, struct.unpack("=d", b[i:i + 8])[0]


def rst_params(path):
    """The parameter text at the head of a restart file."""
    b = open(path, "rb").read()
    i = b.index(b"<par_end>")
    return b[:i].decode("latin1")


def tab(path):
    return [[float(x) for x in l.split()] for l in open(path) if not l.startswith("#") and l.strip()]


def split_name(fn, base):
    """basename -> (lev, dom, num, id, ext) or None"""
    m = re.match(re.escape(base) + r"(?:-id(\d+))?(?:-lev(\d+))?(?:-dom(\d+))?(?:\.(\d{4,}))?(?:\.([^.]+(?:\.[^.]+)?))?\.([a-z]+)$", fn)
    if not m:
        return None
    return dict(idn=m.group(1), lev=int(m.group(2) or 0), dom=int(m.group(3) or 0),
                num=int(m.group(4)) if m.group(4) else None, id=m.group(5), ext=m.group(6))
