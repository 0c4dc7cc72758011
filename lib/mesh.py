"""Input-file construction."""
import random


def nested(nd, nlev, two=False, n0=16):
    """Root domain of 16 zones per active direction, with nested refined domains; two: a second domain on level 1 (2D/3D)."""
    act = lambda v: [v if m < nd else 1 for m in range(3)]
    dsp = lambda v: [v if m < nd else 0 for m in range(3)]
    doms = [dict(level=0, nx=act(n0), disp=[0, 0, 0])]
    if nlev > 1:
        doms.append(dict(level=1, nx=act(16), disp=dsp(8)))
    if nlev > 2:
        doms.append(dict(level=2, nx=act(16), disp=dsp(24)))
    return doms


def decomp(doms, nd, np, rnd):
    """A random admissible decomposition: at most one Grid of a Domain per process, the total a multiple of np, even pieces
    of at least four zones (so that refined Grids stay aligned)."""
    smr = len(doms) > 1
    opts = []
    for d in doms:
        o = []
        for a in range(1, np + 1):
            for b in range(1, np + 1):
                for c in range(1, np + 1):
                    g = (a, b, c)
                    if a * b * c > np:
                        continue
                    if all((g[m] == 1 if m >= nd else d["nx"][m] // g[m] >= 4 and
                            (not smr or d["nx"][m] % (2 * g[m]) == 0)) for m in range(3)):
                        o.append(list(g))
        opts.append(o)
    best = None
    for t in range(400):
        c = [d.get("ngrid") or rnd.choice(o) for d, o in zip(doms, opts)]
        tot = sum(x[0] * x[1] * x[2] for x in c)
        if tot % np == 0 and all(x[0] * x[1] * x[2] <= np for x in c):
            return c
    raise ValueError("no decomposition for np=%d %r" % (np, doms))


def athinput(pid, doms, nd, np=1, seed=0, time=None, problem=None, bc=4, outputs=(), job=None, x0=(0., 0., 0.), dx=1.0,
             ngrid=None, extra=""):
    """doms: list of dict(level,nx,disp[,ngrid]). bc: one flag or a list of six."""
    rnd = random.Random(seed * 7919 + np)
    grids = decomp(doms, nd, np, rnd) if np > 1 else None
    s = ["<comment>", "problem = " + pid, "<job>", "problem_id = " + pid, "maxout = %d" % max(len(outputs), 1),
         "num_domains = %d" % len(doms)]
    for k, v in (job or {}).items():
        s.append("%s = %s" % (k, v))
    s.append("<time>")
    for k, v in (time or {}).items():
        s.append("%s = %s" % (k, v))
    b = [bc] * 6 if isinstance(bc, int) else list(bc)
    names = ["bc_ix1", "bc_ox1", "bc_ix2", "bc_ox2", "bc_ix3", "bc_ox3"]
    for n, d in enumerate(doms):
        s += ["<domain%d>" % (n + 1), "level = %d" % d["level"]]
        for m in range(3):
            s.append("Nx%d = %d" % (m + 1, d["nx"][m]))
            if d["level"] == 0:
                D = dx[m] if isinstance(dx, (list, tuple)) else dx
                s += ["x%dmin = %r" % (m + 1, float(x0[m])), "x%dmax = %r" % (m + 1, x0[m] + D * d["nx"][m]),
                      "%s = %d" % (names[2 * m], b[2 * m]), "%s = %d" % (names[2 * m + 1], b[2 * m + 1])]
            else:
                s.append("%sDisp = %d" % ("ijk"[m], d["disp"][m]))
        g = d.get("ngrid") or (grids[n] if grids else None)
        if g:
            for m in range(3):
                s.append("NGrid_x%d = %d" % (m + 1, g[m]))
    s.append("<problem>")
    for k, v in (problem or {}).items():
        s.append("%s = %s" % (k, v))
    for n, o in enumerate(outputs):
        s.append("<output%d>" % (n + 1))
        for k, v in o.items():
            s.append("%s = %s" % (k, v))
    return "\n".join(s) + "\n" + extra
