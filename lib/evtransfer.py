"""Extracts the records of Trace_Transfer from dumps with ghost zones of a refined run. Run with python3-vt (numpy):
   evtransfer.py JOB.json  ->  one record per line on standard output.
JOB: [{"id", "dump", "nd", "ad", "mhd", "first", "u", "bc", "M", "np", "nsamp", "seed"}]"""
import itertools, json, random, sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np
import evdump


def q(x, S):
    x = np.asarray(x) * S
    if not np.all(np.isfinite(x)):
        return np.full(x.shape, 1900000000, dtype=int).tolist()
    return np.clip(np.rint(x), -1.9e9, 1.9e9).astype(int).tolist()


def main():
    for job in json.load(open(sys.argv[1])):
        nd, M = job["nd"], job["M"]
        D = evdump.readg(job["dump"])
        rnd = random.Random(job["seed"])
        root = [m for m in M if m["level"] == 0][0]
        lev = {}
        for m in M:
            lev.setdefault(m["level"], []).append(m)

        def vec(c, kefree):
            c = np.array(c)
            if job["ad"] and kefree:
                c[4] = c[4] - 0.5 * (c[1] ** 2 + c[2] ** 2 + c[3] ** 2) / c[0]
            return c

        for cyc in sorted(set(k[0] for k in D)):
            for l in range(1, len(lev)):
                for n, dom in enumerate(lev[l]):
                    # numbering of Domains within a level: order of the input blocks
                    lo = [dom["disp"][m] // 2 if m < nd else 0 for m in range(3)]
                    hi = [(dom["disp"][m] + dom["nx"][m]) // 2 if m < nd else 1 for m in range(3)]
                    par = [i for i, p in enumerate(lev[l - 1]) if all(p["disp"][m] <= lo[m] and hi[m] <= p["disp"][m] + p["nx"][m] for m in range(nd))][0]
                    top = [root["nx"][m] * 2 ** (l - 1) for m in range(3)]
                    phys = [[m < nd and lo[m] == 0, m < nd and hi[m] == top[m]] for m in range(3)]
                    rec = dict(id="%s cycle %d level %d domain %d" % (job["id"], cyc, l, n), nd=nd, first=job["first"], u=job["u"], mhd=job["mhd"],
                               ad=job["ad"], box=[list(x) for x in zip(lo, hi)], phys=phys, blocks=[])
                    for G in D.get((cyc, l, n), []):
                        cand = {"R": [], "P": []}
                        rg = [range(G["disp"][m] // 2, (G["disp"][m] + G["nx"][m]) // 2) if m < nd else range(1) for m in range(3)]
                        for c in itertools.product(*rg):
                            ins = all(lo[m] <= c[m] < hi[m] for m in range(3))
                            if ins:         # zones of this Grid itself
                                if all(m >= nd or G["disp"][m] + 4 <= 2 * c[m] < G["disp"][m] + G["nx"][m] - 4 for m in range(3)):
                                    cand["R"].append(c)
                            elif any((c[m] < lo[m] and not phys[m][0]) or (c[m] >= hi[m] and not phys[m][1]) for m in range(nd)):
                                cand["P"].append(c)
                        for kind in "RP":
                            cs = cand[kind]
                            # zones next to the edge first: half of the sample
                            ns = job["nsamp"] if kind == "P" else job["nsamp"] // 2
                            if len(cs) > ns:
                                cs = rnd.sample(cs, ns)
                            for c in cs:
                                b = block(job, nd, D[(cyc, l - 1, par)], G, c, kind, vec)
                                if b:
                                    rec["blocks"].append(b)
                    if rec["blocks"]:
                        print(json.dumps(rec))


def block(job, nd, P, G, c, kind, vec):
    # the coarse Grid: the one whose own zones contain c (or come closest to it)
    def gap(p):
        g = 0
        for m in range(nd):
            a, b = p["disp"][m] + 4, p["disp"][m] + p["nx"][m] - 4
            g = max(g, a - c[m], c[m] - (b - 1))
        return g
    p = min(P, key=gap)
    o = [c[m] - p["disp"][m] if m < nd else 0 for m in range(3)]
    if any(o[m] - 1 < 0 or o[m] + 1 >= p["nx"][m] for m in range(nd)):
        return None
    S = 2.0 ** 21 if kind == "R" else 4096.0
    ke = kind == "P"
    cc = p["cell"]
    w = [q(vec(cc[o[2], o[1], o[0]], ke), S)]
    if kind == "P":
        for m in range(nd):
            for d in (-1, 1):
                i = list(o)
                i[m] += d
                w.append(q(vec(cc[i[2], i[1], i[0]], ke), S))
    f = [2 * c[m] - G["disp"][m] if m < nd else 0 for m in range(3)]
    r = [range(2) if m < nd else range(1) for m in range(3)]
    z = [q(vec(G["cell"][f[2] + n, f[1] + k, f[0] + i], ke), S) for n in r[2] for k in r[1] for i in r[0]]
    b, ff = [], []
    if job["mhd"]:
        r3 = [range(3) if m < nd else range(1) for m in range(3)]
        for n in r3[2]:
            for k in r3[1]:
                for i in r3[0]:
                    x = [o[0] + i - 1, o[1] + (k - 1 if nd > 1 else 0), o[2] + (n - 1 if nd > 2 else 0)]
                    b.append(q([p["f"][a][x[2], x[1], x[0]] for a in range(3)], S))
                    x = [f[0] + i, f[1] + k, f[2] + n]
                    ff.append(q([G["f"][a][x[2], x[1], x[0]] for a in range(3)], S) if all(x[m] < G["nx"][m] for m in range(3)) else [0, 0, 0])
    return dict(kind=kind, c=list(c), w=w, z=z, b=b, f=ff)


main()
