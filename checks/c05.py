#!/usr/bin/env python3
"""C05: the parameter data base: input file, command line, access functions, dump and reload, distribution."""
import json, os, random, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, mesh

ck = vf.Check("C05")
thorough = vf.TIER == "thorough"
C = "--with-gas=hydro --with-eos=isothermal --with-flux=hlle --with-order=1"
exe = vf.build_many({"ser": (C, "par"), "mpi": (C + " --enable-mpi", "par")})
ck.model("MC_ParamDB", vf.tlc("MC_ParamDB", "MC_ParamDB.cfg"))
N = 3000 if thorough else 420
g = vf.tlc("Gen_ParamDB", "Gen_ParamDB.cfg", workers=1, extra=["-simulate", "num=%d" % N, "-depth", "3", "-seed", str(vf.SEED)])
if len(g.scn) < N:
    print(g.out[-2000:])
    vf.die("scenario generation")
BL = ("p", "pp", "p q", "domain")


def canon(v):
    """numbers stored by the floating-point setters, whatever their format"""
    if len(v) > 10:
        try:
            return "%g" % float(v)
        except ValueError:
            pass
    return v


def dump(path):
    db = []
    cur = None
    for l in open(path):
        l = l.rstrip("\n")
        m = re.match(r"^(.*)::$", l)
        if m:
            cur = m.group(1)
            if cur in BL:
                db.append(dict(b=cur, p=[]))
            continue
        if cur in BL and l.startswith(" " + cur + "/"):
            n, v = l[len(cur) + 2:].split(" = ", 1)
            db[-1]["p"].append([n, canon(v)])
    return db


def one(arg):
    i, sc = arg
    rnd = random.Random(i * 31 + vf.SEED)
    lines, cmd, calls, np = list(sc["lines"]), list(sc["cmd"]), list(sc["calls"]), sc["np"]
    # text of the file
    ws = lambda: rnd.choice(["", "", " ", "  ", "\t"])
    txt, has = [], set()
    cur = None
    if rnd.random() < 0.15:
        lines.insert(rnd.randrange(len(lines) + 1), dict(k="skip"))
    for l in lines:
        if l["k"] == "block":
            txt.append(ws() + "<" + ws() + l["b"] + ws() + ">" + rnd.choice(["", " # note", "  trailing"]))
            cur = l["b"]
        elif l["k"] == "set":
            txt.append(ws() + l["n"] + ws() + "=" + ws() + l["v"] + ws() + rnd.choice(["", "", "# note = 3", "#", " # <p>"]))
            has.add((cur, l["n"]))
        else:
            txt.append(rnd.choice(["", "   ", "# x = 9", "  # <pp>", "\t"]))
    if sc["good"]:
        cmd = [c for c in cmd if (c["b"], c["n"]) in has]
        keep = []
        for c in calls:
            if c["op"] in ("gets", "geti", "getd") and (c["b"], c["n"]) not in has:
                continue
            if c["op"].startswith("set") or c["op"].endswith("def"):
                has.add((c["b"], c["n"]))
            keep.append(c)
        calls = keep
    # how the integer reader sees a value stored by a floating-point routine depends on the format it was stored in
    fl, keep = set(), []
    for c in calls:
        key = (c["b"], c["n"])
        if c["op"] in ("geti", "getidef") and key in fl:
            continue
        if c["op"] in ("getddef", "setd"):
            fl.add(key)
        keep.append(c)
    calls = keep
    base = mesh.athinput("par", [dict(level=0, nx=[12, 1, 1], disp=[0, 0, 0])], 1, np=max(np, 1), time=dict(cour_no=0.5, nlim=0, tlim=0.0),
                         problem=dict(iso_csound=1.0))
    if rnd.random() < 0.3:
        base += "<par_end>\n<p>\nx = 1\n"
    d = vf.sub("p%d" % i)
    sep = "|"
    scn = "".join(sep.join([c["op"], c["b"], c["n"], c["v"]]) + "\n" for c in calls)
    args = ["%s/%s=%s" % (c["b"], c["n"], c["v"]) for c in cmd]
    if rnd.random() < 0.3:
        args.insert(0, "time/nlim=0")
    rec = dict(id=i, np=np, lines=[{k: l.get(k, "") for k in ("k", "b", "n", "v")} for l in lines], cmd=cmd, calls=calls, _txt=txt,
               _args=args, _bad=None, db=[], db2=[], ans=[], err=False)

    def go(inp, args, scn, first, tag):
        r = vf.run(exe["mpi" if np else "ser"], ["-i", d + "/in" + tag] + args, cwd=d, np=np, timeout=60,
                   env=dict(VF_LOG=d + "/log" + tag, VF_SCN=d + "/scn" + tag, VF_DUMP=d + "/dump" + tag, VF_FIRST=first),
                   files={"in" + tag: inp, "scn" + tag: scn})
        A = []
        for p in range(max(np, 1)):
            f = d + "/log%s.%d" % (tag, p)
            A.append([json.loads(l) for l in open(f)] if os.path.exists(f) else [])
        return r, A
    r, A = go("\n".join(txt) + "\n" + base, args, scn, 1, "")
    rec["err"] = r.rc != 0
    if r.timeout or r.rc not in (0, 1):
        rec["_bad"] = "program ended with status %s: %s" % (r.rc, r.out[-300:])
    a = max(A, key=len) if r.rc else A[0]
    if r.rc == 0 and any(x != A[0] for x in A) or any(x != a[:len(x)] for x in A):
        rec["_bad"] = "processes got different answers: %s" % A
    if any("rt-" in x for y in A for x in y):
        rec["_bad"] = "a floating-point default did not survive storage: %s" % A
    rec["ans"] = [canon(x) for x in a[1:]] + (["error"] if a and r.rc else [])
    if r.rc == 0 and not rec["_bad"]:
        D = [dump(d + "/dump.%d" % p) for p in range(max(np, 1))]
        if any(x != D[0] for x in D):
            rec["_bad"] = "processes have different data bases: %s" % D
        rec["db"] = D[0]
        r2, A2 = go(open(d + "/dump.0.txt").read(), [], "", 0, "2")
        if r2.rc or any("rt-" in x for y in A2 for x in y):
            rec["_bad"] = "reading the dump back: status %s %s %s" % (r2.rc, A2, r2.out[-200:])
        else:
            rec["db2"] = dump(d + "/dump2.0")
    return rec


recs = vf.pmap(one, list(enumerate(g.scn)), 8)
for r in recs:
    if r["_bad"] and one((r["id"], g.scn[r["id"]]))["_bad"]:
        ck.violation("session %d: %s" % (r["id"], r["_bad"]), r)
recs = [r for r in recs if not r["_bad"]]
ck.cov.update(calls=sum(len(r["ans"]) for r in recs), error_sessions=sum(r["err"] for r in recs), parallel_sessions=sum(r["np"] > 0 for r in recs))
ck.sample({k: v for k, v in recs[1].items() if k[0] != "_"})
ck.validate("Trace_ParamDB", recs, "session not explained by the specification", jobs=4)


def corrupt(r):
    if r["err"] or not r["db"] or not r["db"][-1]["p"]:
        return None
    r["db"][-1]["p"][-1][1] += "x"
    return r


ck.selftest("Trace_ParamDB", recs[:10], corrupt)
ck.assumptions = ["values contain no '#' and no surrounding white space", "lines shorter than the line buffer"]
ck.finish()
