#!/usr/bin/env python3
"""C06: decomposition. Mesh.tla generates meshes, the real code builds them, TLC validates what it built."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, meshrun

ck = vf.Check("C06")
thorough = vf.TIER == "thorough"
exe = vf.build_many(meshrun.BUILDS)
ck.model("MC_Mesh", vf.tlc("MC_Mesh", "MC_Mesh.cfg"))
ck.model_fails("MC_MeshVac (a divided refined mesh exists)", vf.tlc("MC_Mesh", "MC_MeshVac.cfg"))
scn = meshrun.scenarios(1500 if thorough else 170)
recs = meshrun.all_runs(exe, scn)
for r in recs:
    if "_bad" in r:
        ck.violation("mesh %d: %s: %s" % (r["id"], r["_bad"], meshrun.brief(r)), r)
good = [r for r in recs if "_bad" not in r and r["accepted"]]
ck.cov["meshes"] = len(recs)
ck.cov["built"] = len(good)
ck.cov["grids"] = sum(len(r["g"]) for r in good)
ck.cov["divided"] = sum(1 for r in good if len(r["g"]) > len(r["M"]))
ck.cov["automatic"] = sum(1 for r in good if any(d["ng"][0] == 0 for d in r["M"]))
if len(good) < len(recs) // 6:
    ck.violation("most legal meshes are refused (%d of %d built)" % (len(good), len(recs)), dict(n=len(good)))
else:
    ck.sample(meshrun.brief(good[0]))
    ck.validate("Trace_Mesh", good, "the grids differ from the specification", jobs=4, env=dict(VF_PART="C06"), describe=meshrun.brief)
    multi = [r for r in good if len(r["g"]) > 1][:3]

    def corrupt(r):
        r["g"][-1]["disp"][0] += 1
        return r

    def corrupt2(r):
        g = r["g"][0]
        g["nb"][0] = g["nb"][0] + 1
        return r

    ck.selftest("Trace_Mesh", multi, corrupt, env=dict(VF_PART="C06"))
    ck.selftest("Trace_Mesh", multi, corrupt2, env=dict(VF_PART="C06"))
ck.assumptions = ["meshes of up to 5 domains on up to 3 levels and up to 6 processes", "zone sizes and origins exactly representable"]
ck.finish()
