#!/usr/bin/env python3
"""C07: legality of refined meshes and links between levels, against Mesh.tla."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, meshrun

ck = vf.Check("C07")
thorough = vf.TIER == "thorough"
exe = vf.build_many(meshrun.BUILDS)
ck.model("MC_Mesh", vf.tlc("MC_Mesh", "MC_Mesh.cfg"))
ck.model_fails("MC_MeshBad (odd refined grids)", vf.tlc("MC_Mesh", "MC_MeshBad.cfg"))
scn = meshrun.scenarios(2500 if thorough else 260)
scn = [s for s in scn if len(s["M"]) > 1]
recs = meshrun.all_runs(exe, scn)
for r in recs:
    if "_bad" in r:
        ck.violation("mesh %d: %s: %s" % (r["id"], r["_bad"], meshrun.brief(r)), r)
good = [r for r in recs if "_bad" not in r]
acc = [r for r in good if r["accepted"]]
ck.cov["meshes"] = len(recs)
ck.cov["accepted"] = len(acc)
ck.cov["refused"] = len(good) - len(acc)
ck.cov["links"] = sum(len(g["kids"]) for r in acc for g in r["g"])
ck.cov["remote_links"] = sum(1 for r in acc for g in r["g"] for e in g["kids"] if e["rank"] != g["rank"])
if len(acc) < 5:
    ck.violation("legal meshes are refused (%d of %d built)" % (len(acc), len(recs)), dict(n=len(acc)))
if good:
    ck.sample([meshrun.brief(r) for r in acc[:2]])
    ck.validate("Trace_Mesh", good, "acceptance or links differ from the specification", jobs=6, env=dict(VF_PART="C07"), describe=meshrun.brief)
linked = [r for r in acc if any(e["faces"] for g in r["g"] for e in g["kids"])][:3]


def corrupt(r):
    for g in r["g"]:
        for e in g["kids"]:
            if e["faces"]:
                e["hi"][0] -= 1
                return r


def corrupt2(r):
    for g in r["g"]:
        for e in g["pars"]:
            if e["faces"]:
                e["faces"] = e["faces"][1:]
                return r


def corrupt3(r):
    r["accepted"] = False
    return r


if linked and not ck.violations:
    for c in (corrupt, corrupt2, corrupt3):
        ck.selftest("Trace_Mesh", linked, c, env=dict(VF_PART="C07"))
ck.assumptions = ["meshes of up to 5 domains on up to 3 levels and up to 6 processes", "flux-correction faces are observed as the flux buffers the links own"]
ck.finish()
