"""Parameter structures (parameters.c)."""
from optvc.registry import K
from optvc.spec import specdef, Loop
from optvc import gens

C = ("C19",)


def fields(p1, p2, names): return " and ".join("%s.%s == %s.%s" % (p1, n, p2, n) for n in names)


TRD = ["dacc", "dangle", "dvxmax", "dvxmin", "dvymax", "dvymin", "dvzmax", "dvzmin"]
TRI = ["dsumg", "dn", "dnx", "dny", "add"]


def track_rep(g): return {**{k: g.real() for k in TRD}, **{k: g.int(0, 3) for k in TRI}}


K("compare_track_par", props=C, gen=gens.pair("t1", "t2", track_rep), exact=True, alias=[(("t2", "t1"),)],
  ensures=["iff(result != 0, %s)" % fields("t1", "t2", TRD + TRI), "result == 0 or result == 1"])

VOL = ["X_lay[0]", "X_lay[1]", "Zmin_lay[0]", "Zmin_lay[1]", "Zmax_lay[0]", "Zmax_lay[1]", "cn", "cnx", "cny", "csumg", "eps0", "corrmin"]


def vol_rep(g):
    return {"X_lay": [g.real(), g.real()], "Zmin_lay": [g.real(), g.real()], "Zmax_lay": [g.real(), g.real()], **{k: g.real() for k in VOL[6:]}}


K("compare_volume_par", props=C, gen=gens.pair("v1", "v2", vol_rep), exact=True, alias=[(("v2", "v1"),)],
  ensures=["iff(result != 0, %s)" % fields("v1", "v2", VOL), "result == 0 or result == 1"])


def mm_rep(g): return {"nlay": g.int(0, 2), "n1": g.real(), "n2": [g.real(), g.real(), g.real()], "d": [g.real(), g.real(), g.real()], "n3": g.real()}


# documented: only the first elements of n2 and d take part
K("compare_mm_np", props=C, gen=gens.pair("mm_np1", "mm_np2", mm_rep), exact=True, alias=[(("mm_np2", "mm_np1"),)],
  ensures=["iff(result != 0, %s)" % fields("mm_np1", "mm_np2", ["n2[0]", "d[0]", "nlay", "n1", "n3"]), "result == 0 or result == 1"])
TGT = ["discont"] + ["gvthres[%d]" % i for i in range(4)] + ["nnmin", "nnmax", "nxmin", "nxmax", "nymin", "nymax", "sumg_min", "cr_sz"]


def targ_rep(g):
    d = {k: g.int(0, 5) for k in TGT if "[" not in k}
    d["gvthres"] = [g.int(0, 5) for _ in range(4)]
    return d


K("compare_target_par", props=C, gen=gens.pair("targ1", "targ2", targ_rep), exact=True, alias=[(("targ2", "targ1"),)],
  ensures=["iff(result != 0, %s)" % fields("targ1", "targ2", TGT), "result == 0 or result == 1"])
