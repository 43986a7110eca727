"""Calibration objects (calibration.c): rotation matrix, comparison."""
from optvc.registry import K
from optvc.spec import specdef, Loop
from optvc import gens

# ---------------------------------------------------------------- C04
R = ("C04",)
specdef("ortho(m) := (forall(0,3,lambda i: forall(0,3,lambda j: m[i][0]*m[j][0]+m[i][1]*m[j][1]+m[i][2]*m[j][2] == (1 if i == j else 0))))")
specdef("orthoc(m) := (forall(0,3,lambda i: forall(0,3,lambda j: m[0][i]*m[0][j]+m[1][i]*m[1][j]+m[2][i]*m[2][j] == (1 if i == j else 0))))")
specdef("det3(m) := m[0][0]*(m[1][1]*m[2][2]-m[1][2]*m[2][1]) - m[0][1]*(m[1][0]*m[2][2]-m[1][2]*m[2][0]) + m[0][2]*(m[1][0]*m[2][1]-m[1][1]*m[2][0])")


def ext_rep(g):
    return {"x0": g.real(), "y0": g.real(), "z0": g.real(), "omega": g.angle(), "phi": g.angle(), "kappa": g.angle(), "dm": [[g.real() for _ in range(3)] for _ in range(3)]}


# R = Rx(omega) Ry(phi) Rz(kappa), entry by entry
specdef("Rx(a,i,j) := (1 if i == 0 and j == 0 else (0 if i == 0 or j == 0 else (cos(a) if i == j else (-sin(a) if i == 1 else sin(a)))))")
specdef("Ry(a,i,j) := (1 if i == 1 and j == 1 else (0 if i == 1 or j == 1 else (cos(a) if i == j else (sin(a) if i == 0 else -sin(a)))))")
specdef("Rz(a,i,j) := (1 if i == 2 and j == 2 else (0 if i == 2 or j == 2 else (cos(a) if i == j else (-sin(a) if i == 0 else sin(a)))))")
specdef("RxRy(o,p,i,j) := Rx(o,i,0)*Ry(p,0,j) + Rx(o,i,1)*Ry(p,1,j) + Rx(o,i,2)*Ry(p,2,j)")
specdef("Rot(o,p,k,i,j) := RxRy(o,p,i,0)*Rz(k,0,j) + RxRy(o,p,i,1)*Rz(k,1,j) + RxRy(o,p,i,2)*Rz(k,2,j)")
K("rotation_matrix", props=R, gen=lambda g: {"Ex": ext_rep(g)}, assigns=["Ex.dm"],
  ensures=["forall(0,3,lambda i: forall(0,3,lambda j: Ex.dm[i][j] == Rot(Ex.omega, Ex.phi, Ex.kappa, i, j)))",
           "ortho(Ex.dm)", "orthoc(Ex.dm)", "det3(Ex.dm) == 1"])

# ---------------------------------------------------------------- C19 comparison
C = ("C19",)


def fields(p1, p2, names): return " and ".join("%s.%s == %s.%s" % (p1, n, p2, n) for n in names)


def cmp_contract(fn, p1, p2, eqexpr, mk, **kw):
    K(fn, props=C, gen=gens.pair(p1, p2, mk), exact=True, alias=[((p2, p1),)],
      ensures=["iff(result != 0, %s)" % eqexpr] + (["result == 0 or result == 1"] if True else []), **kw)


def int_rep(g): return {"xh": g.real(), "yh": g.real(), "cc": g.real()}
def glass_rep(g): return {"vec_x": g.real(), "vec_y": g.real(), "vec_z": g.real()}
def ap_rep(g): return {k: g.real() for k in ("k1", "k2", "k3", "p1", "p2", "scx", "she")}
def calib_rep(g): return {"ext_par": ext_rep(g), "int_par": int_rep(g), "glass_par": glass_rep(g), "added_par": ap_rep(g),
                          "mmlut": {"origin": [0.0, 0.0, 0.0], "nr": 0, "nz": 0, "rw": 0, "data": None}}


EXTF = ["x0", "y0", "z0", "omega", "phi", "kappa"] + ["dm[%d][%d]" % (i, j) for i in range(3) for j in range(3)]
INTF, GLF, APF = ["xh", "yh", "cc"], ["vec_x", "vec_y", "vec_z"], ["k1", "k2", "k3", "p1", "p2", "scx", "she"]
cmp_contract("compare_exterior", "e1", "e2", fields("e1", "e2", EXTF), ext_rep)
cmp_contract("compare_interior", "i1", "i2", fields("i1", "i2", INTF), int_rep)
cmp_contract("compare_glass", "g1", "g2", fields("g1", "g2", GLF), glass_rep)
cmp_contract("compare_addpar", "a1", "a2", fields("a1", "a2", APF), ap_rep)
ALLF = ["ext_par." + f for f in EXTF] + ["int_par." + f for f in INTF] + ["glass_par." + f for f in GLF] + ["added_par." + f for f in APF]
K("compare_calib", props=C, gen=gens.pair("c1", "c2", calib_rep, ("mmlut",)), exact=True, alias=[(("c2", "c1"),)],
  shapes={"c1.mmlut.data": "0", "c2.mmlut.data": "0"}, ensures=["iff(result != 0, %s)" % fields("c1", "c2", ALLF), "result == 0 or result == 1"])
