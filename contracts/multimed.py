"""Refraction: frame change, radial shift, lookup table (multimed.c)."""
from optvc.registry import K
from optvc.spec import specdef, specfun, Loop
from optvc import gens
import math, z3
from optvc import terms as T


def uf(name, args):
    return z3.Function(name, *([z3.RealSort()]*(len(args) + 1)))(*[T.z(T.to_real(x)) for x in args])


P = ("C06",)
specdef("gvec(gl,i) := gl.vec_x if i == 0 else (gl.vec_y if i == 1 else gl.vec_z)")
specdef("gln(gl) := sqrt(sq(gl.vec_x)+sq(gl.vec_y)+sq(gl.vec_z))")
specdef("gl_ok(gl) := gl.vec_x != 0 or gl.vec_y != 0 or gl.vec_z != 0")
specdef("ppt(ex,i) := ex.x0 if i == 0 else (ex.y0 if i == 1 else ex.z0)")
# signed height of a point above the glass origin plane, times |glass|
specdef("gdotp(gl, p) := gl.vec_x*p[0] + gl.vec_y*p[1] + gl.vec_z*p[2]")
specdef("gdotc(gl, ex) := gl.vec_x*ex.x0 + gl.vec_y*ex.y0 + gl.vec_z*ex.z0")
# the component across the normal of pos - primary point
specdef("across(ex, gl, p, i) := p[i] - ppt(ex,i) - gvec(gl,i)*(gdotp(gl,p) - gdotc(gl,ex))/(gln(gl)*gln(gl))")


def g_trans(g):
    c = gens.look_cal(g)
    p = [g.r.uniform(-100, 100), g.r.uniform(-100, 100), g.r.uniform(-100, 30)]
    if g.r.random() < 0.15:      # the point on the camera axis
        gl, e = c["glass_par"], c["ext_par"]
        k = g.r.uniform(-1, 1)
        p = [e["x0"] + k * gl["vec_x"], e["y0"] + k * gl["vec_y"], e["z0"] + k * gl["vec_z"]]
    return {"ex": c["ext_par"], "mm": gens.mm(g, nlay=g.choice([1, 1, 2])), "gl": c["glass_par"], "pos": p}


A3 = "forall(0,3,lambda i: %s)"
TMP = "(cross_p[i] - (cross_c[i] - gvec(gl,i)*mm.d[0]/gln(gl)))"
G = "wit('gn')"
K("trans_Cam_Point", props=P, gen=g_trans, shapes={"pos": "3", "pos_t": "3", "cross_p": "3", "cross_c": "3"}, check_div=False,
  assigns=["ex_t.x0", "ex_t.y0", "ex_t.z0", "pos_t[0:3]", "cross_p[0:3]", "cross_c[0:3]"], guard=["gl_ok(gl)"], tol=1e-8,
  cuts=[("=dist_o_glas#1", "dist_o_glas == gln(gl)"), ("=dist_o_glas#1", "dist_o_glas > 0"),
        ("=dist_o_glas#1", "dist_o_glas*dist_o_glas == gl.vec_x*gl.vec_x + gl.vec_y*gl.vec_y + gl.vec_z*gl.vec_z"),
        ("=dist_o_glas#1", {"gn": "dist_o_glas"}),
        ("vec_subt#4", {"t0": "temp[0]", "t1": "temp[1]", "t2": "temp[2]"}),
        ("vec_subt#4", A3 % "temp[i]*gn*gn == (pos[i] - ppt(ex,i))*gn*gn - gvec(gl,i)*(gdotp(gl,pos) - gdotc(gl,ex))"),
        ("vec_subt#4", A3 % "temp[i] == across(ex, gl, pos, i)")],
  ensures=["ex_t.x0 == 0", "ex_t.y0 == 0", "ex_t.z0 == gdotc(gl,ex)/gln(gl) - gln(gl)",
           "pos_t[2] == gdotp(gl,pos)/gln(gl) - gln(gl)", "pos_t[1] == 0", "pos_t[0] >= 0",
           A3 % ("cross_p[i] == pos[i] - gvec(gl,i)*pos_t[2]/gln(gl)"),
           A3 % ("cross_c[i] == ppt(ex,i) - gvec(gl,i)*(ex_t.z0 - mm.d[0])/gln(gl)"),
           # distance across the normal, and the same vector as back_trans_Point reconstructs it
           A3 % (TMP + " == across(ex, gl, pos, i)"),
           "pos_t[0] == sqrt(sq(across(ex,gl,pos,0)) + sq(across(ex,gl,pos,1)) + sq(across(ex,gl,pos,2)))",
           "pos_t[0]*pos_t[0] == sq(across(ex,gl,pos,0)) + sq(across(ex,gl,pos,1)) + sq(across(ex,gl,pos,2))",
           "sq(pos_t[0]) + sq(pos_t[2] - ex_t.z0) == sq(pos[0]-ex.x0) + sq(pos[1]-ex.y0) + sq(pos[2]-ex.z0)"])


def g_back(g):
    d = g_trans(g)
    return {"mm": d["mm"], "G": d["gl"], "pos_t": [g.r.uniform(0, 50), 0.0, g.r.uniform(-50, 10)], "cross_p": g.vec(50), "cross_c": g.vec(50)}


BT = "(cross_p[i] - cross_c[i] + gvec(G,i)*mm.d[0]/gln(G))"
BN = "sqrt(sq(cross_p[0] - cross_c[0] + G.vec_x*mm.d[0]/gln(G)) + sq(cross_p[1] - cross_c[1] + G.vec_y*mm.d[0]/gln(G)) + sq(cross_p[2] - cross_c[2] + G.vec_z*mm.d[0]/gln(G)))"
K("back_trans_Point", props=P, gen=g_back, shapes={"pos": "3", "pos_t": "3", "cross_p": "3", "cross_c": "3"}, check_div=False, assigns=["pos[0:3]"], guard=["gl_ok(G)"], tol=1e-8,
  cuts=[("=nGl#1", "nGl == gln(G)"), ("=nGl#1", "nGl > 0"), ("=nVe#1", A3 % ("temp[i] == " + BT)), ("=nVe#1", "nVe == " + BN)],
  ensures=["imp(%s > 0, %s)" % (BN, A3 % ("pos[i] == cross_c[i] - gvec(G,i)*mm.d[0]/gln(G) + gvec(G,i)*pos_t[2]/gln(G) + %s*pos_t[0]/%s" % (BT, BN))),
           "imp(%s == 0, %s)" % (BN, A3 % "pos[i] == cross_c[i] - gvec(G,i)*mm.d[0]/gln(G) + gvec(G,i)*pos_t[2]/gln(G)")])
BTl, BNl = BT.replace("G,", "gl,").replace("(G)", "(gl)"), BN.replace("G.", "gl.").replace("(G)", "(gl)")
AG = "(a0 if i == 0 else (a1 if i == 1 else a2))"
K("lemma_trans_back", props=P, gen=g_trans, shapes={"pos": "3", "out": "3"}, check_div=False, assigns=["out[0:3]"], guard=["gl_ok(gl)"], tol=1e-8,
  cuts=[("back_trans_Point#1", "gln(gl) > 0"), ("back_trans_Point#1", A3 % (BTl + " == across(ex, gl, pos, i)")),
        ("back_trans_Point#1", BNl + " == pos_t[0]", [A3 % (BTl + " == across(ex, gl, pos, i)"), "pos_t[0] == sqrt(sq(across(ex,gl,pos,0)) + sq(across(ex,gl,pos,1)) + sq(across(ex,gl,pos,2)))"]),
        ("back_trans_Point#1", {"a0": "across(ex,gl,pos,0)", "a1": "across(ex,gl,pos,1)", "a2": "across(ex,gl,pos,2)", "n": "pos_t[0]", "h": "pos_t[2]/gln(gl)"}),
        ("back_trans_Point#1", "n == sqrt(sq(a0)+sq(a1)+sq(a2))"),
        ("back_trans_Point#1", A3 % ("cross_c[i] - gvec(gl,i)*mm.d[0]/gln(gl) == pos[i] - gvec(gl,i)*h - %s" % AG)),
        ("back_trans_Point#1", A3 % ("imp(n > 0, out[i] == cross_c[i] - gvec(gl,i)*mm.d[0]/gln(gl) + gvec(gl,i)*h + %s*n/n)" % AG)),
        ("back_trans_Point#1", A3 % ("imp(n == 0, out[i] == cross_c[i] - gvec(gl,i)*mm.d[0]/gln(gl) + gvec(gl,i)*h)")),
        ("back_trans_Point#1", "n*n == a0*a0+a1*a1+a2*a2", ["def n", "def a0", "def a1", "def a2", "pos_t[0]*pos_t[0] == sq(across(ex,gl,pos,0)) + sq(across(ex,gl,pos,1)) + sq(across(ex,gl,pos,2))"]),
        ("back_trans_Point#1", "imp(n == 0, a0 == 0 and a1 == 0 and a2 == 0)", ["n*n == a0*a0+a1*a1+a2*a2"]),
        ("back_trans_Point#1", "n >= 0")],
  ensures=[A3 % "out[i] == pos[i]"])
K("move_along_ray", props=P, shapes={"vertex": "3", "direct": "3", "out": "3"}, check_div=False, assigns=["out[0:3]"], guard=["direct[2] != 0"], alias=[(("out", "vertex"),)],
  ensures=["out[2] == glob_Z", "forall(0,2,lambda i: (out[i] - old(vertex[i]))*direct[2] == (glob_Z - old(vertex[2]))*direct[i])"])

# ------------------------------------------------------------------ C07: reading the table
L = ("C07",)
MML = "cal.mmlut."
SHL = {"cal.mmlut.data": "cal.mmlut.nr x cal.mmlut.nz", "pos": "3"}
specdef("lut_r(m, p) := sqrt(sq(p[0]-m.origin[0]) + sq(p[1]-m.origin[1]))/m.rw")
specdef("lut_z(m, p) := (p[2]-m.origin[2])/m.rw")
specdef("lut_in(m, p) := lut_r(m,p) < m.nr - 1 and lut_z(m,p) >= 0 and lut_z(m,p) < m.nz - 1")
specdef("blend(a, b, c, d, u, v) := a*(1-u)*(1-v) + b*(1-u)*v + c*u*(1-v) + d*u*v")
specdef("lut_at(m, i, j) := m.data[i*m.nz + j]")
specdef("lut_blend(m, i, j, u, v) := blend(lut_at(m,i,j), lut_at(m,i,j+1), lut_at(m,i+1,j), lut_at(m,i+1,j+1), u, v)")
specdef("lut_val(m, p) := lut_blend(m, trunc(lut_r(m,p)), trunc(lut_z(m,p)), lut_r(m,p) - trunc(lut_r(m,p)), lut_z(m,p) - trunc(lut_z(m,p)))")
specdef("lut_ok(m) := m.rw > 0 and m.nr >= 0 and m.nz >= 0 and m.nr*m.nz <= 2147483647")


def g_lut(g, maxn=6):
    nr, nz = g.int(0, maxn), g.int(0, maxn)
    if g.r.random() < 0.6: nr, nz = nr + 2, nz + 2
    return {"origin": [g.r.uniform(-20, 20), g.r.uniform(-20, 20), g.r.uniform(-50, 0)], "nr": nr, "nz": nz, "rw": g.choice([2, 2, 1, 3]),
            "data": [g.r.uniform(0.6, 1.2) for _ in range(nr * nz)]}


def g_getmmf(g):
    c = gens.look_cal(g)
    m = c["mmlut"] = g_lut(g)
    k = g.choice(["in", "edge", "near", "far"])
    o, rw, nr, nz = m["origin"], m["rw"], m["nr"], m["nz"]
    if k == "edge": i, j = g.choice([0, nr - 2, nr - 1, nr, nr + 1]) + g.choice([0.25, 0.5]), g.choice([-0.5, 0, nz - 2, nz - 1, nz, nz + 1]) + g.choice([0.25, 0.5])
    elif k == "in": i, j = g.r.uniform(0, max(nr - 1, 0)), g.r.uniform(0, max(nz - 1, 0))
    elif k == "near": i, j = g.r.uniform(-1, nr + 2), g.r.uniform(-2, nz + 2)
    else: i, j = g.r.uniform(0, 1e7), g.r.uniform(-1e7, 1e7)
    a = g.r.uniform(0, 6.28)
    i = abs(i)
    return {"cal": c, "pos": [o[0] + rw * i * math.cos(a), o[1] + rw * i * math.sin(a), o[2] + rw * j]}


I0, J0 = "trunc(lut_r(cal.mmlut,pos))", "trunc(lut_z(cal.mmlut,pos))"
FOUR = ["lut_at(cal.mmlut,%s,%s)" % (a, b) for a, b in (("I", "J"), ("I", "J+1"), ("I+1", "J"), ("I+1", "J+1"))]
def minmax(lo, op): return "imp(lut_in(cal.mmlut,pos), forall(0,1,lambda q: imp(%s, result %s b_)))"
CORN = ", ".join("lut_at(cal.mmlut,%s,%s)" % (a, b) for a in (I0, I0 + "+1") for b in (J0, J0 + "+1"))
K("get_mmf_from_mmlut", props=L, gen=g_getmmf, shapes=SHL, requires=["lut_ok(cal.mmlut)"], tol=1e-8,
  ensures=["imp(not lut_in(cal.mmlut,pos), result == 0)", "imp(lut_in(cal.mmlut,pos), result == lut_val(cal.mmlut,pos))",
           "imp(lut_in(cal.mmlut,pos), min(%s) <= result and result <= max(%s))" % (CORN, CORN)])

# ------------------------------------------------------------------ C06: the radial shift
specdef("one_medium(mm) := mm.n1 == 1 and mm.nlay == 1 and mm.n2[0] == 1 and mm.n3 == 1")
specdef("mm_ok(mm) := 1 <= mm.nlay and mm.nlay <= 3")
specdef("mm_opt(mm) := mm.n1 > 0 and mm.n3 >= mm.n1 and mm.n2[0] >= mm.n1 and imp(mm.nlay > 1, mm.n2[1] >= mm.n1) and imp(mm.nlay > 2, mm.n2[2] >= mm.n1)")
specdef("inc(q, z0, Z) := atan(q/(z0 - Z))")
specdef("refa(b, n, m) := asin(sin(b)*n/m)")
specdef("mm_zout(mm, Z) := Z + (mm.d[1] if mm.nlay > 1 else 0) + (mm.d[2] if mm.nlay > 2 else 0)")
# radius, on the level of the point, of the ray that starts straight towards radius q
specdef("mm_rb(mm, b, z0, Z) := (z0 - mm.d[0])*tan(b) - mm_zout(mm,Z)*tan(refa(b,mm.n1,mm.n3)) + mm.d[0]*tan(refa(b,mm.n1,mm.n2[0]))"
        " + (mm.d[1]*tan(refa(b,mm.n1,mm.n2[1])) if mm.nlay > 1 else 0) + (mm.d[2]*tan(refa(b,mm.n1,mm.n2[2])) if mm.nlay > 2 else 0)")
specdef("rad(ex, p) := sqrt(sq(p[0]-ex.x0)+sq(p[1]-ex.y0))")


def solve_shift(mm, z0, r, Z):
    """reference solution of the refraction condition (bisection), None if it has none"""
    if r == 0: return 1.0
    n1, n2, n3, d, nl = mm["n1"], mm["n2"], mm["n3"], mm["d"], mm["nlay"]
    zout = Z + sum(d[1:nl])
    def rb(q):
        b = math.atan(q / (z0 - Z))
        s = math.sin(b) * n1
        return (z0 - d[0]) * math.tan(b) - zout * math.tan(math.asin(s / n3)) + sum(d[i] * math.tan(math.asin(s / n2[i])) for i in range(nl))
    lo, hi = 0.0, r
    for _ in range(60):
        if rb(hi) >= r: break
        hi *= 1.5
    else: return None
    for _ in range(100):
        m = (lo + hi) / 2
        if rb(m) < r: lo = m
        else: hi = m
    return hi / r


def rep_of(v): return v._node()


@specfun
def shift_ref(e, mm, z0, r, Z):
    from optvc.crep import UNK
    if not (z0 > Z): return UNK
    try:
        k = solve_shift(rep_of(mm), z0, r, Z)
    except (ValueError, ZeroDivisionError):
        return UNK
    return UNK if k is None else k


def g_rnlay(g):
    c = {"ext_par": {"x0": g.choice([0.0, g.r.uniform(-5, 5)]), "y0": g.choice([0.0, g.r.uniform(-5, 5)]), "z0": g.r.uniform(60, 400), "omega": 0.0, "phi": 0.0, "kappa": 0.0,
                     "dm": gens.rot(0, 0, 0)}, "int_par": {"xh": 0.0, "yh": 0.0, "cc": 70.0}, "glass_par": {"vec_x": 0.0, "vec_y": 0.0, "vec_z": 10.0},
         "added_par": gens.addpar(g, "none"), "mmlut": {"origin": [0.0, 0.0, 0.0], "nr": 0, "nz": 0, "rw": 0, "data": None}}
    m = gens.mm(g, nlay=g.choice([1, 1, 2, 3]))
    p = [c["ext_par"]["x0"] + g.choice([0.0, g.r.uniform(-80, 80)]), c["ext_par"]["y0"] + g.choice([0.0, g.r.uniform(-80, 80)]), g.r.uniform(-120, -1)]
    k = g.choice(["none", "none", "lut"])
    if k == "lut":
        c["mmlut"] = g_lut(g)
        if g.r.random() < 0.7: c["mmlut"]["origin"] = [p[0] - g.r.uniform(0, 8), p[1] - g.r.uniform(0, 8), p[2] - g.r.uniform(0, 8)]
        for q in range(len(c["mmlut"]["data"])):
            if g.r.random() < 0.05: c["mmlut"]["data"] = [0.0] * len(c["mmlut"]["data"]); break
    return {"cal": c, "mm": m, "pos": p}


Q0 = "(wit('rq') - wit('rdiff'))"
ITER = "not one_medium(mm) and (isnull(cal.mmlut.data) or not (lut_in(cal.mmlut,pos) and lut_val(cal.mmlut,pos) > 0))"
K("multimed_r_nlay", props=P, gen=g_rnlay, shapes=dict(SHL, **{"cal.mmlut.data": "cal.mmlut.nr x cal.mmlut.nz ?"}), check_div=False, tol=1e-8,
  requires=["mm_ok(mm)", "imp(not isnull(cal.mmlut.data), lut_ok(cal.mmlut))"], guard=["mm_opt(mm)"],
  loops=[Loop("i >= 1", "i <= 3", unroll=3), Loop("0 <= it", "it < n_iter", decreases="n_iter - it"), Loop(unroll=4), Loop(unroll=4)],
  ensures=["imp(one_medium(mm), result == 1)",
           "imp(not one_medium(mm) and not isnull(cal.mmlut.data) and lut_in(cal.mmlut,pos) and lut_val(cal.mmlut,pos) > 0, result == lut_val(cal.mmlut,pos))",
           "imp((%s) and rad(cal.ext_par,pos) == 0, result == 1)" % ITER,
           "imp((%s), result == 1 or (result*rad(cal.ext_par,pos) == %s + rad(cal.ext_par,pos) - mm_rb(mm, inc(%s,cal.ext_par.z0,pos[2]), cal.ext_par.z0, pos[2])"
           " and abs(rad(cal.ext_par,pos) - mm_rb(mm, inc(%s,cal.ext_par.z0,pos[2]), cal.ext_par.z0, pos[2])) <= 0.001))" % (ITER, Q0, Q0, Q0)],
  rac_ensures=["imp((%s) and pos[2] < 0 and cal.ext_par.z0 > 50, near(result*rad(cal.ext_par,pos), shift_ref(mm, cal.ext_par.z0, rad(cal.ext_par,pos), pos[2])*rad(cal.ext_par,pos), 0.004))" % ITER])


@specfun
def RS(e, ex, mm, p):
    """the value computed by the refraction iteration (a function symbol: the computation is deterministic)"""
    if not e.symbolic: return shift_ref(e, mm, ex.z0, RADC(e, ex, p), p[2])
    a = [ex.x0, ex.y0, ex.z0, mm.n1, mm.n3, mm.n2[0], mm.n2[1], mm.n2[2], mm.d[0], mm.d[1], mm.d[2], mm.nlay, p[0], p[1], p[2]]
    return uf("RS", a)


def RADC(e, ex, p):
    from optvc.crep import UNK
    v = [ex.x0, ex.y0, p[0], p[1]]
    if any(x is UNK for x in v): return UNK
    return math.hypot(v[2] - v[0], v[3] - v[1])


from optvc.registry import CONTRACTS
CONTRACTS["multimed_r_nlay"].ens_assumed = ["imp(%s, result == RS(cal.ext_par, mm, pos))" % ITER]
specdef("shift(cal, mm, p) := 1 if one_medium(mm) else (RS(cal.ext_par, mm, p) if isnull(cal.mmlut.data) else (lut_val(cal.mmlut,p) if lut_in(cal.mmlut,p) and lut_val(cal.mmlut,p) > 0 else RS(cal.ext_par, mm, p)))")
K("multimed_nlay", props=P, gen=g_rnlay, shapes=dict(SHL, **{"cal.mmlut.data": "cal.mmlut.nr x cal.mmlut.nz ?"}), assigns=["Xq[0]", "Yq[0]"], tol=1e-8,
  requires=["mm_ok(mm)", "imp(not isnull(cal.mmlut.data), lut_ok(cal.mmlut))"], guard=["mm_opt(mm)"],
  ensures=["Xq[0] == cal.ext_par.x0 + (pos[0] - cal.ext_par.x0)*shift(cal, mm, pos)", "Yq[0] == cal.ext_par.y0 + (pos[1] - cal.ext_par.y0)*shift(cal, mm, pos)"],
  rac_ensures_only=True,
  rac_ensures=["imp(pos[2] < 0 and cal.ext_par.z0 > 50, near(Xq[0], cal.ext_par.x0 + (pos[0] - cal.ext_par.x0)*shift(cal, mm, pos), 0.004) and near(Yq[0], cal.ext_par.y0 + (pos[1] - cal.ext_par.y0)*shift(cal, mm, pos), 0.004))"])

# ------------------------------------------------------------------ C07: building the table
def g_vpar(g):
    a = [g.r.uniform(-60, -20), g.r.uniform(-60, -20)]
    return {"X_lay": [-40.0, 40.0], "Zmin_lay": a, "Zmax_lay": [v + g.r.uniform(0, 30) for v in a], "eps0": 0.05, "cn": 0.1, "cnx": 0.1, "cny": 0.1, "csumg": 0.1, "corrmin": 10.0}


def g_init(g):
    c = gens.look_cal(g, target=(0, 0, -20), dist=g.r.uniform(80, 150), spread=0.3)
    cp = gens.cpar(g, imx=640, imy=480)
    cp["mm"]["nlay"] = 1
    if g.r.random() < 0.2: c["mmlut"] = g_lut(g)
    return {"vpar": g_vpar(g), "cpar": cp, "cal": c}


CPS = {"cpar.img_base_name": "0", "cpar.cal_img_base_name": "0", "cpar.mm": "1"}
NODE = "forall(0, I, lambda a: forall(0, J, lambda b: D[a*nz + b] == (1 if one_medium(cpar.mm) else RS(cal_t.ext_par, cpar.mm, nodep(a, b)))))"
ET = "cal_t.ext_par.x0 == 0 and cal_t.ext_par.y0 == 0 and cal_t.ext_par.z0 == gdotc(cal.glass_par, cal.ext_par)/gln(cal.glass_par) - gln(cal.glass_par)"


class _Ex:
    def __init__(self, z): self.x0, self.y0, self.z0 = Fr(0), Fr(0), z


from fractions import Fraction as Fr


@specfun
def node_val(e, mm, z0, zmin, a, b):
    """refraction factor of the grid node (a,b): radius 2a, depth zmin+2b, camera on the axis at height z0"""
    if not e.symbolic:
        ex = _Ex(z0)
        ex.x0 = ex.y0 = 0.0
        return shift_ref(e, mm, z0, 2.0 * a, zmin + 2.0 * b)
    p = [T.mul(Fr(2), T.to_real(a)), Fr(0), T.add(T.to_real(zmin), T.mul(Fr(2), T.to_real(b)))]
    return T.Ite(T.And(*[T.cmp("==", x, y) for x, y in ((mm.n1, 1), (mm.nlay, 1), (mm.n2[0], 1), (mm.n3, 1))]), Fr(1), RS(e, _Ex(z0), mm, p))


def filled(ri, rj, cond): return "forall(0, nr, lambda a: forall(0, nz, lambda b: imp(%s, data[a*nz + b] == node_val(cpar.mm, cal_t.ext_par.z0, Zmin_t, a, b))))" % cond


def read_table(run, m, rep, post, addrs, res):
    import ctypes as C
    t = post["cal"]["mmlut"]
    d = t["data"]
    if isinstance(d, tuple):
        a = d[1]
        n = t["nr"]*t["nz"]
        t["data"] = list((C.c_double*n).from_address(a)) if 0 <= n < 10**7 else []
        from optvc.crep import LIBC
        LIBC.free(a)


ZT = "gdotc(cal.glass_par, cal.ext_par)/gln(cal.glass_par) - gln(cal.glass_par)"
ETI = "cal_t.ext_par.x0 == 0 and cal_t.ext_par.y0 == 0 and cal_t.ext_par.z0 == " + ZT
LIM = ["Rmax >= 0", "Zmin_t <= Zmin", "Zmax_t >= Zmax"]
K("init_mmlut", props=L, merge=True, keep_const_loops=True, heap={1: "nr x nz"}, name_over=12, gen=g_init, shapes=dict(CPS, **{"cal.mmlut.data": "cal.mmlut.nr x cal.mmlut.nz ?"}), check_div=False, tol=1e-8,
  assigns=["cal.mmlut.origin[0:3]", "cal.mmlut.nr", "cal.mmlut.nz", "cal.mmlut.rw", "cal.mmlut.data"],
  requires=["mm_ok(cpar.mm)", "imp(not isnull(cal.mmlut.data), lut_ok(cal.mmlut))", "vpar.Zmin_lay[0] <= vpar.Zmax_lay[0]", "cal.added_par.scx != 0", "cos(cal.added_par.she) != 0"],
  guard=["gl_ok(cal.glass_par)", "mm_opt(cpar.mm)"],
  cuts=[("fmod#3", "assume Rmax/rw + 1 < 2147483647"), ("fmod#3", "assume (Zmax_t - Zmin_t)/rw + 1 < 2147483647"), ("=nr#1", "always nr >= 1"),
        ("fmod#2", "always Zmin <= Zmax"), ("fmod#3", "always Zmin_t <= Zmax_t"), ("fmod#3", "always Rmax >= 0"), ("=nz#1", "always nz >= 1"), ("=nz#1", "assume nr*nz < 2147483648"),
        ("vec_set#2", "xyz[0] == 2*i"), ("vec_set#2", "xyz[1] == 0"), ("vec_set#2", "xyz[2] == Zmin_t + 2*j"),
        ("multimed_r_nlay#1", "imp(one_medium(cpar.mm), data[i*nz + j] == 1)"),
        ("multimed_r_nlay#1", "imp(not one_medium(cpar.mm), data[i*nz + j] == RS(cal_t.ext_par, cpar.mm, xyz))"),
        ("multimed_r_nlay#1", "data[i*nz + j] == node_val(cpar.mm, cal_t.ext_par.z0, Zmin_t, i, j)")],
  loops=[Loop("0 <= i <= 2", "guarded:imp(i > 0, %s)" % ETI, "iff(isnull(cal_t.mmlut.data), old(isnull(cal.mmlut.data)))", *LIM, decreases="2 - i"),
         Loop("0 <= j <= 2", "0 <= i < 2", "guarded:imp(i > 0 or j > 0, %s)" % ETI, "iff(isnull(cal_t.mmlut.data), old(isnull(cal.mmlut.data)))", *LIM, decreases="2 - j"),
         Loop("0 <= i <= nr", "forall(0, i, lambda q: Ri[q] == 2*q)", decreases="nr - i"),
         Loop("0 <= i <= nz", "forall(0, i, lambda q: Zi[q] == Zmin_t + 2*q)", decreases="nz - i"),
         Loop("0 <= i <= nr", "guarded:" + filled(0, 0, "a < i"), decreases="nr - i"),
         Loop("0 <= j <= nz", "0 <= i < nr", "guarded:" + filled(0, 0, "a < i or (a == i and b < j)"), decreases="nz - j")],
  ensures=["imp(old(isnull(cal.mmlut.data)), cal.mmlut.rw == 2 and cal.mmlut.nr >= 1 and cal.mmlut.nz >= 1 and cal.mmlut.origin[0] == 0 and cal.mmlut.origin[1] == 0)",
           "imp(old(isnull(cal.mmlut.data)), forall(0, cal.mmlut.nr, lambda a: forall(0, cal.mmlut.nz, lambda b: cal.mmlut.data[a*cal.mmlut.nz + b] == node_val(cpar.mm, %s, cal.mmlut.origin[2], a, b))))" % ZT,
           "imp(not old(isnull(cal.mmlut.data)), cal.mmlut.nr == old(cal.mmlut.nr) and cal.mmlut.nz == old(cal.mmlut.nz) and cal.mmlut.rw == old(cal.mmlut.rw) and forall(0,3,lambda i: cal.mmlut.origin[i] == old(cal.mmlut.origin[i])))"],
  rac_ensures_only=True, post_read=read_table,
  rac_ensures=["imp(old(isnull(cal.mmlut.data)) and %s > 50, forall(0, min(cal.mmlut.nr, 15), lambda a: forall(0, min(cal.mmlut.nz, 12), lambda b: imp(cal.mmlut.origin[2] + 2*b < 0, near(2*a*cal.mmlut.data[a*cal.mmlut.nz + b], 2*a*node_val(cpar.mm, %s, cal.mmlut.origin[2], a, b), 0.004)))))" % (ZT, ZT),
               "imp(old(isnull(cal.mmlut.data)), cal.mmlut.rw == 2 and cal.mmlut.nr >= 1 and cal.mmlut.nz >= 1 and cal.mmlut.origin[0] == 0 and cal.mmlut.origin[1] == 0)",
               "imp(not old(isnull(cal.mmlut.data)), cal.mmlut.nr == old(cal.mmlut.nr) and cal.mmlut.nz == old(cal.mmlut.nz) and cal.mmlut.rw == old(cal.mmlut.rw) and forall(0,3,lambda i: cal.mmlut.origin[i] == old(cal.mmlut.origin[i])))"])
