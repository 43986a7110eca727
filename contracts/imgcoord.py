"""Projection of space points into the image (imgcoord.c)."""
from optvc.registry import K
from optvc.spec import specdef, specfun, SPECFUNS
from optvc import gens, terms as T
from fractions import Fraction as Fr
import math, z3

P = ("C08",)
A3 = "forall(0,3,lambda i: %s)"


class _Ex:
    def __init__(self, z): self.x0, self.y0, self.z0 = Fr(0), Fr(0), z


def uf(name, args): return z3.Function(name, *([z3.RealSort()]*(len(args) + 1)))(*[T.z(T.to_real(x)) for x in args])


@specfun
def img_shift(e, cal, mm, r, z0, Z):
    """the refraction factor in the glass frame: 1 for a single medium, the table value inside the table, else the computed factor"""
    S, p = SPECFUNS, [r, Fr(0) if e.symbolic else 0.0, Z]
    ex = _Ex(z0)
    if not e.symbolic: ex.x0 = ex.y0 = 0.0
    f = lambda nm, *a: e.lookup(nm)(*a)
    rs = lambda: f("RS", ex, mm, p)
    m = cal.mmlut
    return e.ite(f("one_medium", mm), lambda: 1, lambda: e.ite(f("isnull", m.data), rs, lambda: e.ite(
        e.and_(lambda: f("lut_in", m, p), lambda: e.cmp(">", f("lut_val", m, p), 0)), lambda: f("lut_val", m, p), rs)))


specdef("g_z0(cal) := gdotc(cal.glass_par, cal.ext_par)/gln(cal.glass_par) - gln(cal.glass_par)")
specdef("g_Z(cal, p) := gdotp(cal.glass_par, p)/gln(cal.glass_par) - gln(cal.glass_par)")
specdef("g_r(cal, p) := sqrt(sq(across(cal.ext_par,cal.glass_par,p,0)) + sq(across(cal.ext_par,cal.glass_par,p,1)) + sq(across(cal.ext_par,cal.glass_par,p,2)))")
# the refraction-shifted point, relative to the projection centre
specdef("pshift(cal, mm, p, s, i) := p[i] - ppt(cal.ext_par,i) + (s - 1)*across(cal.ext_par, cal.glass_par, p, i)")
specdef("camk(cal, k, d0, d1, d2) := cal.ext_par.dm[0][k]*d0 + cal.ext_par.dm[1][k]*d1 + cal.ext_par.dm[2][k]*d2")
specdef("proj(cal, mm, p, s, k) := camk(cal, k, pshift(cal,mm,p,s,0), pshift(cal,mm,p,s,1), pshift(cal,mm,p,s,2))")
specdef("sfac(cal, mm, p) := img_shift(cal, mm, g_r(cal,p), g_z0(cal), g_Z(cal,p))")


@specfun
def calargs(e, cal, mm, p):
    x, i, g, a, m = cal.ext_par, cal.int_par, cal.glass_par, cal.added_par, cal.mmlut
    return ([x.x0, x.y0, x.z0] + [x.dm[r][c] for r in range(3) for c in range(3)] + [i.cc, g.vec_x, g.vec_y, g.vec_z],
            [i.xh, i.yh, a.k1, a.k2, a.k3, a.p1, a.p2, a.scx, a.she], [mm.n1, mm.n3, mm.nlay] + [mm.n2[k] for k in range(3)] + [mm.d[k] for k in range(3)],
            [p[k] for k in range(3)], [m.nr, m.nz, m.rw] + [m.origin[k] for k in range(3)])


def _proj_sym(nm, dist):
    @specfun
    def f(e, cal, mm, p):
        c, d, m, q, l = calargs(e, cal, mm, p)
        return uf(nm, c + (d if dist else []) + m + q + l)
    SPECFUNS[nm] = f
    return f


def rep_of(v): return v._node()


def conc_proj(e, cal, mm, p, which, dist):
    """reference projection in floating point"""
    from optvc.crep import UNK
    c, m = rep_of(cal), rep_of(mm)
    q = [float(p[k]) for k in range(3)]
    r = ref_project(c, m, q, dist, lambda r, z0, Z: img_shift(e, cal, mm, r, z0, Z))
    return UNK if r is None else r[which]


def ref_project(c, m, q, dist, shift):
    from optvc.crep import UNK
    ex, gl = c["ext_par"], c["glass_par"]
    P0 = [ex["x0"], ex["y0"], ex["z0"]]
    g = [gl["vec_x"], gl["vec_y"], gl["vec_z"]]
    n = math.sqrt(sum(v*v for v in g))
    if n == 0: return None
    g = [v/n for v in g]
    d = [q[k] - P0[k] for k in range(3)]
    al = sum(g[k]*d[k] for k in range(3))
    t = [d[k] - g[k]*al for k in range(3)]
    r = math.sqrt(sum(v*v for v in t))
    z0 = sum(g[k]*P0[k] for k in range(3)) - n
    Z = sum(g[k]*q[k] for k in range(3)) - n
    s = shift(r, z0, Z)
    if s is UNK: return None
    D = [d[k] + (s - 1)*t[k] for k in range(3)]
    dm = ex["dm"]
    nx, ny, de = [sum(dm[k][j]*D[k] for k in range(3)) for j in range(3)]
    if abs(de) < 1e-6: return None
    x, y = -c["int_par"]["cc"]*nx/de, -c["int_par"]["cc"]*ny/de
    if dist:
        a = c["added_par"]
        x, y = x + c["int_par"]["xh"], y + c["int_par"]["yh"]
        r2 = x*x + y*y
        k = a["k1"]*r2 + a["k2"]*r2**2 + a["k3"]*r2**3
        bx = x + x*k + a["p1"]*(r2 + 2*x*x) + 2*a["p2"]*x*y
        by = y + y*k + a["p2"]*(r2 + 2*y*y) + 2*a["p1"]*x*y
        x, y = a["scx"]*bx - math.sin(a["she"])*by, math.cos(a["she"])*by
    return x, y


for _nm, _w, _d in (("FX", 0, False), ("FY", 1, False), ("PX", 0, True), ("PY", 1, True)):
    def _mk(nm, w, d):
        def f(e, cal, mm, p):
            if not e.symbolic: return conc_proj(e, cal, mm, p, w, d)
            c, dd, m, q, l = calargs(e, cal, mm, p)
            return uf(nm, c + (dd if d else []) + m + q + l)
        f.__name__ = nm
        specfun(f)
    _mk(_nm, _w, _d)


def g_img(g):
    c = gens.look_cal(g, target=(0, 0, -20), dist=g.r.uniform(80, 250), spread=0.3)
    m = gens.mm(g, nlay=g.choice([1, 1, 1, 2]))
    p = [g.r.uniform(-30, 30), g.r.uniform(-30, 30), g.r.uniform(-40, 5)]
    if g.r.random() < 0.15:
        gl, e = c["glass_par"], c["ext_par"]
        k = -g.r.uniform(60, 300)/gl["vec_z"]
        p = [e["x0"] + k*gl["vec_x"], e["y0"] + k*gl["vec_y"], e["z0"] + k*gl["vec_z"]]
    return {"cal": c, "mm": m, "pos": p, "orig_pos": p}


LSH = {"cal.mmlut.data": "cal.mmlut.nr x cal.mmlut.nz ?"}
LREQ = ["mm_ok(mm)", "imp(not isnull(cal.mmlut.data), lut_ok(cal.mmlut))"]
XF = "%s[0] == -cal.int_par.cc*proj(cal,mm,orig_pos,sfac(cal,mm,orig_pos),%d)/proj(cal,mm,orig_pos,sfac(cal,mm,orig_pos),2)"
AC = "across(cal.ext_par, cal.glass_par, orig_pos, i)"
TI = "(t0 if i == 0 else (t1 if i == 1 else t2))"
BTi = "(cross_p[i] - cross_c[i] + gvec(cal.glass_par,i)*mm.d[0]/gln(cal.glass_par))"
BN = "sqrt(" + " + ".join("sq(cross_p[%d] - cross_c[%d] + cal.glass_par.vec_%s*mm.d[0]/gln(cal.glass_par))" % (k, k, "xyz"[k]) for k in range(3)) + ")"
B0 = "cross_c[i] - gvec(cal.glass_par,i)*mm.d[0]/gn + gvec(cal.glass_par,i)*Z/gn"
BTP = "imp(%s > 0, %s)" % (BN, A3 % ("pos[i] == cross_c[i] - gvec(cal.glass_par,i)*mm.d[0]/gln(cal.glass_par) + gvec(cal.glass_par,i)*pos_t[2]/gln(cal.glass_par) + %s*pos_t[0]/%s" % (BTi, BN)))
K("flat_image_coord", props=P, gen=g_img, shapes=dict(LSH, orig_pos="3"), assigns=["x[0]", "y[0]"], check_div=False, tol=1e-8,
  requires=LREQ, guard=["gl_ok(cal.glass_par)", "mm_opt(mm)"],
  cuts=[("trans_Cam_Point#1", {"t0": "across(cal.ext_par,cal.glass_par,orig_pos,0)", "t1": "across(cal.ext_par,cal.glass_par,orig_pos,1)", "t2": "across(cal.ext_par,cal.glass_par,orig_pos,2)",
                               "r": "pos_t[0]", "Z": "pos_t[2]", "gn": "gln(cal.glass_par)", "z0": "cal_t.ext_par.z0"}),
        ("trans_Cam_Point#1", "gn > 0"), ("trans_Cam_Point#1", "r >= 0"), ("trans_Cam_Point#1", "r == g_r(cal, orig_pos)"), ("trans_Cam_Point#1", "z0 == g_z0(cal)"), ("trans_Cam_Point#1", "Z == g_Z(cal,orig_pos)"),
        ("trans_Cam_Point#1", A3 % (BTi + " == " + TI)),
        ("trans_Cam_Point#1", "r*r == t0*t0+t1*t1+t2*t2"), ("trans_Cam_Point#1", "imp(r == 0, t0 == 0 and t1 == 0 and t2 == 0)", ["r*r == t0*t0+t1*t1+t2*t2"]),
        ("multimed_nlay#1", {"s": "shift(cal_t, mm, pos_t)"}),
        ("multimed_nlay#1", "X_t == r*s"), ("multimed_nlay#1", "Y_t == 0"),
        ("multimed_nlay#1", "s == sfac(cal, mm, orig_pos)", ["def s", "r == g_r(cal, orig_pos)", "z0 == g_z0(cal)", "Z == g_Z(cal,orig_pos)", "pos_t[0] == r", "pos_t[1] == 0", "pos_t[2] == Z", "z0 == cal_t.ext_par.z0", "cal_t.ext_par.x0 == 0", "cal_t.ext_par.y0 == 0"]),
        ("back_trans_Point#1", BN + " == r"),
        ("back_trans_Point#1", A3 % ("imp(r > 0, pos[i] == cross_c[i] - gvec(cal.glass_par,i)*mm.d[0]/gn + gvec(cal.glass_par,i)*Z/gn + %s*(r*s)/r)" % TI),
         [BN + " == r", A3 % (BTi + " == " + TI), BTP, "pos_t[0] == r*s", "pos_t[2] == Z", "gn == gln(cal.glass_par)", "gn > 0"]),
        ("back_trans_Point#1", A3 % ("imp(r == 0, pos[i] == cross_c[i] - gvec(cal.glass_par,i)*mm.d[0]/gn + gvec(cal.glass_par,i)*Z/gn)")),
        ("back_trans_Point#1", A3 % ("cross_c[i] - gvec(cal.glass_par,i)*mm.d[0]/gn + gvec(cal.glass_par,i)*Z/gn + %s == orig_pos[i]" % TI)),
        ("back_trans_Point#1", A3 % ("pos[i] == orig_pos[i] + (s - 1)*%s" % TI),
         ["r >= 0", "imp(r == 0, t0 == 0 and t1 == 0 and t2 == 0)", A3 % ("imp(r > 0, pos[i] == %s + %s*(r*s)/r)" % (B0, TI)), A3 % ("imp(r == 0, pos[i] == %s)" % B0), A3 % ("%s + %s == orig_pos[i]" % (B0, TI))]),
        ("back_trans_Point#1", A3 % ("pos[i] - ppt(cal.ext_par,i) == pshift(cal, mm, orig_pos, sfac(cal,mm,orig_pos), i)")),
        ("=deno#1", "deno == proj(cal,mm,orig_pos,sfac(cal,mm,orig_pos),2)")],
  ensures=[XF % ("x", 0), XF % ("y", 1)], ens_assumed=["x[0] == FX(cal,mm,orig_pos)", "y[0] == FY(cal,mm,orig_pos)"],
  rac_ensures_only=True, rac_ensures=["imp(g_z0(cal) > 30 and g_Z(cal,orig_pos) < 0, near(x[0], FX(cal,mm,orig_pos), 0.01) and near(y[0], FY(cal,mm,orig_pos), 0.01))",
                                      "imp(one_medium(mm), near(x[0], FX(cal,mm,orig_pos), 1e-7) and near(y[0], FY(cal,mm,orig_pos), 1e-7))"])
K("img_coord", props=P, gen=g_img, shapes=dict(LSH, pos="3"), assigns=["x[0]", "y[0]"], tol=1e-8, requires=LREQ,
  ensures=["x[0] == specdist_x(FX(cal,mm,pos) + cal.int_par.xh, FY(cal,mm,pos) + cal.int_par.yh, cal.added_par)",
           "y[0] == specdist_y(FX(cal,mm,pos) + cal.int_par.xh, FY(cal,mm,pos) + cal.int_par.yh, cal.added_par)"],
  ens_assumed=["x[0] == PX(cal,mm,pos)", "y[0] == PY(cal,mm,pos)"],
  rac_ensures_only=True, rac_requires=["gl_ok(cal.glass_par)", "mm_opt(mm)"],
  rac_ensures=["imp(g_z0(cal) > 30 and g_Z(cal,pos) < 0, near(x[0], PX(cal,mm,pos), 0.015) and near(y[0], PY(cal,mm,pos), 0.015))",
               "imp(one_medium(mm), near(x[0], PX(cal,mm,pos), 1e-6) and near(y[0], PY(cal,mm,pos), 1e-6))"])
