"""Pixel / metric / flat image coordinates (trafo.c)."""
from optvc.registry import K
from optvc.spec import specdef, specfun, Loop
from optvc import terms as T
import z3


def uf(name, args): return z3.Function(name, *([z3.RealSort()]*(len(args) + 1)))(*[T.z(T.to_real(x)) for x in args])


# ----------------------------------------------------------------- C01
P = ("C01",)
specdef("y_line(yp, mode) := (2*yp + 1) if mode == 1 else ((2*yp) if mode == 2 else yp)")
specdef("px2mx(xp, imx, px) := (xp - imx/2)*px")
specdef("px2my(yp, imy, py, mode) := (imy/2 - y_line(yp, mode))*py")
specdef("mx2px(xm, imx, px) := xm/px + imx/2")
specdef("my2px(ym, imy, py, mode) := ((imy/2 - ym/py - 1)/2) if mode == 1 else (((imy/2 - ym/py)/2) if mode == 2 else (imy/2 - ym/py))")


def g_old(out, inp):
    def gen(g):
        d = {"im_size_x": g.int(1, 4000), "im_size_y": g.int(1, 4000), "pix_size_x": g.pos(0.001, 0.1), "pix_size_y": g.pos(0.001, 0.1),
             "y_remap_mode": g.choice([0, 1, 2, 0, 1, 2, 3, -1])}
        for k in inp: d[k] = g.real(2000.0)
        return d
    return gen


def g_cpar_rep(g, ncam=None):
    n = ncam or g.int(1, 4)
    return {"num_cams": n, "img_base_name": None, "cal_img_base_name": None, "hp_flag": g.int(0, 1), "allCam_flag": g.int(0, 1), "tiff_flag": 1,
            "imx": g.choice([1, 2, 7, 640, 1024, 1280, g.int(8, 4000)]), "imy": g.choice([1, 2, 7, 480, 1024, g.int(8, 4000)]),
            "pix_x": g.pos(0.001, 0.05), "pix_y": g.pos(0.001, 0.05), "chfield": g.choice([0, 1, 2]),
            "mm": {"nlay": 1, "n1": 1.0, "n2": [g.choice([1.0, g.pos(1.0, 1.7)]), 1.0, 1.0], "d": [g.pos(0.1, 10), 0.0, 0.0], "n3": g.choice([1.0, 1.33, g.pos(1.0, 1.6)])}}


CP_SHAPES = {"parameters": "1"}
K("old_pixel_to_metric", props=P, gen=g_old(None, ("x_pixel", "y_pixel")), assigns=["x_metric[0]", "y_metric[0]"],
  ensures=["x_metric[0] == px2mx(x_pixel, im_size_x, pix_size_x)", "y_metric[0] == px2my(y_pixel, im_size_y, pix_size_y, y_remap_mode)"])
K("old_metric_to_pixel", props=P, gen=g_old(None, ("x_metric", "y_metric")), assigns=["x_pixel[0]", "y_pixel[0]"],
  requires=["pix_size_x != 0", "pix_size_y != 0"],
  ensures=["x_pixel[0] == mx2px(x_metric, im_size_x, pix_size_x)", "y_pixel[0] == my2px(y_metric, im_size_y, pix_size_y, y_remap_mode)"])


@specfun
def M2PX(e, xm, imx, px):
    """the pixel column metric_to_pixel gives"""
    if not e.symbolic: return e.lookup("mx2px")(xm, imx, px)
    return uf("M2PX", [xm, imx, px])


@specfun
def M2PY(e, ym, imy, py, mode):
    if not e.symbolic: return e.lookup("my2px")(ym, imy, py, mode)
    return uf("M2PY", [ym, imy, py, mode])


def g_cp(g): return {"parameters": g_cpar_rep(g)}


CPS = {"parameters.img_base_name": "0", "parameters.cal_img_base_name": "0", "parameters.mm": "1"}
K("pixel_to_metric", props=P, gen=g_cp, shapes=CPS, assigns=["x_metric[0]", "y_metric[0]"],
  ensures=["x_metric[0] == px2mx(x_pixel, parameters.imx, parameters.pix_x)",
           "y_metric[0] == px2my(y_pixel, parameters.imy, parameters.pix_y, parameters.chfield)"])
K("metric_to_pixel", props=P, gen=g_cp, shapes=CPS, assigns=["x_pixel[0]", "y_pixel[0]"],
  requires=["parameters.pix_x != 0", "parameters.pix_y != 0"],
  ensures=["x_pixel[0] == mx2px(x_metric, parameters.imx, parameters.pix_x)",
           "y_pixel[0] == my2px(y_metric, parameters.imy, parameters.pix_y, parameters.chfield)"],
  ens_assumed=["x_pixel[0] == M2PX(x_metric, parameters.imx, parameters.pix_x)", "y_pixel[0] == M2PY(y_metric, parameters.imy, parameters.pix_y, parameters.chfield)"])
# lemmas: the two conversions are exact mutual inverses, for every image size, pixel size and field mode
K("lemma_pixel_metric_pixel", props=P, gen=g_cp, shapes=CPS, assigns=["x1[0]", "y1[0]"], requires=["parameters.pix_x != 0", "parameters.pix_y != 0"],
  ensures=["x1[0] == x", "y1[0] == y"], tol=1e-7)
K("lemma_metric_pixel_metric", props=P, gen=g_cp, shapes=CPS, assigns=["x1[0]", "y1[0]"], requires=["parameters.pix_x != 0", "parameters.pix_y != 0"],
  ensures=["x1[0] == x", "y1[0] == y"], tol=1e-7)

# ----------------------------------------------------------------- C02 forward distortion
specdef("rad2(x, y) := x*x + y*y")
specdef("brown_k(x, y, a) := a.k1*rad2(x,y) + a.k2*rad2(x,y)*rad2(x,y) + a.k3*rad2(x,y)*rad2(x,y)*rad2(x,y)")
specdef("brown_x(x, y, a) := x + x*brown_k(x,y,a) + a.p1*(rad2(x,y) + 2*x*x) + 2*a.p2*x*y")
specdef("brown_y(x, y, a) := y + y*brown_k(x,y,a) + a.p2*(rad2(x,y) + 2*y*y) + 2*a.p1*x*y")
specdef("dist_x(x, y, a) := a.scx*brown_x(x,y,a) - sin(a.she)*brown_y(x,y,a)")
specdef("dist_y(x, y, a) := cos(a.she)*brown_y(x,y,a)")


def ap_rep(g, mild=False):
    s = g.choice([0.0, 1.0]) if mild else 1.0
    z = lambda sc: g.choice([0.0, g.r.uniform(-sc, sc)])
    if mild: return {"k1": z(1e-4), "k2": z(1e-7), "k3": z(1e-10), "p1": z(1e-4), "p2": z(1e-4), "scx": g.choice([1.0, g.pos(0.97, 1.03)]), "she": g.choice([0.0, g.r.uniform(-0.02, 0.02)])}
    return {"k1": z(0.1), "k2": z(0.01), "k3": z(1e-3), "p1": z(0.05), "p2": z(0.05), "scx": g.choice([1.0, g.pos(0.5, 2)]), "she": g.choice([0.0, g.r.uniform(-1, 1)])}


def cal_rep(g, mild=True):
    return {"ext_par": {"x0": g.real(), "y0": g.real(), "z0": g.pos(10, 200), "omega": g.angle(), "phi": g.angle(), "kappa": g.angle(), "dm": [[1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0]]},
            "int_par": {"xh": g.choice([0.0, g.r.uniform(-1, 1)]), "yh": g.choice([0.0, g.r.uniform(-1, 1)]), "cc": g.pos(20, 100)},
            "glass_par": {"vec_x": g.choice([0.0, 0.001, g.r.uniform(-1, 1)]), "vec_y": g.choice([0.0, g.r.uniform(-1, 1)]), "vec_z": g.pos(1, 60)},
            "added_par": ap_rep(g, mild), "mmlut": {"origin": [0.0, 0.0, 0.0], "nr": 0, "nz": 0, "rw": 0, "data": None}}


D = ("C02",)
K("distort_brown_affin", props=D, gen=lambda g: {"ap": ap_rep(g), **g.choice([{}, {"x": 0.0, "y": 0.0}, {}, {}])}, assigns=["x1[0]", "y1[0]"],
  ensures=["x1[0] == dist_x(x, y, ap)", "y1[0] == dist_y(x, y, ap)"])


def g_f2d(g):
    c = cal_rep(g, False)
    d = {"cal": c}
    if g.r.random() < 0.2: d.update(flat_x=-c["int_par"]["xh"], flat_y=-c["int_par"]["yh"])
    return d


K("flat_to_dist", props=D, gen=g_f2d, assigns=["dist_x[0]", "dist_y[0]"], shapes={"cal.mmlut.data": "0"},
  ensures=["dist_x[0] == DX(flat_x + cal.int_par.xh, flat_y + cal.int_par.yh, cal.added_par)".replace("DX", "specdist_x"),
           "dist_y[0] == specdist_y(flat_x + cal.int_par.xh, flat_y + cal.int_par.yh, cal.added_par)"])
specdef("specdist_x(x, y, a) := a.scx*brown_x(x,y,a) - sin(a.she)*brown_y(x,y,a)")
specdef("specdist_y(x, y, a) := cos(a.she)*brown_y(x,y,a)")

# ----------------------------------------------------------------- C03 distortion removal
U = ("C03",)
specdef("nodist(a) := a.k1 == 0 and a.k2 == 0 and a.k3 == 0 and a.p1 == 0 and a.p2 == 0")
UNDIST = ["imp(x == 0 and y == 0, x1[0] == 0 and y1[0] == 0)",
          "imp(nodist(ap), x1[0]*ap.scx == x + tan(ap.she)*y and y1[0]*cos(ap.she) == y)"]
MILD = "abs(ap.k1)*R + abs(ap.k2)*R*R + abs(ap.k3)*R*R*R + 4*(abs(ap.p1)+abs(ap.p2))*sqrt(R) <= 0.05 and abs(ap.scx - 1) <= 0.05 and abs(ap.she) <= 0.05"
specdef("mild(a, R) := abs(a.k1)*R + abs(a.k2)*R*R + abs(a.k3)*R*R*R + 4*(abs(a.p1)+abs(a.p2))*sqrt(R) <= 0.05 and abs(a.scx - 1) <= 0.05 and abs(a.she) <= 0.05")
REQ = ["ap.scx != 0", "cos(ap.she) != 0", "tol >= 0"]


def g_und(g):
    ap, x, y = ap_rep(g, True), g.choice([0.0, g.r.uniform(-12, 12)]), g.choice([0.0, g.r.uniform(-12, 12), g.r.uniform(-12, 12)])
    R = x*x + y*y
    if g.r.random() < 0.5 and R > 1e-3:
        # a noticeable share of each distortion term at this very point
        for k, f in (("k1", R), ("k2", R*R), ("k3", R**3), ("p1", 4*R**0.5), ("p2", 4*R**0.5)): ap[k] = g.choice([0.0, g.r.uniform(-0.015, 0.015)/f])
    return {"ap": ap, "x": x, "y": y, "tol": g.choice([1e-12, 1e-10, 1e-8, 1e-4])}


K("correct_brown_affine_exact", props=U, gen=g_und, assigns=["x1[0]", "y1[0]"], requires=REQ, check_div=False, name_over=12,
  ensures=UNDIST + ["imp(not (x == 0 and y == 0) and wit('xq') == x1[0] and wit('yq') == y1[0] and wit('r')*wit('r') == rad2(wit('xq'), wit('yq')), "
                    "dist_x(wit('xq'), wit('yq'), ap) == x and dist_y(wit('xq'), wit('yq'), ap) == y)"],
  loops=[Loop("imp(nodist(ap), xq*ap.scx == x + tan(ap.she)*y or itnum == 0)", "0 <= itnum <= 200", decreases="201 - itnum")],
  rac_ensures=["imp(tol <= 1e-9 and mild(ap, rad2(x,y)), near(dist_x(x1[0], y1[0], ap), x, 1e-6) and near(dist_y(x1[0], y1[0], ap), y, 1e-6))"],
  notes="the iteration's convergence itself is not proved (checked on executed inputs with mild distortion); proved: a settled iteration is an exact inverse")
K("correct_brown_affin", props=U, gen=lambda g: {k: v for k, v in g_und(g).items() if k != "tol"}, assigns=["x1[0]", "y1[0]"], requires=REQ[:2], ensures=UNDIST,
  ens_assumed=["x1[0] == UBX(x,y,ap)", "y1[0] == UBY(x,y,ap)"])


def g_d2f(g):
    d = g_und(g)
    c = cal_rep(g, True)
    c["added_par"] = d["ap"]
    return {"cal": c, "dist_x": d["x"], "dist_y": d["y"], "tol": d["tol"]}


K("dist_to_flat", props=U, gen=g_d2f, assigns=["flat_x[0]", "flat_y[0]"], shapes={"cal.mmlut.data": "0"},
  requires=["cal.added_par.scx != 0", "cos(cal.added_par.she) != 0", "tol >= 0"],
  ensures=["imp(dist_x == 0 and dist_y == 0, flat_x[0] == -cal.int_par.xh and flat_y[0] == -cal.int_par.yh)",
           "imp(nodist(cal.added_par), (flat_x[0] + cal.int_par.xh)*cal.added_par.scx == dist_x + tan(cal.added_par.she)*dist_y"
           " and (flat_y[0] + cal.int_par.yh)*cos(cal.added_par.she) == dist_y)"],
  rac_ensures=["imp(tol <= 1e-9 and mild(cal.added_par, rad2(dist_x,dist_y)), "
               "near(dist_x_of(flat_x[0], flat_y[0], cal), dist_x, 1e-6) and near(dist_y_of(flat_x[0], flat_y[0], cal), dist_y, 1e-6))"])
specdef("dist_x_of(fx, fy, c) := specdist_x(fx + c.int_par.xh, fy + c.int_par.yh, c.added_par)")
specdef("dist_y_of(fx, fy, c) := specdist_y(fx + c.int_par.xh, fy + c.int_par.yh, c.added_par)")
