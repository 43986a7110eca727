"""Assignment of detections to the reference grid (sortgrid.c)."""
from optvc.registry import K
from optvc.spec import specdef, specfun, SPECFUNS, Loop
from optvc import gens
import math

P = ("C18",)
NONE = "(0 - 999)"
# target t lies in the open square window around (x, y)
specdef("in_win(t, x, y, eps) := t.y > y - eps and t.y < y + eps and t.x > x - eps and t.x < x + eps")
specdef("pdist(t, x, y) := sqrt((x - t.x)*(x - t.x) + (y - t.y)*(y - t.y))")
# target j is the nearest of the targets [0, n) in the window (the first of the nearest)
specdef("is_near(pix, n, j, x, y, eps) := 0 <= j and j < n and in_win(pix[j], x, y, eps) and forall(0, n, lambda q: imp(in_win(pix[q], x, y, eps), pdist(pix[q], x, y) >= pdist(pix[j], x, y)))"
        " and forall(0, j, lambda q: imp(in_win(pix[q], x, y, eps), pdist(pix[q], x, y) > pdist(pix[j], x, y)))")
specdef("none_near(pix, n, x, y, eps) := forall(0, n, lambda q: not in_win(pix[q], x, y, eps))")
specdef("grid_x(cal, cp, p) := M2PX(PX(cal, cp.mm, p), cp.imx, cp.pix_x)")
specdef("grid_y(cal, cp, p) := M2PY(PY(cal, cp.mm, p), cp.imy, cp.pix_y, cp.chfield)")


def g_targets(g, n, w, h):
    k = g.choice(["any", "lattice", "any"])
    def xy():
        if k == "lattice": return [float(g.int(0, 8)), float(g.int(0, 8))]
        return [g.r.uniform(-5, w + 5), g.r.uniform(-5, h + 5)]
    return [dict(zip(("x", "y"), xy()), pnr=i, n=g.int(1, 50), nx=g.int(1, 9), ny=g.int(1, 9), sumg=g.int(1, 900), tnr=g.choice([-1, 0, i, g.int(0, 50)])) for i in range(n)]


def g_nn(g):
    n = g.choice([0, 1, 2, g.int(0, 8), g.int(0, 30)])
    t = g_targets(g, n, 9, 9)
    x, y = g.choice([(4.0, 4.0), (g.r.uniform(0, 9), g.r.uniform(0, 9)), (3.5, 4.0)])
    eps = g.choice([0.5, 1.0, 3.0, 10.0, 0.0, 1e6])
    if g.r.random() < 0.2:
        x, y, eps = 0.0, 0.0, 2e9
        for q in t: q["x"], q["y"] = q["x"]*1e8, q["y"]*1e8
    return {"pix": t, "num": n, "x": x, "y": y, "eps": eps}


DB = "d*d == (x - pix[j].x)*(x - pix[j].x) + (y - pix[j].y)*(y - pix[j].y)"
K("nearest_neighbour_pix", props=P, gen=g_nn, exact=True, shapes={"pix": "num"}, requires=["num >= 0", "eps <= 10000000000000000"],
  cuts=[("=d#1", "d >= 0"), ("=d#1", DB), ("=d#1", "d == pdist(pix[j], x, y)"),
        ("=d#1", "(x - pix[j].x)*(x - pix[j].x) <= 10000000000000000*10000000000000000"), ("=d#1", "(y - pix[j].y)*(y - pix[j].y) <= 10000000000000000*10000000000000000"),
        ("=d#1", "d < 100000000000000000000", ["d >= 0", DB, "(x - pix[j].x)*(x - pix[j].x) <= 10000000000000000*10000000000000000", "(y - pix[j].y)*(y - pix[j].y) <= 10000000000000000*10000000000000000"])],
  loops=[Loop("0 <= j", "j <= num", "imp(pnr == %s, dmin == 100000000000000000000 and none_near(pix, j, x, y, eps))" % NONE, "imp(pnr != %s, is_near(pix, j, pnr, x, y, eps) and dmin == pdist(pix[pnr], x, y))" % NONE, decreases="num - j")],
  ensures=["imp(result == %s, none_near(pix, num, x, y, eps))" % NONE, "imp(result != %s, is_near(pix, num, result, x, y, eps))" % NONE])


def g_sg(g):
    cal = gens.look_cal(g, target=(0, 0, -20), dist=g.r.uniform(80, 250), spread=0.3)
    cp = gens.cpar(g)
    cp["imx"], cp["imy"], cp["pix_x"], cp["pix_y"] = g.choice([(1000, 800, 0.01, 0.01), (1280, 1024, 0.012, 0.009), (200, 700, 0.02, 0.01)])
    nf = g.choice([0, 1, 2, g.int(1, 12)])
    fix = [[g.r.uniform(-30, 30), g.r.uniform(-30, 30), g.r.uniform(-40, 5)] for _ in range(nf)]
    num = g.choice([0, 1, g.int(0, 30)])
    pix = g_targets(g, num, cp["imx"], cp["imy"])
    return {"cal": cal, "cpar": cp, "nfix": nf, "fix": fix, "num": num, "pix": pix, "eps": g.choice([0, 1, 10, 50, 300])}


def read_grid(R, m, res, rep, post, addrs):
    from optvc.crep import LIBC
    if not res: return None
    nt = R.prog.funcs["sortgrid"].ret.to
    sz = R.prog.sizeof(nt)
    out = [m.get(nt, res + i*sz, None, "res") for i in range(post["nfix"])]
    LIBC.free(res)
    return out


@specfun
def sg_ref(e, res, cal, cp, nfix, fix, num, pix, eps):
    """each reference point gets the nearest detection in its window, by exhaustive search"""
    from optvc.crep import UNK
    R = e.runner
    rows = res._node() if hasattr(res, "_node") else res
    ca, c, fx, px = cal._node(), cp._node(), fix._node(), pix._node()
    for i in range(int(nfix)):
        o, _ = R.call("img_coord", {"pos": list(fx[i]), "cal": ca, "mm": c["mm"], "x": [0.0], "y": [0.0]})
        q, _ = R.call("metric_to_pixel", {"x_metric": o["x"][0], "y_metric": o["y"][0], "parameters": c, "x_pixel": [0.0], "y_pixel": [0.0]})
        x, y = q["x_pixel"][0], q["y_pixel"][0]
        if not (math.isfinite(x) and math.isfinite(y)): continue
        best = None
        if -eps < x < c["imx"] + eps and -eps < y < c["imy"] + eps:
            for j in range(int(num)):
                t = px[j]
                if y - eps < t["y"] < y + eps and x - eps < t["x"] < x + eps:
                    d = math.sqrt((x - t["x"])*(x - t["x"]) + (y - t["y"])*(y - t["y"]))
                    if best is None or d < best[0]: best = (d, j)
        if best is None:
            if rows[i]["pnr"] != -999: return False
        else:
            w = dict(px[best[1]], pnr=i)
            if any(rows[i][k] != w[k] for k in w): return False
    return True


GX, GY = "grid_x(cal, cpar, fix[%s])", "grid_y(cal, cpar, fix[%s])"
NEARIMG = lambda i: "({x} > 0 - eps and {y} > 0 - eps and {x} < cpar.imx + eps and {y} < cpar.imy + eps)".format(x=GX % i, y=GY % i)
FLD = ("x", "y", "n", "nx", "ny", "sumg", "tnr")
ROWI = lambda r, i: ["%s[%s].pnr == %s or %s[%s].pnr == %s" % (r, i, NONE, r, i, i),
                     "imp(%s[%s].pnr == %s, not %s or none_near(pix, num, %s, %s, eps))" % (r, i, NONE, NEARIMG(i), GX % i, GY % i),
                     "imp(%s[%s].pnr == %s, %s)" % (r, i, i, NEARIMG(i)),
                     "imp(%s[%s].pnr == %s, exists(0, num, lambda j: is_near(pix, num, j, %s, %s, eps) and %s))" % (
                         r, i, i, GX % i, GY % i, " and ".join("%s[%s].%s == pix[j].%s" % (r, i, f, f) for f in FLD))]
MATCH = " and ".join("sorted_pix[i].%s == pix[j].%s" % (f, f) for f in FLD)
ISN = "is_near(pix, num, %%s, %s, %s, eps)" % (GX % "i", GY % "i")
K("sortgrid", cuts=[("=.pnr#2", "exists(0, num, lambda j: %s and %s)" % (ISN % "j", MATCH), [ISN % "j", "0 <= j and j < num"] + MATCH.split(" and ")),
                      ("=.pnr#2", "forall(0, i, lambda q: %s)" % ROWI("sorted_pix", "q")[3])], weak_calls=("img_coord", "metric_to_pixel"), props=P, gen=g_sg, shapes={"cal.mmlut.data": "cal.mmlut.nr x cal.mmlut.nz ?", "fix": "nfix", "pix": "num", "cpar.img_base_name": "0", "cpar.cal_img_base_name": "0", "cpar.mm": "1"},
  requires=["0 <= nfix", "nfix <= 10000000", "0 <= num", "0 <= eps", "eps <= 1000000000", "cpar.imx <= 1000000000", "cpar.imy <= 1000000000", "cpar.pix_x != 0", "cpar.pix_y != 0",
            "mm_ok(cpar.mm)", "imp(not isnull(cal.mmlut.data), lut_ok(cal.mmlut))"],
  loops=[Loop("0 <= i", "i <= nfix", "forall(0, i, lambda q: sorted_pix[q].pnr == %s)" % NONE, decreases="nfix - i"),
         Loop("0 <= i", "i <= nfix", "forall(i, nfix, lambda q: sorted_pix[q].pnr == %s)" % NONE, *["forall(0, i, lambda q: %s)" % c for c in ROWI("sorted_pix", "q")], decreases="nfix - i")],
  ensures=["forall(0, nfix, lambda q: %s)" % c for c in ROWI("result", "q")],
  read_result=read_grid, rac_requires=["gl_ok(cal.glass_par)", "mm_opt(cpar.mm)"], rac_ensures_only=True, rac_ensures=["sg_ref(result, cal, cpar, nfix, fix, num, pix, eps)"])
