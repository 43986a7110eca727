"""Epipolar bands and candidate search (epi.c)."""
from optvc.registry import K
from optvc.spec import specdef, specfun, SPECFUNS, Loop
from optvc import gens, terms as T
import math, z3

P = ("C09",)
A3 = "forall(0,3,lambda i: %s)"


class _Tup:
    def __init__(self, v): self.v = v
    def __getitem__(self, i): return self.v[i]


def uf(name, args): return z3.Function(name, *([z3.RealSort()]*(len(args) + 1)))(*[T.z(T.to_real(x)) for x in args])


# ------------------------------------------------------------------ the two ends of the clipped viewing ray
specdef("lay_z(lo, hi, v, x) := lo + (x - v.X_lay[0])*(hi - lo)/(v.X_lay[1] - v.X_lay[0])")
specdef("ray_lo(v, x) := lay_z(v.Zmin_lay[0], v.Zmin_lay[1], v, x)")
specdef("ray_hi(v, x) := lay_z(v.Zmax_lay[0], v.Zmax_lay[1], v, x)")
specdef("on_ray(cal, mm, x, y, Z, i) := Z if i == 2 else (RTX(cal,mm,x,y,i) + (Z - RTX(cal,mm,x,y,2))*RTO(cal,mm,x,y,i)/RTO(cal,mm,x,y,2))")
specdef("z_lo(cal, mm, x, y, v) := ray_lo(v, RTX(cal,mm,x,y,0))")
specdef("z_hi(cal, mm, x, y, v) := ray_hi(v, RTX(cal,mm,x,y,0))")


@specfun
def ray_pt(e, cal, mm, x, y, Z): return _Tup([e.lookup("on_ray")(cal, mm, x, y, Z, i) for i in range(3)])


def g_epi(g):
    m = gens.mm(g)
    ca = [gens.look_cal(g, target=(0, 0, -20), dist=g.r.uniform(80, 250), spread=0.6) for _ in range(2)]
    zm = [g.r.uniform(-60, -20), g.r.uniform(-60, -20)]
    return {"xl": g.r.uniform(-4, 4), "yl": g.r.uniform(-4, 4), "cal1": ca[0], "cal2": ca[1], "mmp": m,
            "vpar": {"X_lay": [-40.0, g.r.uniform(20, 60)], "Zmin_lay": zm, "Zmax_lay": [z + g.r.uniform(0, 30) for z in zm], "eps0": 0.05, "cn": 0.1, "cnx": 0.1, "cny": 0.1, "csumg": 0.1, "corrmin": 10.0}}


EG = ["vpar.X_lay[0] != vpar.X_lay[1]", "RTO(cal1,mmp,xl,yl,2) != 0"]
FZ = "%s(cal1,mmp,xl,yl,vpar)"
END = "ray_pt(cal1,mmp,xl,yl,%s)"
K("epi_mm", props=P, gen=g_epi, shapes={"cal1.mmlut.data": "0", "cal2.mmlut.data": "cal2.mmlut.nr x cal2.mmlut.nz ?"}, weak_calls=("ray_tracing", "flat_image_coord"),
  requires=["mm_ok(mmp)", "imp(not isnull(cal2.mmlut.data), lut_ok(cal2.mmlut))"], guard=EG, check_div=False, tol=1e-6,
  assigns=["xmin[0]", "ymin[0]", "xmax[0]", "ymax[0]"],
  cuts=[("move_along_ray#%d" % (k + 1), A3 % ("X[i] == on_ray(cal1,mmp,xl,yl,%s,i)" % (FZ % z))) for k, z in enumerate(("z_lo", "z_hi"))],
  ensures=["%s[0] == %s(cal2,mmp,%s)" % (o, f, END % (FZ % z)) for o, f, z in (("xmin", "FX", "z_lo"), ("ymin", "FY", "z_lo"), ("xmax", "FX", "z_hi"), ("ymax", "FY", "z_hi"))],
  rac_ensures_only=True,
  rac_ensures=["imp(g_z0(cal2) > 30 and abs(RTO(cal1,mmp,xl,yl,2)) > 0.2, near(%s[0], %s(cal2,mmp,%s), 0.02))" % (o, f, END % (FZ % z))
               for o, f, z in (("xmin", "FX", "z_lo"), ("ymin", "FY", "z_lo"), ("xmax", "FX", "z_hi"), ("ymax", "FY", "z_hi"))] +
              ["imp(one_medium(mmp) and g_z0(cal2) > 30 and abs(RTO(cal1,mmp,xl,yl,2)) > 0.2, near(%s[0], %s(cal2,mmp,%s), 1e-5))" % (o, f, END % (FZ % z))
               for o, f, z in (("xmin", "FX", "z_lo"), ("ymin", "FY", "z_lo"), ("xmax", "FX", "z_hi"), ("ymax", "FY", "z_hi"))])
K("epi_mm_2D", props=P, gen=lambda g: {k: v for k, v in g_epi(g).items() if k != "cal2"}, shapes={"cal1.mmlut.data": "0", "out": "3"}, weak_calls=("ray_tracing",), guard=EG, check_div=False, tol=1e-6,
  assigns=["out[0:3]"], rac_requires=["abs(RTO(cal1,mmp,xl,yl,2)) > 0.05"],
  ensures=[A3 % ("out[i] == on_ray(cal1,mmp,xl,yl,(%s + %s)/2,i)" % (FZ % "z_lo", FZ % "z_hi"))])


# ------------------------------------------------------------------ candidates in the band
def conc_undist(e, x, y, a, w):
    from optvc.crep import UNK
    if any(a[k] for k in ("k1", "k2", "k3", "p1", "p2")) or (a["scx"] == 0 or math.cos(a["she"]) == 0): return UNK
    by = y/math.cos(a["she"])
    return ((x + math.sin(a["she"])*by)/a["scx"], by)[w]


for _nm, _w in (("UBX", 0), ("UBY", 1)):
    def _mk(nm, w):
        def f(e, x, y, a):
            if not e.symbolic: return conc_undist(e, x, y, a._node(), w)
            return uf(nm, [x, y, a.k1, a.k2, a.k3, a.p1, a.p2, a.scx, a.she])
        f.__name__ = nm
        specfun(f)
    _mk(_nm, _w)

specdef("sens_x(cp, cal, s) := UBX(s*cp.pix_x*cp.imx/2 - cal.int_par.xh, s*cp.pix_y*cp.imy/2 - cal.int_par.yh, cal.added_par)")
specdef("sens_y(cp, cal, s) := UBY(s*cp.pix_x*cp.imx/2 - cal.int_par.xh, s*cp.pix_y*cp.imy/2 - cal.int_par.yh, cal.added_par)")
specdef("b_xb(xa, xb) := (xb + 1/10000000000) if xa == xb else xb")
specdef("b_m(xa, ya, xb, yb) := (yb - ya)/(b_xb(xa,xb) - xa)")
specdef("lt(a, b) := a if a <= b else b")
specdef("gt(a, b) := b if a <= b else a")
specdef("off_sensor(xlo, xhi, ylo, yhi, cp, cal) := xhi <= sens_x(cp,cal,0-1) or xlo >= sens_x(cp,cal,1) or yhi <= sens_y(cp,cal,0-1) or ylo >= sens_y(cp,cal,1)")
specdef("ratio(a, b) := (a/b) if a < b else (b/a)")
specdef("band_d(c, m, b) := abs((c.y - m*c.x - b)/sqrt(m*m + 1))")
specdef("in_band(c, t, xlo, xhi, ylo, yhi, m, b) := c.y > ylo - t and c.y < yhi + t and c.x > xlo - t and c.x < xhi + t and band_d(c, m, b) < t")
specdef("alike(p, n, nx, ny, sumg, v) := ratio(n, p.n) >= v.cn and ratio(nx, p.nx) >= v.cnx and ratio(ny, p.ny) >= v.cny and ratio(sumg, p.sumg) > v.csumg")
specdef("cand_corr(p, n, nx, ny, sumg) := (4*ratio(sumg,p.sumg) + 2*ratio(n,p.n) + ratio(nx,p.nx) + ratio(ny,p.ny))*(sumg + p.sumg)")
specdef("accept(crd, pix, j, n, nx, ny, sumg, v, xlo, xhi, ylo, yhi, m, b) := in_band(crd[j], v.eps0, xlo, xhi, ylo, yhi, m, b) and alike(pix[crd[j].pnr], n, nx, ny, sumg, v)")
# the band of the arguments
BAND = "lt(xa,b_xb(xa,xb)), gt(xa,b_xb(xa,xb)), lt(ya,yb), gt(ya,yb)"
ML = "b_m(xa,ya,xb,yb), ya - b_m(xa,ya,xb,yb)*xa"
ACC = "accept(crd, pix, %s, n, nx, ny, sumg, vpar, " + BAND + ", " + ML + ")"
LACC = "accept(crd, pix, %s, n, nx, ny, sumg, vpar, xa, xb, ya, yb, m, b)"
OFF = "off_sensor(" + BAND + ", cpar, cal)"
N_ = "ncount(0, num, lambda q: %s)" % (ACC % "q")
LN = "ncount(0, %s, lambda q: " + LACC % "q" + ")"
CL = ["0 <= cand[k].pnr and cand[k].pnr < j", LACC % "cand[k].pnr", LN % "cand[k].pnr" + " == k", "cand[k].tol == band_d(crd[cand[k].pnr], m, b)", "cand[k].corr == cand_corr(pix[crd[cand[k].pnr].pnr], n, nx, ny, sumg)"]
CANDS = ["forall(0, count, lambda k: %s)" % c for c in CL]


@specfun
def fc_ref(e, crd, pix, num, xa, ya, xb, yb, n, nx, ny, sumg, cand, v, cp, cal, result):
    """reference candidate list in floating point; undecided near a threshold"""
    from optvc.crep import UNK
    L = lambda nm, *a: e.lookup(nm)(*a)
    bxb = xb + 1e-10 if xa == xb else xb
    xlo, xhi, ylo, yhi = min(xa, bxb), max(xa, bxb), min(ya, yb), max(ya, yb)
    off = e.tb(L("off_sensor", xlo, xhi, ylo, yhi, cp, cal))
    if off is UNK: return UNK
    if off: return result == -1
    m = (yb - ya)/(bxb - xa)
    b = ya - m*xa
    R = lambda p, q: (p/q if p < q else q/p)
    t = v.eps0
    cr, px = crd._node(), pix._node()
    want = []
    eps = 1e-9
    for j in range(int(num)):
        x, y = cr[j]["x"], cr[j]["y"]
        d = abs((y - m*x - b)/math.sqrt(m*m + 1))
        marg = [y - (ylo - t), yhi + t - y, x - (xlo - t), xhi + t - x, t - d]
        p = px[cr[j]["pnr"]]
        if min(marg) < -eps: continue
        q = [R(n, p["n"]) - v.cn, R(nx, p["nx"]) - v.cnx, R(ny, p["ny"]) - v.cny, R(sumg, p["sumg"]) - v.csumg]
        if min(q) < -eps: continue
        if min(marg) < eps or min(q[:3]) < 0 or q[3] <= eps: return UNK
        want.append((j, d, (4*R(sumg, p["sumg"]) + 2*R(n, p["n"]) + R(nx, p["nx"]) + R(ny, p["ny"]))*(sumg + p["sumg"])))
    if result != min(len(want), 200): return False
    for k, (j, d, c) in enumerate(want[:200]):
        if cand[k].pnr != j or abs(cand[k].tol - d) > 1e-7 or abs(cand[k].corr - c) > 1e-6*(1 + abs(c)): return False
    return True


def g_fc(g):
    num = g.choice([0, 1, 2, 3, g.int(0, 12), g.int(0, 60), g.int(100, 400), g.choice([8191, 8191, 16383, 32767]) if g.r.random() < 0.4 else 9])
    w = g.choice([2.0, 5.0, 8.0]) if num < 1000 else 1.5
    narrow = g.r.random() < 0.4
    ya0 = g.r.uniform(-2, 2)
    crd = [{"pnr": 0, "x": g.r.uniform(-w, w), "y": g.r.uniform(ya0 - 0.2, ya0 + 0.2) if narrow else g.r.uniform(-4, 4)} for _ in range(num)]
    if g.r.random() < 0.2:
        for c in crd: c["x"] = round(c["x"], 0)
    crd.sort(key=lambda c: c["x"])
    pn = list(range(num))
    g.r.shuffle(pn)
    for c, p in zip(crd, pn): c["pnr"] = p
    sz = lambda: {"n": g.int(1, 40), "nx": g.int(1, 8), "ny": g.int(1, 8), "sumg": g.int(50, 900)}
    pix = [dict(sz(), pnr=i, x=0.0, y=0.0, tnr=-1) for i in range(num)]
    xa, xb = g.r.uniform(-w, w), g.r.uniform(-w, w)
    k = g.choice(["any", "any", "vert", "pt", "edge", "hor", "slope", "left"])
    ya, yb = ya0, ya0 + g.r.uniform(-1, 1)
    if k == "vert": xb = xa
    if k == "pt": xb, yb = xa, ya
    if k == "edge" and crd: xa = crd[g.int(0, num - 1)]["x"]
    if k == "hor": yb = ya
    if k == "left": xa, xb = -w - 0.3, -w + g.r.uniform(0, 0.5)
    d = sz()
    eps = g.choice([0.01, 0.1, 0.5, 3.0])
    if num > 1000:
        i = g.choice([0, 0, 0, num // 2 + 1, num // 2 + 2, num // 4 + 1, g.int(0, num - 1)])
        xa = crd[i]["x"]
        xb = xa + 0.05
        eps = (crd[1]["x"] - crd[0]["x"])/2 + 1e-9 if i == 0 else max(1e-12, (crd[i]["x"] - crd[i - 1]["x"])/2)
        ya, yb = crd[i]["y"] - eps/4, crd[i]["y"] + 1.0
        if g.r.random() < 0.5: xb, yb, ya = crd[i]["x"] + eps/8, crd[i]["y"] + 5, crd[i]["y"] - 5
    th = g.choice([0.0, 0.05, 0.3]) if num < 1000 else 0.0
    c = {"ext_par": {"x0": 0.0, "y0": 0.0, "z0": 0.0, "omega": 0.0, "phi": 0.0, "kappa": 0.0, "dm": gens.rot(0, 0, 0)}, "int_par": {"xh": g.choice([0.0, 0.3]), "yh": g.choice([0.0, -0.2]), "cc": 50.0},
         "glass_par": {"vec_x": 0.0, "vec_y": 0.0, "vec_z": 20.0}, "added_par": dict(gens.addpar(g, "none"), scx=g.choice([1.0, 1.0, 1.02]), she=g.choice([0.0, 0.01])),
         "mmlut": {"origin": [0.0]*3, "nr": 0, "nz": 0, "rw": 0, "data": None}}
    cp = gens.cpar(g)
    cp["imx"], cp["imy"], cp["pix_x"], cp["pix_y"] = g.choice([(1000, 800, 0.01, 0.01), (1280, 1024, 0.012, 0.009), (200, 700, 0.02, 0.01)])
    return {"crd": crd, "pix": pix, "num": num, "xa": xa, "ya": ya, "xb": xb, "yb": yb, "n": d["n"], "nx": d["nx"], "ny": d["ny"], "sumg": d["sumg"], "cand": [{"pnr": -7, "tol": 0.5, "corr": 0.25} for _ in range(200)],
            "vpar": {"X_lay": [0.0, 1.0], "Zmin_lay": [0.0, 0.0], "Zmax_lay": [1.0, 1.0], "eps0": eps, "cn": th, "cnx": th, "cny": th, "csumg": th, "corrmin": 10.0}, "cpar": cp, "cal": c}


LT = "forall(0, %s, lambda q: crd[q].x <= xa - vpar.eps0)"
@specfun
def by_x(e, crd, num):
    """the list is in ascending x order"""
    if e.symbolic: return e.lookup("by_x_")(crd, num)
    c = crd._node()
    return all(c[i]["x"] <= c[i + 1]["x"] for i in range(int(num) - 1))


specdef("by_x_(crd, num) := forall(0, num, lambda p: forall(0, p, lambda q: crd[q].x <= crd[p].x))")
SORTED = "by_x(crd, num)"
K("find_candidate", heavy=6, props=P, gen=g_fc, tol=1e-9, keep_const_loops=True, check_div=False, merge=True,
  shapes={"crd": "num", "pix": "num", "cand": "200", "cal.mmlut.data": "0", "cpar.img_base_name": "0", "cpar.cal_img_base_name": "0", "cpar.mm": "0"},
  assigns=["cand[0:200]"], requires=["0 <= num", "num <= 100000000", SORTED, "forall(0, num, lambda q: 0 <= crd[q].pnr and crd[q].pnr < num)",
                                     "0 <= sumg and sumg <= 1000000000", "forall(0, num, lambda q: 0 <= pix[q].sumg and pix[q].sumg <= 1000000000)", "cal.added_par.scx != 0", "cos(cal.added_par.she) != 0"],
  guard=["vpar.eps0 >= 0"],
  loops=[Loop("0 <= j0", "dj >= 0", "j0 - 2*dj >= 0", "j0 + 2*dj <= num", decreases="dj"),
         Loop("0 <= j0", "j0 <= num", decreases="j0"),
         Loop("0 <= j", "j <= num", "0 <= count <= 200", "count == " + LN % "j", *CANDS, decreases="num - j")],
  ensures=["0 - 1 <= result and result <= 200", "imp(%s, result == 0 - 1)" % OFF, "imp(not %s, result == min(200, %s))" % (OFF, N_),
           "imp(not %s, forall(0, result, lambda k: 0 <= cand[k].pnr and cand[k].pnr < num and %s and ncount(0, cand[k].pnr, lambda q: %s) == k and cand[k].tol == band_d(crd[cand[k].pnr], %s)"
           " and cand[k].corr == cand_corr(pix[crd[cand[k].pnr].pnr], n, nx, ny, sumg)))" % (OFF, ACC % "cand[k].pnr", ACC % "q", ML)],
  rac_ensures_only=True, rac_ensures=["0 - 1 <= result and result <= 200", "fc_ref(crd, pix, num, xa, ya, xb, yb, n, nx, ny, sumg, cand, vpar, cpar, cal, result)"])
