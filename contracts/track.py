"""Prediction, search windows and candidate search of the tracking (track.c)."""
from optvc.registry import K
from optvc.spec import specdef, specfun, SPECFUNS, Loop
from optvc import gens
import math

P = ("C22",)
A3 = "forall(0,3,lambda i: %s)"
K("search_volume_center_moving", props=P, shapes={"prev_pos": "3", "curr_pos": "3", "output": "3"}, assigns=["output[0:3]"], ensures=[A3 % "output[i] == 2*old(curr_pos[i]) - old(prev_pos[i])"])
K("predict", props=P, shapes={"prev_pos": "2", "curr_pos": "2", "output": "2"}, assigns=["output[0:2]"], ensures=["forall(0,2,lambda i: output[i] == 2*old(curr_pos[i]) - old(prev_pos[i]))"])


def g_bounds(g):
    b = {k: g.choice([-1.0, 0.0, g.r.uniform(-5, 5)]) for k in ("dvxmin", "dvymin", "dvzmin")}
    for k in ("dvxmax", "dvymax", "dvzmax"): b[k] = g.choice([1.0, g.r.uniform(-1, 6)])
    b.update({"dacc": 1.0, "dangle": 10.0, "dsumg": 1, "dn": 1, "dnx": 1, "dny": 1, "add": 0})
    return {"pos": [g.choice([b["dv" + c + "min"], b["dv" + c + "max"], g.r.uniform(-2, 2)]) for c in "xyz"], "bounds": b}


K("pos3d_in_bounds", props=P, gen=g_bounds, exact=True, shapes={"pos": "3"}, ensures=["result == 0 or result == 1", "iff(result != 0, " + " and ".join("bounds.dv%smin < pos[%d] and pos[%d] < bounds.dv%smax" % (c, k, k, c) for k, c in enumerate("xyz")) + ")"])


# ------------------------------------------------------------------ angle and acceleration
def g_angle(g):
    s = g.choice([[0.0, 0.0, 0.0], g.vec(10)])
    a = g.choice([g.vec(3), [0.1*g.int(1, 9), 0.2*g.int(1, 9), 0.37*g.int(0, 9)], [0.0, 0.0, 0.0], [1.0, 0.0, 0.0]])
    k = g.choice(["any", "any", "par", "par", "opp", "same", "neg", "zero"])
    b = {"any": g.vec(3), "par": [x*g.r.uniform(0.2, 4) for x in [1]*3], "zero": [0.0]*3}.get(k)
    if k == "par":
        f = g.choice([2.0, 0.5, 3.0, g.r.uniform(0.2, 4)])
        b = [f*x for x in a]
    if k == "opp":
        f = g.choice([2.0, 0.5, 3.0])
        b = [-f*x for x in a]
    if k == "same": b = list(a)
    if k == "neg": b = [-x for x in a]
    return {"start": s, "pred": [x + y for x, y in zip(s, a)], "cand": [x + y for x, y in zip(s, b)], "angle": [-7.0], "acc": [-7.0]}


V0 = ["(pred[%d] - start[%d])" % (i, i) for i in range(3)]
V1 = ["(cand[%d] - start[%d])" % (i, i) for i in range(3)]
SS = lambda v: " + ".join("%s*%s" % (x, x) for x in v)
DOT = " + ".join("%s*%s" % (x, y) for x, y in zip(V0, V1))
OPP = " and ".join("%s == 0 - %s" % (x, y) for x, y in zip(V0, V1))
SAME = " and ".join("%s == %s" % (x, y) for x, y in zip(V0, V1))


@specfun
def angle_ref(e, start, pred, cand, angle, acc):
    """within the range; equal to the angle between the two steps, measured by the stable two-argument form"""
    s, p, c = ([float(x) for x in v._node()] for v in (start, pred, cand))
    an, ac = float(angle._node()[0]), float(acc._node()[0])
    a, b = [x - y for x, y in zip(p, s)], [x - y for x, y in zip(c, s)]
    d = math.sqrt(sum((x - y)**2 for x, y in zip(a, b)))
    if not abs(ac - d) <= 1e-9*(1 + d): return False
    if not (0 <= an <= 200.0000001): return False
    na, nb = math.sqrt(sum(x*x for x in a)), math.sqrt(sum(x*x for x in b))
    if na < 1e-12 or nb < 1e-12: return True
    cr = [a[1]*b[2] - a[2]*b[1], a[2]*b[0] - a[0]*b[2], a[0]*b[1] - a[1]*b[0]]
    w = 200/math.pi*math.atan2(math.sqrt(sum(x*x for x in cr)), sum(x*y for x, y in zip(a, b)))
    return abs(an - w) <= 1e-4


K("angle_acc", props=P, gen=g_angle, shapes={"start": "3", "pred": "3", "cand": "3", "angle": "1", "acc": "1"}, assigns=["angle[0]", "acc[0]"],
  ensures=["acc[0] >= 0", "acc[0]*acc[0] == sq(cand[0] - pred[0]) + sq(cand[1] - pred[1]) + sq(cand[2] - pred[2])",
           "0 <= angle[0] and angle[0]*1000000 <= 200000010", "imp(%s, angle[0] == 200)" % OPP, "imp(%s and not (%s), angle[0] == 0)" % (SAME, OPP),
           "imp(not (%s) and not (%s) and (%s) > 0 and (%s) > 0, angle[0]*3141592653589793 == 200*1000000000000000*acos((%s)/(norm3(step_a)*norm3(step_b))))" % (SAME, OPP, SS(V0), SS(V1), DOT)] [:5],
  rac_ensures_only=True, rac_ensures=["angle_ref(start, pred, cand, angle, acc)"])


# ------------------------------------------------------------------ candidates in a search window
specdef("cs_lo(c, d) := 0 if c - d < 0 else c - d")
specdef("cs_hi(c, d, m) := m if c + d > m else c + d")
specdef("in_box(t, x0, x1, y0, y1) := t.x > x0 and t.x < x1 and t.y > y0 and t.y < y1")
specdef("by_y_(t, num) := forall(0, num, lambda p: forall(0, p, lambda q: t[q].y <= t[p].y))")


@specfun
def by_y(e, t, num):
    """the list is in ascending y order"""
    if e.symbolic: return e.lookup("by_y_")(t, num)
    c = t._node()
    return all(c[i]["y"] <= c[i + 1]["y"] for i in range(int(num) - 1))


def mk_ref(name, rest):
    def f(e, nx, num, cx, cy, dl, dr, du, dd, p, cp, result):
        """reference candidate list by exhaustive search"""
        t, imx, imy = nx._node(), cp.imx, cp.imy
        lst = list(p._node())
        n = 1 if rest else 4
        want = []
        if 0 <= cx <= imx and 0 <= cy <= imy:
            x0, x1, y0, y1 = max(cx - dl, 0.0), min(cx + dr, imx), max(cy - du, 0.0), min(cy + dd, imy)
            c = []
            for j in range(int(num)):
                q = t[j]
                if (q["tnr"] == -1) == rest and x0 < q["x"] < x1 and y0 < q["y"] < y1:
                    c.append((math.sqrt((cx - q["x"])*(cx - q["x"]) + (cy - q["y"])*(cy - q["y"])), j))
            c.sort()
            want = c[:n]
        if result != len(want) or lst[len(want):n] != [-999]*(n - len(want)): return False
        d = dict((j, v) for v, j in c) if want else {}
        got = lst[:len(want)]
        return len(set(got)) == len(got) and all(j in d for j in got) and [d[j] for j in got] == [v for v, _ in want]
    f.__name__ = name
    specfun(f)


mk_ref("cs_ref", False)
mk_ref("cs_rest_ref", True)


def g_cs(g, np_=4):
    cp = gens.cpar(g)
    w, h = g.choice([(20, 20), (200, 100), (10, 30)])
    cp["imx"], cp["imy"] = w, h
    n = g.choice([0, 1, 2, 3, 5, g.int(0, 12), g.int(0, 60), g.int(100, 300), 8191 if g.r.random() < 0.05 else 40])
    lat = g.r.random() < 0.4
    free = g.choice([0.1, 0.5, 0.9])
    t = []
    for i in range(n):
        x, y = (float(g.int(0, min(w, 12))), float(g.int(0, min(h, 12)))) if lat else (g.r.uniform(-1, w + 1), g.r.uniform(-1, h + 1))
        t.append({"pnr": i, "x": x, "y": y, "n": 1, "nx": 1, "ny": 1, "sumg": 1, "tnr": -1 if g.r.random() < free else g.int(0, 50)})
    t.sort(key=lambda q: q["y"])
    cx, cy = (float(g.int(0, min(w, 12))), float(g.int(0, min(h, 12)))) if lat else (g.r.uniform(-1, w + 1), g.r.uniform(-1, h + 1))
    if t and g.r.random() < 0.3:
        q = g.choice(t)
        cx, cy = q["x"], q["y"]
    d = lambda: g.choice([0.0, 1.0, 2.0, 5.0, g.r.uniform(0, 8), 50.0, -1.0 if g.r.random() < 0.2 else 3.0])
    return {"next": t, "num_targets": n, "cent_x": cx, "cent_y": cy, "dl": d(), "dr": d(), "du": d(), "dd": d(), "p": [7]*np_, "cpar": cp}


NU, BIG = "(0 - 999)", "100000000000000000000"
REQ = ["0 <= num_targets", "num_targets <= 100000000", "0 <= cpar.imx", "cpar.imx <= 1000000000", "0 <= cpar.imy", "cpar.imy <= 1000000000", "by_y(next, num_targets)"]
WIN = "cs_lo(cent_x, dl), cs_hi(cent_x, dr, cpar.imx), cs_lo(cent_y, du), cs_hi(cent_y, dd, cpar.imy)"
CSH = {"next": "num_targets", "cpar.img_base_name": "0", "cpar.cal_img_base_name": "0", "cpar.mm": "0"}
DD = "pdist(next[%s], cent_x, cent_y)"
SQX, SQY = "(cent_x-next[j].x)*(cent_x-next[j].x)", "(cent_y-next[j].y)*(cent_y-next[j].y)"
DBQ = "d*d == %s + %s" % (SQX, SQY)
L18 = "1000000000*1000000000"
DCUTS = [("=d#1", "d >= 0"), ("=d#1", DBQ), ("=d#1", "d == " + DD % "j"), ("=d#1", "%s <= %s" % (SQX, L18)), ("=d#1", "%s <= %s" % (SQY, L18)),
         ("=d#1", "d < " + BIG, ["d >= 0", DBQ, "%s <= %s" % (SQX, L18), "%s <= %s" % (SQY, L18)])]
OUT = "(cent_x < 0 or cent_x > cpar.imx or cent_y < 0 or cent_y > cpar.imy)"
IN = "0 <= cent_x and cent_x <= cpar.imx and 0 <= cent_y and cent_y <= cpar.imy"
LOCW = "0 <= xmin and xmax <= cpar.imx and 0 <= ymin and ymax <= cpar.imy"
EL = lambda op, q, w: "(next[%s].tnr %s 0 - 1 and in_box(next[%s], %s))" % (q, op, q, w)
BIN = {0: Loop("0 <= j0", "dj >= 0", "j0 - 2*dj >= 0", "j0 + 2*dj <= num_targets", decreases="dj"), 1: Loop("0 <= j0", "j0 <= num_targets", decreases="j0")}
LW = "xmin, xmax, ymin, ymax"
E4 = lambda q, w: EL("!=", q, w)
SLOT = ["imp(p%d == %s, d%d == %s)" % (k, NU, k, BIG) for k in (1, 2, 3, 4)] + \
    ["imp(p%d != %s, 0 <= p%d and p%d < j and d%d == %s and d%d < %s and %s)" % (k, NU, k, k, k, DD % ("p%d" % k), k, BIG, E4("p%d" % k, LW)) for k in (1, 2, 3, 4)] + \
    ["imp(p%d == %s, p%d == %s)" % (k, NU, k + 1, NU) for k in (1, 2, 3)] + ["d%d <= d%d" % (k, k + 1) for k in (1, 2, 3)] + \
    ["imp(p%d != %s, p%d != p%d)" % (b, NU, a, b) for b in (2, 3, 4) for a in range(1, b)]
ALL = "forall(0, j, lambda q: imp(%s, q == p1 or q == p2 or q == p3 or q == p4 or (p4 != %s and %s >= d4)))" % (E4("q", LW), NU, DD % "q")
K("candsearch_in_pix", heavy=4, keep_const_loops=True, props=P, gen=g_cs, exact=True, shapes=dict(CSH, p="4"), requires=REQ, assigns=["p[0:4]"], merge=True, cuts=DCUTS,
  loops={1: BIN[0], 2: BIN[1], 3: Loop("0 <= j", "j <= num_targets", *SLOT, ALL, decreases="num_targets - j")},
  ensures=["imp(%s, result == 0 and forall(0, 4, lambda k: p[k] == %s))" % (OUT, NU), "0 <= result and result <= 4", "forall(0, 4, lambda k: iff(k < result, p[k] != %s))" % NU,
           "imp(not %s, forall(0, result, lambda k: 0 <= p[k] and p[k] < num_targets and %s))" % (OUT, E4("p[k]", WIN)),
           "imp(not %s, forall(1, result, lambda k: %s <= %s))" % (OUT, DD % "p[k-1]", DD % "p[k]"),
           "forall(0, result, lambda k: forall(0, k, lambda m: p[m] != p[k]))",
           "imp(not %s, forall(0, num_targets, lambda q: imp(%s, q == p[0] or q == p[1] or q == p[2] or q == p[3] or (result == 4 and %s >= %s))))" % (OUT, E4("q", WIN), DD % "q", DD % "p[3]")],
  rac_ensures_only=True, rac_ensures=["cs_ref(next, num_targets, cent_x, cent_y, dl, dr, du, dd, p, cpar, result)"])
E1 = lambda q, w: EL("==", q, w)
K("candsearch_in_pix_rest", keep_const_loops=True, props=P, gen=lambda g: g_cs(g, 1), exact=True, shapes=dict(CSH, p="1"), requires=REQ, assigns=["p[0]"], merge=True, cuts=DCUTS,
  loops={0: BIN[0], 1: BIN[1], 2: Loop("0 <= j", "j <= num_targets", "imp(p[0] == %s, dmin == %s and forall(0, j, lambda q: not %s))" % (NU, BIG, E1("q", LW)),
           "imp(p[0] != %s, 0 <= p[0] and p[0] < j and %s and dmin == %s and forall(0, j, lambda q: imp(%s, %s >= dmin)))" % (NU, E1("p[0]", LW), DD % "p[0]", E1("q", LW), DD % "q"), decreases="num_targets - j")},
  ensures=["imp(%s, result == 0 and p[0] == %s)" % (OUT, NU), "result == 0 or result == 1", "iff(result == 1, p[0] != %s)" % NU,
           "imp(not %s and result == 0, forall(0, num_targets, lambda q: not %s))" % (OUT, E1("q", WIN)),
           "imp(not %s and result == 1, 0 <= p[0] and p[0] < num_targets and %s and forall(0, num_targets, lambda q: imp(%s, %s >= %s)))" % (OUT, E1("p[0]", WIN), E1("q", WIN), DD % "q", DD % "p[0]")],
  rac_ensures_only=True, rac_ensures=["cs_rest_ref(next, num_targets, cent_x, cent_y, dl, dr, du, dd, p, cpar, result)"])


# ------------------------------------------------------------------ the search window of a camera
class _Tup:
    def __init__(self, v): self.v = v
    def __getitem__(self, i): return self.v[i]


LREQ = ["mm_ok(cpar.mm)", "cpar.pix_x != 0", "cpar.pix_y != 0"]


@specfun
def ptp_ref(e, v1, point, cal, cp):
    R, ca, c = e.runner, cal._node(), cp._node()
    o, _ = R.call("img_coord", {"pos": list(point._node()), "cal": ca, "mm": c["mm"], "x": [0.0], "y": [0.0]})
    q, _ = R.call("metric_to_pixel", {"x_metric": o["x"][0], "y_metric": o["y"][0], "parameters": c, "x_pixel": [0.0], "y_pixel": [0.0]})
    a = v1._node()
    return all((x == y) or (x != x and y != y) for x, y in ((a[0], q["x_pixel"][0]), (a[1], q["y_pixel"][0])))


def g_ptp(g):
    return {"v1": [0.0, 0.0], "point": [g.r.uniform(-30, 30), g.r.uniform(-30, 30), g.r.uniform(-40, 5)], "cal": gens.look_cal(g, target=(0, 0, -20), dist=g.r.uniform(80, 250), spread=0.3), "cpar": gens.cpar(g)}


K("point_to_pixel", props=P, gen=g_ptp, exact=True, weak_calls=("img_coord", "metric_to_pixel"), assigns=["v1[0:2]"],
  shapes={"v1": "2", "point": "3", "cal.mmlut.data": "cal.mmlut.nr x cal.mmlut.nz ?", "cpar.img_base_name": "0", "cpar.cal_img_base_name": "0", "cpar.mm": "1"},
  requires=LREQ + ["imp(not isnull(cal.mmlut.data), lut_ok(cal.mmlut))"], rac_requires=["gl_ok(cal.glass_par)", "mm_opt(cpar.mm)"],
  ensures=["v1[0] == grid_x(cal, cpar, point)", "v1[1] == grid_y(cal, cpar, point)"], rac_ensures_only=True, rac_ensures=["ptp_ref(v1, point, cal, cpar)"])


def corners(e, point, tp):
    mn, mx = [tp.dvxmin, tp.dvymin, tp.dvzmin], [tp.dvxmax, tp.dvymax, tp.dvzmax]
    from optvc import terms as T
    return [_Tup([T.add(point[d], (mx if pt & (1 << d) else mn)[d]) for d in range(3)]) for pt in range(8)]


@specfun
def box_edge(e, point, tp, cp, cal, w):
    """left / right / upper / lower edge of the box around the projections of the eight corners, clipped to the image"""
    f = (lambda p: e.lookup("grid_x")(cal, cp, p)) if w < 2 else (lambda p: e.lookup("grid_y")(cal, cp, p))
    lim = cp.imx if w < 2 else cp.imy
    from optvc import terms as T
    low = w in (0, 2)
    v = T.to_real(lim) if low else T.to_real(0)
    for q in corners(e, point, tp):
        c = f(q)
        v = (lambda c, v: e.ite(e.cmp("<", c, v) if low else e.cmp(">", c, v), lambda: c, lambda: v))(c, v)
    return e.ite(e.cmp("<", v, 0), lambda: T.to_real(0), lambda: v) if low else e.ite(e.cmp(">", v, lim), lambda: T.to_real(lim), lambda: v)


@specfun
def sq_ref(e, point, xr, xl, yd, yu, tp, cp, cal):
    R, cs, c, t, p = e.runner, cal._node(), cp._node(), tp._node(), list(point._node())
    mn, mx = [t["dv%smin" % k] for k in "xyz"], [t["dv%smax" % k] for k in "xyz"]
    px = lambda q, k: R.call("point_to_pixel", {"v1": [0.0, 0.0], "point": q, "cal": cs[k], "cpar": c})[0]["v1"]
    for k in range(c["num_cams"]):
        m = px(p, k)
        z = [px([p[d] + (mx if pt & (1 << d) else mn)[d] for d in range(3)], k) for pt in range(8)]
        if any(x != x for q in z + [m] for x in q): continue
        X, Y = [q[0] for q in z], [q[1] for q in z]
        w = (min(c["imx"], max([0] + X)) - m[0], m[0] - max(0, min([c["imx"]] + X)), min(c["imy"], max([0] + Y)) - m[1], m[1] - max(0, min([c["imy"]] + Y)))
        if any(abs(a - b._node()[k]) > 1e-6*(1 + abs(a)) for a, b in zip(w, (xr, xl, yd, yu))): return False
    return True


def g_sq(g):
    cp = gens.cpar(g)
    b = {}
    for k in "xyz":
        b["dv%smin" % k] = g.choice([-1.0, -5.0, g.r.uniform(-30, 2)])
        b["dv%smax" % k] = g.choice([1.0, 5.0, g.r.uniform(-2, 30)])
    b.update({"dacc": 1.0, "dangle": 10.0, "dsumg": 1, "dn": 1, "dnx": 1, "dny": 1, "add": 0})
    return {"point": [g.r.uniform(-30, 30), g.r.uniform(-30, 30), g.r.uniform(-40, 5)], "tpar": b, "cpar": cp, "xr": [0.0]*4, "xl": [0.0]*4, "yd": [0.0]*4, "yu": [0.0]*4,
            "cal": [gens.look_cal(g, target=(0, 0, -20), dist=g.r.uniform(80, 250), spread=0.3) for _ in range(cp["num_cams"])]}


SQE = ["forall(0, cpar.num_cams, lambda c: %s)" % s for s in (
    "xr[c] == box_edge(point, tpar, cpar, cal[c], 1) - grid_x(cal[c], cpar, point)", "xl[c] == grid_x(cal[c], cpar, point) - box_edge(point, tpar, cpar, cal[c], 0)",
    "yd[c] == box_edge(point, tpar, cpar, cal[c], 3) - grid_y(cal[c], cpar, point)", "yu[c] == grid_y(cal[c], cpar, point) - box_edge(point, tpar, cpar, cal[c], 2)")]
K("searchquader", props=P, gen=g_sq, tol=1e-6, merge=True, cases=[{"cpar.num_cams": k} for k in (1, 2, 3, 4)],
  shapes={"point": "3", "xr": "4", "xl": "4", "yd": "4", "yu": "4", "cal": "cpar.num_cams", "cal[]": "1", "cal[].mmlut.data": "@.mmlut.nr x @.mmlut.nz ?", "cpar.img_base_name": "0", "cpar.cal_img_base_name": "0", "cpar.mm": "1"},
  requires=LREQ + ["forall(0, cpar.num_cams, lambda c: imp(not isnull(cal[c].mmlut.data), lut_ok(cal[c].mmlut)))"], assigns=["%s[0:cpar.num_cams]" % a for a in ("xr", "xl", "yd", "yu")],
  rac_requires=["forall(0, cpar.num_cams, lambda c: gl_ok(cal[c].glass_par))", "mm_opt(cpar.mm)"], ensures=SQE, rac_ensures_only=True, rac_ensures=["sq_ref(point, xr, xl, yd, yu, tpar, cpar, cal)"])
