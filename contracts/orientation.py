"""Ray intersection, point positioning, exterior sensitivities, orientation (orientation.c)."""
from optvc.registry import K
from optvc.spec import specdef, specfun, SPECFUNS, Loop
from optvc import gens, terms as T
import math, z3

P = ("C13",)
A3 = "forall(0,3,lambda i: %s)"


def uf(name, args): return z3.Function(name, *([z3.RealSort()]*(len(args) + 1)))(*[T.z(T.to_real(x)) for x in args])


# ------------------------------------------------------------------ skew rays
specdef("crs(a, b, i) := (a[1]*b[2]-a[2]*b[1]) if i == 0 else ((a[2]*b[0]-a[0]*b[2]) if i == 1 else (a[0]*b[1]-a[1]*b[0]))")
specdef("crs2(a, b) := sq(crs(a,b,0)) + sq(crs(a,b,1)) + sq(crs(a,b,2))")
# (d1 x d2) . ((v2 - v1) x d)
specdef("trip(d1, d2, v1, v2, d) := crs(d1,d2,0)*((v2[1]-v1[1])*d[2]-(v2[2]-v1[2])*d[1]) + crs(d1,d2,1)*((v2[2]-v1[2])*d[0]-(v2[0]-v1[0])*d[2]) + crs(d1,d2,2)*((v2[0]-v1[0])*d[1]-(v2[1]-v1[1])*d[0])")
specdef("foot1(v1, d1, v2, d2, i) := v1[i] + d1[i]*trip(d1,d2,v1,v2,d2)/crs2(d1,d2)")
specdef("foot2(v1, d1, v2, d2, i) := v2[i] + d2[i]*trip(d1,d2,v1,v2,d1)/crs2(d1,d2)")


def conc_skew(v1, d1, v2, d2):
    from optvc.crep import UNK
    import fractions
    F = lambda a: [fractions.Fraction(float(x)) for x in a]
    if any(not math.isfinite(float(x)) for a in (v1, d1, v2, d2) for x in a): return None
    v1, d1, v2, d2 = F(v1), F(d1), F(v2), F(d2)
    dot = lambda a, b: sum(x*y for x, y in zip(a, b))
    w = [b - a for a, b in zip(v1, v2)]
    A, B, C = dot(d1, d1), dot(d1, d2), dot(d2, d2)
    det = A*C - B*B
    if det <= 1e-4*A*C: return None
    s, t = (dot(w, d1)*C - dot(w, d2)*B)/det, (dot(w, d1)*B - dot(w, d2)*A)/det
    p, q = [a + s*b for a, b in zip(v1, d1)], [a + t*b for a, b in zip(v2, d2)]
    return [float((a + b)/2) for a, b in zip(p, q)], math.sqrt(sum(float(a - b)**2 for a, b in zip(p, q)))


def v3(a): return [a[0], a[1], a[2]]


@specfun
def SKM(e, v1, d1, v2, d2, i):
    """midpoint of the common perpendicular of two rays"""
    if e.symbolic: return uf("SKM%d" % int(i), v3(v1) + v3(d1) + v3(v2) + v3(d2))
    from optvc.crep import UNK
    r = conc_skew(v3(v1), v3(d1), v3(v2), v3(d2))
    return UNK if r is None else r[0][int(i)]


@specfun
def SKD(e, v1, d1, v2, d2):
    """length of the common perpendicular"""
    if e.symbolic: return uf("SKD", v3(v1) + v3(d1) + v3(v2) + v3(d2))
    from optvc.crep import UNK
    r = conc_skew(v3(v1), v3(d1), v3(v2), v3(d2))
    return UNK if r is None else r[1]


def g_skew(g):
    d1, d2 = g.vec(1), g.vec(1)
    if g.r.random() < 0.4: d1, d2 = [0.0, 0.0, 1.0], g.choice([[0.0, 1.0, 0.0], [0.0, 1e-2, 1.0], [0.1, 0.0, -1.0]])
    return {"vert1": g.vec(100), "vert2": g.vec(100), "direct1": d1, "direct2": d2}


ARGS = "vert1, direct1, vert2, direct2"
DLT = "(foot1(%s,%%s) - foot2(%s,%%s))" % (ARGS, ARGS)
K("skew_midpoint", props=P, gen=g_skew, shapes={k: "3" for k in ("vert1", "direct1", "vert2", "direct2", "res")}, assigns=["res[0:3]"], check_div=False, tol=1e-6,
  guard=["crs2(direct1,direct2) != 0"], rac_requires=["crs2(direct1,direct2) > 1e-4*n2(direct1)*n2(direct2)"],
  cuts=[("=scale#1", {"sc": "scale"}), ("=scale#1", "sc == crs2(direct1,direct2)"),
        ("vec_add#1", A3 % "on1[i] == foot1(%s,i)" % ARGS), ("vec_add#2", A3 % "on2[i] == foot2(%s,i)" % ARGS)],
  ensures=[A3 % "res[i] == (foot1(%s,i) + foot2(%s,i))/2" % (ARGS, ARGS), "result >= 0",
           "result*result == sq(%s) + sq(%s) + sq(%s)" % tuple(DLT % (k, k) for k in range(3)),
           # the connection of the two feet is perpendicular to both rays: the points of least distance
           " + ".join("%s*direct1[%d]" % (DLT % (k, k), k) for k in range(3)) + " == 0",
           " + ".join("%s*direct2[%d]" % (DLT % (k, k), k) for k in range(3)) + " == 0"],
  ens_assumed=["result == SKD(%s)" % ARGS, A3 % "res[i] == SKM(%s,i)" % ARGS],
  rac_ensures_only=True, rac_ensures=["result == SKD(%s)" % ARGS, A3 % "res[i] == SKM(%s,i)" % ARGS])


# ------------------------------------------------------------------ position of a point seen by several cameras
class _Tup:
    def __init__(self, v): self.v = v
    def __getitem__(self, i): return self.v[i]


def raykey(cal, mm, x, y):
    e, i, g = cal.ext_par, cal.int_par, cal.glass_par
    return [x, y, e.x0, e.y0, e.z0] + [e.dm[r][c] for r in range(3) for c in range(3)] + [i.cc, g.vec_x, g.vec_y, g.vec_z, mm.n1, mm.n3, mm.n2[0], mm.d[0]]


@specfun
def RTX(e, cal, mm, x, y, i):
    """start of the viewing ray on the far glass surface"""
    if e.symbolic: return uf("RTX%d" % int(i), raykey(cal, mm, x, y))
    return e.lookup("rt_X")(x, y, cal, mm, i)


@specfun
def RTO(e, cal, mm, x, y, i):
    if e.symbolic: return uf("RTO%d" % int(i), raykey(cal, mm, x, y))
    return e.lookup("rt_out")(x, y, cal, mm, i)


@specfun
def pp_used(e, t, c): return e.cmp("!=", t[c][0], e._unused)


def _ray(e, t, cals, mm, c):
    cal = cals[c]
    return [_Tup([f(e, cal, mm, t[c][0], t[c][1], i) for i in range(3)]) for f in (RTX, RTO)]


@specfun
def pp_d(e, t, cals, mm, a, b): return SKD(e, *_ray(e, t, cals, mm, a), *_ray(e, t, cals, mm, b))


@specfun
def pp_m(e, t, cals, mm, a, b, i): return SKM(e, *_ray(e, t, cals, mm, a), *_ray(e, t, cals, mm, b), i)


UNU = "(-10000000000)"
specdef("seen(t, c) := not exact(t[c][0], 0 - 10000000000)")
specdef("pairs_row(t, a, lo, hi) := sum_(lo, hi, lambda b: 1 if seen(t,b) else 0)")
specdef("dist_row(t, cals, mm, a, lo, hi) := sum_(lo, hi, lambda b: pp_d(t,cals,mm,a,b) if seen(t,b) else 0)")
specdef("mid_row(t, cals, mm, a, lo, hi, i) := sum_(lo, hi, lambda b: pp_m(t,cals,mm,a,b,i) if seen(t,b) else 0)")
specdef("pairs_all(t, n, k) := sum_(0, k, lambda a: pairs_row(t, a, a+1, n) if seen(t,a) else 0)")
specdef("dist_all(t, cals, mm, n, k) := sum_(0, k, lambda a: dist_row(t, cals, mm, a, a+1, n) if seen(t,a) else 0)")
specdef("mid_all(t, cals, mm, n, k, i) := sum_(0, k, lambda a: mid_row(t, cals, mm, a, a+1, n, i) if seen(t,a) else 0)")


def g_pp(g):
    n = g.int(1, 4)
    m = gens.mm(g)
    return {"targets": [[g.choice([-1e10, g.r.uniform(-4, 4), g.r.uniform(-4, 4)]), g.r.uniform(-4, 4)] for _ in range(n)], "num_cams": n, "multimed_pars": m,
            "cals": [gens.look_cal(g, target=(0, 0, -20), dist=g.r.uniform(80, 250), spread=0.6) for _ in range(n)]}


PPS = {"targets": "num_cams", "cals": "num_cams", "cals[]": "1", "cals[].mmlut.data": "0", "res": "3"}
RAYS = "forall(0,%s,lambda c: imp(seen(targets,c), forall(0,3,lambda i: vertices[c][i] == RTX(cals[c],multimed_pars,targets[c][0],targets[c][1],i) and directs[c][i] == RTO(cals[c],multimed_pars,targets[c][0],targets[c][1],i))))"
T_ = "targets, cals, multimed_pars"
K("point_position", props=P, share_sums=True, no_feas=True, weak_calls=("ray_tracing", "skew_midpoint"), gen=g_pp, shapes=PPS, assigns=["res[0:3]"], check_div=False, tol=1e-5, requires=["num_cams >= 1", "num_cams <= 1000"],
  guard=["pairs_all(targets, num_cams, num_cams) > 0"],
  loops=[Loop("0 <= cam <= num_cams", RAYS % "cam", decreases="num_cams - cam"),
         Loop("0 <= cam <= num_cams", RAYS % "num_cams", "num_used_pairs == pairs_all(targets,num_cams,cam)", "dtot == dist_all(%s,num_cams,cam)" % T_,
              A3 % ("point_tot[i] == mid_all(%s,num_cams,cam,i)" % T_), "0 <= num_used_pairs <= cam*num_cams", decreases="num_cams - cam"),
         Loop("0 <= cam < num_cams", "cam + 1 <= pair <= num_cams", "seen(targets,cam)", RAYS % "num_cams",
              "num_used_pairs == pairs_all(targets,num_cams,cam) + pairs_row(targets,cam,cam+1,pair)",
              "dtot == dist_all(%s,num_cams,cam) + dist_row(%s,cam,cam+1,pair)" % (T_, T_),
              A3 % ("point_tot[i] == mid_all(%s,num_cams,cam,i) + mid_row(%s,cam,cam+1,pair,i)" % (T_, T_)),
              "0 <= num_used_pairs <= cam*num_cams + pair - cam - 1", decreases="num_cams - pair")],
  ensures=["result*pairs_all(targets,num_cams,num_cams) == dist_all(%s,num_cams,num_cams)" % T_,
           A3 % ("res[i]*pairs_all(targets,num_cams,num_cams) == mid_all(%s,num_cams,num_cams,i)" % T_)])
