"""Tracing an image point through the glass (ray_tracing.c)."""
from optvc.registry import K
from optvc.spec import specdef
from optvc import gens

P = ("C05",)
specdef("cal_ok(c) := orthoc(c.ext_par.dm) and (c.glass_par.vec_x != 0 or c.glass_par.vec_y != 0 or c.glass_par.vec_z != 0)")
specdef("gnorm(c) := sqrt(sq(c.glass_par.vec_x)+sq(c.glass_par.vec_y)+sq(c.glass_par.vec_z))")
specdef("gdir(c,i) := (c.glass_par.vec_x if i == 0 else (c.glass_par.vec_y if i == 1 else c.glass_par.vec_z))/gnorm(c)")
specdef("prim(c,i) := c.ext_par.x0 if i == 0 else (c.ext_par.y0 if i == 1 else c.ext_par.z0)")
specdef("unorm(x,y,c) := sqrt(x*x + y*y + sq(c.int_par.cc))")
specdef("sraw(x,y,c,i) := c.ext_par.dm[i][0]*x + c.ext_par.dm[i][1]*y - c.ext_par.dm[i][2]*c.int_par.cc")
specdef("sdir(x,y,c,i) := sraw(x,y,c,i)/unorm(x,y,c)")
specdef("ray_cos(x,y,c) := sdir(x,y,c,0)*gdir(c,0)+sdir(x,y,c,1)*gdir(c,1)+sdir(x,y,c,2)*gdir(c,2)")
# refracted unit direction for tangential scale f = n_from/n_to:  f*(s - (s.g) g) - g*sqrt(1 - f^2 (1-(s.g)^2))
specdef("refr(s, g, c, f) := f*(s - g*c) - g*sqrt(1 - f*f*(1 - c*c))")
specdef("glass_gap(c, mm) := gnorm(c) + mm.d[0] - (gdir(c,0)*c.ext_par.x0 + gdir(c,1)*c.ext_par.y0 + gdir(c,2)*c.ext_par.z0)")
specdef("rt_X(x,y,c,mm,i) := prim(c,i) + sdir(x,y,c,i)*glass_gap(c,mm)/ray_cos(x,y,c)"
        " + refr(sdir(x,y,c,i), gdir(c,i), ray_cos(x,y,c), mm.n1/mm.n2[0])*mm.d[0]/sqrt(1 - sq(mm.n1/mm.n2[0])*(1 - sq(ray_cos(x,y,c))))")
specdef("rt_out(x,y,c,mm,i) := refr(sdir(x,y,c,i), gdir(c,i), ray_cos(x,y,c), mm.n1/mm.n3)")


def g_rt(g):
    c = gens.look_cal(g)
    m = gens.mm(g, nlay=g.choice([1, 1, 1, 2, 3]))
    if g.r.random() < 0.3: m["d"][0] = 0.0
    if g.r.random() < 0.2: m["n1"] = g.r.uniform(1.0, 1.4)
    if g.r.random() < 0.1: m["n2"][0] = 1.0
    d = {"cal": c, "mm": m, "x": g.choice([0.0, g.r.uniform(-8, 8)]), "y": g.choice([0.0, g.r.uniform(-8, 8)])}
    return d


SI = "(s0 if i == 0 else (s1 if i == 1 else s2))"
GI = "(g0 if i == 0 else (g1 if i == 1 else g2))"
WS = "(wit('s0') if i == 0 else (wit('s1') if i == 1 else wit('s2')))"
WG = "(wit('g0') if i == 0 else (wit('g1') if i == 1 else wit('g2')))"
A3 = "forall(0,3,lambda i: %s)"
import re
def w(t): return re.sub(r"\b([sgcqwfuh][0-3])\b", r"wit('\1')", t)


ORT = "orthoc(cal.ext_par.dm)"
SS, GG = "s0*s0+s1*s1+s2*s2 == 1", "g0*g0+g1*g1+g2*g2 == 1"
C0 = "c0 == s0*g0+s1*g1+s2*g2"
S0 = "1 - c0*c0 == sq(s0-g0*c0)+sq(s1-g1*c0)+sq(s2-g2*c0)"
Q1, Q3 = "q1*q1 == 1 - f1*f1*(1 - c0*c0)", "q3*q3 == 1 - f3*f3*(1 - c0*c0)"
Q1w, Q3w, C0w, SSw, GGw = w(Q1), w(Q3), w(C0), w(SS), w(GG)
W0 = "w0*w0 == 1 - c0*c0"
TT = "tmp2[0]*tmp2[0]+tmp2[1]*tmp2[1]+tmp2[2]*tmp2[2]"
FT1 = A3 % ("tmp2[i] == f1*(%s - %s*c0)" % (SI, GI))
A2 = A3 % ("a2[i] == f1*(%s - %s*c0) - %s*q1" % (SI, GI, GI))
GAP = "wit('gn') + mm.d[0] - (wit('g0')*cal.ext_par.x0 + wit('g1')*cal.ext_par.y0 + wit('g2')*cal.ext_par.z0)"
WH = "(wit('h0') if i == 0 else (wit('h1') if i == 1 else wit('h2')))"
D1W, D2W = "wit('d1')*wit('c0') == " + GAP, "wit('d2')*wit('q1') == mm.d[0]"
XR = A3 % ("X[i] == prim(cal,i) + %s*wit('d1') + %s*wit('d2')" % (WS, WH))
OUT = A3 % ("out[i] == wit('f3')*(%s - %s*wit('c0')) - %s*wit('q3')" % (WS, WG, WG))
A2W = A3 % ("%s == wit('f1')*(%s - %s*wit('c0')) - %s*wit('q1')" % (WH, WS, WG, WG))
NRM_OUT = "out[0]*out[0]+out[1]*out[1]+out[2]*out[2] == 1"
XF = A3 % ("X[i] == prim(cal,i) + %s*(%s)/wit('c0') + (wit('f1')*(%s - %s*wit('c0')) - %s*wit('q1'))*mm.d[0]/wit('q1')" % (WS, GAP, WS, WG, WG))
K("ray_tracing", props=P, gen=g_rt, shapes={"X": "3", "out": "3", "cal.mmlut.data": "0"}, assigns=["X[0:3]", "out[0:3]"], check_div=False, tol=1e-6,
  guard=["cal_ok(cal)", "x != 0 or y != 0 or cal.int_par.cc != 0", "mm.n1 > 0", "mm.n2[0] > 0", "mm.n3 > 0", "mm.d[0] >= 0",
            # the ray reaches the glass and is not totally reflected at either surface
            "ray_cos(x,y,cal) != 0", "sq(mm.n1/mm.n2[0])*(1 - sq(ray_cos(x,y,cal))) < 1", "sq(mm.n1/mm.n3)*(1 - sq(ray_cos(x,y,cal))) < 1"],
  cuts=[("unit_vector#1", {"u0": "tmp1[0]", "u1": "tmp1[1]", "u2": "tmp1[2]"}),
        ("matmul#1", {"s0": "start_dir[0]", "s1": "start_dir[1]", "s2": "start_dir[2]", "un": "unorm(x,y,cal)", "gn": "gnorm(cal)"}),
        ("matmul#1", "un > 0"), ("matmul#1", "gn > 0"),
        ("matmul#1", A3 % "start_dir[i]*un == sraw(x,y,cal,i)"),
        ("matmul#1", SS, [ORT, "u0*u0+u1*u1+u2*u2 == 1"] + ["s%d == cal.ext_par.dm[%d][0]*u0 + cal.ext_par.dm[%d][1]*u1 + cal.ext_par.dm[%d][2]*u2" % (i, i, i, i) for i in range(3)]),
        ("unit_vector#2", {"g0": "glass_dir[0]", "g1": "glass_dir[1]", "g2": "glass_dir[2]"}),
        ("unit_vector#2", A3 % "glass_dir[i]*gn == (cal.glass_par.vec_x if i == 0 else (cal.glass_par.vec_y if i == 1 else cal.glass_par.vec_z))"),
        ("unit_vector#2", GG),
        ("=n#1", {"c0": "n", "f1": "mm.n1/mm.n2[0]", "f3": "mm.n1/mm.n3"}),
        ("=n#1", C0),
        ("=n#1", S0, [C0, SS, GG]),
        ("=n#1", "1 - c0*c0 >= 0", [S0]),
        ("=n#1", "c0 == ray_cos(x,y,cal)"), ("=n#1", "c0 != 0"),
        ("=n#1", {"q1": "sqrt(1 - f1*f1*(1 - c0*c0))", "q3": "sqrt(1 - f3*f3*(1 - c0*c0))", "w0": "sqrt(1 - c0*c0)"}),
        ("=n#1", "f1*f1*(1 - c0*c0) < 1"), ("=n#1", "f3*f3*(1 - c0*c0) < 1"), ("=n#1", "q1 > 0"), ("=n#1", "q3 > 0"),
        ("=n#1", Q1), ("=n#1", Q3), ("=n#1", W0), ("=n#1", "w0 >= 0"),
        ("unit_vector#3", TT + " == 1 - c0*c0"),
        ("unit_vector#3", "norm3(tmp2) == w0"),
        ("unit_vector#3", A3 % ("bp[i]*w0 == %s - %s*c0" % (SI, GI))),
        ("=p#1", "p == w0*mm.n1/mm.n2[0]"), ("=p#1", "p == w0*f1", ["p == w0*mm.n1/mm.n2[0]", "mm.n2[0] > 0", "def f1"]),
        ("=p#1", "p*p == f1*f1*(1 - c0*c0)", ["p == w0*f1", W0]),
        ("=n#2", "n == -q1"),
        ("vec_add#2", {"h0": "a2[0]", "h1": "a2[1]", "h2": "a2[2]"}),
        ("vec_add#2", A3 % "a2[i] == p*bp[i] + n*glass_dir[i]"),
        ("vec_add#2", A3 % ("a2[i] == p*bp[i] - q1*%s" % GI), [A3 % "a2[i] == p*bp[i] + n*glass_dir[i]", "n == -q1", "glass_dir[0] == g0", "glass_dir[1] == g1", "glass_dir[2] == g2"]),
        ("vec_add#2", A2, [A3 % ("a2[i] == p*bp[i] - q1*%s" % GI), "p == w0*f1", A3 % ("bp[i]*w0 == %s - %s*c0" % (SI, GI))]),
        ("=d2#1", "a2[0]*g0+a2[1]*g1+a2[2]*g2 == -q1", [A2, C0, GG]),
        ("=d2#1", "d2*q1 == mm.d[0]"), ("=d2#1", {"d1": "d1", "d2": "d2"}),
        ("=n#3", "n == -q1"),
        ("unit_vector#4", A3 % ("tmp2[i] == a2[i] + %s*q1" % GI)),
        ("unit_vector#4", FT1, [A3 % ("tmp2[i] == a2[i] + %s*q1" % GI), A2]),
        ("unit_vector#4", "1 - n*n == f1*f1*(1 - c0*c0)", ["n == -q1", Q1]),
        ("unit_vector#4", TT + " == f1*f1*(1 - c0*c0)", [FT1, S0]),
        ("unit_vector#4", "norm3(tmp2) == sqrt(1 - n*n)", [TT + " == f1*f1*(1 - c0*c0)", "1 - n*n == f1*f1*(1 - c0*c0)"]),
        ("unit_vector#4", A3 % ("bp[i]*sqrt(1 - n*n) == f1*(%s - %s*c0)" % (SI, GI))),
        ("unit_vector#4", "1 - n*n >= 0", ["1 - n*n == f1*f1*(1 - c0*c0)", "1 - c0*c0 >= 0"]),
        ("=p#2", "p*p == f1*f1*(1 - c0*c0)"), ("=p#2", A3 % ("bp[i]*p == f1*(%s - %s*c0)" % (SI, GI))), ("=p#2", {"p2": "p"}),
        ("=p#3", "p*mm.n3 == p2*mm.n2[0]"), ("=p#3", "f1*mm.n2[0] == f3*mm.n3", ["def f1", "def f3", "mm.n2[0] > 0", "mm.n3 > 0"]),
        ("=p#3", "p*f1 == p2*f3", ["p*mm.n3 == p2*mm.n2[0]", "f1*mm.n2[0] == f3*mm.n3", "mm.n2[0] > 0", "mm.n3 > 0"]),
        ("=p#3", "f1 > 0", ["def f1", "mm.n1 > 0", "mm.n2[0] > 0"]),
        ("=p#3", "p == p2*f3/f1", ["p*f1 == p2*f3", "f1 > 0"]),
        ("=p#3", "p*p == f3*f3*(1 - c0*c0)", ["p == p2*f3/f1", "p2*p2 == f1*f1*(1 - c0*c0)", "f1 > 0"]),
        ("=p#3", A3 % ("bp[i]*p == f3*(%s - %s*c0)" % (SI, GI)), ["p == p2*f3/f1", A3 % ("bp[i]*p2 == f1*(%s - %s*c0)" % (SI, GI)), "f1 > 0"]),
        ("=n#4", "n == -q3")],
  ensures=[A3 % (WS + "*unorm(x,y,cal) == sraw(x,y,cal,i)"),
           A3 % (WG + "*gnorm(cal) == (cal.glass_par.vec_x if i == 0 else (cal.glass_par.vec_y if i == 1 else cal.glass_par.vec_z))"),
           "wit('c0') == wit('s0')*wit('g0')+wit('s1')*wit('g1')+wit('s2')*wit('g2')",
           "wit('f1') == mm.n1/mm.n2[0]", "wit('f3') == mm.n1/mm.n3",
           "wit('q1') > 0", "wit('q3') > 0", Q1w, Q3w, "wit('gn') == gnorm(cal)",
           # Snell's law in vector form at the outer surface: tangential part scaled by n1/n3, unit length
           OUT, NRM_OUT,
           # straight to the near surface, refracted (n1/n2) inside the glass, ending on the far surface
           XF, "X[0]*wit('g0')+X[1]*wit('g1')+X[2]*wit('g2') == gnorm(cal)"],
  ens_assumed=["forall(0,3,lambda i: X[i] == RTX(cal,mm,x,y,i) and out[i] == RTO(cal,mm,x,y,i))"],
  post_hints=[XR, "wit('q1') > 0", "wit('c0') != 0", D1W, D2W, OUT, (NRM_OUT, [OUT, Q1w, Q3w, C0w, SSw, GGw]), A2W,
              ("X[0]*wit('g0')+X[1]*wit('g1')+X[2]*wit('g2') == wit('gn')", [XR, D1W, D2W, C0w, w("h0*g0+h1*g1+h2*g2 == -q1")]),
              ("wit('d1') == (%s)/wit('c0')" % GAP, [D1W, "wit('c0') != 0"]), ("wit('d2') == mm.d[0]/wit('q1')", [D2W, "wit('q1') > 0"]),
              (XF, [XR, "wit('d1') == (%s)/wit('c0')" % GAP, "wit('d2') == mm.d[0]/wit('q1')", A2W, "wit('c0') != 0", "wit('q1') > 0"])],
  rac_ensures=["forall(0,3,lambda i: X[i] == rt_X(x,y,cal,mm,i))", "forall(0,3,lambda i: out[i] == rt_out(x,y,cal,mm,i))"])
