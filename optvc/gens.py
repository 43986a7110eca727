"""shared input generators for the concrete runs"""
import copy


def leaves(rep, path=()):
    if isinstance(rep, dict):
        for k, v in rep.items(): yield from leaves(v, path + (k,))
    elif isinstance(rep, list):
        for i, v in enumerate(rep): yield from leaves(v, path + (i,))
    elif isinstance(rep, (int, float, str)): yield path


def setleaf(rep, path, v):
    for p in path[:-1]: rep = rep[p]
    rep[path[-1]] = v


def getleaf(rep, path):
    for p in path: rep = rep[p]
    return rep


def near_copy(g, rep, skip=()):
    """deep copy of rep, with one random leaf perturbed about 60% of the time"""
    b = copy.deepcopy(rep)
    if g.r.random() < 0.6:
        ls = [l for l in leaves(b) if not any(s in l for s in skip)]
        if ls:
            l = g.choice(ls)
            v = getleaf(b, l)
            if isinstance(v, str): nv = g.choice([v + "x", v[:-1], "other", v[:1] + "zz"]) if v else "q"
            elif isinstance(v, int): nv = v + g.choice([1, -1, 7])
            else: nv = v + g.choice([1e-3, -1.0, 1e-7, 5.0])
            setleaf(b, l, nv)
    return b


def pair(p1, p2, mk, skip=()):
    def gen(g):
        a = mk(g)
        return {p1: a, p2: near_copy(g, a, skip)}
    return gen


def struct_of(prog, contract, tag): pass


# ------------------------------------------------------------- shared domain objects
import math


def rot(o, p, k):
    so, co, sp, cp, sk, ck = math.sin(o), math.cos(o), math.sin(p), math.cos(p), math.sin(k), math.cos(k)
    return [[cp * ck, -cp * sk, sp], [co * sk + so * sp * ck, co * ck - so * sp * sk, -so * cp], [so * sk - co * sp * ck, so * ck + co * sp * sk, co * cp]]


def mm(g, single=None, nlay=1):
    """glass stack; `single`: one medium only"""
    if single is None: single = g.r.random() < 0.3
    n = [1.0, 1.0, 1.0]
    d = [0.0, 0.0, 0.0]
    for i in range(nlay):
        n[i] = 1.0 if single else g.r.uniform(1.3, 1.6)
        d[i] = g.r.uniform(0.5, 10)
    return {"nlay": nlay, "n1": 1.0, "n2": n, "d": d, "n3": 1.0 if single else g.choice([1.33, 1.0, g.r.uniform(1.0, 1.5)])}


def addpar(g, kind=None):
    z = lambda sc: g.choice([0.0, g.r.uniform(-sc, sc)])
    if kind is None: kind = g.choice(["none", "mild"])
    if kind == "none": return {"k1": 0.0, "k2": 0.0, "k3": 0.0, "p1": 0.0, "p2": 0.0, "scx": 1.0, "she": 0.0}
    return {"k1": z(1e-4), "k2": z(1e-7), "k3": z(1e-10), "p1": z(1e-4), "p2": z(1e-4), "scx": g.choice([1.0, g.r.uniform(0.97, 1.03)]), "she": z(0.02)}


def look_cal(g, target=(0.0, 0.0, 0.0), dist=None, spread=0.5, glass=True, added=None):
    """a camera at some distance above the glass (which lies along +z of the glass vector) looking at `target`"""
    dist = dist or g.r.uniform(80, 300)
    dx, dy = g.r.uniform(-spread, spread), g.r.uniform(-spread, spread)
    pos = [target[0] + dist * dx, target[1] + dist * dy, target[2] + dist]
    v = [pos[i] - target[i] for i in range(3)]
    n = math.sqrt(sum(c * c for c in v))
    v = [c / n for c in v]
    # third column of dm is the direction from scene to camera: (sin phi, -sin om cos phi, cos om cos phi)
    jit = g.choice([0.0, 0.02])
    phi = math.asin(max(-1, min(1, v[0]))) + g.r.uniform(-jit, jit)
    om = math.atan2(-v[1], v[2]) + g.r.uniform(-jit, jit)
    ka = g.choice([0.0, g.r.uniform(-3.1, 3.1)])
    gl = {"vec_x": 0.0, "vec_y": 0.0, "vec_z": g.r.uniform(20, 60)}
    if glass and g.r.random() < 0.6: gl = {"vec_x": g.r.uniform(-5, 5), "vec_y": g.r.uniform(-5, 5), "vec_z": g.r.uniform(20, 60)}
    return {"ext_par": {"x0": pos[0], "y0": pos[1], "z0": pos[2], "omega": om, "phi": phi, "kappa": ka, "dm": rot(om, phi, ka)},
            "int_par": {"xh": g.choice([0.0, g.r.uniform(-0.5, 0.5)]), "yh": g.choice([0.0, g.r.uniform(-0.5, 0.5)]), "cc": g.r.uniform(30, 120)},
            "glass_par": gl, "added_par": addpar(g, added),
            "mmlut": {"origin": [0.0, 0.0, 0.0], "nr": 0, "nz": 0, "rw": 0, "data": None}}


def cpar(g, ncam=None, single=None, imx=None, imy=None):
    return {"num_cams": ncam or g.int(1, 4), "img_base_name": None, "cal_img_base_name": None, "hp_flag": g.int(0, 1), "allCam_flag": g.int(0, 1), "tiff_flag": 1,
            "imx": imx or g.choice([640, 1024, 1280, 200]), "imy": imy or g.choice([480, 1024, 200]),
            "pix_x": g.r.uniform(0.008, 0.03), "pix_y": g.r.uniform(0.008, 0.03), "chfield": g.choice([0, 0, 0, 1, 2]), "mm": mm(g, single)}
