"""Sorting and stereo matching (correspondences.c): ordered, a rearrangement of what was there."""
from optvc.registry import K
from optvc.spec import specdef, specfun, SPECFUNS, Loop
from optvc import gens, terms as T
import math, z3

P = ("C10",)


def leaves_of(e, st, v):
    """the field arrays of the region v points into"""
    r = v._p.region
    return [e.eng.get(st, r, k) for k, t, _ in e.eng.leaves(r.etype)]


@specfun
def rearranged(e, v):
    """the records after are those before in some order"""
    if not e.symbolic:
        key = lambda x: repr(x)
        return sorted(map(key, e.reps["pre"][v._root])) == sorted(map(key, e.reps["post"][v._root]))
    a, c = leaves_of(e, e.old_st, v), leaves_of(e, e.cur, v)
    return z3.Function("PERM%d" % len(a), *([x.sort() for x in a + c] + [z3.BoolSort()]))(*(a + c))


def sorted_by(nm, f, sign):
    le = ">=" if sign < 0 else "<="
    specdef("%s_(a, lo, hi) := forall(lo, hi, lambda p: forall(lo, p, lambda q: a[q].%s %s a[p].%s))" % (nm, f, le, f))

    def fn(e, a, lo, hi):
        if e.symbolic: return e.lookup(nm + "_")(a, lo, hi)
        xs = [r[f] for r in a._node()[a._off + int(lo):a._off + int(hi)]]
        return all(x >= y if sign < 0 else x <= y for x, y in zip(xs, xs[1:]))
    fn.__name__ = nm
    specfun(fn)


def drawn(nm, fs):
    """every entry is one of the entries before"""
    specdef("%s_(a, lo, hi) := forall(lo, hi, lambda q: exists(lo, hi, lambda p: %s))" % (nm, " and ".join("a[q].%s == old(a[p].%s)" % (f, f) for f in fs)))

    def fn(e, a, lo, hi):
        if e.symbolic: return e.lookup(nm + "_")(a, lo, hi)
        pre = set(map(repr, e.reps["pre"][a._root][int(lo):int(hi)]))
        return all(repr(r) in pre for r in e.reps["post"][a._root][int(lo):int(hi)])
    fn.__name__ = nm
    specfun(fn)


def key_values(g, n):
    k = g.choice(["any", "few", "asc", "desc", "const", "neg", "one"])
    if k == "few": v = [float(g.int(0, 3)) for _ in range(n)]
    elif k == "const": v = [2.5]*n
    elif k == "one": v = [0.0 if i != n//2 else g.choice([-1.0, 1.0]) for i in range(n)]
    else: v = [g.r.uniform(-5, 5) for _ in range(n)]
    if k == "asc": v.sort()
    if k == "desc": v.sort(reverse=True)
    return v


MK = {"con": lambda g, i, v: {"p": [i, g.int(-1, 9), g.int(-1, 9), g.int(-1, 9)], "corr": v},
      "pix": lambda g, i, v: {"pnr": i, "x": g.r.uniform(0, 9), "y": v, "n": g.int(1, 9), "nx": g.int(1, 9), "ny": g.int(1, 9), "sumg": g.int(1, 99), "tnr": g.int(-1, 5)},
      "crd": lambda g, i, v: {"pnr": i, "x": v, "y": g.r.uniform(0, 9)}}


def gen_sort(arr, whole):
    def gen(g):
        n = g.choice([1, 1, 2, 2, 3, 3, 4, 5, g.int(1, 12), g.int(1, 60), g.int(1, 400)])
        if whole and g.r.random() < 0.08: n = 0
        rows = [MK[arr](g, i, v) for i, v in enumerate(key_values(g, n))]
        if whole: return {arr: rows, "num": n}
        lo = g.int(0, n - 1)
        return {arr: rows, "left": lo, "right": g.int(lo, n - 1)}
    return gen


FIELDS = {"con": ["p[0]", "p[1]", "p[2]", "p[3]", "corr"], "pix": ["y", "pnr", "tnr"], "crd": ["x", "y", "pnr"]}
for FN, ARR, F, SG, PV in (("qs_con", "con", "corr", -1, "xm"), ("qs_target_y", "pix", "y", 1, "ym"), ("qs_coord2d_x", "crd", "x", 1, "xm")):
    GE, LE = (">=", "<=") if SG < 0 else ("<=", ">=")
    A = lambda i: "%s[%s].%s" % (ARR, i, F)
    SN, DN = "sorted_%s" % F if ARR != "crd" else "sorted_cx", "drawn_%s" % ARR
    if ARR == "crd": sorted_by(SN, F, SG)
    else: sorted_by(SN, F, SG)
    drawn(DN, FIELDS[ARR])
    MID = "cdiv(left + right, 2)"
    lo_b = "forall(left, i, lambda p: %s %s %s)" % (A("p"), GE, PV)
    hi_b = "forall(j + 1, right + 1, lambda p: %s %s %s)" % (A("p"), LE, PV)
    rng = "%s(%s, left, right + 1)" % (DN, ARR)
    K(FN, props=P, gen=gen_sort(ARR, False), shapes={ARR: "right + 1"}, assigns=["%s[left:right+1]" % ARR],
      requires=["0 <= left", "left <= right", "right <= 1000000000"], decreases="right - left", check_div=False, merge=False,
      loops=[Loop("left <= i", "j <= right", "i <= j", "(i == left and j == right and %s == %s) or (i > left and j < right)" % (A(MID), PV),
                  lo_b, hi_b, rng, "rearranged(%s)" % ARR, decreases="j - i"),
             Loop("pre(i) <= i", "i <= right", lo_b, "imp(j == right, i <= %s)" % MID, decreases="right - i"),
             Loop("left <= j", "j <= pre(j)", hi_b, "imp(pre(j) == right, j >= %s)" % MID, decreases="j - left")],
      ensures=["%s(%s, left, right + 1)" % (SN, ARR), rng, "rearranged(%s)" % ARR])
    K(FN.replace("qs_", "quicksort_"), props=P, gen=gen_sort(ARR, True), shapes={ARR: "num"}, assigns=["%s[0:num]" % ARR], requires=["0 <= num", "num <= 1000000000"],
      ensures=["%s(%s, 0, num)" % (SN, ARR), "rearranged(%s)" % ARR, "%s(%s, 0, num)" % (DN, ARR)])


# ------------------------------------------------------------------ track.c: an index array ordered along with its keys
@specfun
def rearranged2(e, a, b):
    if not e.symbolic:
        return sorted(zip(e.reps["pre"][a._root], e.reps["pre"][b._root])) == sorted(zip(e.reps["post"][a._root], e.reps["post"][b._root]))
    x = leaves_of(e, e.old_st, a) + leaves_of(e, e.old_st, b)
    y = leaves_of(e, e.cur, a) + leaves_of(e, e.cur, b)
    return z3.Function("PERM2_%d" % len(x), *([t.sort() for t in x + y] + [z3.BoolSort()]))(*(x + y))


def g_keys(g):
    import struct
    n = g.choice([0, 1, 2, 2, 3, 4, 4, g.int(0, 12), g.int(0, 40)])
    v = [struct.unpack("f", struct.pack("f", x))[0] for x in key_values(g, n)] if n else []
    return {"n": n, "a": v, "b": [g.int(-5, 50) for _ in range(n)]}


K("sort", props=P, gen=g_keys, shapes={"a": "n", "b": "n"}, assigns=["a[0:n]", "b[0:n]"], requires=["0 <= n", "n <= 1000000000"],
  loops=[Loop("rearranged2(a, b)"),
         Loop("0 <= i", "i <= max(0, n - 1)", "rearranged2(a, b)", "flag == 0 or flag == 1", "imp(flag == 0, forall(0, i, lambda k: a[k] <= a[k+1]))", decreases="n - i")],
  ensures=["forall(0, n - 1, lambda k: a[k] <= a[k+1])", "rearranged2(a, b)"], notes="termination of the repeated passes is not proved")


# ------------------------------------------------------------------ choosing cliques
NC = [{"num_cams": k} for k in (1, 2, 3, 4)]
C4 = "forall(0, 4, lambda c: imp(c < num_cams, %s))"
specdef("same_clique(x, y) := x.p[0] == y.p[0] and x.p[1] == y.p[1] and x.p[2] == y.p[2] and x.p[3] == y.p[3] and exact(x.corr, y.corr)")
# a is blocked: one of its detections is marked used
specdef("blocked(x, use, nc) := exists(0, 4, lambda c: c < nc and x.p[c] >= 0 and use[c][x.p[c]] > 0)")
specdef("clique_empty(x, nc) := forall(0, 4, lambda c: imp(c < nc, x.p[c] < 0))")
specdef("newly_used(use, c, t) := imp(t >= 0, old(use[c][t]) == 0 and use[c][t] == 1)")
specdef("used_by(use, c, t, dst, n) := use[c][t] == old(use[c][t]) or (use[c][t] == 1 and old(use[c][t]) == 0 and exists(0, n, lambda a: dst[a].p[c] == t))")
specdef("share_no(x, y, nc) := forall(0, 4, lambda c: imp(c < nc, x.p[c] < 0 or x.p[c] != y.p[c]))")
TB = ["forall(0, %(n)s, lambda a: exists(0, num_cands, lambda k: same_clique(dst[a], src[k])))",
      "forall(0, %(n)s, lambda b: forall(0, b, lambda a: dst[a].corr >= dst[b].corr))",
      "forall(0, num_cams, lambda c: forall(0, %(n)s, lambda a: newly_used(tusage, c, dst[a].p[c])))",
      "forall(0, %(n)s, lambda b: forall(0, b, lambda a: share_no(dst[a], dst[b], num_cams)))",
      "forall(0, %(k)s, lambda k: clique_empty(src[k], num_cams) or blocked(src[k], tusage, num_cams))"] + \
     ["imp(%d < num_cams, forall(0, length(tusage[%d]), lambda t: used_by(tusage, %d, t, dst, %%(n)s)))" % (c, c, c) for c in range(4)]
specdef("n_free(use, c, nc) := ncount(0, length(use[c]), lambda t: use[c][t] <= 0) if c < nc else 0")
specdef("all_free(use, nc) := n_free(use,0,nc) + n_free(use,1,nc) + n_free(use,2,nc) + n_free(use,3,nc)")
specdef("none_empty(src, n, nc) := forall(0, n, lambda k: not clique_empty(src[k], nc))")
TI = [x % {"n": "taken", "k": "cand"} for x in TB] + ["0 <= taken", "taken <= cand", "cand <= num_cands", "forall(0, taken, lambda a: forall(cand, num_cands, lambda k: dst[a].corr >= src[k].corr))",
      "imp(none_empty(src, num_cands, num_cams), taken + all_free(tusage, num_cams) <= old(all_free(tusage, num_cams)))"]
TE = [x % {"n": "result", "k": "num_cands"} for x in TB]


def g_take(g):
    nc = g.choice([1, 2, 3, 4, 4, 3])
    m = g.choice([2, 3, 5, 12])
    n = g.choice([0, 1, 2, 3, g.int(0, 8), g.int(0, 40)])
    ks = key_values(g, n) if n else []
    src = [{"p": [g.choice([-2, -1, -1]) if g.r.random() < 0.2 or c >= nc else g.int(0, m - 1) for c in range(4)], "corr": k} for k in ks]
    return {"src": src, "dst": [{"p": [-7]*4, "corr": -1.0} for _ in range(n)], "num_cams": nc, "num_cands": n,
            "tusage": [[int(g.r.random() < 0.25) for _ in range(m)] for _ in range(nc)]}


K("take_best_candidates", heavy=2, props=("C11",), gen=g_take, shapes={"src": "num_cands", "dst": "*", "tusage": "num_cams", "tusage[]": "202400"}, cases=NC, merge=True, check_div=False,
  assigns=["src[0:num_cands]", "dst[0:length(dst)]"] + ["tusage[%d][0:202400]" % c for c in range(4)], requires=["0 <= num_cands", "num_cands <= 1000000000", "length(dst) >= num_cands or (none_empty(src, num_cands, num_cams) and length(dst) >= all_free(tusage, num_cams))", "forall(0, num_cands, lambda k: forall(0, num_cams, lambda c: src[k].p[c] < length(tusage[c])))",
      "forall(0, num_cams, lambda c: forall(0, length(tusage[c]), lambda t: 0 <= tusage[c][t] and tusage[c][t] <= 1))"],
  loops=[Loop(*TI, decreases="num_cands - cand")],
  ensures=["0 <= result", "result <= num_cands", "sorted_corr(src, 0, num_cands)", "rearranged(src)", "drawn_con(src, 0, num_cands)", "imp(old(none_empty(src, num_cands, num_cams)), result + all_free(tusage, num_cams) <= old(all_free(tusage, num_cams)))"] + TE)

# ------------------------------------------------------------------ candidate cliques out of the pairwise lists
specdef("edge(l, a, b) := exists(0, l[a].n, lambda j: l[a].p2[j] == b)")
specdef("rows_ok(l, m) := forall(0, length(l), lambda a: l[a].n <= 200 and 0 <= l[a].p1 and l[a].p1 < 202400 and imp(l[a].n > 0, l[a].p1 == a) and forall(0, l[a].n, lambda j: 0 <= l[a].p2[j] and l[a].p2[j] < m))")
specdef("n_set(x, nc) := (1 if x.p[0] >= 0 else 0) + (1 if nc > 1 and x.p[1] >= 0 else 0) + (1 if nc > 2 and x.p[2] >= 0 else 0) + (1 if nc > 3 and x.p[3] >= 0 else 0)")
# every pair of set entries is a pairing in the lists
specdef("linked(x, list, c1, c2) := imp(x.p[c1] >= 0 and x.p[c2] >= 0, x.p[c1] < length(list[c1][c2]) and edge(list[c1][c2], x.p[c1], x.p[c2]))")


def g_lists(g, nc, m):
    """adjacency lists over a few targets, with duplicate-free rows"""
    dens = g.choice([0.15, 0.4, 0.8])
    L = [[None]*4 for _ in range(4)]
    for a in range(nc - 1):
        for b in range(a + 1, nc):
            rows = []
            for i in range(m[a]):
                ts = [t for t in range(m[b]) if g.r.random() < dens]
                if m[a] <= 6 and g.r.random() < 0.2 and m[b]: ts = [g.int(0, m[b] - 1)]
                k = len(ts)
                rows.append({"p1": i if ts or g.r.random() < 0.5 else 0, "n": k if k else g.choice([0, 0, -1]), "p2": ts + [-9]*(200 - k),
                             "corr": [g.choice([1.0, 3.0, g.r.uniform(0, 100)]) for _ in ts] + [0.0]*(200 - k), "dist": [g.choice([0.25, 0.5, g.r.uniform(0.01, 1)]) for _ in ts] + [0.0]*(200 - k)})
            L[a][b] = rows
    return L


def blank(n): return [{"p": [-7]*4, "corr": -1.0} for _ in range(n)]


def ref_cliques(L, m, size, nc, accept, use):
    """every set of `size` cameras with mutually paired detections: (cameras, detections, quality)"""
    import itertools
    out = []
    pr = {}
    for a in range(nc - 1):
        for b in range(a + 1, nc):
            for i, r in enumerate(L[a][b]):
                for j in range(max(0, r["n"])): pr[a, b, i, r["p2"][j]] = (r["corr"][j], r["dist"][j], r["n"])
    for cs in itertools.combinations(range(nc), size):
        def ext(ts):
            k = len(ts)
            if k == size:
                e = [pr[cs[x], cs[y], ts[x], ts[y]] for x in range(size) for y in range(x + 1, size)]
                if size == 2 and e[0][2] != 1: return
                q = sum(x[0] for x in e)/sum(x[1] for x in e)
                out.append((cs, tuple(ts), q))
                return
            for t in range(m[cs[k]]):
                if use and use[cs[k]][t] > 0: continue
                if all((cs[x], cs[k], ts[x], t) in pr for x in range(k)): ext(ts + [t])
        ext([])
    return out


def clique_check(e, lst, scratch, size, nc, accept, cap, use, result):
    from optvc.crep import UNK
    L = lst._node()
    m = [0]*4
    for a in range(nc - 1):
        m[a] = len(L[a][a + 1])
    m[nc - 1] = 1 + max([t for a in range(nc - 1) for r in L[a][nc - 1] for t in r["p2"][:max(0, r["n"])]] + [-1])
    want = ref_cliques(L, m, size, nc, accept, use)
    if any(abs(q - accept) <= 1e-9*(1 + abs(q)) for _, _, q in want): return UNK
    want = [w for w in want if w[2] > accept]
    if result != min(len(want), cap): return False
    W = {(cs, ts): q for cs, ts, q in want}
    got = set()
    for x in scratch._node()[:int(result)]:
        cs = tuple(c for c in range(nc) if x["p"][c] >= 0)
        k = (cs, tuple(x["p"][c] for c in cs))
        if k not in W or k in got or abs(W[k] - x["corr"]) > 1e-9*(1 + abs(W[k])): return False
        got.add(k)
    return True


@specfun
def all_quads(e, lst, scratch, accept, cap, result): return clique_check(e, lst, scratch, 4, 4, accept, cap, None, result)
@specfun
def all_triples(e, lst, scratch, nc, accept, cap, use, result): return clique_check(e, lst, scratch, 3, int(nc), accept, cap, use._node(), result)
@specfun
def all_pairs(e, lst, scratch, nc, accept, cap, use, result): return clique_check(e, lst, scratch, 2, int(nc), accept, cap, use._node(), result)


def g_four(g):
    m = [g.int(0, 3) for _ in range(4)] if g.r.random() < 0.8 else [g.int(3, 6) for _ in range(4)]
    big = g.r.random() < 0.8
    size = 300 if big else g.int(1, 6)
    return {"list": g_lists(g, 4, m), "base_target_count": m[0], "accept_corr": g.choice([0.0, 10.0, g.r.uniform(0, 80)]), "scratch": blank(size), "scratch_size": size}


def g_tri(lo):
    def gen(g):
        nc = g.int(lo, 4)
        m = [g.int(0, 3) for _ in range(4)] if g.r.random() < 0.8 else [g.int(3, 6) for _ in range(4)]
        m = m[:nc]
        size = 200 if g.r.random() < 0.8 else g.int(1, 6)
        return {"list": g_lists(g, nc, m), "num_cams": nc, "target_counts": list(m), "accept_corr": g.choice([0.0, 10.0, g.r.uniform(0, 80)]), "scratch": blank(size), "scratch_size": size,
                "tusage": [[int(g.r.random() < 0.2) for _ in range(max(k, 1))] for k in m]}
    return gen


PAIRS = [(a, b) for a in range(3) for b in range(a + 1, 4)]
L4 = ["rows_ok(list[%d][%d], %s)" % (a, b, {1: "min(length(list[1][2]), length(list[1][3]))", 2: "length(list[2][3])", 3: "202400"}[b]) for a, b in PAIRS]
QUAD = ["forall(0, %(n)s, lambda q: scratch[q].corr > accept_corr)", "forall(0, %(n)s, lambda q: forall(0, 4, lambda c: 0 <= scratch[q].p[c] and scratch[q].p[c] < 202400))"] + \
       ["forall(0, %%(n)s, lambda q: linked(scratch[q], list, %d, %d))" % ab for ab in PAIRS]
QI = [x % {"n": "matched"} for x in QUAD] + ["0 <= matched", "matched < scratch_size"]
K("four_camera_matching", heavy=2, props=("C11",), gen=g_four, shapes={"list": "4", "list[][]": "*", "scratch": "scratch_size"}, assigns=["scratch[0:scratch_size]"], check_div=False,
  requires=["1 <= scratch_size", "scratch_size <= 1000000000", "0 <= base_target_count", "base_target_count <= min(length(list[0][1]), length(list[0][2]), length(list[0][3]))"] + L4,
  loops=[Loop("0 <= i", *QI, decreases="base_target_count - i"), Loop("0 <= j", *QI, decreases="list[0][1][i].n - j"), Loop("0 <= k", *QI, decreases="list[0][2][i].n - k"), Loop("0 <= l", *QI, decreases="list[0][3][i].n - l"),
         Loop("0 <= m", *QI, decreases="list[1][2][p2].n - m"), Loop("0 <= n", *QI, decreases="list[1][3][p2].n - n"), Loop("0 <= o", *QI, decreases="list[2][3][p3].n - o")],
  ensures=["0 <= result", "result <= scratch_size"] + [x % {"n": "result"} for x in QUAD], rac_ensures=["all_quads(list, scratch, accept_corr, scratch_size, result)"])

LC = ["imp(%d < num_cams, rows_ok(list[%d][%d], %s) and length(list[%d][%d]) == target_counts[%d])" % (b, a, b, "target_counts[%d]" % b, a, b, a) for a, b in PAIRS] + ["forall(0, num_cams, lambda c: 0 <= target_counts[c] and target_counts[c] <= 202400)"]
FREE = "(x.p[c] == 0 - 2 or (0 <= x.p[c] and x.p[c] < length(use[c]) and use[c][x.p[c]] <= 0))"
specdef("takes_free(x, use, nc) := forall(0, nc, lambda c: %s)" % FREE)


def small(k):
    q = ["forall(0, %(n)s, lambda q: scratch[q].corr > accept_corr)", "forall(0, %(n)s, lambda q: takes_free(scratch[q], tusage, num_cams))", "forall(0, %%(n)s, lambda q: n_set(scratch[q], num_cams) == %d)" % k, "forall(0, %(n)s, lambda q: forall(0, num_cams, lambda c: scratch[q].p[c] < target_counts[c]))"] + \
        ["forall(0, %%(n)s, lambda q: imp(%d < num_cams, linked(scratch[q], list, %d, %d)))" % (b, a, b) for a, b in PAIRS]
    return q + (["forall(0, %%(n)s, lambda q: imp(%d < num_cams and scratch[q].p[%d] >= 0 and scratch[q].p[%d] >= 0, list[%d][%d][scratch[q].p[%d]].n == 1))" % (b, a, b, a, b, a) for a, b in PAIRS] if k == 2 else [])


SH3 = {"list": "4", "list[][]": "*", "target_counts": "num_cams", "scratch": "scratch_size", "tusage": "num_cams", "tusage[]": "202400"}
RQ3 = ["1 <= scratch_size", "scratch_size <= 1000000000"] + LC
TQ = [x % {"n": "matched"} for x in small(3)] + ["0 <= matched", "matched < scratch_size"]
PQ = [x % {"n": "matched"} for x in small(2)] + ["0 <= matched", "matched < scratch_size"]
K("three_camera_matching", heavy=2, props=("C11",), gen=g_tri(3), shapes=SH3, assigns=["scratch[0:scratch_size]"], check_div=False, requires=RQ3, cases=NC[2:],
  loops={1: Loop("0 <= i", *TQ, decreases="target_counts[i1] - i"), 3: Loop("0 <= j", *TQ, decreases="list[i1][i2][i].n - j"), 5: Loop("0 <= k", *TQ, decreases="list[i1][i3][i].n - k"),
         6: Loop("0 <= m", *TQ, decreases="list[i2][i3][p2].n - m")},
  ensures=["0 <= result", "result <= scratch_size"] + [x % {"n": "result"} for x in small(3)], rac_ensures=["all_triples(list, scratch, num_cams, accept_corr, scratch_size, tusage, result)"])
K("consistent_pair_matching", props=("C11",), gen=g_tri(2), shapes=SH3, assigns=["scratch[0:scratch_size]"], check_div=False, requires=RQ3, cases=NC[1:],
  loops={2: Loop("0 <= i", *PQ, decreases="target_counts[i1] - i")},
  ensures=["0 <= result", "result <= scratch_size"] + [x % {"n": "result"} for x in small(2)], rac_ensures=["all_pairs(list, scratch, num_cams, accept_corr, scratch_size, tusage, result)"])

# ------------------------------------------------------------------ pairing candidates from epipolar bands
def g_scene(g, nc=None, nt=None):
    """a frame of targets in 2..4 cameras looking at some particles, coordinates in ascending x"""
    nc = nc or g.choice([2, 3, 3, 4])
    m = gens.mm(g)
    cals = [gens.look_cal(g, target=(0, 0, -20), dist=g.r.uniform(80, 160), spread=0.4, added="none") for _ in range(nc)]
    for c in cals: c["glass_par"] = {"vec_x": 0.0, "vec_y": 0.0, "vec_z": 20.0}
    cp = gens.cpar(g, ncam=nc)
    cp.update(imx=100000, imy=100000, pix_x=0.01, pix_y=0.01, mm=m)
    num, cor, tg = [], [], []
    for c in range(nc):
        n = g.int(0, 5) if nt is None else nt
        rows = [{"pnr": i, "x": g.r.uniform(-6, 6), "y": g.r.uniform(-6, 6)} for i in range(n)]
        perm = list(range(n))
        g.r.shuffle(perm)
        for r, k in zip(rows, perm): r["pnr"] = k
        rows.sort(key=lambda r: r["x"])
        if n and g.r.random() < 0.3: rows[0]["x"] = -999.0
        num.append(n)
        cor.append(rows)
        tg.append([{"pnr": i, "x": g.r.uniform(0, 900), "y": g.r.uniform(0, 900), "n": g.int(1, 12), "nx": g.int(1, 4), "ny": g.int(1, 4), "sumg": g.int(50, 300), "tnr": -1} for i in range(n)])
    zl = g.r.uniform(-40, -20)
    v = {"X_lay": [-40.0, 40.0], "Zmin_lay": [zl, zl], "Zmax_lay": [zl + g.r.uniform(0, 30)]*2, "cn": g.choice([0.0, 0.1]), "cnx": 0.0, "cny": 0.0, "csumg": 0.0, "eps0": g.choice([0.3, 2.0, 8.0]), "corrmin": g.choice([0.0, 30.0, 200.0])}
    frm = {"path_info": None, "correspond": None, "targets": tg, "num_cams": nc, "max_targets": 10, "num_parts": 0, "num_targets": num}
    return {"corrected": cor, "frm": frm, "vpar": v, "cpar": cp, "calib": cals}


def g_pairs(g):
    d = g_scene(g)
    nc = d["cpar"]["num_cams"]
    d["list"] = [[None]*4 for _ in range(4)]
    for a in range(nc - 1):
        for b in range(a + 1, nc):
            d["list"][a][b] = [{"p1": 0, "n": 0, "p2": [-9]*200, "corr": [0.5]*200, "dist": [0.25]*200} for _ in range(d["frm"]["num_targets"][a])]
    return d


@specfun
def pairs_ref(e, lst, corrected, frm, vpar, cpar, calib):
    """each row is what find_candidate returns for the band epi_mm gives"""
    import copy
    R = e.runner
    L, co, fr, cp, ca, vp = lst._node(), corrected._node(), frm._node(), cpar._node(), calib._node(), vpar._node()
    for a in range(cp["num_cams"] - 1):
        for b in range(a + 1, cp["num_cams"]):
            for i in range(fr["num_targets"][a]):
                row, c = L[a][b][i], co[a][i]
                if c["x"] == -999.0:
                    if row["n"] != 0: return False
                    continue
                if row["p1"] != i: return False
                o, _ = R.call("epi_mm", {"xl": c["x"], "yl": c["y"], "cal1": ca[a], "cal2": ca[b], "mmp": cp["mm"], "vpar": vp, "xmin": [0.0], "ymin": [0.0], "xmax": [0.0], "ymax": [0.0]})
                t = fr["targets"][a][c["pnr"]]
                q, n = R.call("find_candidate", {"crd": co[b], "pix": fr["targets"][b], "num": fr["num_targets"][b], "xa": o["xmin"][0], "ya": o["ymin"][0], "xb": o["xmax"][0], "yb": o["ymax"][0],
                                                 "n": t["n"], "nx": t["nx"], "ny": t["ny"], "sumg": t["sumg"], "cand": [{"pnr": 0, "tol": 0.0, "corr": 0.0} for _ in range(200)], "vpar": vp, "cpar": cp, "cal": ca[b]})
                if row["n"] != n: return False
                for j in range(max(n, 0)):
                    k = q["cand"][j]
                    if row["p2"][j] != k["pnr"] or row["corr"][j] != k["corr"] or row["dist"][j] != k["tol"]: return False
    return True


CC = [{"cpar.num_cams": k} for k in (1, 2, 3, 4)]
FC_ = "forall(0, cpar.num_cams, lambda c: %s)"
SCENE = {"corrected": "cpar.num_cams", "corrected[]": "*", "frm.targets": "cpar.num_cams", "frm.targets[]": "*", "frm.num_targets": "cpar.num_cams", "frm.path_info": "0", "frm.correspond": "0",
         "calib": "cpar.num_cams", "calib[]": "1", "calib[].mmlut.data": "@.mmlut.nr x @.mmlut.nz ?", "cpar.img_base_name": "0", "cpar.cal_img_base_name": "0"}
SC_OK = ["mm_ok(cpar.mm)", FC_ % "0 <= frm.num_targets[c] and frm.num_targets[c] <= 202400 and frm.num_targets[c] == length(corrected[c]) and frm.num_targets[c] == length(frm.targets[c])",
         FC_ % "by_x(corrected[c], frm.num_targets[c])", FC_ % "forall(0, frm.num_targets[c], lambda q: 0 <= corrected[c][q].pnr and corrected[c][q].pnr < frm.num_targets[c])",
         FC_ % "forall(0, frm.num_targets[c], lambda q: 0 <= frm.targets[c][q].sumg and frm.targets[c][q].sumg <= 1000000000)", FC_ % "calib[c].added_par.scx != 0 and cos(calib[c].added_par.she) != 0",
         FC_ % "imp(not isnull(calib[c].mmlut.data), lut_ok(calib[c].mmlut))"]
ROW = "imp(corrected[%(a)d][%(i)s].x != 0 - 999, list[%(a)d][%(b)d][%(i)s].p1 == %(i)s)"
FRESH = "forall(0, length(list[%(a)d][%(b)d]), lambda q: list[%(a)d][%(b)d][q].n == 0 and list[%(a)d][%(b)d][q].p1 == 0)"
K("match_pairs", heavy=1, props=("C11",), gen=g_pairs, shapes=dict(SCENE, **{"list": "4", "list[][]": "*"}), cases=CC, check_div=False, merge=True,
  assigns=["list[%d][%d][0:length(list[%d][%d])]" % (a, b, a, b) for a, b in PAIRS],
  requires=SC_OK + ["imp(%d < cpar.num_cams, length(list[%d][%d]) == frm.num_targets[%d])" % (b, a, b, a) for a, b in PAIRS] + ["imp(%d < cpar.num_cams, %s)" % (b, FRESH % {"a": a, "b": b}) for a, b in PAIRS] + ["vpar.eps0 >= 0", "vpar.X_lay[0] != vpar.X_lay[1]"],
  loops={2: Loop("0 <= i", "i <= frm.num_targets[i1]", "rows_ok(list[i1][i2], frm.num_targets[i2])", "forall(0, i, lambda q: imp(corrected[i1][q].x != 0 - 999, list[i1][i2][q].p1 == q))",
                 "forall(i, frm.num_targets[i1], lambda q: list[i1][i2][q].n == 0 and list[i1][i2][q].p1 == 0)", decreases="frm.num_targets[i1] - i"),
         3: Loop("0 <= j", "forall(0, j, lambda q: list[i1][i2][i].p2[q] == cand[q].pnr and list[i1][i2][i].corr[q] == cand[q].corr and list[i1][i2][i].dist[q] == cand[q].tol)", "list[i1][i2][i].n == 0 and list[i1][i2][i].p1 == i",
                 "forall(0, length(list[i1][i2]), lambda q: imp(q != i, list[i1][i2][q].n == pre(list[i1][i2][q].n) and list[i1][i2][q].p1 == pre(list[i1][i2][q].p1) and forall(0, 200, lambda t: list[i1][i2][q].p2[t] == pre(list[i1][i2][q].p2[t]))))", decreases="count - j")},
  ensures=["imp(%d < cpar.num_cams, rows_ok(list[%d][%d], frm.num_targets[%d]))" % (b, a, b, b) for a, b in PAIRS] +
          ["imp(%d < cpar.num_cams, forall(0, frm.num_targets[%d], lambda q: %s))" % (b, a, ROW % {"a": a, "b": b, "i": "q"}) for a, b in PAIRS],
  rac_ensures=["pairs_ref(list, corrected, frm, vpar, cpar, calib)"])


# ------------------------------------------------------------------ the whole process
def g_corr(g):
    d = g_scene(g, nc=g.choice([1, 2, 2, 3, 3, 4, 4]))
    nc = d["cpar"]["num_cams"]
    d["cpar"]["allCam_flag"] = int(g.r.random() < 0.3)
    for i, rows in enumerate(d["corrected"]):
        for r in rows:
            if r["x"] == -999.0: r["x"] = -9.0
    if g.r.random() < 0.7:
        d["vpar"]["eps0"] = g.choice([2.0, 8.0, 20.0])
        d["vpar"]["corrmin"] = g.choice([0.0, 10.0])
    d["match_counts"] = [7, 7, 7, 7]
    return d


def read_con(R, m, res, rep, post, addrs):
    import ctypes as C
    from optvc.crep import LIBC
    if not res: return None
    nt = R.prog.funcs["correspondences"].ret.to
    sz = R.prog.sizeof(nt)
    n = post["match_counts"][3]
    out = [m.get(nt, res + i*sz, None, "con") for i in range(n if 0 <= n <= 10000 else 0)]
    LIBC.free(res)
    return out


@specfun
def greedy_ref(e, res, frm, corrected, vpar, cpar, calib, mc):
    """the cliques of the pair lists, taken best first, larger ones before smaller ones"""
    from optvc.crep import UNK
    R = e.runner
    rows = res._node() if hasattr(res, "_node") else res
    fr, co, vp, cp, ca = (dict(e.reps["pre"])[k] for k in ("frm", "corrected", "vpar", "cpar", "calib"))
    nc = cp["num_cams"]
    L = [[None]*4 for _ in range(4)]
    for a in range(nc - 1):
        for b in range(a + 1, nc):
            L[a][b] = [{"p1": 0, "n": 0, "p2": [-9]*200, "corr": [0.5]*200, "dist": [0.25]*200} for _ in range(fr["num_targets"][a])]
    o, _ = R.call("match_pairs", {"list": L, "corrected": co, "frm": fr, "vpar": vp, "cpar": cp, "calib": ca})
    L = o["list"]
    use = [[0]*max(1, n) for n in fr["num_targets"]]
    out, cnt = [], [0, 0, 0, 0]
    for k, size in enumerate((4, 3, 2)):
        if size > nc or (size < nc and cp["allCam_flag"]) or (size == 2 and cp["allCam_flag"]): continue
        cand = [q for q in ref_cliques(L, fr["num_targets"], size, nc, vp["corrmin"], use) ]
        if any(abs(q[2] - vp["corrmin"]) < 1e-9*(1 + abs(q[2])) for q in cand): return UNK
        cand = sorted((q for q in cand if q[2] > vp["corrmin"]), key=lambda q: -q[2])
        if any(x[2] - y[2] <= 1e-9*(1 + abs(x[2])) for x, y in zip(cand, cand[1:])): return UNK
        for cs, ts, q in cand:
            if any(use[c][t] for c, t in zip(cs, ts)): continue
            for c, t in zip(cs, ts): use[c][t] = 1
            out.append(dict(zip(cs, ts)))
            cnt[k] += 1
    cnt[3] = sum(cnt)
    if list(mc._node()) != cnt or len(rows) != len(out): return False
    tn = [[t["tnr"] for t in ts] for ts in fr["targets"]]
    for i, (x, w) in enumerate(zip(rows, out)):
        for c in range(nc):
            if (w[c] != x["p"][c]) if c in w else x["p"][c] >= 0: return False
            if c in w: tn[c][co[c][w[c]]["pnr"]] = i
    return [[t["tnr"] for t in ts] for ts in frm._node()["targets"]] == tn


MC = "match_counts[%d]"
UNUSED = "forall(0, %s, lambda a: forall(0, cpar.num_cams, lambda c: imp(result[a].p[c] >= 0, result[a].p[c] < frm.num_targets[c])))"
CA = lambda n, r: ["imp(%d < cpar.num_cams, forall(0, %s, lambda a: %s[a].p[%d] < frm.num_targets[%d]))" % (c, n, r, c, c) for c in range(4)] + \
    ["imp(%d < cpar.num_cams, forall(0, %s, lambda b: forall(0, b, lambda a: %s[b].p[%d] < 0 or %s[a].p[%d] != %s[b].p[%d])))" % (c, n, r, c, r, c, r, c) for c in range(4)] + \
    ["forall(0, %s, lambda a: %s[a].corr > vpar.corrmin)" % (n, r)]
GRP = [("0", MC % 0, 4), (MC % 0, MC % 0 + " + " + MC % 1, 3), (MC % 0 + " + " + MC % 1, MC % 3, 2)]
TNR = "imp(%(c)d < cpar.num_cams, forall(0, %(n)s, lambda a: imp(%(r)s[a].p[%(c)d] >= 0, frm.targets[%(c)d][corrected[%(c)d][%(r)s[a].p[%(c)d]].pnr].tnr == a)))"
INJ = "forall(0, cpar.num_cams, lambda c: forall(0, frm.num_targets[c], lambda a: forall(0, a, lambda b: corrected[c][a].pnr != corrected[c][b].pnr)))"
def stage(k, i):
    """what holds of the list after the k-th selection: of the new entries, of the earlier ones, of all"""
    m, n = "match_counts[3]", "match_counts[3] + match_counts[%d]" % i
    q = CA(n, "con")
    use = ["imp(%d < cpar.num_cams, forall(0, %s, lambda a: imp(con[a].p[%d] >= 0, tim[%d][con[a].p[%d]] == 1)))" % (c, n, c, c, c) for c in range(4)]
    props = ["imp(%d < cpar.num_cams, forall(0, %%s, lambda a: %%s.p[%d] < frm.num_targets[%d]))" % (c, c, c) for c in range(4)] + ["forall(0, %s, lambda a: %s.corr > vpar.corrmin)"]
    same = "forall(0, match_counts[%d], lambda a: exists(0, match0, lambda k: same_clique(con[match_counts[3] + a], con0[k])))" % i
    drawn_ = "forall(0, match0, lambda q: exists(0, match0, lambda p: %s))" % " and ".join("con0[q].%s == at('m', con0[p].%s)" % (f, f) for f in FIELDS["con"])
    out = [(same,), (drawn_,)]
    for p in props:
        src, new, old, al = p % ("match0", "con0[a]"), p % ("match_counts[%d]" % i, "con[match_counts[3] + a]"), p % (m, "con[a]"), p % (n, "con[a]")
        was = (p % ("match0", "con0[a]")).replace("con0[a].corr", "at('m', con0[a].corr)")
        for c in range(4): was = was.replace("con0[a].p[%d]" % c, "at('m', con0[a].p[%d])" % c)
        out += [(src, [was, drawn_]), (new, [src, same]), (old,), (al, [new, old])]
    size = "n_set(%s, cpar.num_cams) == " + str(5 - k)
    was, src, new = ["forall(0, %s, lambda a: %s)" % (r, size % x) for r, x in (("match0", "A"), ("match0", "con0[a]"), ("match_counts[%d]" % i, "con[match_counts[3] + a]"))]
    was = was.replace("n_set(A, cpar.num_cams)", "at('m', n_set(con0[a], cpar.num_cams))")
    out += [(src, [was, drawn_]), (new, [src, same]), ("forall(%s, %s, lambda a: %s)" % (m, n, size % "con[a]"), [new])]
    out += [(x,) for x in use + q[4:8]]
    return [("take_best_candidates#%d" % k,) + x for x in out]


QT = [("four_camera_matching#1", "imp(%d < cpar.num_cams, forall(0, match0, lambda a: con0[a].p[%d] < frm.num_targets[%d]))" % (c, c, c)) for c in range(4)]
MARKS = [(f + "#1", "mark m") for f in ("four_camera_matching", "three_camera_matching", "consistent_pair_matching")]
CUTS = QT + MARKS + stage(1, 0) + stage(2, 1) + stage(3, 2)
K("correspondences", heavy=4, unproved_cases=(3,), cuts=CUTS, props=("C11",), gen=g_corr, shapes=dict(SCENE, match_counts="4"), cases=CC, check_div=False, merge=True,
  assigns=["match_counts[0:4]"] + ["frm.targets[%d][0:frm.num_targets[%d]]" % (c, c) for c in range(4)], requires=SC_OK + [INJ, "vpar.eps0 >= 0", "vpar.X_lay[0] != vpar.X_lay[1]"],
  loops={4: Loop("0 <= edge", "edge <= target_counts[c1]", "forall(0, edge, lambda q: lists[c1][c2][q].n == 0 and lists[c1][c2][q].p1 == 0)", decreases="target_counts[c1] - edge"),
         8: Loop("0 <= i", "i <= 202400", decreases="202400 - i"),
         10: Loop("0 <= i", "i <= match_counts[3]", *CA(MC % 3, "con"), *[TNR % {"c": c, "n": "i", "r": "con"} for c in range(4)], decreases="match_counts[3] - i")},
  ensures=["match_counts[3] == match_counts[0] + match_counts[1] + match_counts[2]", "0 <= match_counts[0]", "0 <= match_counts[1]", "0 <= match_counts[2]"] + CA(MC % 3, "result") +
          ["forall(%s, %s, lambda a: n_set(result[a], cpar.num_cams) == %d)" % g for g in GRP] + ["forall(%s, %s, lambda b: forall(%s, b, lambda a: result[a].corr >= result[b].corr))" % (g[0], g[1], g[0]) for g in GRP] +
          [TNR % {"c": c, "n": MC % 3, "r": "result"} for c in range(4)],
  read_result=read_con, rac_ensures=["greedy_ref(result, frm, corrected, vpar, cpar, calib, match_counts)"])
