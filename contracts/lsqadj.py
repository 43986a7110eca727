"""Least-squares kernels (lsqadj.c)."""
from optvc.registry import K
from optvc.spec import specdef, Loop

P = ("C12",)
DIM = ["m >= 0", "n >= 0", "n <= n_large", "n_large >= 1", "m*n_large <= 1000000000", "n*n_large <= 1000000000", "m <= 1000000", "n_large <= 1000000"]


def g_ata(g):
    N = g.int(1, 5)
    n = g.int(0, N)
    m = g.int(0, 5)
    return {"m": m, "n": n, "n_large": N, "a": [g.real() for _ in range(m * N)], "ata": [g.real() for _ in range(n * N)],
            "u": [g.real() for _ in range(n)], "l": [g.real() for _ in range(m)]}


def pick(f, ks): return lambda g: {k: v for k, v in f(g).items() if k in ks}


specdef("dotc(a, N, i, j, m) := sum_(0, m, lambda q: a[q*N + i]*a[q*N + j])")
ATA0 = "forall(0, i, lambda p: forall(0, n, lambda c: ata[p*n_large + c] == dotc(a, n_large, p, c, m)))"
UNCH = "forall(0, n, lambda p: forall(n, n_large, lambda c: ata[p*n_large + c] == old(ata[p*n_large + c])))"
K("ata", props=P, gen=pick(g_ata, ("m", "n", "n_large", "a", "ata")), shapes={"a": "m x n_large", "ata": "n x n_large"}, requires=DIM,
  assigns=["ata[0:n*n_large]"],
  ensures=["forall(0, n, lambda p: forall(0, n, lambda c: ata[p*n_large + c] == dotc(a, n_large, p, c, m)))", UNCH],
  loops=[Loop("0 <= i <= n", ATA0, UNCH, decreases="n - i"),
         Loop("0 <= j <= n", "0 <= i < n", ATA0, "forall(0, j, lambda c: ata[i*n_large + c] == dotc(a, n_large, i, c, m))", UNCH, decreases="n - j"),
         Loop("0 <= k <= m", "0 <= i < n", "0 <= j < n", ATA0, "forall(0, j, lambda c: ata[i*n_large + c] == dotc(a, n_large, i, c, m))",
              "ata[i*n_large + j] == dotc(a, n_large, i, j, k)", UNCH, decreases="m - k")])
K("atl", props=P, gen=pick(g_ata, ("m", "n", "n_large", "a", "u", "l")), shapes={"a": "m x n_large", "u": "n", "l": "m"}, requires=DIM, assigns=["u[0:n]"],
  ensures=["forall(0, n, lambda p: u[p] == sum_(0, m, lambda q: a[q*n_large + p]*l[q]))"],
  loops=[Loop("0 <= i <= n", "forall(0, i, lambda p: u[p] == sum_(0, m, lambda q: a[q*n_large + p]*l[q]))", decreases="n - i"),
         Loop("0 <= k <= m", "0 <= i < n", "forall(0, i, lambda p: u[p] == sum_(0, m, lambda q: a[q*n_large + p]*l[q]))",
              "u[i] == sum_(0, k, lambda q: a[q*n_large + i]*l[q])", decreases="m - k")])


def g_mul(g):
    M, N = g.int(1, 5), g.int(1, 5)
    m, n = g.int(0, M), g.int(0, N)
    k = g.choice([1, 1, g.int(1, 3)])
    return {"m": m, "n": n, "k": k, "m_large": M, "n_large": N, "a": [g.real() for _ in range(m * k)], "b": [g.real() for _ in range(m * N)],
            "c": [g.real() for _ in range(n * k)]}


MM = "sum_(0, n, lambda q: old(b)[p*n_large + q]*old(c)[q*k + s])"
MMQ = "forall(0, %s, lambda p: forall(0, %s, lambda s: old(a)[p*k + s] == sum_(0, n, lambda q: old(b)[p*n_large + q]*old(c)[q*k + s])))"
DONE = MMQ % ("m", "i")
ROW = "forall(0, j, lambda p: old(a)[p*k + i] == sum_(0, n, lambda q: old(b)[p*n_large + q]*old(c)[q*k + i]))"
K("matmul", props=P, gen=g_mul, shapes={"a": "m x k", "b": "m x n_large", "c": "n x k"}, assigns=["a[0:m*k]"],
  requires=["m >= 0", "n >= 0", "k >= 1", "n <= n_large", "m <= m_large", "n_large >= 1"],
  ensures=["forall(0, m, lambda p: forall(0, k, lambda s: a[p*k + s] == sum_(0, n, lambda q: b[p*n_large + q]*c[q*k + s])))"],
  loops=[Loop("0 <= i <= k", DONE, ptr={"a": "old(a) + i", "c": "old(c) + i"}, decreases="k - i"),
         Loop("0 <= i < k", "0 <= j <= m", DONE, ROW, ptr={"pa": "old(a) + i + j*k", "pb": "old(b) + j*n_large"}, decreases="m - j"),
         Loop("0 <= i < k", "0 <= j < m", "0 <= l <= n", "x == sum_(0, l, lambda q: old(b)[j*n_large + q]*old(c)[q*k + i])",
              ptr={"pb": "old(b) + (j*n_large + l)", "pc": "old(c) + (i + l*k)"}, decreases="n - l"),
         Loop("0 <= l <= n_large - n", ptr={"pb": "old(b) + (j*n_large + n + l)", "pc": "old(c) + (i + n*k + l*k)"}, decreases="n_large - n - l"),
         Loop("0 <= j <= m_large - m", ptr={"pa": "old(a) + (i + m*k + j*k)"}, decreases="m_large - m - j")])

# ------------------------------------------------------------------ inverse
import z3
from optvc.spec import specfun
from optvc import terms as T


@specfun
def gj(env, a, k, r, c, N):
    """element (r,c) of matrix a after k Gauss-Jordan exchange steps.  Symbolically a
    function symbol whose defining equation is `gj_def` below; concretely computed."""
    if env.symbolic:
        reg = a._p.region
        arr = env.eng.get(env.cur, reg, ())
        f = z3.Function("gj", arr.sort(), z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.RealSort())
        return f(arr, T.z(k), T.z(r), T.z(c))
    k, r, c, N = int(k), int(r), int(c), int(N)
    vals = tuple(a._node())
    n = len(vals) // N
    key = (vals, N)
    if _memo.get("key") != key: _memo.update(key=key, m=[[list(vals[i * N:(i + 1) * N]) for i in range(n)]])
    ms = _memo["m"]
    while len(ms) <= k:
        p, B = len(ms) - 1, ms[-1]
        try:
            q = 1.0 / B[p][p]
        except ZeroDivisionError:
            from optvc.crep import UNK
            return UNK
        C_ = [row[:] for row in B]
        nn = k if k > n else n
        for i in range(n):
            for j in range(n):
                C_[i][j] = q if i == p and j == p else (-B[p][j] * q if i == p else (B[i][p] * q if j == p else B[i][j] - B[p][j] * B[i][p] * q))
        ms.append(C_)
    return ms[k][r][c]


_memo = {}
specdef("gj_step(a, p, r, c, N) := (1/gj(a,p,p,p,N)) if r == p and c == p else ((-gj(a,p,p,c,N)/gj(a,p,p,p,N)) if r == p else "
        "((gj(a,p,r,p,N)/gj(a,p,p,p,N)) if c == p else gj(a,p,r,c,N) - gj(a,p,p,c,N)*gj(a,p,r,p,N)/gj(a,p,p,p,N)))")
PIV = "forall(0, n, lambda p: old(gj(a, p, p, p, n_large)) != 0)"
GDEF = "forall(0, n, lambda r: forall(0, n, lambda c: old(gj(a, ipiv + 1, r, c, n_large)) == old(gj_step(a, ipiv, r, c, n_large))))"
MSQ = ["n >= 0", "n <= n_large", "n_large >= 1", "n*n_large <= 1000000000", "n_large <= 1000000"]
FRM = "forall(0, n, lambda r: forall(n, n_large, lambda c: a[r*n_large + c] == old(a[r*n_large + c])))"


def g_inv(g):
    N = g.int(1, 6)
    n = g.int(0, N)
    a = [[g.real(3.0) for _ in range(N)] for _ in range(n)]
    for i in range(n): a[i][i] = (sum(abs(v) for v in a[i]) + g.pos(0.5, 3)) * g.choice([1, -1])
    sc = g.choice([1.0, 1.0, 1e-5, 1e-9, 1e-13, 1e4])
    flat = [v*sc for r in a for v in r]
    return {"n": n, "n_large": N, "a": flat}


def upto(cond): return ("forall(0, n, lambda r: forall(0, n, lambda c: a[r*n_large + c] == (old(gj_step(a, ipiv, r, c, n_large)) if %s else old(gj(a, ipiv, r, c, n_large)))))" % cond)


IN = ["0 <= ipiv < n", "pivot == 1/old(gj(a, ipiv, ipiv, ipiv, n_large))", "npivot == -pivot", FRM]
K("matinv", props=P, trusted=["forall(0, n, lambda r: forall(0, n, lambda c: gj(a, 0, r, c, n_large) == a[r*n_large + c]))"], gen=g_inv, shapes={"a": "n x n_large"}, assigns=["a[0:n*n_large]"], requires=MSQ + ["forall(0, n, lambda p: gj(a, p, p, p, n_large) != 0)"],
  ensures=["forall(0, n, lambda r: forall(0, n, lambda c: a[r*n_large + c] == old(gj(a, n, r, c, n_large))))", FRM], tol=1e-6, pre_tol=1e-30,
  rac_ensures=["forall(0, n, lambda r: forall(0, n, lambda c: near(sum_(0, n, lambda q: old(a[r*n_large + q])*a[q*n_large + c]), 1 if r == c else 0, 1e-6)))"],
  loops=[Loop("0 <= ipiv <= n", "forall(0, n, lambda r: forall(0, n, lambda c: a[r*n_large + c] == old(gj(a, ipiv, r, c, n_large))))", FRM, free=[GDEF], decreases="n - ipiv"),
         Loop("0 <= irow <= n", *IN, upto("r != ipiv and c != ipiv and r < irow"), decreases="n - irow"),
         Loop("0 <= icol <= n", "0 <= irow < n", *IN, upto("r != ipiv and c != ipiv and (r < irow or (r == irow and c < icol))"), decreases="n - icol"),
         Loop("0 <= icol <= n", *IN, upto("c != ipiv and (r != ipiv or c < icol)"), decreases="n - icol"),
         Loop("0 <= irow <= n", *IN, upto("c != ipiv or (r != ipiv and r < irow)"), decreases="n - irow")],
  notes="gj_step is the defining equation of the exchange recursion gj (a definition, assumed for each step); non-zero pivots are a precondition")


def g_linv(g):
    d = g_inv(g)
    n, N = d["n"], d["n_large"]
    d["x"] = [g.real() for _ in range(n)]
    d["y"] = [sum(d["a"][r * N + q] * d["x"][q] for q in range(n)) for r in range(n)]
    return d


specdef("U_(x, y, p, q) := y[q] if q < p else x[q]")
specdef("V_(x, y, p, r) := x[r] if r < p else y[r]")
specdef("GS(a, x, y, p, pu, r, c, N) := sum_(0, c, lambda q: gj(a, p, r, q, N)*(y[q] if q < pu else x[q]))")
L0 = "forall(0, n, lambda s: GS(a, x, y, p, p, s, n, n_large) == V_(x, y, p, s))"
STEP = ("GS(a,x,y,p+1,p+1,r,c,n_large) == ((0 - GS(a,x,y,p,p,p,c,n_large)/gj(a,p,p,p,n_large) + ((x[p] + y[p]/gj(a,p,p,p,n_large)) if c > p else 0)) if r == p else "
        "(GS(a,x,y,p,p,r,c,n_large) - gj(a,p,r,p,n_large)/gj(a,p,p,p,n_large)*GS(a,x,y,p,p,p,c,n_large) + (gj(a,p,r,p,n_large)/gj(a,p,p,p,n_large)*y[p] if c > p else 0)))")
K("lemma_matinv_inverse", props=P, gen=g_linv, shapes={"a": "n x n_large", "x": "n", "y": "n"}, assigns=["a[0:n*n_large]"], tol=1e-5, pre_tol=1e-7,
  requires=MSQ + ["forall(0, n, lambda p: gj(a, p, p, p, n_large) != 0)", "forall(0, n, lambda r: y[r] == GS(a, x, y, 0, 0, r, n, n_large))"],
  rac_requires=[],
  ensures=["forall(0, n, lambda r: sum_(0, n, lambda q: a[r*n_large + q]*y[q]) == x[r])"],
  loops=[Loop("0 <= p <= n", L0, decreases="n - p"),
         Loop("0 <= p < n", "0 <= r <= n", L0, "forall(0, r, lambda s: GS(a, x, y, p+1, p+1, s, n, n_large) == V_(x, y, p+1, s))", decreases="n - r"),
         Loop("0 <= p < n", "0 <= r < n", "0 <= c <= n", "gj(a,p,p,p,n_large) != 0", STEP, free=["gj(a,p+1,r,c,n_large) == gj_step(a,p,r,c,n_large)"], decreases="n - c"),
         Loop("0 <= r <= n", "forall(0, r, lambda s: sum_(0, n, lambda q: a[s*n_large + q]*y[q]) == x[s])", decreases="n - r"),
         Loop("0 <= r < n", "0 <= c <= n", "sum_(0, c, lambda q: a[r*n_large + q]*y[q]) == old(GS(a, x, y, n, n, r, c, n_large))", decreases="n - c")])
