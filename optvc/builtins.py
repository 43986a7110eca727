"""Models of the C library functions the code calls (trusted; listed in the evidence)."""
from fractions import Fraction
import z3
from . import terms as T
from .terms import add, sub, mul, neg, cmp, And, Or, Not, Implies, Ite, to_real, to_int, is_conc, is_sym, z, unz

TABLE = {}


def model(*names):
    def d(f):
        for n in names: TABLE[n] = f
        return f
    return d


def math_uf(eng, name, args):
    """application of a libm function as an uninterpreted symbol + ground axioms"""
    if all(is_conc(a) for a in args):
        a = args[0]
        if name == "sqrt" and a >= 0:
            from math import isqrt
            n, d = Fraction(a).numerator, Fraction(a).denominator
            if isqrt(n) ** 2 == n and isqrt(d) ** 2 == d: return Fraction(isqrt(n), isqrt(d))
        if a == 0 and name in ("sin", "tan", "atan", "asin"): return Fraction(0)
        if a == 0 and name == "cos": return Fraction(1)
    f = T.UF[name]
    zs = [z(to_real(a)) for a in args]
    # canonical argument so that syntactically different but equal polynomials coincide
    zs = [z3.simplify(x, som=True) if not z3.is_const(x) else x for x in zs]
    t = f(*zs)
    eng_ax = eng.math_apps if hasattr(eng, "math_apps") else None
    if eng_ax is None:
        eng.math_apps = eng_ax = {}
    eng_ax[t.get_id()] = t
    eng.externals.add(name)
    return t


def axioms_for(t):
    """ground facts about one libm application"""
    n = t.decl().name()
    a = t.arg(0)
    out = []
    if n == "f_sqrt":
        out.append(z3.Implies(a >= 0, z3.And(t >= 0, t * t == a)))
    elif n in ("f_sin", "f_cos"):
        s, c = T.UF["sin"](a), T.UF["cos"](a)
        out.append(s * s + c * c == 1)
        out.append(z3.And(t >= -1, t <= 1))
    elif n == "f_tan":
        s, c = T.UF["sin"](a), T.UF["cos"](a)
        out.append(z3.Implies(c != 0, t * c == s))
        out.append(s * s + c * c == 1)
    elif n == "f_atan":
        out.append(z3.And(T.UF["tan"](t) == a, T.UF["cos"](t) > 0, T.UF["sin"](t) * T.UF["sin"](t) + T.UF["cos"](t) * T.UF["cos"](t) == 1))
    elif n == "f_asin":
        out.append(z3.Implies(z3.And(a >= -1, a <= 1), z3.And(T.UF["sin"](t) == a, T.UF["cos"](t) >= 0, a * a + T.UF["cos"](t) * T.UF["cos"](t) == 1)))
    elif n == "f_acos":
        out.append(z3.And(t >= 0, t <= z3.Q(31415927, 10000000)))
        out.append(z3.Implies(z3.And(a >= -1, a <= 1), T.UF["cos"](t) == a))
    return out


def args_of(eng, args, st, fr): return [eng.eval(a, st, fr) for a in args]


def _math1(name, dom=None):
    def f(eng, n, args, st, fr):
        (a,) = args_of(eng, args, st, fr)
        a = to_real(a)
        if dom: eng.oblige(st, dom(a), "arith", n.get("_line"), "%s argument in domain" % name)
        return math_uf(eng, name, [a])
    return f


TABLE["sqrt"] = _math1("sqrt", lambda a: cmp(">=", a, 0))
for _n in ("sin", "cos", "tan", "atan", "exp"): TABLE[_n] = _math1(_n)
TABLE["acos"] = _math1("acos", lambda a: And(cmp(">=", a, -1), cmp("<=", a, 1)))
TABLE["asin"] = _math1("asin", lambda a: And(cmp(">=", a, -1), cmp("<=", a, 1)))


@model("atan2")
def _atan2(eng, n, args, st, fr):
    a, b = args_of(eng, args, st, fr)
    return math_uf(eng, "atan2", [to_real(a), to_real(b)])


@model("pow")
def _pow(eng, n, args, st, fr):
    a, b = args_of(eng, args, st, fr)
    a, b = to_real(a), to_real(b)
    if is_conc(b) and b.denominator == 1 and 0 <= b <= 8:
        r = Fraction(1)
        for _ in range(int(b)): r = mul(r, a)
        return r
    return math_uf(eng, "pow", [a, b])


@model("fabs", "abs", "__builtin_fabs")
def _fabs(eng, n, args, st, fr):
    (a,) = args_of(eng, args, st, fr)
    return Ite(cmp("<", a, 0), neg(a), a)


@model("fmod")
def _fmod(eng, n, args, st, fr):
    a, b = args_of(eng, args, st, fr)
    a, b = to_real(a), to_real(b)
    if not is_conc(b):
        eng.domain(st, cmp("!=", b, 0), n, "fmod divisor is not zero") if hasattr(eng, "domain") else eng.oblige(st, cmp("!=", b, 0), "arith", n.get("_line"), "fmod divisor is not zero")
    q = T.rdiv(a, b)
    t = Ite(cmp(">=", q, 0), T.floor_(q), neg(T.floor_(neg(q))))
    return sub(a, mul(b, to_real(t)))


@model("floor")
def _floor(eng, n, args, st, fr):
    (a,) = args_of(eng, args, st, fr)
    return to_real(T.floor_(to_real(a)))


@model("ceil")
def _ceil(eng, n, args, st, fr):
    (a,) = args_of(eng, args, st, fr)
    return neg(to_real(T.floor_(neg(to_real(a)))))


@model("round")
def _round(eng, n, args, st, fr):
    (a,) = args_of(eng, args, st, fr)
    a = to_real(a)
    h = Fraction(1, 2)
    return to_real(Ite(cmp(">=", a, 0), T.floor_(add(a, h)), neg(T.floor_(add(neg(a), h)))))


# ---------------------------------------------------------------- memory
def heap_dims(eng, n, st, fr):
    """contract.heap[k] = "rows x columns" for the k-th malloc/calloc of the function under contract"""
    if not eng.contract.heap: return None
    from .engine import _callee_name
    order = getattr(eng, "_alloc_order", None)
    if order is None:
        order = []
        def walk(c):
            if c.get("kind") == "CallExpr" and _callee_name(c) in ("malloc", "calloc"): order.append(c["id"])
            for x in c.get("inner", ()):
                if x: walk(x)
        walk(eng.fn.body)
        eng._alloc_order = order
    if n.get("id") not in order: return None
    shp = eng.contract.heap.get(order.index(n["id"]) + 1)
    if shp is None: return None
    from .spec import SpecEnv
    env = SpecEnv(eng, st, eng.entry, eng.scope_names(fr))
    rr, cc = [env.eval(x.strip()) for x in shp.split(" x ")]
    return rr, cc, st, n.get("_line")


@model("malloc")
def _malloc(eng, n, args, st, fr):
    from .engine import PendingAlloc, Ptr
    (sz,) = args_of(eng, args, st, fr)
    eng.notes.add("malloc/calloc assumed to succeed")
    return Ptr(PendingAlloc(sz, False, heap_dims(eng, n, st, fr)), (), False)


@model("calloc")
def _calloc(eng, n, args, st, fr):
    from .engine import PendingAlloc, Ptr
    a, b = args_of(eng, args, st, fr)
    eng.notes.add("malloc/calloc assumed to succeed")
    return Ptr(PendingAlloc(mul(a, b), True, heap_dims(eng, n, st, fr)), (), False)


@model("free")
def _free(eng, n, args, st, fr):
    (p,) = args_of(eng, args, st, fr)
    line = n.get("_line")
    if p.region is None: return None
    if p.region.kind not in ("heap",) and p.region not in eng.freeable:
        eng.oblige(st, False, "memory", line, "free of a heap object (%s)" % p.region.name)
    if p.region in st.freed:
        eng.oblige(st, Or(p.null, Not(st.freed[p.region])), "memory", line, "no double free of %s" % p.region.name)
    if p.steps and not isinstance(p.steps[-1], str):
        g = Or(p.null, cmp("==", p.steps[-1], 0))
        if g is not True: eng.oblige(st, g, "memory", line, "free of the start of the block")
    st.freed[p.region] = True
    return None


@model("printf", "puts", "putchar", "perror")
def _printf(eng, n, args, st, fr):
    for a in args[0:]: eng.eval(a, st, fr)
    return eng.fresh("ret_printf", z3.IntSort())


@model("memcpy", "memmove")
def _memcpy(eng, n, args, st, fr):
    from .engine import EngineError, StructVal, Ptr, _div_by
    d, s, sz = args_of(eng, args, st, fr)
    line = n.get("_line")
    t = eng.type_at(d.region, d.steps)
    ts = eng.type_at(s.region, s.steps)
    if t != ts: raise EngineError("memcpy between different types")
    esz = eng.prog.sizeof(t)
    cnt = sz // esz if is_conc(sz) else _div_by(sz, esz)
    if is_conc(cnt):
        if cnt * esz != sz: raise EngineError("memcpy of a partial object")
        for i in range(cnt):
            v = eng.load(st, eng.padd(s, i), line)
            eng.store(st, eng.padd(d, i), v, line)
        return d
    # symbolic count: element-wise copy expressed with a quantifier
    if len(d.steps) != 1 or len(s.steps) != 1 or d.region.ndims != 1 or s.region.ndims != 1:
        raise EngineError("memcpy with symbolic size on this shape")
    do, so = d.steps[0], s.steps[0]
    for p, o in ((d, do), (s, so)):
        eng.oblige(st, And(cmp("<=", 0, o), cmp("<=", add(o, cnt), p.region.lens[0])), "memory", line, "memcpy within bounds of %s" % p.region.name)
    if d.region.kind not in ("local", "heap") and not eng.silent:
        from .engine import LocSet
        eng.check_assigns_locset(st, LocSet(d.region, (("range", do, add(do, cnt)),)), line, "memcpy")
    if d.region is s.region:
        eng.oblige(st, Or(cmp(">=", do, add(so, cnt)), cmp(">=", so, add(do, cnt))), "memory", line, "memcpy regions disjoint")
    for k, lt, stars in eng.leaves(t):
        if stars: raise EngineError("memcpy of nested arrays")
        o, so_ = eng.get(st, d.region, k), eng.get(st, s.region, k)
        nv = eng.fresh(eng.name_of(d.region, k) + "'", o.sort())
        j = z3.Int("mj")
        st.pc.append(z3.ForAll([j], z3.Select(nv, j) == z3.If(z(And(cmp("<=", do, j), cmp("<", j, add(do, cnt)))),
                                                            z3.Select(so_, z(add(sub(j, do), so))), z3.Select(o, j)), patterns=[z3.Select(nv, j)]))
        eng.put(st, d.region, k, nv)
    return d
