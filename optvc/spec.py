"""Contract language.

Contract clauses are strings in a Python-expression syntax extended with
  and/or/not, chained comparisons, `a if c else b`     (short-circuit / lazy)
  imp(a, b), iff(a, b)
  forall(lo, hi, lambda i: P), exists(lo, hi, lambda i: P)      half-open ranges
  sum_(lo, hi, lambda i: e), count(lo, hi, lambda i: P)
  old(e), pre(e) (loop entry), result
  p[i], p.f  for C pointers / structs, isnull(p)
  sqrt sin cos ... (the same symbols the C library calls denote)
and calls of named specification functions.  The same string is evaluated
symbolically by the VC generator and concretely by the replay harness.
"""
import ast, itertools
from fractions import Fraction
import z3
from . import terms as T
from .terms import add, sub, mul, neg, rdiv, cmp, And, Or, Not, Implies, Ite, to_real, to_int, is_conc, is_sym, z, unz
from .cfront import TInt, TReal, TPtr, TArr, TStruct


class Loop:
    def __init__(self, *inv, decreases=None, unroll=None, hints=(), ghost=None, free=(), after=(), ptr=None):
        self.ptr = dict(ptr or {})
        self.inv, self.decreases, self.unroll, self.hints, self.ghost, self.free = list(inv), decreases, unroll, list(hints), ghost, list(free)
        self.after = list(after)


class Contract:
    def __init__(self, name, requires=(), ensures=(), assigns=(), shapes=None, loops=(), alias=(), merge=False,
                 check_overflow=True, check_div=True, keep_const_loops=False, max_paths=4000, inline=False,
                 trusted=(), post_hints=(), int_array_axioms=False, decreases=None, expand_arrays=True,
                 feas_ms=150, no_feas=False, timeout=None, axioms=(), file=None, props=(), result_alloc=None,
                 ext_params=None, ext_ret=None, gen=None, rac=True, notes="", tol=None, lemmas=(), thorough_only=False,
                 trust=False, rac_n=None, rac_requires=(), rac_ensures=(), strategy=None, name_over=None, cuts=(), guard=(), ens_assumed=(), cases=()):
        self.cuts = list(cuts)
        self.guard, self.ens_assumed = list(guard), list(ens_assumed)
        self.name_over = name_over
        self.name = name
        self.requires, self.ensures, self.assigns = list(requires), list(ensures), list(assigns)
        self.shapes = dict(shapes or {})
        self.loops = dict(enumerate(loops)) if not isinstance(loops, dict) else loops
        self.alias = [tuple(a) for a in alias]
        self.merge, self.check_overflow, self.check_div = merge, check_overflow, check_div
        self.keep_const_loops, self.max_paths, self.inline = keep_const_loops, max_paths, inline
        self.trusted, self.post_hints = list(trusted), list(post_hints)
        self.int_array_axioms, self.decreases, self.expand_arrays = int_array_axioms, decreases, expand_arrays
        self.feas_ms, self.no_feas, self.timeout = feas_ms, no_feas, timeout
        self.file, self.props, self.result_alloc = file, props, result_alloc
        self.ext_params, self.ext_ret = ext_params, ext_ret
        self.gen, self.rac, self.notes, self.tol = gen, rac, notes, tol
        self.lemmas = list(lemmas)
        self.axioms = list(axioms)
        self.thorough_only = thorough_only
        self.trust = trust
        self.rac_n = rac_n
        self.rac_requires, self.rac_ensures = list(rac_requires), list(rac_ensures)
        self.strategy = strategy
        self.cases = [tuple(sorted((k, "=%d" % v) for k, v in c.items())) for c in cases]
        if self.cases:
            self.requires.insert(0, " or ".join("(" + " and ".join("%s == %s" % (k, v[1:]) for k, v in c) + ")" for c in self.cases))


class _Tr(ast.NodeTransformer):
    """python AST -> calls on the evaluation context `__c`; names become context
    lookups except lambda-bound ones, so old()/pre() switch state late"""

    def __init__(self): self.bound = [set(["__c"])]

    def _c(self, name, *args):
        return ast.Call(func=ast.Attribute(value=ast.Name(id="__c", ctx=ast.Load()), attr=name, ctx=ast.Load()),
                        args=list(args), keywords=[])

    def _lam(self, e):
        return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=e)

    def visit_BoolOp(self, n):
        self.generic_visit(n)
        return self._c("and_" if isinstance(n.op, ast.And) else "or_", *[self._lam(v) for v in n.values])

    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Not): return self._c("not_", n.operand)
        if isinstance(n.op, ast.USub): return self._c("neg", n.operand)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        nm = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "div", ast.FloorDiv: "idiv", ast.Mod: "mod", ast.Pow: "pow"}[type(n.op)]
        return self._c(nm, n.left, n.right)

    def visit_Compare(self, n):
        self.generic_visit(n)
        ops = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!="}
        parts = []
        left = n.left
        for op, r in zip(n.ops, n.comparators):
            parts.append(self._c("cmp", ast.Constant(ops[type(op)]), left, r))
            left = r
        if len(parts) == 1: return parts[0]
        return self._c("and_", *[self._lam(p) for p in parts])

    def visit_IfExp(self, n):
        self.generic_visit(n)
        return self._c("ite", n.test, self._lam(n.body), self._lam(n.orelse))

    def visit_Lambda(self, n):
        self.bound.append(set(a.arg for a in n.args.args))
        n.body = self.visit(n.body)
        self.bound.pop()
        return n

    def visit_Name(self, n):
        if any(n.id in b for b in self.bound): return n
        return ast.copy_location(self._c("lookup", ast.Constant(n.id)), n)

    def visit_Call(self, n):
        if isinstance(n.func, ast.Name) and n.func.id == "at" and len(n.args) == 2:
            return self._c("at", n.args[0], self._lam(self.visit(n.args[1])))
        if isinstance(n.func, ast.Name) and n.func.id in ("imp", "old", "pre") and not any(n.func.id in b for b in self.bound):
            f = n.func.id
            args = [self.visit(a) for a in n.args]
            if f == "imp": return self._c("imp", args[0], self._lam(args[1]))
            return self._c(f, self._lam(args[0]))
        n.func = self.visit(n.func)
        n.args = [self.visit(a) for a in n.args]
        return n


_code_cache = {}


def compile_spec(s):
    c = _code_cache.get(s)
    if c is None:
        src = " ".join(s.split())
        t = _Tr().visit(ast.parse(src, mode="eval"))
        ast.fix_missing_locations(t)
        c = compile(t, "<spec: %s>" % src[:80], "eval")
        _code_cache[s] = c
    return c


SPECFUNS = {}      # name -> python callable (polymorphic over context), registered by contracts via @specfun


def specfun(f):
    SPECFUNS[f.__name__] = f
    f._spec = True
    return f


_defined = {}


def specdef(src):
    """define a polymorphic spec function from source text: 'name(a,b): expr'"""
    head, body = src.split(":=", 1)
    nm, args = head.strip().split("(", 1)
    args = args.strip().rstrip(")")
    lam = "lambda %s: (%s)" % (args, " ".join(body.split()))
    SPECFUNS[nm.strip()] = ("def", lam)
    return src


class PV:
    """view of a C location/pointer in the state currently selected by the context"""
    __slots__ = ("_e", "_p")

    def __init__(self, env, p): self._e, self._p = env, p

    def __getitem__(self, i):
        p = self._p
        if isinstance(i, slice): return Range(self._e, p, i.start, i.stop)
        q = self._e.eng.padd(p, i)
        return self._e.view(q)

    def __getattr__(self, f):
        if f.startswith("__"): raise AttributeError(f)
        p = self._p
        t = self._e.eng.type_at(p.region, p.steps)
        q = Ptr(p.region, p.steps + (f,), p.null)
        return self._e.view(q)


class Range:
    def __init__(self, env, p, lo, hi): self.env, self.p, self.lo, self.hi = env, p, lo, hi


from .engine import Ptr, Undef, StructVal, LocSet, EngineError, NULLP  # noqa


class SpecEnv:
    symbolic = True

    def __init__(self, eng, st, old_st, names, result=None, pre=None, post=False, binding=False):
        self.eng, self.st, self.old_st, self.names = eng, st, old_st, names
        self.result, self.pre_st, self.post = result, pre, post
        self.cur = st
        self.bound = 0
        self.locals = None        # local variables at function exit (witness terms)
        self.wits = {}

    # ------------------------------------------------------------ evaluation
    def eval(self, s):
        if callable(s): return s(self)
        if not isinstance(s, str): return _fl(s)
        self.cur = self.st
        return _fl(eval(compile_spec(s), {"__builtins__": {}, "__c": self}, {}))

    def eval_bool(self, s):
        v = self.eval(s)
        if isinstance(v, (bool,)): return v
        return T.to_bool(v)

    def lookup(self, k):
        if k == "result":
            r = self.result
            if isinstance(r, Ptr): return PV(self, r) if r.region is not None else PV(self, NULLP)
            if isinstance(r, bool) or (is_sym(r) and z3.is_bool(r)): return to_int(r)
            return r
        if k in self.names:
            v = self.names[k]
            if isinstance(v, tuple) and v[0] == "val":
                v = v[1]
                if isinstance(v, Ptr): return PV(self, v)
                if isinstance(v, StructVal): return SV(v, ())
                return T.num(v) if not isinstance(v, Undef) else self.eng.fresh("undef", z3.IntSort())
            # region of a variable
            st = self.cur
            if self.post: st = self.old_st
            elif st is self.old_st and st is not self.st:
                eb = getattr(self.eng, "entry_bind", None)
                if eb is not None and eb.get(k) is not v: st = self.st     # local variables have no entry value
            p = Ptr(v, ())
            if isinstance(v.etype, TPtr):
                q = self.eng.get(st, v, ())
                if isinstance(q, Undef): raise EngineError("spec uses undefined pointer %s" % k)
                return PV(self, q)
            if isinstance(v.etype, (TStruct,)):
                return PV(self, p)
            if isinstance(v.etype, TArr):
                return PV(self, Ptr(v, (0,)))
            return self.eng.load(st, p, spec=True)
        if k in self.st.ghost:
            return self.st.ghost[k]
        if k in BUILTIN: 
            f = BUILTIN[k]
            return lambda *a: f(self, *a)
        if k in SPECFUNS:
            f = SPECFUNS[k]
            if isinstance(f, tuple):
                return eval(compile_spec(f[1]), {"__builtins__": {}, "__c": self}, {})
            return lambda *a: f(self, *a)
        if k in self.eng.prog.enums: return self.eng.prog.enums[k]
        if k in CONSTS: return CONSTS[k]
        if k.endswith("_") and k[:-1] in self.names: return self.lookup(k[:-1])
        raise EngineError("spec name %r unknown in %s" % (k, self.eng.fn.name))

    def view(self, q):
        """value/view of location q"""
        t = self.eng.type_at(q.region, q.steps)
        if isinstance(t, (TInt, TReal)):
            return self.eng.load(self.cur, q, spec=True)
        if isinstance(t, TPtr):
            v = self.eng.load(self.cur, q, spec=True)
            return PV(self, v)
        if isinstance(t, TArr): return PV(self, Ptr(q.region, q.steps + (0,), q.null, q.flat))
        return PV(self, q)

    # ------------------------------------------------------- assigns clauses
    def locs(self, s):
        self.cur = self.st
        tree = ast.parse(s.strip(), mode="eval").body
        return self._locs(tree)

    def _locs(self, n):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "all":
            return self._locs(n.args[0])
        if isinstance(n, ast.Subscript):
            base = self._ptr(n.value)
            if base is None: return []
            if isinstance(n.slice, ast.Slice):
                lo = self._ev(n.slice.lower) if n.slice.lower else None
                hi = self._ev(n.slice.upper) if n.slice.upper else None
                o = base.steps[-1] if base.steps else 0
                if base.flat:
                    st = list(base.steps)
                    # cover the whole flattened object (all trailing index dims)
                    if is_conc(lo) and is_conc(hi) and is_conc(o):
                        out = []
                        for j in range(lo, hi):
                            q = Ptr(base.region, base.steps[:-1] + (o + j,), base.null, True)
                            out.append(LocSet(q.region, self.eng._normalise_flat(q.region, q.steps)))
                        return out
                    while len(st) and not isinstance(st[-1], str): st.pop()
                    if len(st) < base.region.ndims: st += [("range", None, None)] * (base.region.ndims - len(st))
                    return [LocSet(base.region, st)]
                if not base.steps or isinstance(base.steps[-1], str):
                    return [LocSet(base.region, base.steps)]
                if lo is None and hi is None: r = ("range", None, None)
                else: r = ("range", add(o, lo if lo is not None else 0), add(o, hi))
                return [LocSet(base.region, base.steps[:-1] + (r,))]
            i = self._ev(n.slice)
            q = self.eng.padd(base, i)
            return [LocSet(q.region, self._norm(q))]
        if isinstance(n, ast.Attribute):
            ls = self._locs_base(n.value)
            out = []
            for l in ls:
                out.append(LocSet(l.region, l.steps + (n.attr,)))
            return out
        if isinstance(n, ast.Name):
            p = self._ptr(n)
            if p is None: return []
            return [LocSet(p.region, self._norm(p))]
        raise EngineError("assigns clause")

    def _norm(self, q):
        return self.eng._normalise_flat(q.region, q.steps) if q.flat else q.steps

    def _locs_base(self, n):
        """locset of the struct denoted by n"""
        if isinstance(n, ast.Subscript): return self._locs(n)
        if isinstance(n, ast.Name) or isinstance(n, ast.Attribute):
            p = self._ptr(n)
            return [LocSet(p.region, p.steps)] if p is not None else []
        raise EngineError("assigns base")

    def _ev(self, n):
        import copy
        t = _Tr().visit(ast.Expression(copy.deepcopy(n)))
        ast.fix_missing_locations(t)
        return _fl(eval(compile(t, "<assigns>", "eval"), {"__builtins__": {}, "__c": self}, {}))

    def _ptr(self, n):
        v = self._ev(n)
        if isinstance(v, PV):
            return v._p if v._p.region is not None else None
        raise EngineError("assigns: not a pointer: %r" % ast.dump(n))

    # --------------------------------------------------------- context ops
    def add(self, a, b):
        if isinstance(a, PV): return PV(self, self.eng.padd(a._p, b))
        return add(a, b)

    def sub(self, a, b): return sub(a, b)
    def mul(self, a, b): return mul(a, b)
    def neg(self, a): return neg(a)
    def div(self, a, b): return rdiv(a, b)
    def idiv(self, a, b):
        if is_conc(a) and is_conc(b): return a // b
        return z(a) / z(b)

    def mod(self, a, b):
        if is_conc(a) and is_conc(b): return a % b
        return z(a) % z(b)

    def pow(self, a, n):
        r = 1
        for _ in range(n): r = mul(r, a)
        return r

    def cmp(self, op, a, b):
        if isinstance(a, PV) or isinstance(b, PV):
            pa = a._p if isinstance(a, PV) else NULLP
            pb = b._p if isinstance(b, PV) else NULLP
            return self.eng.ptr_binop(op, pa, pb, self.cur, None)
        if isinstance(a, float): a = Fraction(str(a))
        if isinstance(b, float): b = Fraction(str(b))
        return cmp(op, a, b)

    def and_(self, *fs):
        out = []
        for f in fs:
            v = T.to_bool(f())
            v = unz(v) if is_sym(v) else v
            if v is False: return False
            out.append(v)
        return And(*out)

    def or_(self, *fs):
        out = []
        for f in fs:
            v = T.to_bool(f())
            v = unz(v) if is_sym(v) else v
            if v is True: return True
            out.append(v)
        return Or(*out)

    def not_(self, a): return Not(T.to_bool(a))

    def imp(self, a, f):
        a = T.to_bool(a)
        a = unz(a) if is_sym(a) else a
        if a is False: return True
        return Implies(a, T.to_bool(f()))

    def ite(self, c, a, b):
        c = T.to_bool(c)
        c = unz(c) if is_sym(c) else c
        if c is True: return a()
        if c is False: return b()
        return Ite(c, _fl(a()), _fl(b()))

    def old(self, f):
        sv = self.cur
        self.cur = self.old_st
        try: return f()
        finally: self.cur = sv

    def at(self, m, f):
        """value in the state a `mark` cut recorded"""
        sv = self.cur
        self.cur = self.eng.marks[m]
        try: return f()
        finally: self.cur = sv

    def pre(self, f):
        sv = self.cur
        self.cur = self.pre_st
        try: return f()
        finally: self.cur = sv


def _fl(v): return Fraction(str(v)) if isinstance(v, float) else v


class SV:
    def __init__(self, sv, pre): self._s, self._pre = sv, pre

    def __getattr__(self, f):
        if f.startswith("__"): raise AttributeError(f)
        k = self._pre + (f,)
        if k in self._s.leaves:
            return self._s.leaves[k]
        return SV(self._s, k)

    def __getitem__(self, i):
        k = self._pre + (i,)
        if k in self._s.leaves: return self._s.leaves[k]
        return SV(self._s, k)


# ---------------------------------------------------------------- built-ins
_depth = [0]


class _bound:
    """a bound variable named by nesting depth, so that the same clause gives the same formula"""
    def __init__(self, env, base="q"): self.base = base

    def __enter__(self):
        _depth[0] += 1
        return z3.Int("%s~%d" % (self.base, _depth[0]))

    def __exit__(self, *a): _depth[0] -= 1


def b_forall(env, lo, hi, f):
    if not env.symbolic:
        return all(T.to_bool(f(i)) for i in range(int(lo), int(hi)))
    if is_conc(lo) and is_conc(hi) and hi - lo <= 128:
        return And(*[T.to_bool(f(i)) for i in range(lo, hi)])
    with _bound(env) as q: body = T.to_bool(f(q))
    if isinstance(body, bool): return body if body is True else Not(cmp("<", lo, hi))
    return z3.ForAll([q], z3.Implies(z3.And(z(lo) <= q, q < z(hi)), body))


def b_exists(env, lo, hi, f):
    if not env.symbolic:
        return any(T.to_bool(f(i)) for i in range(int(lo), int(hi)))
    if is_conc(lo) and is_conc(hi) and hi - lo <= 128:
        return Or(*[T.to_bool(f(i)) for i in range(lo, hi)])
    with _bound(env) as q: body = T.to_bool(f(q))
    if isinstance(body, bool): return And(body, cmp("<", lo, hi))
    return z3.Exists([q], z3.And(z(lo) <= q, q < z(hi), body))


_SUMS = {}


def _abstract(body, q, qq, share=False):
    """(summand with every maximal subterm not mentioning q replaced by its own placeholder, those subterms)"""
    seen, out, phs = {}, [], []

    def has(e):
        k = e.get_id()
        r = seen.get(k)
        if r is None:
            if z3.is_quantifier(e): raise EngineError("quantifier inside sum_")
            r = e.eq(q)
            for c in e.children(): r = has(c) or r
            seen[k] = r
        return r

    memo = {}

    def walk(e):
        # sharing placeholders is opt-in: it makes the summand's shape depend on which arguments coincide
        if not share: return walk_(e)
        r = memo.get(e.get_id())
        if r is None: r = memo[e.get_id()] = walk_(e)
        return r

    def walk_(e):
        if e.eq(q): return qq
        if not has(e):
            ph = z3.Const("sa%d!%s" % (len(out), e.sort()), e.sort())
            out.append(e)
            phs.append(ph)
            return ph
        return e.decl()(*[walk(c) for c in e.children()])
    return walk(body), out, phs


def b_sum(env, lo, hi, f):
    if not env.symbolic:
        s = 0
        for i in range(int(lo), int(hi)): s = s + f(i)
        return s
    if is_conc(lo) and is_conc(hi) and hi - lo <= 128:
        s = 0
        for i in range(lo, hi): s = add(s, f(i))
        return s
    with _bound(env) as q: body = z(T.num(_fl(f(q))))
    qq = z3.Int("sq")
    ab, consts, phs = _abstract(body, q, qq, env.eng.contract.share_sums)
    key = (ab.sexpr(), tuple(str(p.sort()) for p in phs))
    d = _SUMS.get(key)
    if d is None:
        nm = "SUM%d" % len(_SUMS)
        fn = z3.Function(nm, z3.IntSort(), z3.IntSort(), *[p.sort() for p in phs], body.sort())
        _SUMS[key] = d = fn
        SUMDEFS[nm] = (ab, qq, phs)
    return d(z(lo), z(hi), *consts)


SUMDEFS = {}


def sum_body(app, i):
    """summand of a SUM application at index i"""
    ab, qq, phs = SUMDEFS[app.decl().name()]
    return z3.substitute(ab, [(qq, i)] + list(zip(phs, app.children()[2:])))


def b_count(env, lo, hi, f):
    if not env.symbolic:
        return sum(1 for i in range(int(lo), int(hi)) if T.to_bool(f(i)))
    return b_sum(env, lo, hi, lambda i: Ite(T.to_bool(f(i)), 1, 0))


def b_iff(env, a, b):
    a, b = T.to_bool(a), T.to_bool(b)
    if isinstance(a, bool): return b if a else Not(b)
    if isinstance(b, bool): return a if b else Not(a)
    return a == b


def b_isnull(env, p):
    return p._p.null


def b_uf(name):
    def f(env, *a):
        from . import builtins
        return builtins.math_uf(env.eng, name, [to_real(_fl(x)) for x in a])
    return f


def b_abs(env, x): return Ite(cmp("<", x, 0), neg(x), x)
def b_min(env, *a):
    m = a[0]
    for x in a[1:]: m = Ite(cmp("<", x, m), x, m)
    return m


def b_max(env, *a):
    m = a[0]
    for x in a[1:]: m = Ite(cmp(">", x, m), x, m)
    return m


def b_trunc(env, x): return T.trunc(_fl(x))
def b_floor(env, x): return T.floor_(_fl(x))
def b_real(env, x): return to_real(x)
def b_same(env, a, b): return env.eng.ptr_binop("==", a._p, b._p, env.cur, None)
def b_boolint(env, a): return to_int(T.to_bool(a))
def b_exact(env, a, b): return cmp("==", a, b)
def b_near(env, a, b, eps): return And(cmp("<=", sub(a, b), _fl(eps)), cmp("<=", sub(b, a), _fl(eps)))
def b_cdiv(env, a, b): return T.idiv_trunc(a, b)


def b_len(env, p):
    """number of elements the pointer's array has (arrays of unstated length: shape "*")"""
    if not env.symbolic:
        n = p._node()
        return len(n) - p._off if isinstance(n, (list, bytes)) else 1
    return env.eng.avail(p._p)


def b_wit(env, name, sort="real"):
    """witness: value of a local variable at function exit; an existential for callers"""
    if env.locals is not None:
        if name in env.st.ghost: return env.st.ghost[name]
        r = env.locals.get(name)
        if r is None: raise EngineError("witness %r: no such local at exit" % name)
        return env.eng.load(env.st, Ptr(r, ()), spec=True)
    if name not in env.wits:
        env.wits[name] = env.eng.fresh("wit_" + name, z3.RealSort() if sort == "real" else z3.IntSort())
    return env.wits[name]


BUILTIN = {
    "wit": b_wit, "length": b_len,
    "forall": b_forall, "exists": b_exists, "sum_": b_sum, "count": b_count, "ncount": b_count, "iff": b_iff, "isnull": b_isnull,
    "abs": b_abs, "min": b_min, "max": b_max, "trunc": b_trunc, "floor": b_floor, "real": b_real, "same": b_same,
    "boolint": b_boolint, "exact": b_exact, "near": b_near, "cdiv": b_cdiv,
}
for _n in ("sqrt", "sin", "cos", "tan", "atan", "acos", "asin", "atan2", "pow_"):
    BUILTIN[_n] = b_uf(_n.rstrip("_"))
CONSTS = {"True": True, "False": False, "INT_MAX": 2147483647, "INT_MIN": -2147483648}
