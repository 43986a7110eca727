"""Discharging obligations: z3 (default / nlsat), cvc5, and a polynomial normal-form prover."""
import os, select, json, time, multiprocessing as mp, signal, re
from fractions import Fraction
import z3
from . import terms as T
from . import builtins
from .spec import SUMDEFS, sum_body


def math_apps(exprs):
    seen, out = set(), []

    def walk(e):
        if e.get_id() in seen: return
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            walk(e.body())
            return
        if z3.is_app(e):
            d = e.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED and e.num_args() and d.name().startswith("f_"):
                if not _has_var(e): out.append(e)
            for c in e.children(): walk(c)
    for e in exprs: walk(e)
    return out


_HV = {}


def _has_var(e):
    k = e.get_id()
    if k in _HV: return _HV[k][1]
    r = True if z3.is_var(e) else any(_has_var(c) for c in e.children())
    _HV[k] = (e, r)
    return r


def consts_of(e, cache):
    i = e.get_id()
    if i in cache: return cache[i]
    if z3.is_quantifier(e):
        r = consts_of(e.body(), cache)
    elif z3.is_const(e):
        r = frozenset([i]) if e.decl().kind() == z3.Z3_OP_UNINTERPRETED else frozenset()
    else:
        r = frozenset()
        for c in e.children(): r |= consts_of(c, cache)
    cache[i] = r
    return r


def has_quant(e, cache={}):
    k = e.get_id()
    if k in cache and cache[k][0].eq(e): return cache[k][1]
    r = True if z3.is_quantifier(e) else any(has_quant(c) for c in e.children())
    cache[k] = (e, r)
    return r


def relevant(pc, goal, rounds):
    cache = {}
    cur = set(consts_of(goal, cache))
    chosen = set()
    for _ in range(rounds):
        new = set()
        for i, h in enumerate(pc):
            if i in chosen: continue
            cs = consts_of(h, cache)
            if cs & cur:
                chosen.add(i)
                new |= cs
        if not new - cur: break
        cur |= new
    return [pc[i] for i in sorted(chosen)]


def same_arrays(pc, goal):
    """ground hypotheses, and those quantified ones that speak of no array the goal does not"""
    cache, names = {}, {}

    def arrs(e):
        k = e.get_id()
        if k in cache: return cache[k]
        if z3.is_quantifier(e): r = arrs(e.body())
        elif z3.is_const(e): r = frozenset([e.decl().name()]) if z3.is_array(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED else frozenset()
        else:
            r = frozenset()
            for c in e.children(): r |= arrs(c)
        cache[k] = r
        return r
    mine = arrs(goal)
    cc = {}
    ids = consts_of(goal, cc)
    sk = set()

    def names(e):
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.decl().name().startswith("sk_"): sk.add(e.get_id())
        for c in e.children(): names(c)
    names(goal)
    for h in pc:
        if sk and not has_quant(h) and consts_of(h, cc) & sk: mine |= arrs(h)
    return [h for h in pc if not has_quant(h) or arrs(h) <= mine]


def sum_apps(exprs):
    seen, out = set(), []

    def walk(e):
        if e.get_id() in seen: return
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            walk(e.body())
            return
        if z3.is_app(e):
            if e.num_args() and e.decl().name() in SUMDEFS and not _has_var(e): out.append(e)
            for c in e.children(): walk(c)
    for e in exprs: walk(e)
    return out


def _reads_at_index_only(name, k):
    """placeholder k of the summand is an array that is read only at the summation index"""
    b, qq, phs = SUMDEFS[name]
    ph = phs[k]
    if not z3.is_array(ph): return False
    seen = set()

    def ok(e):
        if e.get_id() in seen: return True
        seen.add(e.get_id())
        if e.eq(ph): return False
        if z3.is_select(e) and e.arg(0).eq(ph): return e.arg(1).eq(qq)
        return all(ok(c) for c in e.children())
    return ok(b)


def positive_lemmas(apps, fs):
    """a count is at least the summand at any index in its range (taken at the indices its array is read at)"""
    reads, seen = {}, set()

    def walk(e):
        if e.get_id() in seen: return
        seen.add(e.get_id())
        if z3.is_quantifier(e): return
        if z3.is_select(e) and e.num_args() == 2 and not _has_var(e): reads.setdefault(e.arg(0).get_id(), {}).setdefault(e.arg(1).get_id(), e.arg(1))
        for c in e.children(): walk(c)
    for f in fs: walk(f)
    out = []
    for a in apps:
        if a.sort() != z3.IntSort() or not z3.is_app_of(SUMDEFS[a.decl().name()][0], z3.Z3_OP_ITE): continue
        for c in a.children()[2:]:
            if z3.is_array(c):
                for t in list(reads.get(c.get_id(), {}).values())[:4]:
                    out.append(z3.Implies(z3.And(_is01(a), a.arg(0) <= t, t < a.arg(1)), a >= sum_body(a, t)))
    return out


def update_lemmas(apps, depth=0):
    """sums over an updated array (one entry replaced), over a conditional array, and of a constant"""
    out, more = [], []
    for a in apps:
        nm = a.decl().name()
        ch = a.children()
        q = z3.FreshInt("ci")
        b = z3.simplify(sum_body(a, q))
        if (z3.is_int_value(b) or z3.is_rational_value(b)):
            n = z3.If(ch[1] > ch[0], ch[1] - ch[0], z3.IntVal(0))
            out.append(a == b * (z3.ToReal(n) if a.sort() == z3.RealSort() else n))
            continue
        for k, c in enumerate(ch[2:]):
            if not z3.is_array(c) or not z3.is_app(c): continue
            if c.decl().kind() == z3.Z3_OP_ITE:
                x, y = [a.decl()(*(ch[:2 + k] + [v] + ch[3 + k:])) for v in (c.arg(1), c.arg(2))]
                out.append(a == z3.If(c.arg(0), x, y))
                more += [x, y]
                break
            if z3.is_store(c) and c.num_args() == 3 and _reads_at_index_only(nm, k):
                base = a.decl()(*(ch[:2 + k] + [c.arg(0)] + ch[3 + k:]))
                i = c.arg(1)
                out.append(a == base + z3.If(z3.And(ch[0] <= i, i < ch[1]), sum_body(a, i) - sum_body(base, i), 0))
                more.append(base)
                break
    if more and depth < 6: out += update_lemmas(more, depth + 1)
    return out


def sum_axioms(pc, goal):
    """unfoldings of the sums that occur (one step at the upper end), bounds of counts, extensionality"""
    if not SUMDEFS: return []
    ga = sum_apps([goal])
    apps = ga + [a for a in sum_apps(pc) if not any(a.eq(b) for b in ga)]
    apps = apps[:60]
    out = []
    for a in apps:
        lo, hi = a.arg(0), a.arg(1)
        h1 = z3.simplify(hi - 1)
        zero = z3.RealVal(0) if a.sort() == z3.RealSort() else z3.IntVal(0)
        prev = a.decl()(lo, h1, *a.children()[2:])
        out.append(z3.Implies(hi <= lo, a == zero))
        out.append(z3.Implies(hi > lo, a == prev + sum_body(a, h1)))
        if a.sort() == z3.IntSort():
            b = SUMDEFS[a.decl().name()][0]
            if z3.is_app(b) and b.decl().kind() == z3.Z3_OP_ITE:
                for x, p in ((a, hi), (prev, h1)):
                    out.append(z3.Implies(_is01(a), z3.And(x >= 0, z3.Or(x <= p - lo, p <= lo))))
    out += count_lemmas(ga, apps)
    out += update_lemmas(apps)
    out += positive_lemmas(apps, list(pc) + [goal])
    n = 0
    for a in ga:
        for b in apps:
            if a.eq(b) or a.sort() != b.sort() or n >= 12: continue
            if not (z3.is_true(z3.simplify(a.arg(0) == b.arg(0))) and (a.decl().eq(b.decl()) or z3.simplify(a.arg(1)).eq(z3.simplify(b.arg(1))))): continue
            n += 1
            q = z3.Int("ext")
            out.append(z3.Implies(z3.And(a.arg(1) == b.arg(1), z3.ForAll([q], z3.Implies(z3.And(a.arg(0) <= q, q < a.arg(1)), sum_body(a, q) == sum_body(b, q)))), a == b))
    return out


def _zero_or_witness(a):
    """a sum of zeroes is zero: otherwise some summand in its range is not"""
    k = z3.FreshInt("zk")
    return z3.Or(a == 0, z3.And(a.arg(0) <= k, k < a.arg(1), sum_body(a, k) != 0))


def count_lemmas(ga, apps):
    """for counts: zero ranges, and splitting at the upper end of another count"""
    isc = lambda a: a.sort() == z3.IntSort() and z3.is_app_of(SUMDEFS[a.decl().name()][0], z3.Z3_OP_ITE)
    out, n = [], 0
    cs = [a for a in ga if isc(a)][:6]
    for a in cs:
        out.append(_zero_or_witness(a))
        for b in apps:
            if n >= 6 or a.eq(b) or not a.decl().eq(b.decl()) or not z3.is_true(z3.simplify(a.arg(0) == b.arg(0))): continue
            n += 1
            rest = a.decl()(b.arg(1), *a.children()[1:])
            same = z3.And(*[x == y for x, y in zip(a.children()[2:], b.children()[2:])])
            out.append(z3.Implies(z3.And(same, b.arg(0) <= b.arg(1), b.arg(1) <= a.arg(1)), a == b + rest))
            out.append(_zero_or_witness(rest))
            out.append(z3.Implies(_is01(rest), rest >= 0))
    return out


def opaque(fs):
    """generalise: compound scalar terms (no array read, no bound variable) become constants"""
    memo, tops, n = {}, {}, [0]

    def info(e):
        """(free of reads and variables, compound)"""
        k = e.get_id()
        r = memo.get(k)
        if r is None:
            if z3.is_var(e) or z3.is_quantifier(e): r = (False, False)
            else:
                cs = [info(c) for c in e.children()]
                d = e.decl().kind()
                ok = all(c[0] for c in cs) and d not in (z3.Z3_OP_SELECT, z3.Z3_OP_STORE) and not (e.num_args() == 0 and z3.is_array(e))
                comp = any(c[1] for c in cs) or d in (z3.Z3_OP_ITE, z3.Z3_OP_DIV) or (d == z3.Z3_OP_UNINTERPRETED and e.num_args() > 0) or (
                    d == z3.Z3_OP_MUL and sum(not z3.is_rational_value(c) for c in e.children()) > 1)
                r = (ok, comp)
            memo[k] = r
        return r
    seen = set()

    def walk(e):
        if e.get_id() in seen: return
        seen.add(e.get_id())
        if z3.is_quantifier(e): return walk(e.body())
        if z3.is_real(e) and info(e) == (True, True):
            tops[e.get_id()] = e
            return
        for c in e.children(): walk(c)
    for f in fs: walk(f)
    if not tops: return None
    sub = [(t, z3.FreshReal("op")) for t in sorted(tops.values(), key=lambda t: -len(t.sexpr()))]
    return [z3.substitute(f, *sub) for f in fs]


def _is01(a):
    """a count: the two branch values are 1 and 0"""
    b, qq, phs = SUMDEFS[a.decl().name()]
    cs = []
    for i, want in ((1, 1), (2, 0)):
        v = z3.substitute(b.arg(i), list(zip(phs, a.children()[2:])))
        cs.append(v == want)
    return z3.And(*cs)


def perm_apps(exprs):
    seen, out = set(), []

    def walk(e):
        if e.get_id() in seen: return
        seen.add(e.get_id())
        if z3.is_quantifier(e): return
        if z3.is_app(e):
            if e.num_args() and e.decl().name().startswith("PERM"): out.append(e)
            for c in e.children(): walk(c)
    for e in exprs: walk(e)
    return out


def _exchanged(cs):
    """arrays B and the conditions under which cs is B with two entries exchanged"""
    bs, conds, ij = [], [], None
    for c in cs:
        if not (z3.is_store(c) and z3.is_store(c.arg(0)) and c.num_args() == 3): return None
        b, i, v, j, w = c.arg(0).arg(0), c.arg(0).arg(1), c.arg(0).arg(2), c.arg(1), c.arg(2)
        if ij is None: ij = (i, j)
        conds += [i == ij[0], j == ij[1], v == z3.Select(b, j), w == z3.Select(b, i)]
        bs.append(b)
    return bs, z3.And(*conds)


def perm_axioms(pc, goal):
    """PERM(a, c): c's entries are a's in another order (some bijection of the indices moving finitely many).
    Instances used: reflexivity, one exchange, transitivity (lemmas/perm.lean)"""
    ga = perm_apps([goal])
    if not ga: return []
    have = perm_apps(pc)
    out = []
    for g in ga:
        n = g.num_args() // 2
        P, a, c = g.decl(), g.children()[:n], g.children()[n:]
        steps = 0
        while steps < 12:
            steps += 1
            if all(x.eq(y) for x, y in zip(a, c)):
                out.append(P(*a, *a))
                break
            ex = _exchanged(c)
            if ex is not None:
                b, cond = ex
                out.append(z3.Implies(cond, P(*b, *c)))
            else:
                h = [x for x in have if x.decl().eq(P) and all(u.eq(v) for u, v in zip(x.children()[n:], c)) and not all(u.eq(v) for u, v in zip(x.children()[:n], c))]
                if not h: break
                b = h[-1].children()[:n]
            out.append(z3.Implies(z3.And(P(*a, *b), P(*b, *c)), P(*a, *c)))
            c = b
    return out


def add_axioms(pc, goal):
    sa = sum_axioms(pc, goal) + perm_axioms(pc, goal)
    return _add_axioms(list(pc) + sa, goal) + sa


def _add_axioms(pc, goal):
    apps = math_apps(list(pc) + [goal])
    out = []
    seen = set()
    todo = list(apps)
    while todo:
        a = todo.pop()
        for ax in builtins.axioms_for(a):
            if ax.get_id() in seen: continue
            seen.add(ax.get_id())
            out.append(ax)
    return out


def purify(fs):
    """replace uninterpreted applications and array reads by constants (+ congruence)"""
    table = {}
    cache = {}
    cong = []

    def go(e):
        k = e.get_id()
        if k in cache: return cache[k]
        if z3.is_quantifier(e): raise ValueError("quant")
        ch = [go(c) for c in e.children()]
        if z3.is_app(e) and e.num_args():
            d = e.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED or d.kind() == z3.Z3_OP_SELECT:
                args = [z3.simplify(c, som=True) if z3.is_arith(c) else c for c in ch]
                key = (d.name(), tuple(a.sexpr() for a in args))
                if key not in table:
                    v = z3.FreshConst(e.sort(), "pu")
                    for k2, (v2, a2) in table.items():
                        if k2[0] == d.name() and len(a2) == len(args) and all(x.sort() == y.sort() for x, y in zip(a2, args)) and v2.sort() == v.sort():
                            eqs = [x == y for x, y in zip(a2, args)]
                            cong.append(z3.Implies(z3.And(*eqs), v == v2))
                    table[key] = (v, args)
                r = table[key][0]
            elif d.kind() in (z3.Z3_OP_STORE,):
                r = d(*ch)
            else:
                r = z3.simplify(d(*ch)) if False else _rebuild(e, ch)
        else:
            r = e
        cache[k] = r
        return r
    out = [go(f) for f in fs]
    return out + cong, table


def _rebuild(e, ch):
    if z3.is_and(e): return z3.And(*ch)
    if z3.is_or(e): return z3.Or(*ch)
    k = e.decl().kind()
    if k == z3.Z3_OP_ADD: return z3.Sum(*ch) if len(ch) > 2 else ch[0] + ch[1]
    if k == z3.Z3_OP_MUL: return z3.Product(*ch) if len(ch) > 2 else ch[0] * ch[1]
    if k == z3.Z3_OP_DISTINCT: return z3.Distinct(*ch)
    return e.decl()(*ch)


def z3_try(hyps, goal, ms, tactic=None, opts=None):
    s = (tactic.solver() if tactic is not None else z3.Solver())
    s.set("timeout", int(ms))
    for k, v in (opts or {}).items(): s.set(k, v)
    for h in hyps: s.add(h)
    s.add(z3.Not(goal))
    r = s.check()
    return r, s


# ---------------------------------------------------------------- polynomials
class NoPoly(Exception):
    pass


def to_sympy(e, syms):
    import sympy as sp
    cache = {}

    def go(e):
        k = e.get_id()
        if k in cache: return cache[k]
        if z3.is_rational_value(e): r = sp.Rational(e.numerator_as_long(), e.denominator_as_long())
        elif z3.is_int_value(e): r = sp.Integer(e.as_long())
        elif z3.is_app(e):
            kd = e.decl().kind()
            ch = e.children()
            if kd == z3.Z3_OP_ADD: r = sp.Add(*[go(c) for c in ch])
            elif kd == z3.Z3_OP_SUB:
                r = go(ch[0])
                for c in ch[1:]: r = r - go(c)
            elif kd == z3.Z3_OP_MUL: r = sp.Mul(*[go(c) for c in ch])
            elif kd == z3.Z3_OP_UMINUS: r = -go(ch[0])
            elif kd == z3.Z3_OP_DIV: r = go(ch[0]) / go(ch[1])
            elif kd == z3.Z3_OP_POWER and z3.is_int_value(ch[1]): r = go(ch[0]) ** ch[1].as_long()
            elif kd == z3.Z3_OP_ITE or not z3.is_arith(e): raise NoPoly()
            elif kd == z3.Z3_OP_UNINTERPRETED and e.num_args() and e.decl().name().startswith("f_"):
                # canonicalise the argument polynomial
                args = tuple(sp.srepr(sp.expand(go(c))) for c in ch)
                key = (e.decl().name(), args)
                r = syms.get(key)
                if r is None:
                    r = syms[key] = sp.Symbol("u%d_%s" % (len(syms), e.decl().name()))
                    syms.setdefault("apps", []).append((r, e.decl().name(), [go(c) for c in ch]))
            else:
                key = e.sexpr()
                r = syms.get(key)
                if r is None: r = syms[key] = sp.Symbol("v%d" % len(syms))
        else: raise NoPoly()
        cache[k] = r
        return r
    return go(e)


def _divisors(e, out, seen):
    if e.get_id() in seen: return
    seen.add(e.get_id())
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_DIV and not z3.is_rational_value(e.arg(1)):
        out[e.arg(1).get_id()] = e.arg(1)
    for c in e.children(): _divisors(c, out, seen)


def _nonzero(pc, d):
    for h in pc:
        if z3.is_not(h) and z3.is_eq(h.arg(0)):
            u, v = h.arg(0).arg(0), h.arg(0).arg(1)
            if (u.eq(d) and _isz(v)) or (v.eq(d) and _isz(u)): return True
        if z3.is_distinct(h) and h.num_args() == 2:
            u, v = h.arg(0), h.arg(1)
            if (u.eq(d) and _isz(v)) or (v.eq(d) and _isz(u)): return True
    goal = d != 0
    rel = relevant(pc, goal, 2)
    for hy in ([h for h in rel if not has_quant(h)],):
        r, _ = z3_try(hy + add_axioms(hy, goal), goal, 700)
        if r == z3.unsat: return True
    return False


def _isz(v): return z3.is_rational_value(v) and v.numerator_as_long() == 0


def algebra(pc, goal):
    """first with named intermediate values opaque, then unfolded"""
    lets = [h for h in pc if z3.is_eq(h) and z3.is_const(h.arg(0)) and h.arg(0).decl().name().startswith("let_")]
    if lets:
        first, ids = set(), set()
        for h in lets:
            c = h.arg(0).get_id()
            if c not in first and c not in consts_of(h.arg(1), {}):
                first.add(c)
                ids.add(h.get_id())
        if _algebra([h for h in pc if h.get_id() not in ids], goal): return True
    return _algebra(pc, goal)


def _algebra(pc, goal):
    """prove an equality goal by rational normal form modulo sqrt/sin/cos relations, definitional and
    linearly solvable equality hypotheses; every divisor involved is first proved non-zero"""
    import sympy as sp
    if not (z3.is_eq(goal) and z3.is_arith(goal.arg(0))): return False
    subs = []
    work = []
    for h in pc:
        work += _conjs(h)
    defined = set()
    rest = []
    for h in work:
        if not (z3.is_eq(h) and z3.is_arith(h.arg(0)) and h.arg(0).sort() == z3.RealSort()): continue
        done = False
        for a, b in ((h.arg(0), h.arg(1)), (h.arg(1), h.arg(0))):
            if z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED and a.get_id() not in defined:
                b2 = z3.substitute(b, *subs) if subs else b
                if a.get_id() in consts_of(b2, {}): continue
                subs = [(x, z3.substitute(y, (a, b2))) for x, y in subs] + [(a, b2)]
                defined.add(a.get_id())
                done = True
                break
        if not done: rest.append(h)
    l, r = goal.arg(0), goal.arg(1)
    if subs: l, r = z3.substitute(l, *subs), z3.substitute(r, *subs)
    divs = {}
    _divisors(l, divs, set())
    _divisors(r, divs, set())
    syms = {}
    try:
        ex = to_sympy(z3.simplify(l - r), syms)
    except NoPoly:
        return False
    num = sp.expand(sp.fraction(sp.together(ex))[0])
    # further equalities: solve for a linearly occurring symbol, or use s^2 = e
    sq = []
    poly = {}
    used = set()
    progress = True
    while progress and num != 0:
        progress = False
        for hi_, h in enumerate(rest[:40]):
            if num == 0: break
            if hi_ in used: continue
            if hi_ not in poly:
                hl, hr = h.arg(0), h.arg(1)
                if subs: hl, hr = z3.substitute(hl, *subs), z3.substitute(hr, *subs)
                try:
                    hn = sp.expand(sp.fraction(sp.together(to_sympy(z3.simplify(hl - hr), syms)))[0])
                    lead = to_sympy(hl, syms) if z3.is_app(hl) and hl.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT) else None
                except NoPoly:
                    poly[hi_] = None
                    continue
                hd = {}
                _divisors(hl, hd, set())
                _divisors(hr, hd, set())
                dsy = set()
                for d in hd.values():
                    try: dsy |= to_sympy(d, syms).free_symbols
                    except NoPoly: pass
                poly[hi_] = (hn, lead, hd, dsy)
            if poly[hi_] is None: continue
            hn, lead, hd, dsy = poly[hi_]
            com = hn.free_symbols & num.free_symbols
            if not com: continue
            best = None
            for v in sorted(com, key=lambda v: (v != lead, str(v))):
                P = sp.Poly(hn, v)
                if P.degree() == 1:
                    c = P.coeff_monomial(v)
                    # coefficient must be a number or a product of the (non-zero) divisors of the hypothesis
                    if c.is_number or (c.free_symbols <= dsy and len(sp.Add.make_args(c)) == 1):
                        best = (v, sp.together(-P.coeff_monomial(1) / c))
                        break
                elif P.degree() == 2 and P.coeff_monomial(v) == 0 and P.coeff_monomial(v ** 2).is_number and v.name.startswith("v"):
                    sq.append((v, -P.coeff_monomial(1) / P.coeff_monomial(v ** 2)))
                    used.add(hi_)
            if best:
                divs.update(hd)
                used.add(hi_)
                num = sp.expand(sp.fraction(sp.together(num.subs(best[0], best[1])))[0])
                progress = True
                break
    for v, e in sq: num = _reduce_sq(num, v, e)
    for _ in range(12):
        if num == 0: break
        old = num
        for s, nm, args in reversed(syms.get("apps", [])):
            if nm == "f_sqrt":
                num = _reduce_sq(num, s, args[0])
            elif nm == "f_tan":
                sn = [t for t, n2, a2 in syms["apps"] if n2 == "f_sin" and sp.expand(a2[0] - args[0]) == 0]
                cs = [t for t, n2, a2 in syms["apps"] if n2 == "f_cos" and sp.expand(a2[0] - args[0]) == 0]
                if sn and cs:
                    num = num.subs(s, sn[0] / cs[0])
                    ca = [x for x in add_apps(pc, goal) if x.decl().name() == "f_cos"]
                    for x in ca: divs[x.get_id()] = x
            elif nm == "f_sin":
                c = [t for t, n2, a2 in syms["apps"] if n2 == "f_cos" and sp.expand(a2[0] - args[0]) == 0]
                if c: num = _reduce_sq(num, s, 1 - c[0] ** 2)
        num = sp.expand(sp.fraction(sp.together(num))[0])
        for v, e in sq: num = _reduce_sq(num, v, e)
        if num == old: break
    if num != 0:
        # division by the remaining polynomial equalities
        ps, ds = [], {}
        for hi_, h in enumerate(rest[:40]):
            if hi_ in used: continue
            if hi_ not in poly:
                hl, hr = h.arg(0), h.arg(1)
                if subs: hl, hr = z3.substitute(hl, *subs), z3.substitute(hr, *subs)
                try: hn = sp.expand(sp.fraction(sp.together(to_sympy(z3.simplify(hl - hr), syms)))[0])
                except NoPoly: continue
                hd = {}
                _divisors(hl, hd, set())
                _divisors(hr, hd, set())
                poly[hi_] = (hn, None, hd, set())
            if poly[hi_] is None: continue
            hn = poly[hi_][0]
            if hn == 0 or not (hn.free_symbols & num.free_symbols): continue
            ps.append(hn)
            ds.update(poly[hi_][2])
        if not ps: return False
        gens_ = sorted(set().union(num.free_symbols, *[q.free_symbols for q in ps]), key=str)
        if len(gens_) > 40: return False
        _, rem = sp.reduced(num, ps, *gens_, order="grevlex")
        if sp.expand(rem) != 0: return False
        divs.update(ds)
    # sqrt arguments must be non-negative for sqrt(x)^2 = x
    hy = [h for h in pc]
    for d in divs.values():
        if not _nonzero(hy + ([a == b for a, b in subs]), d): return False
    for e in add_apps(pc, goal):
        if e.decl().name() == "f_sqrt":
            g = e.arg(0) >= 0
            rel = [h for h in relevant(pc, g, 2) if not has_quant(h)]
            if z3_try(rel + add_axioms(rel, g), g, 700)[0] != z3.unsat: return False
    return True


def add_apps(pc, goal): return math_apps(list(pc) + [goal])


def _reduce_sq(p, s, sq):
    import sympy as sp
    if not p.has(s): return p
    P = sp.Poly(p, s)
    out = 0
    for (d,), c in P.terms():
        out += c * (sq ** (d // 2)) * (s if d % 2 else 1)
    return sp.expand(sp.fraction(sp.together(out))[0])


class _Alarm(Exception):
    pass


def with_alarm(sec, f, *a):
    def h(sig, fr): raise _Alarm()
    old = signal.signal(signal.SIGALRM, h)
    signal.setitimer(signal.ITIMER_REAL, sec)
    try:
        return f(*a)
    except _Alarm:
        return None
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def cvc5_try(hyps, goal, ms):
    try:
        import cvc5
    except ImportError:
        return None
    s = z3.Solver()
    for h in hyps: s.add(h)
    s.add(z3.Not(goal))
    txt = s.to_smt2()
    if "RecFunction" in txt: pass
    txt = "(set-logic ALL)\n" + txt
    import subprocess
    try:
        p = subprocess.run(["cvc5", "--tlimit=%d" % ms, "--lang=smt2", "-"], input=txt.encode(), stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=ms / 1000.0 + 5)
        out = p.stdout.decode().strip().splitlines()
        return out[0] if out else None
    except Exception:
        return None


def expand_goal(goal):
    """split conjunctions, move antecedents into the hypotheses: [(extra hyps, goal)]"""
    if z3.is_and(goal):
        out = []
        for c in goal.children(): out += expand_goal(c)
        return out
    if z3.is_implies(goal):
        a, b = goal.children()
        hs = _conjs(a)
        return [(hs + e, g) for e, g in expand_goal(b)]
    if z3.is_quantifier(goal) and goal.is_forall():
        sk = [z3.FreshConst(goal.var_sort(i), "sk_" + goal.var_name(i)) for i in range(goal.num_vars())]
        return expand_goal(z3.substitute_vars(goal.body(), *reversed(sk)))
    if z3.is_or(goal):
        # one disjunct is the goal, the negations of the others are hypotheses: keep as is, but skolemise
        cs = goal.children()
        qs = [c for c in cs if z3.is_quantifier(c) and c.is_forall()]
        if len(qs) == 1:
            neg = [z3.Not(c) for c in cs if not c.eq(qs[0])]
            return [(neg + e, g) for e, g in expand_goal(qs[0])]
    return [([], goal)]


def _conjs(a):
    if z3.is_and(a):
        out = []
        for c in a.children(): out += _conjs(c)
        return out
    return [a]


def index_terms(fs):
    """ground integer terms used as indices"""
    seen, out = set(), {}

    def walk(e):
        if e.get_id() in seen: return
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            walk(e.body())
            return
        if z3.is_app(e):
            k = e.decl().kind()
            if k == z3.Z3_OP_SELECT or k == z3.Z3_OP_STORE:
                i = e.arg(1)
                if i.sort() == z3.IntSort() and not _has_var(i): out.setdefault(i.sexpr(), i)
            elif k == z3.Z3_OP_UNINTERPRETED:
                if e.num_args():
                    for i in e.children():
                        if i.sort() == z3.IntSort() and not _has_var(i): out.setdefault(i.sexpr(), i)
                elif e.sort() == z3.IntSort(): out.setdefault(e.sexpr(), e)
            for c in e.children(): walk(c)
    for f in fs: walk(f)
    return list(out.values())


def instantiate(pc, goal, limit=600):
    """quantifier-free hypotheses: ground instances of the universally quantified ones"""
    qf = [h for h in pc if not has_quant(h)]
    qs = []
    for h in pc:
        if z3.is_quantifier(h) and h.is_forall(): qs.append(([], h))
        elif z3.is_implies(h) and z3.is_quantifier(h.arg(1)) and h.arg(1).is_forall() and not has_quant(h.arg(0)): qs.append(([h.arg(0)], h.arg(1)))
    terms = index_terms([goal])
    more = [t for t in index_terms(qf[-12:]) if not any(t.eq(u) for u in terms)]
    out = []
    for ts in (terms[:10] + more[:6],):
        for g, q in qs:
            n = q.num_vars()
            if any(q.var_sort(i) != z3.IntSort() for i in range(n)): continue
            tt = ts if n == 1 else ts[:8] if n == 2 else ts[:4]
            import itertools
            for combo in itertools.product(tt, repeat=n):
                b = z3.simplify(z3.substitute_vars(q.body(), *reversed(combo)))
                if z3.is_true(b): continue
                if has_quant(b):
                    # one nested level
                    if z3.is_implies(b) or z3.is_or(b): continue
                    continue
                out.append(z3.Implies(g[0], b) if g else b)
                if len(out) > limit: return qf + out
    return qf + out


def shift_terms(qs, terms):
    """t - c for arrays read at c + bound variable under a quantifier"""
    offs, seen = {}, set()

    def walk(e):
        if e.get_id() in seen: return
        seen.add(e.get_id())
        if z3.is_quantifier(e): return walk(e.body())
        if z3.is_app(e):
            if e.decl().kind() == z3.Z3_OP_SELECT and z3.is_add(e.arg(1)):
                g = [c for c in e.arg(1).children() if not _has_var(c)]
                v = [c for c in e.arg(1).children() if _has_var(c)]
                if g and len(v) == 1 and z3.is_var(v[0]):
                    o = z3.Sum(*g) if len(g) > 1 else g[0]
                    if not z3.is_int_value(o): offs.setdefault(o.sexpr(), o)
            for c in e.children(): walk(c)
    for q in qs: walk(q)
    out = []
    for t in terms[:3]:
        for o in list(offs.values())[:3]:
            u = z3.simplify(t - o)
            if not any(u.eq(w) for w in out): out.append(u)
    return out


def instantiate2(pc, goal, rounds=3, cap=14, limit=2500, directed=False):
    """ground refutation set for pc and the negated goal: existentials become constants, universals their
    instances at the index terms in sight (nested quantifiers included)"""
    proxies = []      # (guard literal, quantifier)
    fresh_terms = []

    def go(f, pos):
        if not has_quant(f): return f if pos else z3.Not(f)
        if z3.is_not(f): return go(f.arg(0), not pos)
        if z3.is_and(f) or z3.is_or(f):
            cs = [go(c, pos) for c in f.children()]
            return z3.And(*cs) if z3.is_and(f) == pos else z3.Or(*cs)
        if z3.is_implies(f):
            a, b = go(f.arg(0), not pos), go(f.arg(1), pos)
            return z3.Or(a, b) if pos else z3.And(a, b)
        if z3.is_quantifier(f):
            n = f.num_vars()
            if f.is_forall() == pos:
                p = z3.FreshBool("qp")
                proxies.append((p, f, pos))
                return p
            cs = [z3.FreshConst(f.var_sort(i), "qw") for i in range(n)]
            fresh_terms.extend(c for c in cs if c.sort() == z3.IntSort())
            return go(z3.substitute_vars(f.body(), *reversed(cs)), pos)
        if z3.is_eq(f) and z3.is_bool(f.arg(0)):
            a, b = f.children()
            return go(z3.And(z3.Implies(a, b), z3.Implies(b, a)), pos)
        raise ValueError("quantifier position")
    base = []
    for h in pc:
        try: base.append(go(h, True))
        except ValueError: pass
    k0 = len(fresh_terms)
    try: ng = go(goal, False)
    except ValueError: return None
    if directed: fresh_terms = fresh_terms[k0:]
    base.append(ng)
    out = list(base)
    seen = set()
    terms = [t for t in index_terms([ng])][:cap]
    for t in fresh_terms:
        if not any(t.eq(u) for u in terms): terms.append(t)
    more = [] if directed else [t for t in index_terms([h for h in base[-14:] if not has_quant(h)]) if not any(t.eq(u) for u in terms)]
    terms += more[:max(0, cap - len(terms)) + 4]
    sh = [t for t in shift_terms([q for _, q, _ in proxies], terms) if not any(t.eq(u) for u in terms)]
    terms = terms[:2] + sh + terms[2:]
    import itertools
    for r in range(rounds):
        done_terms = len(fresh_terms)
        k = 0
        while k < len(proxies):
            p, q, pos = proxies[k]
            k += 1
            n = q.num_vars()
            if any(q.var_sort(i) != z3.IntSort() for i in range(n)): continue
            tt = terms if n == 1 else terms[:8] if n == 2 else terms[:4]
            for combo in itertools.product(tt, repeat=n):
                key = (p.get_id(), tuple(t.get_id() for t in combo))
                if key in seen: continue
                seen.add(key)
                b = z3.simplify(z3.substitute_vars(q.body(), *reversed(combo)))
                if z3.is_true(b) if pos else z3.is_false(b): continue
                try: out.append(z3.Implies(p, go(b, pos)))
                except ValueError: continue
                if len(out) > limit: return out
        new = fresh_terms[done_terms:]
        if not new: break
        terms = terms + new[:24]
    return out


def _atoms_int(c):
    """integer comparisons a condition is built from"""
    if z3.is_and(c) or z3.is_or(c) or z3.is_not(c): return [a for d in c.children() for a in _atoms_int(d)]
    if z3.is_app(c) and c.num_args() == 2 and all(x.sort() == z3.IntSort() for x in c.children()) and not z3.is_quantifier(c): return [c]
    return []


def case_split(hyps, goal, depth=0, budget=1.0):
    """equality goal: decide the integer conditions of all if-then-elses, then algebra"""
    qf = [h for h in hyps if not has_quant(h)]
    conds = []
    for e in [goal] + qf:
        for c0 in goal_ites(e):
            for c in _atoms_int(c0):
                if not any(c.eq(d) for d in conds): conds.append(c)
    ints = [h for h in qf if not _mentions_real(h)]
    for c in conds:
        for v, lit in ((True, c), (False, z3.Not(c))):
            r, _ = z3_try(ints, lit, 300)
            if r == z3.unsat:
                bv = z3.BoolVal(v)
                return case_split([_ite_simp(z3.substitute(h, (c, bv))) for h in qf if not h.eq(lit)] + [lit], _ite_simp(z3.substitute(goal, (c, bv))), depth, budget)
    if conds and depth < 6:
        c = conds[0]
        for v, lit in ((True, c), (False, z3.Not(c))):
            bv = z3.BoolVal(v)
            if not case_split([_ite_simp(z3.substitute(h, (c, bv))) for h in qf] + [lit], _ite_simp(z3.substitute(goal, (c, bv))), depth + 1, budget): return False
        return True
    if z3_try(ints, z3.BoolVal(False), 300)[0] == z3.unsat: return True
    # resolve integer equalities
    for _ in range(6):
        for h in qf:
            if z3.is_eq(h) and h.arg(0).sort() == z3.IntSort():
                a, b = h.arg(0), h.arg(1)
                if z3.is_const(b) and not z3.is_int_value(b): a, b = b, a
                if z3.is_const(a) and not z3.is_int_value(a) and a.get_id() not in consts_of(b, {}):
                    qf = [z3.substitute(x, (a, b)) for x in qf if not x.eq(h)]
                    goal = z3.substitute(goal, (a, b))
                    break
        else: break
    if depth < 12:
        q2 = [_ite_simp(z3.simplify(h)) for h in qf]
        g2 = _ite_simp(z3.simplify(goal))
        if any(_atoms_int(c) for e in [g2] + q2 for c in goal_ites(e)): return case_split(q2, g2, max(depth + 1, 6) if not conds else depth + 1, budget)
    # implications whose integer antecedent is decided
    ints = [h for h in qf if not _mentions_real(h)]
    out = []
    for h in qf:
        if z3.is_implies(h) and not _mentions_real(h.arg(0)):
            if z3_try(ints, h.arg(0), 300)[0] == z3.unsat: out += _conjs(h.arg(1))
        else: out.append(h)
    out = [z3.simplify(h) for h in out]
    goal = z3.simplify(goal)
    if z3.is_true(goal): return True
    if z3_try(out, goal, 500)[0] == z3.unsat: return True
    if not (z3.is_eq(goal) and z3.is_arith(goal.arg(0))): return False
    return bool(algebra(out, goal))


def _mentions_real(h, cache={}):
    k = h.get_id()
    if k in cache and cache[k][0].eq(h): return cache[k][1]
    r = (z3.is_expr(h) and h.sort() == z3.RealSort()) or any(_mentions_real(c) for c in h.children())
    cache[k] = (h, r)
    return r


def goal_ites(g):
    """ground conditions of if-then-else terms in g"""
    seen, out = set(), []

    def walk(e):
        if e.get_id() in seen: return
        seen.add(e.get_id())
        if z3.is_quantifier(e): return
        if z3.is_app(e):
            if e.decl().kind() == z3.Z3_OP_ITE and not z3.is_bool(e):
                if not any(e.arg(0).eq(o) for o in out): out.append(e.arg(0))
            for c in e.children(): walk(c)
    walk(g)
    return out


def solve_one(o, budget=1.0, strategy=None):
    """returns (status, backend, seconds, model-text or None, reason)"""
    t0 = time.time()
    if o.goal is True: return ("proved", "trivial", 0.0, None, "")
    pc = list(o.pc)
    if o.goal is False:
        goal = z3.BoolVal(False)
    else:
        goal = o.goal
    for h in pc:
        if h.eq(goal): return ("proved", "z3-simplify", time.time() - t0, None, "")
    backs = set()
    model = None
    for extra, g in (expand_goal(goal)):
        r = _solve_atom(pc + extra, g, budget, strategy)
        if r[0] != "proved":
            return (r[0], r[1], time.time() - t0, r[2], r[3])
        backs.add(r[1])
    return ("proved", "+".join(sorted(backs)), time.time() - t0, None, "")


LIMIT = {"opaque": 10, "z3q": 0.5, "z3": 4, "z3long": 34, "alg": 12, "z3rel": 9, "nlsat": 11, "z3nl": 10, "inst": 9, "inst2": 12, "sub": 14, "inst3": 18, "instd": 12, "cases": 42, "ematch": 18, "cvc5": 15}


def _solve_atom(pc, goal, budget, strategy, depth=0):
    """try the back ends in order, each in a child process that is killed when it overruns"""
    g0 = z3.simplify(goal)
    if z3.is_true(g0): return ("proved", "z3-simplify", None, "")
    for h in pc:
        if h.eq(goal): return ("proved", "z3-simplify", None, "")
    iseq = z3.is_eq(goal) and z3.is_arith(goal.arg(0)) and goal.arg(0).sort() == z3.RealSort()
    quant = any(has_quant(h) for h in pc) or bool(sum_apps([goal]))
    order = strategy or (["z3q", "alg", "z3", "nlsat", "z3rel", "z3nl", "cvc5", "z3long"] if iseq else ["z3", "z3rel", "nlsat", "z3nl", "alg", "cvc5", "z3long"])
    if not strategy and quant:
        order = ["z3q", "inst", "sub", "instd", "inst2", "inst3", "opaque"] + [b for b in order if b != "z3q"]
        if iseq: order.insert(order.index("z3rel") if "z3rel" in order else len(order), "cases")
    if depth < 4 and not strategy and quant:
        sc = _store_read(goal)
        if sc is not None:
            r = _run_order(["z3q", "inst", "sub"], pc, goal, budget, iseq)
            if r[0] == "proved": return r
            t, i = sc
            backs = set()
            # the read index equals the written one, or it does not
            for hs, g in (([z3.substitute(h, (t, i)) for h in pc], _read_simp(z3.substitute(goal, (t, i)), i, i, True)),
                          ([h for h in pc] + [t != i], _read_simp(goal, t, i, False))):
                r = _solve_atom(hs, g, budget, strategy, depth + 1)
                if r[0] != "proved": return r
                backs.add(r[1])
            return ("proved", "+".join(sorted(backs)), None, "")
    if depth < 3 and not strategy:
        cs = goal_ites(goal) if z3.is_arith(goal.arg(0) if z3.is_app(goal) and goal.num_args() else goal) else []
        if cs:
            r = _run_order(["z3q"] + (["inst"] if quant else []), pc, goal, budget, iseq)
            if r[0] == "proved": return r
            c = cs[0]
            backs = set()
            for v, cond in ((z3.BoolVal(True), c), (z3.BoolVal(False), z3.Not(c))):
                sub = lambda e: z3.substitute(e, (c, v))
                hs = [h if has_quant(h) else sub(h) for h in pc] + _conjs(z3.simplify(cond) if z3.is_not(cond) else cond)
                r = _solve_atom(hs, z3.simplify(sub(goal)) if False else _ite_simp(sub(goal)), budget, strategy, depth + 1)
                if r[0] != "proved": return r
                backs.add(r[1])
            return ("proved", "+".join(sorted(backs)), None, "")
    return _run_order(order, pc, goal, budget, iseq)


def _store_read(g):
    """(index read, index written) of a read of an updated array in the goal, at a skolem constant"""
    seen = set()
    found = []

    def walk(e):
        if e.get_id() in seen or found: return
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            walk(e.body())
            return
        if z3.is_select(e) and e.num_args() == 2 and z3.is_store(e.arg(0)) and e.arg(0).num_args() == 3:
            t, i = e.arg(1), e.arg(0).arg(1)
            if not _has_var(e) and z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and not t.eq(i) and not z3.is_int_value(t):
                found.append((t, i))
                return
        for c in e.children(): walk(c)
    walk(g)
    return found[0] if found else None


def _read_simp(e, t, i, same):
    """resolve reads at t of arrays written at i"""
    cache = {}

    def go(e):
        k = e.get_id()
        if k in cache: return cache[k]
        r = e
        if z3.is_quantifier(e):
            inner = {}

            def reads(x):
                if x.get_id() in inner: return
                inner[x.get_id()] = None
                if z3.is_quantifier(x): return reads(x.body())
                if z3.is_select(x) and x.num_args() == 2 and x.arg(1).eq(t) and z3.is_store(x.arg(0)) and not _has_var(x): inner[x.get_id()] = x
                else:
                    for c in x.children(): reads(c)
            reads(e.body())
            sub = [(x, go(x)) for x in inner.values() if x is not None]
            if sub: r = z3.substitute(e, *sub)
        elif z3.is_app(e) and e.num_args():
            ch = [go(c) for c in e.children()]
            if z3.is_select(e) and len(ch) == 2 and z3.is_store(ch[0]) and ch[0].num_args() == 3 and ch[1].eq(t) and ch[0].arg(1).eq(i):
                r = ch[0].arg(2) if same else go(z3.Select(ch[0].arg(0), t))
            elif any(not a.eq(b) for a, b in zip(ch, e.children())): r = _rebuild(e, ch)
        cache[k] = r
        return r
    return go(e)


def _ite_simp(e):
    """resolve if-then-else with literal conditions"""
    cache = {}

    def go(e):
        k = e.get_id()
        if k in cache: return cache[k]
        r = e
        if z3.is_app(e) and e.num_args():
            if e.decl().kind() == z3.Z3_OP_ITE:
                c = z3.simplify(e.arg(0))
                if z3.is_true(c): r = go(e.arg(1))
                elif z3.is_false(c): r = go(e.arg(2))
                else: r = z3.If(e.arg(0), go(e.arg(1)), go(e.arg(2)))
            else:
                ch = [go(c) for c in e.children()]
                if any(not a.eq(b) for a, b in zip(ch, e.children())): r = _rebuild(e, ch)
        cache[k] = r
        return r
    return go(e)


def _run_order(order, pc, goal, budget, iseq):
    i = 0
    reason = ""
    while i < len(order):
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(rd)
                for k in range(i, len(order)):
                    os.write(wr, ("S %d\n" % k).encode())
                    r = _attempt(order[k], pc, goal, budget, iseq)
                    if isinstance(r, tuple):
                        os.write(wr, ("R " + json.dumps(r) + "\n").encode())
                        break
                    if r: reason = r
                else:
                    os.write(wr, ("R " + json.dumps(("unknown", "all", None, str(reason or "not proved")[:300])) + "\n").encode())
            except BaseException as e:
                try: os.write(wr, ("E %r\n" % e).encode()[:2000])
                except BaseException: pass
            finally:
                os._exit(0)
        os.close(wr)
        buf = b""
        res = None
        cur, t0 = i, time.time()
        try:
            while True:
                lim = LIMIT.get(order[cur], 8) * max(budget, 0.5) * 1.3 + 1
                left = t0 + lim - time.time()
                if left <= 0: break
                rl, _, _ = select.select([rd], [], [], left)
                if not rl: break
                d = os.read(rd, 65536)
                if not d: break
                buf += d
                while b"\n" in buf:
                    ln, buf = buf.split(b"\n", 1)
                    ln = ln.decode(errors="replace")
                    if ln.startswith("S "): cur, t0 = int(ln[2:]), time.time()
                    elif ln.startswith("R "): res = tuple(json.loads(ln[2:]))
                    elif ln.startswith("E "): reason = ln[2:300]
                if res: break
        finally:
            os.close(rd)
            try: os.kill(pid, signal.SIGKILL)
            except OSError: pass
            os.waitpid(pid, 0)
        if res: return res
        i = cur + 1
    return ("unknown", "all", None, reason or "not proved")


def _attempt(b, pc, goal, budget, iseq):
    """one back end; returns a verdict tuple, or a reason string / None"""
    if os.environ.get("OPTVC_TRACE"): print("      try", b, round(time.time() % 1000, 1), flush=True)
    ax = add_axioms(pc, goal)
    hyps = pc + ax
    quant = any(has_quant(h) for h in hyps) or has_quant(goal)
    try:
        if b == "alg":
            if not iseq: return None
            if with_alarm(8 * budget, algebra, pc, goal): return ("proved", "poly-normal-form", None, "")
        elif b in ("z3q", "z3", "z3long"):
            ms = {"z3q": 300, "z3": 2500, "z3long": 30000}[b] * budget
            r, s = z3_try(hyps, goal, ms)
            if r == z3.unsat: return ("proved", "z3", None, "")
            if r == z3.sat:
                if sum_apps([goal] + [h for h in pc]): return "z3: model of the once-unfolded sums"
                return ("refuted", "z3", _model_text(s.model()), "z3: counter-model")
            return "z3: " + s.reason_unknown()
        elif b == "opaque":
            o = opaque(pc + [goal])
            if o is None: return None
            h2, g2 = o[:-1], o[-1]
            h2 = h2 + add_axioms(h2, g2)
            r, s = z3_try(h2, g2, 3500 * budget)
            if r == z3.unsat: return ("proved", "z3", None, "")
            inst = instantiate(o[:-1], g2)
            r, s = z3_try(inst + add_axioms(inst, g2), g2, 3500 * budget)
            if r == z3.unsat: return ("proved", "z3-inst", None, "")
        elif b == "inst":
            inst = instantiate(pc, goal)
            h2 = inst + add_axioms(inst, goal)
            r, s = z3_try(h2, goal, 2500 * budget)
            if r == z3.unsat: return ("proved", "z3-inst", None, "")
            if iseq and with_alarm(5 * budget, algebra, [h for h in h2 if not has_quant(h)], goal): return ("proved", "poly-normal-form", None, "")
        elif b in ("inst2", "sub", "inst3", "instd"):
            if b == "sub":
                less = same_arrays(pc, goal)
                if len(less) == len(pc): return None
                r, s = z3_try(less + add_axioms(less, goal), goal, 2500 * budget)
                if r == z3.unsat: return ("proved", "z3", None, "")
                pc = less
            h2 = instantiate2(pc, goal, cap=8, limit=9000) if b == "inst3" else instantiate2(pc, goal, rounds=4, cap=5, limit=4000, directed=True) if b == "instd" else instantiate2(pc, goal)
            if h2 is None: return None
            h2 = h2 + sum_axioms([h for h in h2 if not has_quant(h)], z3.BoolVal(False)) + perm_axioms(pc, goal)
            h2 = h2 + _add_axioms(h2, z3.BoolVal(False))
            r, s = z3_try(h2, z3.BoolVal(False), 6000 * budget)
            if r == z3.unsat: return ("proved", "z3-inst", None, "")
        elif b == "cases":
            q0 = [h for h in pc if not has_quant(h)]
            try:
                if with_alarm(12 * budget, case_split, q0 + add_axioms(q0, goal), goal): return ("proved", "case-split+poly-normal-form", None, "")
            except (_Alarm, z3.Z3Exception):
                pass
            inst = instantiate(pc, goal)
            if with_alarm(28 * budget, case_split, inst + add_axioms(inst, goal), goal): return ("proved", "case-split+poly-normal-form", None, "")
        elif b == "z3rel":
            for k in (1, 2):
                rel = relevant(pc, goal, k)
                r, s = z3_try(rel + add_axioms(rel, goal), goal, 2500 * budget)
                if r == z3.unsat: return ("proved", "z3", None, "")
        elif b == "nlsat":
            qf = [h for h in hyps if not has_quant(h)]
            if has_quant(goal): return None
            try:
                fs, _ = purify(qf + [z3.Not(goal)])
            except ValueError:
                return None
            s = z3.Then(z3.Tactic("simplify"), z3.Tactic("propagate-values"), z3.Tactic("solve-eqs"), z3.Tactic("purify-arith"), z3.Tactic("elim-term-ite"), z3.Tactic("solve-eqs"), z3.Tactic("qfnra-nlsat")).solver()
            s.set("timeout", int(8000 * budget))
            for f in fs: s.add(f)
            if s.check() == z3.unsat: return ("proved", "z3-nlsat", None, "")
        elif b == "z3nl":
            r, s = z3_try(hyps, goal, 6000 * budget, opts={"smt.arith.solver": 2, "smt.mbqi": False} if quant else {"smt.arith.solver": 2})
            if r == z3.unsat: return ("proved", "z3", None, "")
        elif b == "ematch":
            r, s = z3_try(hyps, goal, 15000 * budget, opts={"smt.mbqi": False, "smt.auto_config": False})
            if r == z3.unsat: return ("proved", "z3", None, "")
        elif b == "cvc5":
            r = cvc5_try(hyps, goal, 8000 * budget)
            if r == "unsat": return ("proved", "cvc5", None, "")
    except z3.Z3Exception as e:
        return "z3 exception %s" % e
    return None


def _model_text(m):
    out = {}
    for d in m.decls():
        if d.arity() == 0:
            try:
                out[d.name()] = str(m[d])[:400]
            except Exception:
                pass
    return out


# ------------------------------------------------------------------- parallel
_JOBS = None


def _job(i):
    o, budget, strat = _JOBS[i]
    try:
        return i, solve_one(o, budget, strat)
    except Exception as e:
        return i, ("unknown", "error", 0.0, None, "solver error: %r" % e)


def solve_all(obls, budget=1.0, strategy=None, procs=8, stop_on_fail=None):
    global _JOBS
    todo = []
    for o in obls:
        if o.goal is True:
            o.status, o.backend, o.time = "proved", "trivial", 0.0
        else:
            todo.append(o)
    _JOBS = [(o, budget, strategy) for o in todo]
    if not todo: return
    if procs <= 1 or len(todo) == 1:
        res = map(_job, range(len(todo)))
        for i, r in res: _apply(todo[i], r)
        return
    ctx = mp.get_context("fork")
    with ctx.Pool(min(procs, len(todo))) as p:
        for i, r in p.imap_unordered(_job, range(len(todo)), chunksize=1 if len(todo) < 200 else 4):
            _apply(todo[i], r)


def _apply(o, r):
    o.status, o.backend, o.time, o.model, o.reason = r


def check_covers(covers, ms=1500):
    """vacuity guard: each recorded point must not be provably unreachable"""
    res = []
    for nm, pc in covers:
        s = z3.Solver()
        s.set("timeout", ms)
        for c in pc: s.add(c)
        for a in add_axioms(pc, z3.BoolVal(True)): s.add(a)
        res.append((nm, str(s.check())))
    return res
