"""Term layer: constant folding over python ints / Fractions / bools and z3 terms."""
from fractions import Fraction
import z3

I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()


def is_sym(v): return isinstance(v, z3.ExprRef)
def is_conc(v): return isinstance(v, (int, Fraction, bool)) and not is_sym(v)


def z(v):
    """python value -> z3 term"""
    if isinstance(v, bool): return z3.BoolVal(v)
    if isinstance(v, int): return z3.IntVal(v)
    if isinstance(v, Fraction): return z3.RealVal(str(v.numerator)) if v.denominator == 1 else z3.Q(v.numerator, v.denominator)
    if isinstance(v, float): return z(Fraction(v))
    return v


def is_bool(v): return isinstance(v, bool) or (is_sym(v) and z3.is_bool(v))
def is_int(v): return (isinstance(v, int) and not isinstance(v, bool)) or (is_sym(v) and z3.is_int(v))
def is_real(v): return isinstance(v, Fraction) or (is_sym(v) and z3.is_real(v))


def unz(t):
    """fold numerals back"""
    if is_sym(t):
        if z3.is_int_value(t): return t.as_long()
        if z3.is_rational_value(t): return Fraction(t.numerator_as_long(), t.denominator_as_long())
        if z3.is_true(t): return True
        if z3.is_false(t): return False
    return t


def to_bool(v):
    if isinstance(v, bool): return v
    if isinstance(v, (int, Fraction)): return v != 0
    if z3.is_bool(v): return v
    # If(c,1,0) != 0  -> c
    if z3.is_app_of(v, z3.Z3_OP_ITE):
        a, b = unz(v.arg(1)), unz(v.arg(2))
        if a == 1 and b == 0: return v.arg(0)
        if a == 0 and b == 1: return Not(v.arg(0))
    return v != 0


def to_int(v):
    if isinstance(v, bool): return int(v)
    if isinstance(v, int): return v
    if is_sym(v) and z3.is_bool(v): return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    return v


def to_real(v):
    if isinstance(v, bool): return Fraction(int(v))
    if isinstance(v, int): return Fraction(v)
    if isinstance(v, float): return Fraction(v)
    if isinstance(v, Fraction): return v
    if z3.is_bool(v): return z3.If(v, z3.RealVal(1), z3.RealVal(0))
    if z3.is_int(v):
        return z3.ToReal(v)
    return v


def num(v):
    return to_int(v) if is_bool(v) else v


def _pair(a, b):
    a, b = num(a), num(b)
    if is_real(a) or is_real(b):
        a, b = to_real(a), to_real(b)
    return a, b


def add(a, b):
    a, b = _pair(a, b)
    if is_conc(a) and is_conc(b): return a + b
    if is_conc(a) and a == 0: return b
    if is_conc(b) and b == 0: return a
    return z(a) + z(b)


def sub(a, b):
    a, b = _pair(a, b)
    if is_conc(a) and is_conc(b): return a - b
    if is_conc(b) and b == 0: return a
    if is_sym(a) and is_sym(b) and a.eq(b): return 0 if is_int(a) else Fraction(0)
    return z(a) - z(b)


def mul(a, b):
    a, b = _pair(a, b)
    if is_conc(a) and is_conc(b): return a * b
    if is_conc(a):
        if a == 0: return a
        if a == 1: return b
    if is_conc(b):
        if b == 0: return b
        if b == 1: return a
    return z(a) * z(b)


def neg(a):
    a = num(a)
    if is_conc(a): return -a
    return -a


def rdiv(a, b):
    a, b = to_real(a), to_real(b)
    if is_conc(b) and b != 0:
        if is_conc(a): return a / b
        return mul(a, 1 / b)
    return z(a) / z(b)


def idiv_trunc(a, b):
    a, b = num(a), num(b)
    if is_conc(a) and is_conc(b):
        q = abs(a) // abs(b)
        return q if (a >= 0) == (b >= 0) else -q
    za, zb = z(a), z(b)
    if is_conc(b) and b > 0:
        if b == 1: return a
        return z3.If(za >= 0, za / zb, -((-za) / zb))
    return z3.If(za >= 0, z3.If(zb > 0, za / zb, -(za / -zb)),
                 z3.If(zb > 0, -((-za) / zb), (-za) / (-zb)))


def imod_trunc(a, b):
    a, b = num(a), num(b)
    return sub(a, mul(idiv_trunc(a, b), b))


def cmp(op, a, b):
    if isinstance(a, bool) and is_sym(b) and z3.is_bool(b) or isinstance(b, bool) and is_sym(a) and z3.is_bool(a) \
            or (is_sym(a) and is_sym(b) and z3.is_bool(a) and z3.is_bool(b)):
        if op in ("==", "!="):
            t = z(a) == z(b)
            return t if op == "==" else Not(t)
    if not (isinstance(a, (int, Fraction, bool)) or is_sym(a)) or not (isinstance(b, (int, Fraction, bool)) or is_sym(b)):
        raise TypeError("cmp %s %r %r" % (op, a, b))
    if is_sym(a) and a.sort().kind() not in (z3.Z3_INT_SORT, z3.Z3_REAL_SORT, z3.Z3_BOOL_SORT):
        t = a == b
        return t if op == "==" else Not(t)
    a, b = _pair(a, b)
    if is_conc(a) and is_conc(b):
        return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[op]
    if is_sym(a) and is_sym(b) and a.eq(b):
        return op in ("<=", ">=", "==")
    a, b = z(a), z(b)
    if op == "<": return a < b
    if op == "<=": return a <= b
    if op == ">": return a > b
    if op == ">=": return a >= b
    if op == "==": return a == b
    return a != b


def Not(a):
    if isinstance(a, bool): return not a
    if z3.is_not(a): return a.arg(0)
    return z3.Not(a)


def And(*xs):
    out = []
    for x in xs:
        if isinstance(x, bool):
            if not x: return False
            continue
        out.append(x)
    if not out: return True
    if len(out) == 1: return out[0]
    return z3.And(*out)


def Or(*xs):
    out = []
    for x in xs:
        if isinstance(x, bool):
            if x: return True
            continue
        out.append(x)
    if not out: return False
    if len(out) == 1: return out[0]
    return z3.Or(*out)


def Implies(a, b):
    if isinstance(a, bool): return b if a else True
    if isinstance(b, bool): return True if b else Not(a)
    return z3.Implies(a, b)


def Ite(c, a, b):
    if isinstance(c, bool): return a if c else b
    if a is b: return a
    if is_bool(a) and is_bool(b):
        if is_conc(a) and is_conc(b) and a == b: return a
        return z3.If(c, z(a), z(b))
    if is_sym(a) and not (z3.is_arith(a) or z3.is_bool(a)):
        if a.eq(b): return a
        return z3.If(c, a, b)
    a, b = _pair(a, b)
    if is_conc(a) and is_conc(b) and a == b: return a
    if is_sym(a) and is_sym(b) and a.eq(b): return a
    return z3.If(c, z(a), z(b))


def trunc(x):
    """C conversion double -> int (mathematical truncation)."""
    if isinstance(x, int): return x
    if isinstance(x, Fraction):
        return int(x)
    if z3.is_int(x): return x
    # ToReal(i) -> i
    if z3.is_app_of(x, z3.Z3_OP_TO_REAL): return x.arg(0)
    return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))


def floor_(x):
    if isinstance(x, int): return x
    if isinstance(x, Fraction): return x.numerator // x.denominator
    if z3.is_int(x): return x
    if z3.is_app_of(x, z3.Z3_OP_TO_REAL): return x.arg(0)
    return z3.ToInt(x)


def wrap_int(v, t):
    """conversion of a mathematical integer to integer type t (TInt)"""
    v = to_int(v)
    if is_conc(v):
        v &= (1 << t.bits) - 1
        if t.signed and v >> (t.bits - 1): v -= 1 << t.bits
        return v
    m = 1 << t.bits
    if t.signed:
        return z3.If(z3.And(v >= t.lo, v <= t.hi), v, (v + (m >> 1)) % m - (m >> 1))
    return z3.If(z3.And(v >= 0, v < m), v, v % m)


UF = {n: z3.Function("f_" + n, R, R) for n in
      ("sqrt", "sin", "cos", "tan", "atan", "acos", "asin", "exp", "log")}
UF["atan2"] = z3.Function("f_atan2", R, R, R)
UF["pow"] = z3.Function("f_pow", R, R, R)
