"""Concrete side: ctypes marshalling of contract inputs and concrete (three-valued)
evaluation of the same contract clauses the verifier uses."""
import ctypes as C, math, os
from fractions import Fraction
from .cfront import TInt, TReal, TPtr, TArr, TStruct, TVoid
from . import spec as S

LIBC = C.CDLL(None)
LIBC.malloc.restype = C.c_void_p
LIBC.malloc.argtypes = [C.c_size_t]
LIBC.calloc.restype = C.c_void_p
LIBC.calloc.argtypes = [C.c_size_t, C.c_size_t]
LIBC.free.argtypes = [C.c_void_p]

_INTC = {(8, True): C.c_int8, (8, False): C.c_uint8, (16, True): C.c_int16, (16, False): C.c_uint16,
         (32, True): C.c_int32, (32, False): C.c_uint32, (64, True): C.c_int64, (64, False): C.c_uint64}


class CT:
    def __init__(self, prog):
        self.prog, self.cache = prog, {}

    def of(self, t):
        if isinstance(t, TInt): return _INTC[(t.bits, t.signed)]
        if isinstance(t, TReal): return C.c_float if t.name == "float" else C.c_double
        if isinstance(t, TArr): return self.of(t.of) * t.n
        if isinstance(t, TStruct):
            if t.tag not in self.cache:
                cls = type(t.tag, (C.Structure,), {})
                self.cache[t.tag] = cls
                cls._fields_ = [(n, self.of(ft)) for n, ft in self.prog.structs[t.tag]]
            return self.cache[t.tag]
        if isinstance(t, TVoid): return None
        return C.c_void_p


class Marshal:
    """python representation <-> C memory, driven by C types and contract shapes"""

    def __init__(self, prog, ct, shapes):
        self.prog, self.ct, self.shapes = prog, ct, shapes
        self.ctypes = CT(prog)
        self.blocks = []
        self.addr = {}

    def malloc(self, n):
        a = LIBC.malloc(max(n, 1))
        self.blocks.append(a)
        return a

    def free_all(self, keep=()):
        for b in self.blocks:
            if b not in keep: LIBC.free(b)
        self.blocks = []

    def single(self, path, t):
        shp = self.shapes.get(path)
        if isinstance(shp, str): shp = shp.rstrip("?").strip()
        return shp in (None, "", "1", 1) and isinstance(t.to, TStruct)

    def put(self, t, addr, rep, path):
        """write rep of type t at address"""
        if isinstance(t, (TInt, TReal)):
            self.ctypes.of(t).from_address(addr).value = rep if isinstance(t, TInt) else float(rep)
        elif isinstance(t, TStruct):
            cls = self.ctypes.of(t)
            for f, ft in self.prog.structs[t.tag]:
                off = getattr(cls, f).offset
                self.put(ft, addr + off, rep.get(f) if isinstance(rep, dict) else None, path + "." + f) if (isinstance(rep, dict) and f in rep) or isinstance(ft, TPtr) else None
        elif isinstance(t, TArr):
            sz = self.prog.sizeof(t.of)
            for i, x in enumerate(rep): self.put(t.of, addr + i * sz, x, path + "[]")
        elif isinstance(t, TPtr):
            C.c_void_p.from_address(addr).value = self.new(t, rep, path)

    def new(self, t, rep, path):
        """allocate what pointer type t points to; returns address (or None)"""
        if rep is None: return None
        if isinstance(rep, int): return rep           # raw address
        if isinstance(rep, str):
            b = rep.encode() + b"\0"
            cap = max(len(b), 0)
            a = self.malloc(cap)
            C.memmove(a, b, len(b))
            self.addr[path] = (a, len(b))
            return a
        if isinstance(rep, (bytes, bytearray)):
            a = self.malloc(len(rep))
            C.memmove(a, bytes(rep), len(rep))
            return self._reg(path, a, rep)
        to = t.to
        sz = self.prog.sizeof(to)
        if isinstance(rep, dict):
            a = self.malloc(sz)
            C.memset(a, 0xA5 if False else 0, sz)
            self.put(to, a, rep, path)
            return self._reg(path, a, rep)
        a = self.malloc(sz * len(rep))
        C.memset(a, 0, max(sz * len(rep), 1))
        if isinstance(to, TReal) and to.name == "double":
            (C.c_double * len(rep)).from_address(a)[:] = [float(x) for x in rep]
        elif isinstance(to, TInt):
            (self.ctypes.of(to) * len(rep)).from_address(a)[:] = rep
        else:
            for i, x in enumerate(rep): self.put(to, a + i * sz, x, path + "[]")
        return self._reg(path, a, rep)

    def _reg(self, path, a, rep):
        self.addr[id(rep)] = a
        return a

    def get(self, t, addr, rep, path):
        """read back memory of type t shaped like rep"""
        if isinstance(t, (TInt, TReal)):
            return self.ctypes.of(t).from_address(addr).value
        if isinstance(t, TStruct):
            cls = self.ctypes.of(t)
            out = {}
            for f, ft in self.prog.structs[t.tag]:
                off = getattr(cls, f).offset
                if isinstance(ft, TPtr) and not (isinstance(rep, dict) and f in rep):
                    continue
                out[f] = self.get(ft, addr + off, rep.get(f) if isinstance(rep, dict) else None, path + "." + f)
            return out
        if isinstance(t, TArr):
            sz = self.prog.sizeof(t.of)
            return [self.get(t.of, addr + i * sz, rep[i] if isinstance(rep, list) and i < len(rep) else None, path + "[]") for i in range(t.n)]
        if isinstance(t, TPtr):
            a = C.c_void_p.from_address(addr).value
            return self.read(t, a, rep, path)

    def read(self, t, a, rep, path):
        if rep is None or a is None or isinstance(rep, int):
            return None if a is None else ("ptr", a)
        if isinstance(rep, str):
            return C.string_at(a).decode("latin1")
        if isinstance(rep, (bytes, bytearray)):
            return C.string_at(a, len(rep))
        to = t.to
        if isinstance(rep, dict): return self.get(to, a, rep, path)
        sz = self.prog.sizeof(to)
        if isinstance(to, (TReal, TInt)):
            return list((self.ctypes.of(to) * len(rep)).from_address(a))
        return [self.get(to, a + i * sz, rep[i], path + "[]") for i in range(len(rep))]


# ------------------------------------------------------- three-valued evaluation
class _Unk:
    def __repr__(self): return "?"


UNK = _Unk()


class SpecRange(Exception):
    pass


class CV:
    """concrete pointer/struct view: path into the representation of the current state"""
    __slots__ = ("_e", "_root", "_path", "_off")

    def __init__(self, e, root, path, off=0): self._e, self._root, self._path, self._off = e, root, path, off

    def _node(self):
        n = self._e.reps[self._e.cur][self._root]
        for p in self._path:
            n = n[p]
        return n

    def _wrap(self, path):
        n = self._e.reps[self._e.cur][self._root]
        for p in path:
            if isinstance(n, (list, bytes)) and isinstance(p, int) and not 0 <= p < len(n):
                raise SpecRange("index %s out of range" % p)
            n = n[p]
        if isinstance(n, (dict, list, bytes, str)) or n is None: return CV(self._e, self._root, path)
        return n

    def __getitem__(self, i):
        n = self._node()
        i = int(i) + self._off
        if isinstance(n, dict):
            if i != 0: raise SpecRange("index of single object")
            return CV(self._e, self._root, self._path)
        if not 0 <= i < len(n): raise SpecRange("index %d of %d" % (i, len(n)))
        return self._wrap(self._path + (i,))

    def __getattr__(self, f):
        if f.startswith("__"): raise AttributeError(f)
        n = self._node()
        if isinstance(n, list): return self._wrap(self._path + (self._off, f))
        return self._wrap(self._path + (f,))

    def __len__(self): return len(self._node())


class CEnv:
    symbolic = False
    pre_mode = False       # evaluating a precondition: equality up to the tolerance counts as true

    def __init__(self, prog, pre, post, result=None, tol=1e-9, extra=None):
        self.prog = prog
        self.reps = {"pre": pre, "post": post}
        self.cur = "post"
        self.result, self.tol = result, tol
        self.extra = extra or {}
        self.scalars_pre = True
        self.mod_env = self

    def eval(self, s, state="post"):
        self.cur = state
        return eval(S.compile_spec(s), {"__builtins__": {}, "__c": self}, {})

    def lookup(self, k):
        if k == "result":
            if isinstance(self.result, (dict, list)):
                self.reps["post"]["__result"] = self.result
                self.reps["pre"].setdefault("__result", self.result)
                return CV(self, "__result", ())
            return self.result
        if k in self.extra: return self.extra[k]
        if k in self.reps[self.cur]:
            v = self.reps["pre"][k]       # formals denote entry values
            if isinstance(v, (dict, list, bytes, str)) or v is None: return CV(self, k, ())
            return v
        if k in S.BUILTIN:
            f = CB.get(k) or S.BUILTIN[k]
            return lambda *a: f(self, *a)
        if k in S.SPECFUNS:
            f = S.SPECFUNS[k]
            if isinstance(f, tuple):
                return eval(S.compile_spec(f[1]), {"__builtins__": {}, "__c": self}, {})
            return lambda *a: f(self, *a)
        if k in self.prog.enums: return self.prog.enums[k]
        if k in S.CONSTS: return S.CONSTS[k]
        if k.endswith("_") and k[:-1] in self.reps["pre"]: return self.lookup(k[:-1])
        raise NameError(k)

    # arithmetic
    def _ar(self, f, a, b):
        if a is UNK or b is UNK: return UNK
        try:
            return f(a, b)
        except (ZeroDivisionError, OverflowError):
            return UNK

    def add(self, a, b):
        if isinstance(a, CV): return CV(self, a._root, a._path, a._off + int(b))
        return self._ar(lambda x, y: x + y, a, b)

    def sub(self, a, b): return self._ar(lambda x, y: x - y, a, b)
    def mul(self, a, b): return self._ar(lambda x, y: x * y, a, b)
    def div(self, a, b): return self._ar(lambda x, y: x / y, a, b)
    def idiv(self, a, b): return self._ar(lambda x, y: x // y, a, b)
    def mod(self, a, b): return self._ar(lambda x, y: x % y, a, b)
    def pow(self, a, b): return self._ar(lambda x, y: x ** y, a, b)
    def neg(self, a): return UNK if a is UNK else -a

    def cmp(self, op, a, b):
        if isinstance(a, CV) or isinstance(b, CV):
            raise NameError("pointer comparison in concrete evaluation")
        if a is UNK or b is UNK: return UNK
        if isinstance(a, (bool, int)) and isinstance(b, (bool, int)):
            return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[op]
        if a != a or b != b:
            # NaN observed: equality with a real spec value is definitely false
            if a != a and b != b: return UNK
            return {"==": False, "!=": True}.get(op, False)
        if self.pre_mode and a == b and op in ("==", "<=", ">="): return True
        if self.tol:
            if math.isinf(a) or math.isinf(b):
                d = a != b
                if not d: return UNK
            elif abs(a - b) <= self.tol * (1 + max(abs(a), abs(b))):
                return True if self.pre_mode and op == "==" else UNK
        return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[op]

    # Kleene logic
    def tb(self, v):
        if v is UNK: return UNK
        return bool(v)

    def and_(self, *fs):
        u = False
        for f in fs:
            v = self.tb(f())
            if v is False: return False
            if v is UNK: u = True
        return UNK if u else True

    def or_(self, *fs):
        u = False
        for f in fs:
            v = self.tb(f())
            if v is True: return True
            if v is UNK: u = True
        return UNK if u else False

    def not_(self, a):
        a = self.tb(a)
        return UNK if a is UNK else not a

    def imp(self, a, f):
        a = self.tb(a)
        if a is False: return True
        v = self.tb(f())
        if v is True: return True
        return UNK if a is UNK or v is UNK else False

    def ite(self, c, a, b):
        c = self.tb(c)
        if c is True: return a()
        if c is False: return b()
        x, y = a(), b()
        if x is UNK or y is UNK: return UNK
        if isinstance(x, bool) or isinstance(y, bool): return x if x == y else UNK
        r = self.cmp("==", x, y)
        return x if r is not False else UNK

    def old(self, f):
        sv, self.cur = self.cur, "pre"
        try: return f()
        finally: self.cur = sv

    def pre(self, f): return self.old(f)


def c_forall(e, lo, hi, f):
    if lo is UNK or hi is UNK: return UNK
    return e.and_(*[(lambda i=i: f(i)) for i in range(int(lo), int(hi))])


def c_exists(e, lo, hi, f):
    if lo is UNK or hi is UNK: return UNK
    return e.or_(*[(lambda i=i: f(i)) for i in range(int(lo), int(hi))])


def c_sum(e, lo, hi, f):
    if lo is UNK or hi is UNK: return UNK
    s = 0
    for i in range(int(lo), int(hi)): s = e.add(s, f(i))
    return s


def c_count(e, lo, hi, f):
    if lo is UNK or hi is UNK: return UNK
    n = 0
    for i in range(int(lo), int(hi)):
        v = e.tb(f(i))
        if v is UNK: return UNK
        n += v
    return n


def c_iff(e, a, b):
    a, b = e.tb(a), e.tb(b)
    if a is UNK or b is UNK: return UNK
    return a == b


def _m(fn):
    def g(e, *a):
        if any(x is UNK for x in a): return UNK
        try:
            return fn(*[float(x) for x in a])
        except (ValueError, OverflowError):
            return UNK
    return g


def c_minmax(fn):
    def g(e, *a):
        if any(x is UNK for x in a): return UNK
        return fn(a)
    return g


def c_trunc(e, x):
    if x is UNK or x != x or abs(x) > 1e15: return UNK
    if e.tol and abs(x - round(x)) < 1e-7 and x != int(x): return UNK
    return int(x)


def c_floor(e, x):
    if x is UNK or x != x or abs(x) > 1e15: return UNK
    if e.tol and abs(x - round(x)) < 1e-7 and x != int(x): return UNK
    return math.floor(x)


def c_isnull(e, p): return p._node() is None
def c_near(e, a, b, eps):
    if a is UNK or b is UNK: return UNK
    return abs(a - b) <= eps * (1 + 1e-6) + 1e-12


CB = {"wit": lambda e, name, sort="real": UNK, "forall": c_forall, "exists": c_exists, "sum_": c_sum, "count": c_count, "ncount": c_count, "iff": c_iff,
      "abs": lambda e, x: UNK if x is UNK else abs(x), "min": c_minmax(min), "max": c_minmax(max),
      "trunc": c_trunc, "floor": c_floor, "real": lambda e, x: x if x is UNK else float(x),
      "isnull": c_isnull, "near": c_near, "boolint": lambda e, a: UNK if a is UNK else int(bool(a)),
      "exact": lambda e, a, b: UNK if a is UNK or b is UNK else a == b,
      "cdiv": lambda e, a, b: UNK if a is UNK or b is UNK else int(a / b) if isinstance(a, float) else (abs(a) // abs(b)) * (1 if (a >= 0) == (b >= 0) else -1),
      "sqrt": _m(math.sqrt), "sin": _m(math.sin), "cos": _m(math.cos), "tan": _m(math.tan), "atan": _m(math.atan),
      "acos": _m(math.acos), "asin": _m(math.asin), "atan2": _m(math.atan2), "pow_": _m(math.pow)}
