"""VC generator: path-wise symbolic execution of the clang AST of one function,
modular in its callees (contracts), with invariants cutting every loop that is
not a concrete-bound loop.  See DESIGN.md for the memory model."""
import itertools, os, time
from fractions import Fraction
import z3
from . import terms as T
from .terms import (add, sub, mul, neg, rdiv, cmp, And, Or, Not, Implies, Ite, to_bool, to_int,
                    to_real, is_conc, is_sym, z, unz)
from .cfront import (TInt, TReal, TPtr, TArr, TStruct, TVoid, TFunc, FrontError, T_INT, T_DBL)

EXPAND = 64


class EngineError(Exception):
    """the verifier cannot process this construct (tool limit, not a defect)"""


class PathEnd(Exception):
    pass


class BreakX(Exception):
    pass


class ContinueX(Exception):
    pass


class ReturnX(Exception):
    def __init__(self, val): self.val = val


class CannotMerge(Exception):
    pass


class Restart(Exception):
    """exploration restarts with one more branch point excluded from merging"""


class Undef:
    """uninitialised (cond False) or only initialised under `cond`"""

    def __init__(self, cond=False, val=None): self.cond, self.val = cond, val
    def __repr__(self): return "Undef"


UNDEF = Undef()


class Region:
    _n = itertools.count()

    def __init__(self, name, etype, ndims=0, lens=(), kind="param"):
        self.name, self.etype, self.ndims, self.lens, self.kind = name, etype, ndims, list(lens), kind
        self.initial = {}
        self.zero = False
        self.shape = {}       # relative pointer-leaf path -> shape
        self.shared_const = None

    def __repr__(self): return "<%s>" % self.name


class Ptr:
    __slots__ = ("region", "steps", "null", "flat", "toff")

    def __init__(self, region, steps, null=False, flat=False):
        self.region, self.steps, self.null, self.flat = region, tuple(steps), null, flat

    def __repr__(self): return "Ptr(%r,%r%s)" % (self.region, self.steps, "" if self.null is False else ",null?%s" % self.null)


NULLP = Ptr(None, (), True)


class FuncRef:
    def __init__(self, name): self.name = name


class StructVal:
    def __init__(self, ctype, leaves): self.ctype, self.leaves = ctype, leaves


class State:
    __slots__ = ("mem", "pc", "freed", "facts", "ghost")

    def __init__(self):
        self.mem, self.pc, self.freed, self.facts, self.ghost = {}, [], {}, set(), {}

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.freed = dict(self.freed)
        s.facts = set(self.facts)
        s.ghost = dict(self.ghost)
        return s

    def assume(self, c):
        c = unz(c) if is_sym(c) else c
        if c is True: return
        if c is False:
            raise PathEnd()
        if z3.is_and(c):
            for a in c.children(): self.assume(a)
            return
        self.pc.append(c)


class Obligation:
    def __init__(self, name, kind, line, pc, goal, func, note=""):
        self.name, self.kind, self.line, self.pc, self.goal, self.func, self.note = name, kind, line, pc, goal, func, note
        self.status = None
        self.backend = None
        self.time = 0.0
        self.model = None


class LocSet:
    """a set of locations: region, key prefix steps, optional ranges"""

    def __init__(self, region, steps, rng=None, whole=False):
        # steps: list of field names / index terms / ('range', lo, hi)
        self.region, self.steps = region, tuple(steps)

    def __repr__(self): return "LocSet(%r,%r)" % (self.region, self.steps)


class Frame:
    def __init__(self, func, depth, callpath):
        self.func, self.vars, self.depth, self.callpath = func, {}, depth, callpath
        self.names = {}


class Engine:
    def __init__(self, prog, contracts, func, contract, alias=(), opts=None):
        self.prog, self.contracts = prog, contracts
        self.fn = prog.funcs[func]
        self.contract = contract
        self.alias = alias
        self.opts = opts or {}
        self.obls = []
        self.axioms = []
        self._seen = set()
        self.fresh_n = 0
        self.record = None            # write recording for loop mod sets
        self.silent = 0
        self.modcache = {}
        self.paths = 0
        self.trail, self.prefix, self.work = [], [], []
        self.marks = {}
        self.unrolling = []
        self.used_contracts, self.inlined, self.externals = set(), set(), set()
        self.notes = set()
        self.covers = []
        self._static_regions = {}
        self.loop_ids = {}
        self._number_loops()
        self.max_paths = contract.max_paths
        self.deadline = None
        self._feas_cache = {}
        self.deffuns = {}
        self.nomerge = set()
        self.freeable = set()
        self.math_apps = {}

    # ------------------------------------------------------------ utilities
    def fresh(self, name, sort):
        self.fresh_n += 1
        return z3.Const("%s!%d" % (name, self.fresh_n), sort)

    def oblige(self, st, goal, kind, line, label):
        if kind == "arith" and self.opts.get("unguarded"): return
        goal = unz(goal) if is_sym(goal) else goal
        if goal is True:
            # still counts as generated+discharged (trivially) -- kept for the books only if labelled
            if not self.silent and len(self.trail) >= len(self.prefix) and kind in ("ensures", "invariant", "requires"):
                self.obls.append(Obligation(label, kind, line, [], True, self.fn.name))
            return
        if not self.silent and len(self.trail) >= len(self.prefix):
            self.obls.append(Obligation(label, kind, line, list(st.pc), goal, self.fn.name))
        # after being obliged, assume it (standard)
        if goal is False:
            raise PathEnd()
        st.assume(goal)

    def feasible(self, st, extra):
        if self.contract.no_feas: return True
        s = z3.SolverFor("QF_NIRA") if False else z3.Solver()
        s.set("timeout", self.contract.feas_ms)
        for c in st.pc:
            if z3.is_quantifier(c) or _has_quant(c): continue
            s.add(c)
        s.add(z(extra))
        return s.check() != z3.unsat

    def choose(self, st, cond):
        """fork on a boolean term; returns python bool and assumes it"""
        cond = unz(cond) if is_sym(cond) else cond
        if isinstance(cond, bool): return cond
        i = len(self.trail)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            if self.deadline and time.time() > self.deadline:
                raise EngineError("path enumeration deadline")
            ft = self.feasible(st, cond)
            ff = self.feasible(st, Not(cond)) if ft else True
            if ft and ff:
                self.work.append(self.trail + [False])
                d = True
            elif ft:
                d = True
            else:
                d = False
        self.trail = self.trail + [d]
        st.assume(cond if d else Not(cond))
        return d

    def choose_free(self, n=2):
        """non-deterministic fork (loop: iterate / exit)"""
        i = len(self.trail)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            self.work.append(self.trail + [False])
            d = True
        self.trail = self.trail + [d]
        return d

    def explore(self, run):
        """run all decision paths of `run` (nested-safe)"""
        saved = (self.trail, self.prefix, self.work)
        self.work = [[]]
        n = 0
        try:
            while self.work:
                self.prefix = self.work.pop()
                self.trail = []
                n += 1
                if n > self.max_paths:
                    raise EngineError("more than %d paths" % self.max_paths)
                try:
                    run()
                except PathEnd:
                    pass
        finally:
            self.trail, self.prefix, self.work = saved
        return n

    # ------------------------------------------------------------ loops ids
    def _number_loops(self):
        """static preorder numbering of non-constant loops, through contract-less helpers"""
        self.loop_order = []
        self._find_cuts()

        def walk(n, path, depth):
            k = n.get("kind")
            if k in ("ForStmt", "WhileStmt", "DoStmt"):
                if not self._const_loop(n) or self.contract.keep_const_loops:
                    self.loop_ids[(path, n["id"])] = len(self.loop_order)
                    self.loop_order.append((path, n["id"], n.get("_line")))
            if k == "CallExpr" and depth < 6:
                cal = _callee_name(n)
                if cal and cal not in self.contracts and cal in self.prog.funcs and cal != self.fn.name:
                    for c in n.get("inner", ()):
                        if c: walk(c, path, depth)
                    walk(self.prog.funcs[cal].body, path + (n["id"],), depth + 1)
                    return
            for c in n.get("inner", ()):
                if c: walk(c, path, depth)
        walk(self.fn.body, (), 0)

    def _const_loop(self, n):
        if n["kind"] != "ForStmt": return False
        init, _, cond, inc, body = (n["inner"] + [None] * 5)[:5]
        if not cond or cond.get("kind") != "BinaryOperator" or cond.get("opcode") not in ("<", "<=", ">", ">="): return False
        r = _strip(cond["inner"][1])
        return r.get("kind") == "IntegerLiteral" and abs(int(r["value"])) <= EXPAND

    # ------------------------------------------------------------- typing
    def type_at(self, region, steps):
        t = region.etype
        for s in steps[region.ndims:]:
            if isinstance(s, str):
                t = self.prog.field_type(t.tag, s)
            else:
                if not isinstance(t, TArr):
                    raise EngineError("index into %r" % t)
                t = t.of
        return t

    def expanded(self, t):
        return t.n is not None and t.n <= EXPAND

    def leaves(self, t):
        """[(relkey, leaftype, [star lens])]"""
        if isinstance(t, TStruct):
            out = []
            for f, ft in self.prog.fields(t.tag):
                for k, lt, st in self.leaves(ft):
                    out.append(((f,) + k, lt, st))
            return out
        if isinstance(t, TArr):
            sub_ = self.leaves(t.of)
            if self.expanded(t):
                return [((i,) + k, lt, st) for i in range(t.n) for k, lt, st in sub_]
            return [(("*",) + k, lt, [t.n] + st) for k, lt, st in sub_]
        return [((), t, [])]

    def leaf_type(self, region, key):
        t = region.etype
        nst = 0
        for s in key:
            if isinstance(s, str) and s != "*":
                t = self.prog.field_type(t.tag, s)
            else:
                if s == "*": nst += 1
                t = t.of
        return t, nst

    # ------------------------------------------------------------- memory
    def sort_of(self, t, nd):
        if isinstance(t, TInt): s = z3.IntSort()
        elif isinstance(t, TReal): s = z3.RealSort()
        else: raise EngineError("no sort for %r" % t)
        for _ in range(nd):
            s = z3.ArraySort(z3.IntSort(), s)
        return s

    def name_of(self, region, key):
        return region.name + "".join("." + k if isinstance(k, str) and k != "*" else "[%s]" % k for k in key)

    def initial(self, region, key):
        if key in region.initial: return region.initial[key]
        t, nst = self.leaf_type(region, key)
        nd = region.ndims + nst
        if isinstance(t, TPtr):
            v = self.initial_pointer(region, key, t)
        elif region.kind in ("local", "heap") and nd == 0:
            v = (Fraction(0) if isinstance(t, TReal) else 0) if region.zero else UNDEF
        elif region.zero:
            base = z3.RealVal(0) if isinstance(t, TReal) else z3.IntVal(0)
            v = base
            s = base.sort()
            for _ in range(nd):
                v = z3.K(z3.IntSort(), v)
        else:
            nm = self.name_of(region, key)
            v = z3.Const(nm, self.sort_of(t, nd))
            self.type_axiom(v, t, nd)
            if nd == 0 and isinstance(t, TInt):
                self.axioms.append(z3.And(v >= t.lo, v <= t.hi))
        region.initial[key] = v
        return v

    def type_axiom(self, v, t, nd):
        if nd >= 1 and isinstance(t, TInt) and (t.bits <= 16 or self.contract.int_array_axioms):
            idx = [z3.Int("ax%d" % i) for i in range(nd)]
            e = v
            for i in idx: e = z3.Select(e, i)
            self.axioms.append(z3.ForAll(idx, z3.And(e >= t.lo, e <= t.hi), patterns=[e]))

    def initial_pointer(self, region, key, t):
        """pointer stored in memory on entry; described by the contract's shapes"""
        path = region.shape_path(key) if hasattr(region, "shape_path") else None
        base = getattr(region, "shape_base", None)
        if base is None:
            if region.kind in ("local", "heap"):
                return NULLP if region.zero else UNDEF
            raise EngineError("pointer leaf %s in unshaped region" % self.name_of(region, key))
        path = base + "".join("." + k if isinstance(k, str) and k != "*" else "[]" for k in key)
        return self.make_pointer(path, t, region, key)

    def make_pointer(self, path, t, parent=None, key=(), concrete_idx=None):
        """build the region a pointer at shape `path` points to"""
        shp = self.contract.shapes.get(path)
        if shp is None and path.endswith("[]") is False and isinstance(t.to, (TVoid,)):
            return NULLP
        pd = 0
        plens = []
        pnames = path
        if parent is not None:
            _, nst = self.leaf_type(parent, key)
            pd = parent.ndims + nst
            plens = list(parent.lens) + [None] * nst
            conc = [k for k in key if isinstance(k, int)]
            if conc or (pd == 0 and "[" in parent.name.replace("[]", "")):
                # distinct concrete array-of-pointer slots get distinct regions
                pnames = parent.name + "".join("." + k if isinstance(k, str) and k != "*" else "[%s]" % k for k in key)
        nullable = False
        if isinstance(shp, str) and shp.endswith("?"):
            nullable, shp = True, shp[:-1].strip()
            if shp == "": shp = None
        etype = t.to
        if isinstance(etype, (TVoid, TFunc)) or (isinstance(etype, TStruct) and etype.tag not in self.prog.structs):
            return Ptr(Region("opaque:" + pnames, TInt("int", 32, True), 0, [], "param"), (), False)
        if isinstance(shp, str) and " x " in shp:
            # row-major matrix passed as a flat pointer: rows x row length
            if pd: raise EngineError("matrix shape below another pointer")
            rr, cc = [self.shape_len(x.strip(), parent) for x in shp.split(" x ")]
            r = Region(pnames, etype, 2, [rr, cc], "param")
            r.shape_base = path + "[]"
            r.stride = cc
            r.param_path = path
            p = Ptr(r, [0, 0], False, True)
            if nullable: p.null = z3.Const("isnull(%s)" % pnames, z3.BoolSort())
            return p
        if shp is None or shp == 1 or shp == "1":
            r = Region("*" + pnames if not path.endswith("[]") else pnames, etype, pd, plens, "param")
            r.shape_base = path + ("[]" if False else "")
            # single object: fields addressed as path.f
            p = Ptr(r, [("outer", i) for i in range(pd)], False)
            p_is_family = pd > 0
        else:
            ln = self.shape_len(shp, parent, pnames)
            r = Region(pnames, etype, pd + 1, plens + [ln], "param")
            r.shape_base = path + "[]"
            p = Ptr(r, [("outer", i) for i in range(pd)] + [0], False)
            if is_conc(ln) and ln <= 16 and pd == 0 and isinstance(etype, (TPtr, TInt, TReal, TArr, TStruct)) and self.contract.expand_arrays:
                r = Region(pnames, TArr(etype, ln), 0, [], "param")
                r.shape_base = path
                p = Ptr(r, [0], False)
        r.param_path = path
        if nullable:
            nv = z3.Const("isnull(%s)" % pnames, z3.BoolSort() if pd == 0 else self._arrsort(pd, z3.BoolSort()))
            p.null = nv
        return p

    def _arrsort(self, nd, s):
        for _ in range(nd): s = z3.ArraySort(z3.IntSort(), s)
        return s

    def shape_len(self, shp, parent=None, name=""):
        if isinstance(shp, int): return shp
        if parent is not None: shp = shp.replace("@", parent.name.lstrip("*"))
        if shp == "*":
            v = z3.Int("len(%s)" % name)
            self.axioms.append(v >= 0)
            return v
        if shp.isdigit(): return int(shp)
        # spec expression over the entry state
        from .spec import SpecEnv
        env = SpecEnv(self, self.entry if getattr(self, "entry", None) else self._st0, None, self.entry_names())
        return env.eval(shp)

    def instantiate(self, p, idxs):
        """pointer family -> pointer for concrete parent indices"""
        steps = []
        for s in p.steps:
            if isinstance(s, tuple) and s[0] == "outer": steps.append(idxs[s[1]])
            else: steps.append(s)
        null = p.null
        if is_sym(null) and z3.is_array(null):
            for i in idxs: null = z3.Select(null, z(i))
        return Ptr(p.region, steps, null, p.flat)

    def get(self, st, region, key):
        v = st.mem.get((region, key))
        if v is None:
            v = self.initial(region, key)
        return v

    def put(self, st, region, key, val):
        st.mem[(region, key)] = val
        if self.record is not None:
            self.record.add((region, key))

    def resolve(self, ptr):
        """-> list of (cond, key, idxs, bounds) ; bounds = list of (idx, len)"""
        r = ptr.region
        steps = list(ptr.steps)
        if ptr.flat:
            steps = self._normalise_flat(r, steps)
        idxs = [s for s in steps[:r.ndims]]
        bounds = [(i, l) for i, l in zip(idxs, r.lens)]
        alts = [(True, (), idxs)]
        t = r.etype
        for s in steps[r.ndims:]:
            if isinstance(s, str):
                alts = [(c, k + (s,), ix) for c, k, ix in alts]
                t = self.prog.field_type(t.tag, s)
                continue
            if not isinstance(t, TArr): raise EngineError("bad step")
            bounds.append((s, t.n))
            if self.expanded(t):
                if is_conc(s):
                    alts = [(c, k + (s,), ix) for c, k, ix in alts]
                else:
                    alts = [(And(c, cmp("==", s, j)), k + (j,), ix) for c, k, ix in alts for j in range(t.n)]
            else:
                alts = [(c, k + ("*",), ix + [s]) for c, k, ix in alts]
            t = t.of
        return alts, bounds, t

    def _normalise_flat(self, r, steps):
        steps = list(steps)
        # dims of trailing consecutive index steps
        i = len(steps) - 1
        types = [r.etype]
        for s in steps[r.ndims:]:
            tt = types[-1]
            types.append(self.prog.field_type(tt.tag, s) if isinstance(s, str) else tt.of)
        while i > 0 and not isinstance(steps[i], str) and not isinstance(steps[i - 1], str) and i >= max(r.ndims, 1):
            n = types[i - r.ndims].n if i >= r.ndims else None
            if n is None: break
            s = steps[i]
            if is_conc(s):
                q = s // n
                steps[i] = s - q * n
                if q: steps[i - 1] = add(steps[i - 1], q)
            else:
                q = z(s) / n
                steps[i] = z3.simplify(z(s) - q * n)
                steps[i - 1] = add(steps[i - 1], q)
            i -= 1
        if i == 1 and r.ndims == 2 and getattr(r, "stride", None) is not None:
            q, rem = split_stride(steps[1], r.stride)
            steps[0], steps[1] = add(steps[0], q), rem
        return steps

    def check_access(self, st, ptr, line, what):
        if ptr.region is None:
            self.oblige(st, False, "memory", line, "null dereference")
        if ptr.null is not False:
            self.oblige(st, Not(ptr.null), "memory", line, "no null dereference")
        if ptr.region in st.freed:
            self.oblige(st, Not(st.freed[ptr.region]), "memory", line, "no use after free")
        alts, bounds, t = self.resolve(ptr)
        for i, l in bounds:
            if l is None: continue
            g = And(cmp("<=", 0, i), cmp("<", i, l))
            if g is not True:
                self.oblige(st, g, "memory", line, "%s within bounds of %s" % (what, ptr.region.name))
        return alts, t

    def sel(self, v, idxs):
        for i in idxs: v = z3.Select(v, z(i))
        return v

    def load_scalar(self, st, alts, region, t, spec=False, line=None):
        res = None
        for c, k, ix in reversed(alts):
            v = self.get(st, region, k)
            if isinstance(v, Undef):
                if spec:
                    v = self.fresh("undef", self.sort_of(t, 0)) if not isinstance(t, TPtr) else NULLP
                elif len(alts) == 1:
                    if v.cond is False:
                        self.oblige(st, False, "memory", line, "read of initialised value (%s)" % self.name_of(region, k))
                    self.oblige(st, v.cond, "memory", line, "read of initialised value (%s)" % self.name_of(region, k))
                    v = v.val
                else:
                    self.oblige(st, Or(Not(c), v.cond), "memory", line, "read of initialised value (%s)" % self.name_of(region, k))
                    v = v.val if v.val is not None else self.fresh("undef", self.sort_of(t, 0))
            if isinstance(v, Ptr):
                if ix or region.ndims:
                    v = self.instantiate(v, ix)
                if len(alts) > 1:
                    if res is None: res = v; continue
                    res = self.merge_val(c, v, res)
                    continue
                return v
            if ix: v = self.sel(v, ix)
            res = v if res is None else Ite(c, v, res)
        res = unz(res) if is_sym(res) else res
        if is_sym(res) and isinstance(t, TInt) and not spec:
            self.range_fact(st, res, t)
        return res

    def range_fact(self, st, v, t):
        if v.get_id() in st.facts: return
        if z3.is_app_of(v, z3.Z3_OP_SELECT) or z3.is_const(v):
            st.facts.add(v.get_id())
            st.pc.append(z3.And(v >= t.lo, v <= t.hi))

    def load(self, st, ptr, line=None, spec=False):
        if not spec:
            alts, t = self.check_access(st, ptr, line, "read")
        else:
            alts, _, t = self.resolve(ptr)
        if isinstance(t, (TInt, TReal, TPtr)):
            return self.load_scalar(st, alts, ptr.region, t, spec, line)
        if isinstance(t, TStruct):
            out = {}
            for k, lt, stars in self.leaves(t):
                a2 = [(c, kk + k, ix) for c, kk, ix in alts]
                if stars:
                    if len(alts) != 1: raise EngineError("struct copy with ambiguous arrays")
                    v = self.get(st, ptr.region, a2[0][1])
                    out[k] = self.sel(v, a2[0][2])
                else:
                    v = self.get(st, ptr.region, a2[0][1]) if len(a2) == 1 else None
                    if isinstance(v, Undef): out[k] = v
                    else: out[k] = self.load_scalar(st, a2, ptr.region, lt, True, line)
            return StructVal(t, out)
        raise EngineError("load of %r" % t)

    def upd(self, arr, idxs, val):
        if not idxs: return val
        return z3.Store(arr, z(idxs[0]), z(self.upd(z3.Select(arr, z(idxs[0])), idxs[1:], val)) if len(idxs) > 1 else z(val))

    def conv_leaf(self, val, t):
        if isinstance(t, TReal): return to_real(val)
        if isinstance(t, TInt): return to_int(val)
        return val

    def store_scalar(self, st, region, alts, t, val):
        if not isinstance(val, Undef): val = self.conv_leaf(val, t)
        no = self.contract.name_over
        if no and region.kind == "local" and is_sym(val) and isinstance(t, (TReal, TInt)) and _bigger(val, no):
            v = self.fresh("let_" + region.name, val.sort())
            st.pc.append(v == val)
            val = v
        for c, k, ix in alts:
            if not ix:
                if len(alts) == 1: self.put(st, region, k, val)
                else:
                    o = self.get(st, region, k)
                    self.put(st, region, k, self.merge_val(c, val, o))
            else:
                if isinstance(t, TPtr):
                    self.store_ptr_array(st, region, k, ix, val)
                    continue
                o = self.get(st, region, k)
                if isinstance(val, Undef): val = self.fresh("undef", self.sort_of(t, 0))
                nv = self.upd(o, ix, val)
                self.put(st, region, k, nv if c is True else z3.If(z(c), nv, o))

    def store_ptr_array(self, st, region, k, ix, val):
        raise EngineError("store of a pointer at a symbolic index (%s)" % self.name_of(region, k))

    def store(self, st, ptr, val, line=None, init=False):
        alts, t = self.check_access(st, ptr, line, "write")
        if not init: self.check_assigns(st, ptr, alts, line)
        if isinstance(val, StructVal):
            for k, lt, stars in self.leaves(t):
                a2 = [(c, kk + k, ix) for c, kk, ix in alts]
                if stars:
                    if len(alts) != 1: raise EngineError("struct store with ambiguous arrays")
                    o = self.get(st, ptr.region, a2[0][1])
                    self.put(st, ptr.region, a2[0][1], self.upd(o, a2[0][2], val.leaves[k]))
                else:
                    self.store_scalar(st, ptr.region, a2, lt, val.leaves[k])
            return
        self.store_scalar(st, ptr.region, alts, t, val)

    # ---------------------------------------------------------- frame check
    def check_assigns(self, st, ptr, alts, line):
        r = ptr.region
        if r.kind in ("local", "heap"): return
        if self.silent: return
        if r.kind == "const":
            self.oblige(st, False, "frame", line, "write to constant %s" % r.name)
        for c, k, ix in alts:
            g = self.in_assigns(r, k, ix)
            if g is True: continue
            self.oblige(st, Implies(c, g), "frame", line, "write to %s permitted by assigns" % self.name_of(r, k))

    def in_assigns(self, region, key, idxs):
        gs = []
        for ls in self.assign_locs:
            if ls.region is not region: continue
            gs.append(self.loc_contains(ls, region, key, idxs))
        return Or(*gs)

    def loc_contains(self, ls, region, key, idxs):
        """does LocSet ls contain (key, idxs)?"""
        conds = []
        ii = list(idxs)
        full = [ii.pop(0) for _ in range(region.ndims)]
        for k in key:
            full.append(ii.pop(0) if k == "*" else k)
        for a, b in itertools.zip_longest(ls.steps, full):
            if a is None: break        # prefix: whole subobject
            if b is None: return False
            if isinstance(a, str) or isinstance(b, str):
                if a != b: return False
                continue
            if isinstance(a, tuple):
                if a[1] is None: continue
                conds.append(And(cmp("<=", a[1], b), cmp("<", b, a[2])))
            else:
                conds.append(cmp("==", a, b))
        return And(*conds)

    def havoc_locs(self, st, locs, line=None, zero=False):
        for ls in locs:
            r = ls.region
            # enumerate leaf keys under ls
            steps = list(ls.steps)
            t = r.etype
            outer = steps[:r.ndims]
            while len(outer) < r.ndims: outer.append(("range", None, None))
            prefixes = [((), [])]
            for s in steps[r.ndims:]:
                if isinstance(s, str):
                    prefixes = [(k + (s,), ix) for k, ix in prefixes]
                    t = self.prog.field_type(t.tag, s)
                    continue
                if self.expanded(t):
                    if isinstance(s, tuple):
                        lo, hi = (0, t.n) if s[1] is None else (s[1], s[2])
                        if not (is_conc(lo) and is_conc(hi)):
                            # conservative: conditional havoc
                            prefixes = [(k + (("cond", j, And(cmp("<=", lo, j), cmp("<", j, hi))),), ix) for k, ix in prefixes for j in range(t.n)]
                        else:
                            prefixes = [(k + (j,), ix) for k, ix in prefixes for j in range(lo, min(hi, t.n))]
                    elif is_conc(s):
                        prefixes = [(k + (s,), ix) for k, ix in prefixes]
                    else:
                        prefixes = [(k + (("cond", j, cmp("==", s, j)),), ix) for k, ix in prefixes for j in range(t.n)]
                else:
                    prefixes = [(k + ("*",), ix + [s]) for k, ix in prefixes]
                t = t.of
            for k, ix in prefixes:
                cond = And(*[e[2] for e in k if isinstance(e, tuple)])
                kk = tuple(e[1] if isinstance(e, tuple) else e for e in k)
                for rel, lt, stars in self.leaves(t):
                    key = kk + rel
                    idxs = outer + ix + [("range", None, None)] * len(stars)
                    self.havoc_leaf(st, r, key, lt, idxs, cond)

    def havoc_leaf(self, st, r, key, lt, idxs, cond=True):
        if isinstance(lt, TPtr):
            raise EngineError("assigns clause covers a pointer field (%s)" % self.name_of(r, key))
        nm = self.name_of(r, key) + "'"
        old = self.get(st, r, key)
        if not idxs:
            f = self.fresh(nm, self.sort_of(lt, 0))
            if isinstance(lt, TInt): st.pc.append(z3.And(f >= lt.lo, f <= lt.hi))
            if cond is not True and isinstance(old, Undef): old = self.fresh("undef", self.sort_of(lt, 0))
            self.put(st, r, key, f if cond is True else Ite(cond, f, old))
            return
        if all(not isinstance(i, tuple) for i in idxs):
            f = self.fresh(nm, self.sort_of(lt, 0))
            if isinstance(lt, TInt): st.pc.append(z3.And(f >= lt.lo, f <= lt.hi))
            if cond is not True: f = z3.If(cond, f, self.sel(old, idxs))
            self.put(st, r, key, self.upd(old, idxs, f))
            return
        nv = self.fresh(nm, self.sort_of(lt, len(idxs)))
        n0 = len(self.axioms)
        self.type_axiom(nv, lt, len(idxs))
        for a in self.axioms[n0:]: st.pc.append(a)
        del self.axioms[n0:]
        if any(not (isinstance(i, tuple) and i[1] is None) for i in idxs) or cond is not True:
            js = [z3.Int("fj%d" % n) for n in range(len(idxs))]
            inside = []
            for j, i in zip(js, idxs):
                if isinstance(i, tuple):
                    if i[1] is not None: inside.append(And(cmp("<=", i[1], j), cmp("<", j, i[2])))
                else:
                    inside.append(cmp("==", i, j))
            ins = And(cond, *inside)
            st.pc.append(z3.ForAll(js, z3.Or(z(ins), self.sel(nv, js) == self.sel(old, js)), patterns=[self.sel(nv, js)]))
        self.put(st, r, key, nv)

    # ------------------------------------------------------------- merging
    def merge_val(self, c, a, b):
        if a is b: return a
        if isinstance(a, Undef) or isinstance(b, Undef):
            ca = a.cond if isinstance(a, Undef) else True
            cb = b.cond if isinstance(b, Undef) else True
            va = a.val if isinstance(a, Undef) else a
            vb = b.val if isinstance(b, Undef) else b
            cond = Ite(c, ca, cb)
            if va is None: return Undef(cond, vb)
            if vb is None: return Undef(cond, va)
            return Undef(cond, self.merge_val(c, va, vb))
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.region is None or b.region is None:
                if a.region is b.region: return a
                nn = b if a.region is None else a
                return Ptr(nn.region, nn.steps, Ite(c, a.null, b.null), nn.flat)
            if a.region is not b.region or len(a.steps) != len(b.steps) or a.flat != b.flat: raise CannotMerge()
            steps = []
            for x, y in zip(a.steps, b.steps):
                if isinstance(x, (str, tuple)) or isinstance(y, (str, tuple)):
                    if x != y: raise CannotMerge()
                    steps.append(x)
                else:
                    steps.append(Ite(c, x, y))
            return Ptr(a.region, steps, Ite(c, a.null, b.null), a.flat)
        if isinstance(a, (Ptr, FuncRef)) or isinstance(b, (Ptr, FuncRef)): raise CannotMerge()
        return Ite(c, a, b)

    def merge_states(self, c, base_n, s1, s2):
        out = State()
        out.pc = s1.pc[:base_n]
        for x in s1.pc[base_n + 1:]: out.pc.append(z3.Implies(c, x))
        for x in s2.pc[base_n + 1:]: out.pc.append(z3.Implies(Not(c), x))
        keys = set(s1.mem) | set(s2.mem)
        for rk in sorted(keys, key=lambda rk: (rk[0].name, str(rk[1]))):
            a = self.get(s1, *rk)
            b = self.get(s2, *rk)
            out.mem[rk] = a if a is b else self.merge_val(c, a, b)
        out.freed = dict(s1.freed)
        for r, f in s2.freed.items():
            out.freed[r] = Ite(c, s1.freed.get(r, False), f)
        for r, f in s1.freed.items():
            if r not in s2.freed: out.freed[r] = Ite(c, f, False)
        out.facts = s1.facts & s2.facts
        out.ghost = dict(s1.ghost)
        for k in set(s1.ghost) | set(s2.ghost):
            a, b = s1.ghost.get(k), s2.ghost.get(k)
            if a is not b:
                if a is None or b is None: raise CannotMerge()
                out.ghost[k] = self.merge_val(c, a, b)
        return out

    # ============================================================ statements
    def cur_line(self, n): return n.get("_line")

    def exec(self, n, st, fr):
        k = n["kind"]
        m = getattr(self, "x_" + k, None)
        if m is None:
            if k.endswith("Expr") or k.endswith("Operator") or k.endswith("Literal"):
                self.eval(n, st, fr)
                return st
            raise EngineError("statement kind %s (line %s)" % (k, n.get("_line")))
        return m(n, st, fr)

    def x_CompoundStmt(self, n, st, fr):
        for c in n.get("inner", ()):
            st = self.exec(c, st, fr)
            if self.cut_map: self.run_cuts(c, st, fr)
        return st

    def run_cuts(self, c, st, fr):
        """assertions and ghost definitions anchored after a statement (proved, then used)"""
        from .spec import SpecEnv
        for anchor, what, by in self.cut_map.get((fr.callpath, c.get("id")), ()):
            env = SpecEnv(self, st, self.entry, self.scope_names(fr))
            self.cut(st, env, anchor, what, by, c.get("_line"))

    def cut(self, st, env, anchor, what, by, line, kind="cut"):
        """ghost definitions, or an assertion; `by`: the only facts it may be derived from (themselves checked)"""
        if isinstance(what, dict):
            for k, e in what.items(): st.ghost[k] = env.eval(e)
            return
        if what.startswith("mark "):
            self.marks[what[5:].strip()] = st.copy()
            return
        if what.startswith("assume "):
            st.assume(env.eval_bool(what[7:]))
            self.notes.add("%s: assumed at %s: %s" % (self.fn.name, anchor, what[7:]))
            return
        g = env.eval_bool(what)
        if by is None:
            self.oblige(st, g, kind, line, "%s %s: %s" % (kind, anchor, what))
            return
        prem = []
        defs = []
        for b in by:
            if b.startswith("def "):
                defs.append(b[4:].strip())
                continue
            p = env.eval_bool(b)
            self.oblige(st, p, kind, line, "%s %s premise: %s" % (kind, anchor, b))
            prem.append(p)
        s2 = st.copy()
        # compound ghost values become opaque names (a generalisation)
        gh = [(v, z3.Const("gh_" + k, v.sort())) for k, v in st.ghost.items() if is_sym(v) and v.num_args() and not z3.is_rational_value(v)]
        gh.sort(key=lambda p: -len(p[0].sexpr()))
        seen, sub = set(), []
        for v, c in gh:
            if v.get_id() not in seen:
                seen.add(v.get_id())
                sub.append((v, c))
        ab = lambda e: z3.BoolVal(e) if isinstance(e, bool) else z3.substitute(e, *sub) if sub else e
        s2.pc = [ab(p) for p in prem]
        for k in defs:
            v = st.ghost[k]
            me = [c for t, c in sub if t.eq(v)]
            if me: s2.pc.append(me[0] == z3.substitute(v, *[t for t in sub if not t[0].eq(v)]))
        self.oblige(s2, ab(g), kind, line, "%s %s: %s" % (kind, anchor, what))
        st.assume(g)

    def _find_cuts(self):
        """resolve the anchors `callee#k` / `=var#k` to the enclosing statement (also inside contract-less helpers)"""
        self.cut_map = {}
        want = {}
        ung = self.opts.get("unguarded")
        for a, w, *by in self.contract.cuts:
            if ung and not (isinstance(w, str) and w.startswith(("assume ", "always ", "mark "))): continue
            if isinstance(w, str) and w.startswith("always "): w = w[7:]
            want.setdefault(a, []).append((a, w, by[0] if by else None))
        if not want: return
        cnt = {}

        def hit(key, path, stmt):
            cnt[key] = cnt.get(key, 0) + 1
            for t in want.get("%s#%d" % (key, cnt[key]), ()):
                self.cut_map.setdefault((path, stmt["id"]), []).append(t)

        def walk(n, path, stmt, depth):
            k = n.get("kind")
            if k == "CallExpr":
                cal = _callee_name(n)
                for c in n.get("inner", ()):
                    if c: walk(c, path, stmt, depth)
                if cal and cal not in self.contracts and cal in self.prog.funcs and depth < 6 and cal != self.fn.name:
                    b = self.prog.funcs[cal].body
                    walk(b, path + (n["id"],), b, depth + 1)
                elif cal and stmt: hit(cal, path, stmt)
                return
            for c in n.get("inner", ()):
                if c: walk(c, path, c if k == "CompoundStmt" else stmt, depth)
            if k in ("BinaryOperator", "CompoundAssignOperator") and n.get("opcode", "").endswith("=") and n.get("opcode") not in ("==", "<=", ">=", "!="):
                l = _strip(n["inner"][0])
                if l.get("kind") == "DeclRefExpr" and stmt: hit("=" + l["referencedDecl"]["name"], path, stmt)
                if l.get("kind") == "MemberExpr" and stmt: hit("=." + l["name"], path, stmt)
            if k == "VarDecl" and n.get("init") and stmt: hit("=" + n["name"], path, stmt)
        walk(self.fn.body, (), None, 0)

    def x_NullStmt(self, n, st, fr): return st

    def x_DeclStmt(self, n, st, fr):
        for d in n.get("inner", ()):
            if d["kind"] != "VarDecl": continue
            self.declare(d, st, fr)
        return st

    def declare(self, d, st, fr):
        t = self.prog.ctype(d["type"].get("desugaredQualType", d["type"]["qualType"]) if False else d["type"]["qualType"])
        static = d.get("storageClass") == "static"
        r = self.local_region(fr, d["id"], d["name"], t)
        fr.vars[d["id"]] = r
        fr.names[d["name"]] = r
        # (re)declaration: undefined content
        for k, lt, stars in self.leaves(t):
            if stars:
                nv = self.fresh(self.name_of(r, k), self.sort_of(lt, len(stars))) if not isinstance(lt, TPtr) else UNDEF
                st.mem[(r, k)] = nv
            else:
                st.mem[(r, k)] = UNDEF
            if self.record is not None: self.record.add((r, k))
        init = [c for c in d.get("inner", ()) if c and c.get("kind", "").endswith(("Expr", "Operator", "Literal"))]
        if init:
            self.init_var(r, (), t, init[0], st, fr)

    def local_region(self, fr, did, name, t):
        key = (fr.callpath, did)
        r = self._static_regions.get(key)
        if r is None:
            nm = name if not fr.callpath else "%s@%s" % (name, fr.func.name)
            r = Region(nm, t, 0, [], "local")
            self._static_regions[key] = r
        return r

    def init_var(self, r, steps, t, e, st, fr):
        if e["kind"] == "InitListExpr":
            inner = list(e.get("inner", ()))
            if isinstance(t, TArr):
                filler = None
                if "array_filler" in e:
                    af = e["array_filler"]
                    inner = [c for c in af[1:]] if len(af) > 1 else []
                for i in range(t.n):
                    if not self.expanded(t): raise EngineError("init of large array")
                    if i < len(inner): self.init_var(r, steps + (i,), t.of, inner[i], st, fr)
                    else: self.zero_init(r, steps + (i,), t.of, st)
            elif isinstance(t, TStruct):
                for i, (f, ft) in enumerate(self.prog.fields(t.tag)):
                    if i < len(inner): self.init_var(r, steps + (f,), ft, inner[i], st, fr)
                    else: self.zero_init(r, steps + (f,), ft, st)
            else:
                self.init_var(r, steps, t, inner[0], st, fr)
            return
        if e["kind"] == "ImplicitValueInitExpr":
            self.zero_init(r, steps, t, st)
            return
        if isinstance(t, TArr) and _strip(e)["kind"] == "StringLiteral":
            return     # local char array initialised by a literal: content not tracked
        v = self.eval(e, st, fr)
        self.store(st, Ptr(r, steps), v, e.get("_line"), init=True)

    def zero_init(self, r, steps, t, st):
        for k, lt, stars in self.leaves(t):
            v = NULLP if isinstance(lt, TPtr) else (Fraction(0) if isinstance(lt, TReal) else 0)
            for _ in stars: v = z3.K(z3.IntSort(), z(v))
            self.put(st, r, tuple(steps) + k, v)

    def x_IfStmt(self, n, st, fr):
        inner = n["inner"]
        cond, then = inner[0], inner[1]
        els = inner[2] if len(inner) > 2 else None
        c = to_bool(self.truth(self.eval(cond, st, fr)))
        c = unz(c) if is_sym(c) else c
        if isinstance(c, bool):
            if c: return self.exec(then, st, fr)
            return self.exec(els, st, fr) if els else st
        mk = (fr.callpath, n["id"])
        if self.contract.merge and mk not in self.nomerge and not self._unmergeable(then) and not (els and self._unmergeable(els)):
            s1, s2 = st.copy(), st.copy()
            n0 = len(st.pc)
            s1.pc.append(c)
            s2.pc.append(z(Not(c)))
            dead1 = dead2 = False
            try:
                s1 = self.exec(then, s1, fr)
            except PathEnd:
                dead1 = True
            try:
                if els: s2 = self.exec(els, s2, fr)
            except PathEnd:
                dead2 = True
            if dead1 and dead2: raise PathEnd()
            if dead1: return s2
            if dead2: return s1
            try:
                return self.merge_states(c, n0, s1, s2)
            except CannotMerge:
                self.nomerge.add(mk)
                raise Restart()
        if self.choose(st, c):
            return self.exec(then, st, fr)
        return self.exec(els, st, fr) if els else st

    def _unmergeable(self, n):
        """jumps out of the branch, or loops cut by invariants (incl. in inlined helpers)"""
        if _has_jump(n): return True

        def loops(n, d):
            k = n.get("kind")
            if k in ("WhileStmt", "DoStmt") or (k == "ForStmt" and not self._const_loop(n)): return True
            if k == "CallExpr":
                c = _callee_name(n)
                if c and c not in self.contracts and c in self.prog.funcs and d < 6:
                    if loops(self.prog.funcs[c].body, d + 1): return True
            return any(loops(c, d) for c in n.get("inner", ()) if c)
        return loops(n, 0)

    def x_ReturnStmt(self, n, st, fr):
        v = None
        if n.get("inner"):
            v = self.eval(n["inner"][0], st, fr)
        fr.ret_line = n.get("_line")
        raise ReturnX((v, st))

    def x_BreakStmt(self, n, st, fr):
        raise BreakX(st)

    def x_ContinueStmt(self, n, st, fr):
        raise ContinueX(st)

    def x_SwitchStmt(self, n, st, fr):
        inner = [c for c in n["inner"] if c]
        v = self.eval(inner[0], st, fr)
        body = inner[1]
        items = list(body.get("inner", ()))
        # flatten: list of (labels, stmt)
        flat = []

        def unwrap(s):
            labs = []
            while s["kind"] in ("CaseStmt", "DefaultStmt"):
                if s["kind"] == "CaseStmt":
                    labs.append(self.const_of(s["inner"][0]))
                    s2 = s["inner"][-1]
                else:
                    labs.append("default")
                    s2 = s["inner"][0]
                s = s2
            return labs, s
        for it in items:
            flat.append(unwrap(it))
        labels = [l for labs, _ in flat for l in labs]
        start = None
        chosen = None
        for l in labels:
            if l == "default": continue
            if self.choose(st, cmp("==", v, l)):
                chosen = l
                break
        if chosen is None:
            if "default" not in labels: return st
            chosen = "default"
        on = False
        try:
            for labs, s in flat:
                if chosen in labs: on = True
                if on: st = self.exec(s, st, fr)
        except BreakX as b:
            return b.args[0]
        return st

    def const_of(self, e):
        e = _strip(e)
        if e["kind"] == "ConstantExpr":
            return int(e["value"]) if "value" in e else self.const_of(e["inner"][0])
        if e["kind"] == "IntegerLiteral": return int(e["value"])
        if e["kind"] == "DeclRefExpr": return self.prog.enums[e["referencedDecl"]["name"]]
        if "value" in e: return int(e["value"])
        raise EngineError("case label")

    # ----------------------------------------------------------------- loops
    def x_ForStmt(self, n, st, fr):
        init, _, cond, inc, body = (n["inner"] + [None] * 5)[:5]
        if init and init.get("kind"): st = self.exec(init, st, fr)
        return self.loop(n, cond if cond and cond.get("kind") else None, inc if inc and inc.get("kind") else None, body, st, fr, False)

    def x_WhileStmt(self, n, st, fr):
        inner = [c for c in n["inner"] if c]
        return self.loop(n, inner[0], None, inner[1], st, fr, False)

    def x_DoStmt(self, n, st, fr):
        inner = n["inner"]
        return self.loop(n, inner[1], None, inner[0], st, fr, True)

    def loop(self, n, cond, inc, body, st, fr, is_do):
        lid = self.loop_ids.get((fr.callpath, n["id"]))
        spec = self.contract.loops.get(lid) if lid is not None else None
        if spec is None or spec.unroll:
            return self.loop_unroll(n, cond, inc, body, st, fr, is_do, spec)
        return self.loop_inv(n, lid, spec, cond, inc, body, st, fr, is_do)

    def ev_cond(self, cond, st, fr):
        if cond is None: return True
        c = to_bool(self.truth(self.eval(cond, st, fr)))
        return unz(c) if is_sym(c) else c

    def body_once(self, body, inc, st, fr):
        try:
            st = self.exec(body, st, fr)
        except ContinueX as c:
            st = c.args[0]
        if inc: self.eval(inc, st, fr)
        return st

    def loop_unroll(self, n, cond, inc, body, st, fr, is_do, spec):
        limit = spec.unroll if spec and spec.unroll else 300
        cnt = 0
        first = is_do
        depth = len(self.unrolling)
        self.unrolling.append(None)
        try:
            while True:
                del self.unrolling[depth + 1:]
                self.unrolling[depth] = (n["id"], cnt)
                if not first:
                    c = self.ev_cond(cond, st, fr)
                    if not isinstance(c, bool):
                        c2 = z3.simplify(c)
                        c = unz(c2)
                    if not isinstance(c, bool):
                        if spec and spec.unroll:
                            c = self.choose(st, c)
                        else:
                            # maybe decided by the path condition
                            if not self.feasible(st, c): c = False
                            elif not self.feasible(st, Not(c)): c = True
                            else:
                                raise EngineError("loop at line %s of %s needs an invariant" % (n.get("_line"), fr.func.name))
                    if not c: return st
                first = False
                cnt += 1
                if cnt > limit:
                    if spec and spec.unroll:
                        self.oblige(st, False, "unwind", n.get("_line"), "loop bound %d suffices" % limit)
                    raise EngineError("loop at line %s exceeds unrolling limit" % n.get("_line"))
                st = self.body_once(body, inc if not is_do else None, st, fr)
        except BreakX as b:
            return b.args[0]
        finally:
            del self.unrolling[depth:]

    def loop_modset(self, n, lid, spec, cond, inc, body, st, fr, is_do):
        # enclosing unrolled loops: the same loop met again in another iteration is another loop
        ck = (lid, tuple(self.trail), tuple(self.unrolling))
        if ck in self.modcache: return self.modcache[ck]
        mods = set()
        ex = self.deadline
        for _round in range(6):
            rec = set()
            s0 = st.copy()
            saved_rec, self.record = self.record, None
            self.silent += 1
            try:
                self.havoc_mods(s0, mods, st)
                s0.pc = [c for c in s0.pc]

                def run():
                    self.record = rec
                    s1 = s0.copy()
                    fnames = dict(fr.names)
                    try:
                        if not is_do:
                            c = self.ev_cond(cond, s1, fr)
                            s1.assume(c)
                        s1 = self.body_once(body, inc, s1, fr)
                        if is_do: self.ev_cond(cond, s1, fr)
                    except (BreakX, ReturnX, ContinueX):
                        pass
                    finally:
                        fr.names = fnames
                fn, self.contract.no_feas = self.contract.no_feas, True
                try:
                    self.explore(run)
                finally:
                    self.contract.no_feas = fn
            finally:
                self.record = saved_rec
                self.silent -= 1
            new = rec - mods
            if not new: break
            mods |= rec
        self.modcache[ck] = mods
        return mods

    def havoc_mods(self, st, mods, entry):
        for (r, k) in sorted(mods, key=lambda rk: (rk[0].name, str(rk[1]))):
            if (r, k) == ("ghost", None): continue
            lt, nst = self.leaf_type(r, k)
            nd = r.ndims + nst
            old = self.get(st, r, k)
            if isinstance(lt, TPtr):
                if isinstance(old, Undef): st.mem[(r, k)] = UNDEF
                elif isinstance(old, Ptr) and old.region is not None and old.steps and not isinstance(old.steps[-1], str) and nd == 0:
                    # pointer walking within its region
                    st.mem[(r, k)] = Ptr(old.region, old.steps[:-1] + (self.fresh(self.name_of(r, k) + ".off", z3.IntSort()),), old.null, old.flat)
                else:
                    raise EngineError("loop modifies pointer %s in an unsupported way" % self.name_of(r, k))
            elif nd == 0 and isinstance(old, Undef):
                st.mem[(r, k)] = UNDEF
            else:
                f = self.fresh(self.name_of(r, k), self.sort_of(lt, nd))
                st.mem[(r, k)] = f
                if nd == 0 and isinstance(lt, TInt): st.pc.append(z3.And(f >= lt.lo, f <= lt.hi))
                n0 = len(self.axioms)
                self.type_axiom(f, lt, nd)
                for a in self.axioms[n0:]: st.pc.append(a)
                del self.axioms[n0:]
            if self.record is not None: self.record.add((r, k))

    def loop_inv(self, n, lid, spec, cond, inc, body, st, fr, is_do):
        from .spec import SpecEnv
        line = n.get("_line")
        entry = st.copy()
        mods = self.loop_modset(n, lid, spec, cond, inc, body, st, fr, is_do)
        label = "loop%d" % lid

        def env(s):
            return SpecEnv(self, s, self.entry, self.scope_names(fr), pre=entry)

        def check(s, what):
            for i, iv in enumerate(self.invs(spec)):
                self.oblige(s, env(s).eval_bool(iv), "invariant", line, "%s inv[%d] %s: %s" % (label, i, what, iv))
            for pn, e in spec.ptr.items():
                ev = env(s)
                self.oblige(s, self.ptr_binop("==", ev.eval(pn)._p, ev.eval(e)._p, s, None), "invariant", line, "%s pointer %s %s: %s" % (label, pn, what, e))
        check(st, "initially")
        self.havoc_mods(st, mods, entry)
        for pn, e in spec.ptr.items():
            reg = self.scope_names(fr)[pn]
            st.mem[(reg, ())] = env(st).eval(e)._p
        for g, upd_ in (spec.ghost or {}).items(): pass
        for iv in self.invs(spec): st.assume(env(st).eval_bool(iv))
        for iv in spec.free: st.assume(env(st).eval_bool(iv))
        head = st.copy()
        if is_do:
            try:
                try:
                    st = self.exec(body, st, fr)
                except ContinueX as c:
                    st = c.args[0]
                c = self.ev_cond(cond, st, fr)
                if self.choose(st, c):
                    for h in spec.hints: self.oblige(st, env(st).eval_bool(h), "hint", line, "%s hint: %s" % (label, h))
                    check(st, "preserved")
                    self.dec_check(spec, env, head, st, line, label)
                    raise PathEnd()
                return st
            except BreakX as b:
                return b.args[0]
        if self.choose_free():
            c = self.ev_cond(cond, st, fr)
            st.assume(c)
            if not self.silent and len(self.trail) >= len(self.prefix): self.covers.append(("%s body" % label, list(st.pc)))
            try:
                try:
                    st = self.exec(body, st, fr)
                except ContinueX as c:
                    st = c.args[0]
                if inc: self.eval(inc, st, fr)
            except BreakX as b:
                return b.args[0]
            for h in spec.hints: self.oblige(st, env(st).eval_bool(h), "hint", line, "%s hint: %s" % (label, h))
            check(st, "preserved")
            self.dec_check(spec, env, head, st, line, label)
            raise PathEnd()
        c = self.ev_cond(cond, st, fr)
        st.assume(Not(c) if not isinstance(c, bool) else (not c))
        for h in spec.after: self.oblige(st, env(st).eval_bool(h), "hint", line, "%s after: %s" % (label, h))
        return st

    def invs(self, spec):
        """invariants marked "guarded: " hold only under the guard and are not used in the second run without it"""
        ung = self.opts.get("unguarded")
        return [iv[8:] if iv.startswith("guarded:") else iv for iv in spec.inv if not (ung and iv.startswith("guarded:"))]

    def dec_check(self, spec, env, head, st, line, label):
        if spec.decreases is None: return
        v0 = env(head).eval(spec.decreases)
        v1 = env(st).eval(spec.decreases)
        self.oblige(st, And(cmp("<", v1, v0), cmp("<=", 0, v0)), "termination", line, "%s decreases %s" % (label, spec.decreases))

    # ----------------------------------------------------------- name scopes
    def scope_names(self, fr):
        names = dict(fr.names)
        if fr.callpath:
            # helper inlined: outer formals remain visible under their names
            for k, v in self.top.names.items(): names.setdefault(k, v)
        return names

    def entry_names(self):
        return self.top.names

    # ============================================================ expressions
    def truth(self, v):
        if isinstance(v, Ptr):
            return Not(v.null)
        if isinstance(v, FuncRef): return True
        return v

    def eval(self, n, st, fr):
        m = getattr(self, "e_" + n["kind"], None)
        if m is None:
            raise EngineError("expression kind %s (line %s)" % (n["kind"], n.get("_line")))
        return m(n, st, fr)

    def ety(self, n): return self.prog.ctype(n["type"].get("qualType"))

    def e_IntegerLiteral(self, n, st, fr): return int(n["value"])
    def e_CharacterLiteral(self, n, st, fr): return int(n["value"])
    def e_FloatingLiteral(self, n, st, fr):
        return Fraction(n["value"]) if "e" not in n["value"].lower() else Fraction(n["value"])
    def e_StringLiteral(self, n, st, fr): return self.lval(n, st, fr)
    def e_ParenExpr(self, n, st, fr): return self.eval(n["inner"][0], st, fr)
    def e_ConstantExpr(self, n, st, fr): return self.eval(n["inner"][0], st, fr)

    def e_UnaryExprOrTypeTraitExpr(self, n, st, fr):
        if "argType" in n: t = self.prog.ctype(n["argType"]["qualType"])
        else: t = self.ety(n["inner"][0])
        return self.prog.sizeof(t)

    def e_DeclRefExpr(self, n, st, fr):
        d = n["referencedDecl"]
        if d["kind"] == "EnumConstantDecl": return self.prog.enums[d["name"]]
        if d["kind"] == "FunctionDecl": return FuncRef(d["name"])
        return self.load(st, self.lval(n, st, fr), n.get("_line"))

    def lval(self, n, st, fr):
        k = n["kind"]
        if k == "ParenExpr": return self.lval(n["inner"][0], st, fr)
        if k == "DeclRefExpr":
            d = n["referencedDecl"]
            r = fr.vars.get(d["id"])
            if r is None:
                if d["kind"] == "FunctionDecl": return FuncRef(d["name"])
                return self.global_lval(d, st)
            return Ptr(r, ())
        if k == "ArraySubscriptExpr":
            b = self.eval(n["inner"][0], st, fr)
            i = self.eval(n["inner"][1], st, fr)
            if not isinstance(b, Ptr): b, i = i, b
            return self.padd(b, i, n)
        if k == "MemberExpr":
            if n.get("isArrow"):
                b = self.eval(n["inner"][0], st, fr)
            else:
                b = self.lval(n["inner"][0], st, fr)
            if not isinstance(b, Ptr): raise EngineError("member of %r" % b)
            if b.region is None:
                self.oblige(st, False, "memory", n.get("_line"), "no null dereference")
            t = self.type_at(b.region, b.steps)
            if isinstance(t, TArr): b = Ptr(b.region, b.steps + (0,), b.null)
            return Ptr(b.region, b.steps + (n["name"],), b.null)
        if k == "UnaryOperator" and n["opcode"] == "*":
            p = self.eval(n["inner"][0], st, fr)
            return p
        if k == "StringLiteral":
            key = ("str", n["value"])
            r = self._static_regions.get(key)
            if r is None:
                r = Region("str:" + n["value"], TInt("char", 8, True), 1, [len(n["value"]) + 1], "const")
                r.text = _cstring(n["value"])
                self._static_regions[key] = r
            return Ptr(r, (0,))
        if k in ("ImplicitCastExpr", "CStyleCastExpr") and n.get("castKind") == "NoOp":
            return self.lval(n["inner"][0], st, fr)
        if k == "CompoundLiteralExpr":
            raise EngineError("compound literal")
        raise EngineError("lvalue kind %s" % k)

    def global_lval(self, d, st):
        r = self._static_regions.get(("g", d["id"]))
        if r is None:
            t = self.prog.ctype(d["type"]["qualType"])
            r = Region(d["name"], t, 0, [], "global")
            self._static_regions[("g", d["id"])] = r
        return Ptr(r, ())

    def padd(self, p, i, n=None):
        if not isinstance(p, Ptr): raise EngineError("pointer arithmetic on %r" % (p,))
        i = to_int(i)
        if p.region is None: return p
        if is_conc(i) and i == 0: return p
        if not p.steps or isinstance(p.steps[-1], str):
            # pointer to a single object: model as array of length 1
            raise_it = Ptr(p.region, p.steps, p.null, p.flat)
            q = Ptr(_OneArr.of(p.region, p.steps), (i,), p.null) if False else None
            raise EngineError("pointer arithmetic past a single object (%s)" % p.region.name)
        if len(p.steps) <= p.region.ndims and len(p.steps) < p.region.ndims:
            raise EngineError("partial pointer")
        return Ptr(p.region, p.steps[:-1] + (add(p.steps[-1], i),), p.null, p.flat)

    def decay(self, p):
        """array lvalue -> pointer to first element"""
        return Ptr(p.region, p.steps + (0,), p.null, p.flat)

    def e_ArraySubscriptExpr(self, n, st, fr): return self.load(st, self.lval(n, st, fr), n.get("_line"))
    def e_MemberExpr(self, n, st, fr):
        if not n.get("isArrow") and _strip(n["inner"][0])["kind"] == "CallExpr":
            v = self.eval(n["inner"][0], st, fr)
            return v.leaves[(n["name"],)]
        return self.load(st, self.lval(n, st, fr), n.get("_line"))

    def e_ImplicitCastExpr(self, n, st, fr): return self.cast(n, st, fr)
    def e_CStyleCastExpr(self, n, st, fr): return self.cast(n, st, fr)

    def cast(self, n, st, fr):
        ck = n["castKind"]
        sub_ = n["inner"][0]
        if ck == "LValueToRValue":
            return self.load(st, self.lval(sub_, st, fr), n.get("_line"))
        if ck == "ArrayToPointerDecay":
            p = self.lval(sub_, st, fr)
            if sub_["kind"] == "StringLiteral" or _strip(sub_)["kind"] == "StringLiteral": return p
            return self.decay(p)
        if ck in ("FunctionToPointerDecay", "BuiltinFnToFnPtr"):
            return self.lval(sub_, st, fr) if sub_["kind"] != "DeclRefExpr" else FuncRef(sub_["referencedDecl"]["name"])
        if ck in ("NullToPointer",): return NULLP
        v = self.eval(sub_, st, fr)
        to = self.ety(n)
        if ck == "IntegralCast":
            if isinstance(to, TInt):
                frm = self.ety(sub_)
                if isinstance(frm, TInt) and to.lo <= frm.lo and frm.hi <= to.hi: return to_int(v)
                return T.wrap_int(v, to)
            return v
        if ck == "IntegralToFloating": return to_real(v)
        if ck == "FloatingCast": return v
        if ck == "FloatingToIntegral":
            r = T.trunc(v)
            if self.contract.check_overflow and not is_conc(r) and isinstance(to, TInt):
                if to.bits >= 32:
                    self.oblige(st, And(cmp("<", to.lo - 1, v), cmp("<", v, to.hi + 1)), "overflow", n.get("_line"), "double to %s conversion in range" % to)
                else:
                    self.oblige(st, And(cmp("<", to.lo - 1, v), cmp("<", v, to.hi + 1)), "overflow", n.get("_line"), "double to %s conversion in range" % to)
            return r
        if ck in ("IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean"):
            return to_bool(self.truth(v))
        if ck == "ToVoid": return None
        if ck == "NoOp": return v
        if ck == "BitCast":
            if isinstance(v, Ptr): return self.ptr_cast(v, to)
            return v
        if ck in ("PointerToIntegral", "IntegralToPointer"):
            if isinstance(v, int) and v == 0: return NULLP
            raise EngineError("pointer/integer cast")
        raise EngineError("cast kind %s" % ck)

    def ptr_cast(self, p, to):
        if p.region is None or not isinstance(to, TPtr): return p
        if isinstance(p.region, PendingAlloc):
            if isinstance(to.to, TVoid): return p
            return p.region.materialise(self, to.to, p)
        want = to.to
        if isinstance(want, TVoid): return p
        try:
            t = self.type_at(p.region, p.steps)
        except EngineError:
            return p
        q = p
        guard = 0
        while t != want and isinstance(t, TArr) and guard < 4:
            q = Ptr(q.region, q.steps + (0,), q.null, True)
            t = t.of
            guard += 1
        if t == want: return q
        if isinstance(t, TStruct) and isinstance(want, TStruct):
            # base-struct upcast: first field
            fl = self.prog.fields(t.tag)
            if fl and fl[0][1] == want: return Ptr(q.region, q.steps + (fl[0][0],), q.null)
            # downcast base -> derived when region is really derived
            if q.steps and self.prog.fields(want.tag)[0][1] == t and q.steps[-1] == self.prog.fields(want.tag)[0][0]:
                return Ptr(q.region, q.steps[:-1], q.null)
        if isinstance(t, TInt) and isinstance(want, TInt) and t.bits == want.bits: return p
        # pointer to array <- flat pointer (double* -> double(*)[k])
        raise EngineError("pointer cast %r -> %r" % (t, want))

    def e_UnaryOperator(self, n, st, fr):
        op = n["opcode"]
        sub_ = n["inner"][0]
        line = n.get("_line")
        if op == "*":
            return self.load(st, self.lval(n, st, fr), line)
        if op == "&":
            return self.lval(sub_, st, fr)
        if op in ("++", "--"):
            lv = self.lval(sub_, st, fr)
            old = self.load(st, lv, line)
            if isinstance(old, Ptr):
                new = self.padd(old, 1 if op == "++" else -1, n)
            elif T.is_real(old):
                new = add(old, 1 if op == "++" else -1)
            else:
                new = self.iarith("+" if op == "++" else "-", old, 1, self.ety(sub_), st, line)
            self.store(st, lv, new, line)
            return old if n.get("isPostfix") else new
        v = self.eval(sub_, st, fr)
        if op == "-":
            if T.is_int(v): return self.iarith("-", 0, v, self.ety(n), st, line)
            return neg(v)
        if op == "+": return v
        if op == "!": return Not(to_bool(self.truth(v)))
        if op == "~": return sub(-1, v)
        raise EngineError("unary %s" % op)

    def iarith(self, op, a, b, t, st, line):
        a, b = to_int(a), to_int(b)
        if op == "+": r = add(a, b)
        elif op == "-": r = sub(a, b)
        elif op == "*": r = mul(a, b)
        elif op in ("/", "%"):
            g = cmp("!=", b, 0)
            if g is not True: self.oblige(st, g, "arith", line, "integer divisor is nonzero")
            r = T.idiv_trunc(a, b) if op == "/" else T.imod_trunc(a, b)
            return r
        elif op == "<<" and is_conc(b): r = mul(a, 1 << b)
        elif op == ">>" and is_conc(b): return T.floor_(rdiv(a, 1 << b)) if is_conc(a) else z(a) / (1 << b)
        elif op == "&" and is_conc(a) and is_conc(b): return a & b
        elif op == "|" and is_conc(a) and is_conc(b): return a | b
        elif op == "&" and is_conc(b) and b >= 0 and (b & (b + 1)) == 0: return z(a) % (b + 1)
        else: raise EngineError("int op %s" % op)
        if isinstance(t, TInt) and not is_conc(r):
            if t.signed:
                if self.contract.check_overflow:
                    self.oblige(st, And(cmp("<=", t.lo, r), cmp("<=", r, t.hi)), "overflow", line, "no signed overflow in %s" % op)
            elif t.bits < 64:
                return T.wrap_int(r, t)
            else:
                if self.contract.check_overflow and op == "-":
                    self.oblige(st, cmp("<=", 0, r), "overflow", line, "no unsigned wrap")
        return r

    def binop(self, op, a, b, t, st, line):
        if isinstance(a, Ptr) or isinstance(b, Ptr): return self.ptr_binop(op, a, b, st, line)
        if op in ("<", "<=", ">", ">=", "==", "!="):
            return cmp(op, a, b)
        if isinstance(t, TReal):
            if op == "+": return add(to_real(a), to_real(b))
            if op == "-": return sub(to_real(a), to_real(b))
            if op == "*": return mul(to_real(a), to_real(b))
            if op == "/":
                g = cmp("!=", b, 0)
                if g is not True and self.contract.check_div:
                    self.oblige(st, g, "arith", line, "divisor is nonzero")
                return rdiv(a, b)
        return self.iarith(op, a, b, t, st, line)

    def ptr_binop(self, op, a, b, st, line):
        if op in ("+", "-") and isinstance(a, Ptr) and not isinstance(b, Ptr):
            return self.padd(a, b if op == "+" else neg(to_int(b)))
        if op == "+" and isinstance(b, Ptr): return self.padd(b, a)
        if not isinstance(a, Ptr): a = NULLP
        if not isinstance(b, Ptr): b = NULLP
        if op in ("==", "!="):
            if a.region is None and b.region is None: r = True
            elif a.region is None: r = b.null
            elif b.region is None: r = a.null
            elif a.region is not b.region: r = And(a.null, b.null)
            else:
                r = True
                for x, y in zip(a.steps, b.steps):
                    if isinstance(x, str) or isinstance(y, str):
                        if x != y: r = False
                    else: r = And(r, cmp("==", x, y))
            return r if op == "==" else Not(r)
        if a.region is b.region and a.region is not None and a.steps[:-1] == b.steps[:-1]:
            if op == "-": return sub(a.steps[-1], b.steps[-1])
            return cmp(op, a.steps[-1], b.steps[-1])
        raise EngineError("pointer op %s" % op)

    def e_BinaryOperator(self, n, st, fr):
        op = n["opcode"]
        l, r = n["inner"]
        line = n.get("_line")
        if op == "=":
            t = self.ety(l)
            if isinstance(t, TStruct):
                v = self.eval(r, st, fr) if _strip(r)["kind"] == "CallExpr" else self.eval(r, st, fr)
                lv = self.lval(l, st, fr)
                self.store(st, lv, v, line)
                return v
            v = self.eval(r, st, fr)
            lv = self.lval(l, st, fr)
            self.store(st, lv, v, line)
            return v
        if op == ",":
            self.eval(l, st, fr)
            return self.eval(r, st, fr)
        if op in ("&&", "||"):
            a = to_bool(self.truth(self.eval(l, st, fr)))
            a = unz(a) if is_sym(a) else a
            if isinstance(a, bool):
                if a == (op == "||"): return a
                return to_bool(self.truth(self.eval(r, st, fr)))
            if _pure(r):
                # evaluate r with its guard assumed; result combined without forking
                s2 = st.copy()
                guard = a if op == "&&" else Not(a)
                n0 = len(s2.pc)
                try:
                    s2.assume(guard)
                except PathEnd:
                    return a
                n1 = len(s2.pc)
                b = to_bool(self.truth(self.eval(r, s2, fr)))
                for c in s2.pc[n1:]: st.pc.append(z3.Implies(z(guard), c))
                return And(a, b) if op == "&&" else Or(a, b)
            if op == "&&":
                if not self.choose(st, a): return False
            else:
                if self.choose(st, a): return True
            return to_bool(self.truth(self.eval(r, st, fr)))
        a = self.eval(l, st, fr)
        b = self.eval(r, st, fr)
        return self.binop(op, a, b, self.ety(n), st, line)

    def e_CompoundAssignOperator(self, n, st, fr):
        op = n["opcode"][:-1]
        l, r = n["inner"]
        line = n.get("_line")
        b = self.eval(r, st, fr)
        lv = self.lval(l, st, fr)
        a = self.load(st, lv, line)
        ct = self.prog.ctype(n["computeResultType"]["qualType"])
        lt = self.ety(l)
        if isinstance(a, Ptr):
            v = self.ptr_binop(op, a, b, st, line)
        else:
            if isinstance(ct, TReal): a, b = to_real(a), to_real(b)
            v = self.binop(op, a, b, ct, st, line)
            if isinstance(lt, TInt) and isinstance(ct, TReal):
                v0 = v
                v = T.trunc(v)
                if self.contract.check_overflow and not is_conc(v):
                    self.oblige(st, And(cmp("<", lt.lo - 1, v0), cmp("<", v0, lt.hi + 1)), "overflow", line, "double to %s conversion in range" % lt)
            elif isinstance(lt, TInt) and isinstance(ct, TInt) and not (lt.lo <= ct.lo and ct.hi <= lt.hi):
                v = T.wrap_int(v, lt)
        self.store(st, lv, v, line)
        return v

    def e_ConditionalOperator(self, n, st, fr):
        c, a, b = n["inner"]
        cv = to_bool(self.truth(self.eval(c, st, fr)))
        cv = unz(cv) if is_sym(cv) else cv
        if isinstance(cv, bool): return self.eval(a if cv else b, st, fr)
        if self.contract.merge and _pure(a) and _pure(b):
            s1, s2 = st.copy(), st.copy()
            s1.assume(cv)
            s2.assume(Not(cv))
            n1, n2 = len(s1.pc), len(s2.pc)
            va = self.eval(a, s1, fr)
            vb = self.eval(b, s2, fr)
            for x in s1.pc[n1:]: st.pc.append(z3.Implies(cv, x))
            for x in s2.pc[n2:]: st.pc.append(z3.Implies(Not(cv), x))
            return self.merge_val(cv, va, vb)
        if self.choose(st, cv): return self.eval(a, st, fr)
        return self.eval(b, st, fr)

    # ------------------------------------------------------------------ calls
    def e_CallExpr(self, n, st, fr):
        name = _callee_name(n)
        args = n["inner"][1:]
        line = n.get("_line")
        if name is None:
            f = self.eval(n["inner"][0], st, fr)
            if isinstance(f, FuncRef): name = f.name
            else: raise EngineError("indirect call")
        from . import builtins
        if name in self.contracts and name != "__none__":
            vals = [self.eval(a, st, fr) for a in args]
            if self.contracts[name].inline: return self.inline_call(n, name, vals, st, fr)
            return self.call_contract(n, name, vals, st, fr)
        if name in self.prog.funcs:
            vals = [self.eval(a, st, fr) for a in args]
            return self.inline_call(n, name, vals, st, fr)
        h = builtins.TABLE.get(name)
        if h is None:
            raise EngineError("call to unknown external %s" % name)
        return h(self, n, args, st, fr)

    def inline_call(self, n, name, vals, st, fr):
        f = self.prog.funcs[name]
        if fr.depth > 12: raise EngineError("inlining depth (recursion without contract?): %s" % name)
        self.inlined.add(name)
        nf = Frame(f, fr.depth + 1, fr.callpath + (n["id"],))
        for (pn, pt, pid), v in zip(f.params, vals):
            r = self.local_region(nf, pid, pn, pt)
            nf.vars[pid] = r
            nf.names[pn] = r
            if isinstance(v, StructVal):
                for k, x in v.leaves.items(): self.put(st, r, k, x)
            else:
                self.put(st, r, (), self.conv_leaf(v, pt) if not isinstance(v, (Undef, Ptr)) else v)
        try:
            st2 = self.exec(f.body, st, nf)
            ret = None
        except ReturnX as x:
            ret, st2 = x.val
        if st2 is not st:
            # state object replaced (merged): copy back in place
            st.mem, st.pc, st.freed, st.facts, st.ghost = st2.mem, st2.pc, st2.freed, st2.facts, st2.ghost
        return ret

    def call_contract(self, n, name, vals, st, fr):
        from .spec import SpecEnv
        ct = self.contracts[name]
        f = self.prog.funcs.get(name)
        line = n.get("_line")
        params = f.params if f else ct.ext_params
        self.used_contracts.add(name)
        names = {}
        for (pn, pt, pid), v in zip(params, vals):
            names[pn] = self.bind_value(pn, pt, v)
        pre = st.copy()
        env = SpecEnv(self, st, pre, names, binding=True)
        env.ptr_names = {pn: v for (pn, _, _), v in zip(params, vals) if isinstance(v, Ptr)}
        # shapes: lengths / non-null / separation
        self.check_shapes(ct, names, env, st, line, name)
        for i, rq in enumerate(ct.requires):
            self.oblige(st, env.eval_bool(rq), "requires", line, "call %s requires[%d]: %s" % (name, i, rq))
        pre = st.copy()
        if name == self.fn.name and ct.decreases is not None:
            v1 = env.eval(ct.decreases)
            e0 = SpecEnv(self, self.entry, self.entry, self.entry_bind)
            v0 = e0.eval(ct.decreases)
            self.oblige(st, And(cmp("<", v1, v0), cmp("<=", 0, v0)), "termination", line, "recursion decreases %s" % ct.decreases)
        # assigns
        env = SpecEnv(self, pre, pre, names, binding=True)
        locs = []
        for a in ct.assigns:
            locs += env.locs(a)
        for ls in locs:
            self.check_assigns_locset(st, ls, line, name)
        self.havoc_locs(st, locs, line)
        # result
        res = None
        rt = f.ret if f else ct.ext_ret
        if ct.result_alloc:
            res = ct.result_alloc(self, SpecEnv(self, pre, pre, names, binding=True), st)
        elif isinstance(rt, (TInt, TReal)):
            res = self.fresh("ret_" + name, self.sort_of(rt, 0))
            if isinstance(rt, TInt): st.pc.append(z3.And(res >= rt.lo, res <= rt.hi))
        elif isinstance(rt, TPtr):
            res = None
        post = SpecEnv(self, st, pre, names, result=res, binding=True)
        gd = True
        if ct.guard:
            genv = SpecEnv(self, pre, pre, names, binding=True)
            gd = And(*[genv.eval_bool(g) for g in ct.guard])
            gd = unz(gd) if is_sym(gd) else gd
        if gd is not False and name not in self.contract.weak_calls:
            for en in ct.ensures:
                v = post.eval_bool(en)
                st.assume(v if gd is True else Implies(gd, v))
        for en in ct.ens_assumed: st.assume(post.eval_bool(en))
        return res

    def bind_value(self, pn, pt, v):
        return ("val", v, pt)

    def check_shapes(self, ct, names, env, st, line, callee):
        """non-null + length + separation obligations for pointer arguments"""
        ptrs = []
        for pn, (_, v, pt) in list(names.items()):
            if not isinstance(v, Ptr): continue
            if not isinstance(pt, TPtr): continue
            shp = ct.shapes.get(pn, "1")
            nullable = isinstance(shp, str) and shp.endswith("?")
            if nullable: shp = shp[:-1].strip() or "1"
            if v.region is None:
                if not nullable:
                    self.oblige(st, False, "requires", line, "call %s: %s is not NULL" % (callee, pn))
                continue
            if v.null is not False and not nullable:
                self.oblige(st, Not(v.null), "requires", line, "call %s: %s is not NULL" % (callee, pn))
            if isinstance(v.region, PendingAlloc): continue
            ptrs.append((pn, v))
            # length
            if shp == "*": need = 0
            elif shp in ("1", 1):
                need = 1
            elif isinstance(shp, str) and " x " in shp:
                need = mul(*[env.eval(x.strip()) for x in shp.split(" x ")])
                if getattr(v.region, "stride", None) is not None:
                    self.oblige(st, cmp("==", env.eval(shp.split(" x ")[1].strip()), v.region.stride), "requires", line, "call %s: %s row length" % (callee, pn))
            else:
                need = env.eval(shp)
            try:
                avail = self.avail(v)
            except EngineError:
                avail = None
            if avail is not None:
                g = cmp("<=", need, avail)
                self.oblige(st, g, "requires", line, "call %s: %s has room for %s elements" % (callee, pn, shp))
                if v.steps and not isinstance(v.steps[-1], str) and not v.flat:
                    self.oblige(st, cmp("<=", 0, v.steps[-1]), "requires", line, "call %s: %s in bounds" % (callee, pn))
        # separation: written params must not overlap other pointer params, unless an allowed alias
        written = set()
        for a in ct.assigns:
            import re
            m = re.match(r"[\s(]*(?:all\()?\s*([A-Za-z_]\w*)", a)
            if m: written |= {m.group(1), m.group(1).rstrip("_")}
        for (p1, v1), (p2, v2) in itertools.combinations(ptrs, 2):
            if v1.region is not v2.region: continue
            if p1 not in written and p2 not in written: continue
            ov = self.may_overlap(ct, p1, v1, p2, v2, env, names)
            if ov is False: continue
            allowed = any(set((x, y)) == {p1, p2} for al in ct.alias for x, y in al)
            if allowed and v1.steps == v2.steps:
                continue
            self.oblige(st, Not(ov), "requires", line, "call %s: %s and %s do not overlap" % (callee, p1, p2))

    def may_overlap(self, ct, p1, v1, p2, v2, env, names):
        s1, s2 = v1.steps, v2.steps
        conds = []

        def rng(pn, v):
            shp = ct.shapes.get(pn, "1")
            if isinstance(shp, str) and shp.endswith("?"): shp = shp[:-1].strip() or "1"
            if isinstance(shp, str) and " x " in shp: return mul(*[env.eval(x.strip()) for x in shp.split(" x ")])
            if shp == "*": return self.avail(v)
            return 1 if shp in ("1", 1) else env.eval(shp)
        n = min(len(s1), len(s2))
        for i in range(n):
            a, b = s1[i], s2[i]
            if isinstance(a, str) and isinstance(b, str):
                if a != b: return False
                continue
            if isinstance(a, str) or isinstance(b, str): return True
            la = rng(p1, v1) if i == len(s1) - 1 else 1
            lb = rng(p2, v2) if i == len(s2) - 1 else 1
            conds.append(And(cmp("<", a, add(b, lb)), cmp("<", b, add(a, la))))
        return And(*conds)

    def avail(self, v):
        """number of elements from v to the end of its array, or 1 for single objects"""
        if not v.steps or isinstance(v.steps[-1], str): return 1
        if v.flat:
            # product of trailing dims
            r = v.region
            t = r.etype
            dims = []
            for i, s in enumerate(v.steps):
                if i < r.ndims: d = r.lens[i]
                elif isinstance(s, str):
                    t = self.prog.field_type(t.tag, s)
                    d = None
                else:
                    d = t.n
                    t = t.of
                dims.append((s, d))
            tot, off = 1, 0
            for s, d in reversed(dims):
                if isinstance(s, str) or d is None: break
                off = add(off, mul(s, tot))
                tot = mul(tot, d)
            return sub(tot, off)
        i = len(v.steps) - 1
        r = v.region
        if i < r.ndims: ln = r.lens[i]
        else:
            t = self.type_at(r, v.steps[:-1])
            ln = t.n
        if ln is None: return None
        return sub(ln, v.steps[-1])

    def check_assigns_locset(self, st, ls, line, callee):
        r = ls.region
        if r is None or r.kind in ("local", "heap"): return
        if self.silent: return
        # containment: every location of ls within some assign LocSet of ours
        js = []
        steps = []
        conds = []
        for s in ls.steps:
            if isinstance(s, tuple):
                j = self.fresh("loc", z3.IntSort())
                if s[1] is not None: conds.append(And(cmp("<=", s[1], j), cmp("<", j, s[2])))
                steps.append(j)
            else:
                steps.append(s)
        gs = []
        for mine in self.assign_locs:
            if mine.region is not r: continue
            ok = True
            cs = []
            for a, b in itertools.zip_longest(mine.steps, steps):
                if a is None: break
                if b is None: ok = False; break
                if isinstance(a, str) or isinstance(b, str):
                    if a != b: ok = False; break
                    continue
                if isinstance(a, tuple):
                    if a[1] is not None: cs.append(And(cmp("<=", a[1], b), cmp("<", b, a[2])))
                else:
                    cs.append(cmp("==", a, b))
            if ok: gs.append(And(*cs))
        g = Implies(And(*conds), Or(*gs))
        if g is not True:
            self.oblige(st, g, "frame", line, "call %s writes only what the caller may assign (%s)" % (callee, r.name))

    # ============================================================== top level
    def run(self):
        from .spec import SpecEnv
        f = self.fn
        c = self.contract

        def one():
            self.fresh_n = 0
            st = State()
            self._st0 = st
            fr = Frame(f, 0, ())
            self.top = fr
            self.entry = None
            ptr_regions = {}
            # scalars first (lengths depend on them)
            for pass_ in (0, 1, 2):
                for pn, pt, pid in f.params:
                    isp = isinstance(pt, TPtr)
                    shp = c.shapes.get(pn, "1")
                    # single objects before arrays, whose lengths may depend on them
                    if (0 if not isp else 1 if str(shp).rstrip("? ") in ("1", "0", "*") or str(shp).isdigit() else 2) != pass_: continue
                    key = ("param", pid)
                    r = self._static_regions.get(key)
                    if r is None:
                        r = Region(pn, pt, 0, [], "local")
                        self._static_regions[key] = r
                    fr.vars[pid] = r
                    fr.names[pn] = r
                    if isp:
                        al = [a for a, b in self.alias if a == pn]
                        pkey = ("ppt", pid)
                        p = self._static_regions.get(pkey)
                        if p is None:
                            tgt = [b for a, b in self.alias if a == pn]
                            if tgt:
                                tid = [q for (qn, qt, q) in f.params if qn == tgt[0]][0]
                                p = self._static_regions[("ppt", tid)] if ("ppt", tid) in self._static_regions else None
                                if p is None:
                                    p = self.make_pointer(tgt[0], [qt for (qn, qt, q) in f.params if qn == tgt[0]][0])
                                    self._static_regions[("ppt", tid)] = p
                            else:
                                p = self.make_pointer(pn, pt)
                            self._static_regions[pkey] = p
                            if p.region is not None and not p.region.ndims and isinstance(p.region.etype, TStruct):
                                for a, b in self.alias:
                                    if b.startswith("=") and a.startswith(pn + "."): p.region.initial[tuple(a.split(".")[1:])] = int(b[1:])
                        r.initial[()] = p
                    else:
                        src = self._static_regions.get(("pval", pid))
                        if src is None:
                            src = Region(pn, pt, 0, [], "param")
                            src.shape_base = pn
                            self._static_regions[("pval", pid)] = src
                        for k, lt, stars in self.leaves(pt):
                            v = self.case_value(pn, k)
                            if v is None: v = self.initial(src, k)
                            r.initial[k] = v
            self.entry = st.copy()
            st.pc.extend(self.axioms_entry())
            env = SpecEnv(self, st, self.entry, fr.names)
            for rq in c.requires:
                st.assume(env.eval_bool(rq))
            for rq in c.trusted:
                st.assume(env.eval_bool(rq))
            if not self.opts.get("unguarded"):
                for rq in c.guard: st.assume(env.eval_bool(rq))
            self.entry = st.copy()
            self.entry_bind = dict(fr.names)
            aenv = SpecEnv(self, self.entry, self.entry, fr.names)
            self.assign_locs = []
            for a in c.assigns: self.assign_locs += aenv.locs(a)
            if len(self.trail) >= len(self.prefix):
                self.covers.append(("precondition", list(st.pc)))
            line = None
            try:
                st = self.exec(f.body, st, fr)
                res = None
                line = "end"
            except ReturnX as x:
                res, st = x.val
                line = getattr(fr, "ret_line", None)
            self.paths += 1
            penv = SpecEnv(self, st, self.entry, self.entry_bind, result=res, post=True)
            penv.locals = fr.names
            if len(self.trail) >= len(self.prefix):
                self.covers.append(("exit", list(st.pc)))
            if self.opts.get("unguarded"): return
            for i, h in enumerate(c.post_hints):
                h, by = (h, None) if isinstance(h, (str, dict)) else h
                self.cut(st, penv, "[%d]" % i, h, by, line, "hint")
            for i, en in enumerate(c.ensures):
                self.oblige(st, penv.eval_bool(en), "ensures", line, "ensures[%d]: %s" % (i, en))
        for _ in range(200):
            try:
                self.obls, self.covers, self.paths = [], [], 0
                self.modcache = {}
                self.explore(one)
                break
            except Restart:
                self.record, self.silent = None, 0
                continue
        # de-duplicate
        seen, out = set(), []
        for o in self.obls:
            if o.goal is True:
                k = (o.name, True)
            else:
                k = (o.goal.get_id() if is_sym(o.goal) else False, tuple(c.get_id() for c in o.pc))
            if k in seen: continue
            seen.add(k)
            out.append(o)
        self.obls = out
        return out

    def axioms_entry(self): return []

    def case_value(self, pn, key):
        """value of a scalar parameter fixed by the case being verified"""
        for a, b in self.alias:
            if b.startswith("=") and a == pn and key == (): return int(b[1:])
        return None


class PendingAlloc:
    """malloc result before its cast is known"""
    name = "malloc"
    kind = "heap"

    def __init__(self, size, zero, dims=None): self.size, self.zero, self.dims = size, zero, dims

    def materialise(self, eng, etype, p):
        sz = eng.prog.sizeof(etype)
        size = self.size
        ndims = 1
        if is_conc(size):
            n = size // sz
        else:
            n = _div_by(size, sz)
        if self.dims is not None:
            rr, cc, st, line = self.dims
            eng.oblige(st, And(cmp(">=", rr, 0), cmp(">=", cc, 0), cmp("==", mul(rr, cc), n)), "memory", line, "allocation has the size of the matrix")
            r = Region("heap%d" % eng.fresh_n, etype, 2, [rr, cc], "heap")
            eng.fresh_n += 1
            r.zero, r.stride = self.zero, cc
            if not self.zero:
                for k, lt, stars in eng.leaves(etype): r.initial[k] = eng.fresh("heap" + eng.name_of(r, k), eng.sort_of(lt, 2 + len(stars)))
            return Ptr(r, (0, 0), p.null, True)
        r = Region("heap%d" % eng.fresh_n, etype, 1, [n], "heap")
        eng.fresh_n += 1
        r.zero = self.zero
        if is_conc(n) and n <= EXPAND:
            if n == 1:
                r = Region(r.name, etype, 0, [], "heap")
                r.zero = self.zero
                return Ptr(r, (), p.null)
            r = Region(r.name, TArr(etype, n), 0, [], "heap")
            r.zero = self.zero
            return Ptr(r, (0,), p.null)
        if not self.zero:
            for k, lt, stars in eng.leaves(etype):
                if isinstance(lt, TPtr): continue
                r.initial[k] = eng.fresh("heap" + eng.name_of(r, k), eng.sort_of(lt, 1 + len(stars)))
        return Ptr(r, (0,), p.null)


def split_stride(s, c):
    """s = q*c + rem, syntactically (callers prove 0 <= rem < c)"""
    if is_conc(s) and is_conc(c): return s // c, s % c
    e = z3.simplify(z(s), som=True)
    terms = list(e.children()) if z3.is_add(e) else [e]
    q, rem = [], []
    for t in terms:
        k, fs = 1, []
        for f in (t.children() if z3.is_mul(t) else [t]):
            if z3.is_int_value(f): k *= f.as_long()
            else: fs.append(f)
        if is_conc(c):
            if fs and k % c == 0:
                q.append(mul(k // c, _prod(fs)))
                continue
            if not fs and c:
                q.append(k // c)
                rem.append(k % c)
                continue
        else:
            hit = [i for i, f in enumerate(fs) if f.eq(c)]
            if hit:
                fs.pop(hit[0])
                q.append(mul(k, _prod(fs)))
                continue
        rem.append(t)
    def tot(xs):
        v = 0
        for x in xs: v = add(v, x)
        return unz(v) if is_sym(v) else v
    return tot(q), tot(rem)


def _prod(fs):
    v = 1
    for f in fs: v = mul(v, f)
    return v


def _div_by(size, sz):
    """size term / sz when syntactically a multiple"""
    t = z3.simplify(z(size), som=True)
    if sz == 1: return t
    args = t.children() if z3.is_add(t) else [t]
    out = 0
    for a in args:
        if z3.is_int_value(a):
            c = a.as_long()
            if c % sz: return z(size) / sz
            out = add(out, c // sz)
        elif z3.is_mul(a) and z3.is_int_value(a.arg(0)):
            c = a.arg(0).as_long()
            if c % sz: return z(size) / sz
            rest = a.children()[1:]
            m = c // sz
            for x in rest: m = mul(m, x)
            out = add(out, m)
        else:
            return z(size) / sz
    return out


def _bigger(e, n):
    """tree size above n"""
    todo, k = [e], 0
    while todo:
        x = todo.pop()
        k += 1
        if k > n: return True
        todo.extend(x.children())
    return False


def _strip(n):
    while n["kind"] in ("ImplicitCastExpr", "ParenExpr", "CStyleCastExpr") and n.get("inner"):
        n = n["inner"][0]
    return n


def _callee_name(n):
    c = _strip(n["inner"][0])
    if c["kind"] == "DeclRefExpr": return c["referencedDecl"]["name"] if c["referencedDecl"]["kind"] == "FunctionDecl" else None
    return None


def _has_jump(n, in_loop=False, in_switch=False):
    k = n["kind"] if "kind" in n else None
    if k in ("ReturnStmt", "GotoStmt"): return True
    if k == "BreakStmt" and not in_loop: return True
    if k == "ContinueStmt" and not in_loop: return True
    lp = in_loop or k in ("ForStmt", "WhileStmt", "DoStmt")
    return any(_has_jump(c, lp) for c in n.get("inner", ()) if c)


def _pure(n):
    k = n.get("kind")
    if k == "CallExpr":
        return _callee_name(n) in ("sqrt", "fabs", "sin", "cos", "abs")
    if k == "CompoundAssignOperator": return False
    if k == "BinaryOperator" and n["opcode"] == "=": return False
    if k == "UnaryOperator" and n["opcode"] in ("++", "--"): return False
    return all(_pure(c) for c in n.get("inner", ()) if c)


_quant_cache = {}


def _has_quant(e):
    i = e.get_id()
    r = _quant_cache.get(i)
    if r is not None and r[1].eq(e): return r[0]
    if z3.is_quantifier(e): v = True
    else: v = any(_has_quant(c) for c in e.children())
    _quant_cache[i] = (v, e)
    return v


def _cstring(s):
    import ast
    try:
        return ast.literal_eval(s)
    except Exception:
        return s
