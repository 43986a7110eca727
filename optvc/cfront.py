"""C front end: clang's JSON AST of the real sources in /repo, on every run.

Nothing is hand-copied: every function body the verifier sees is obtained by
running clang on /repo's current working tree.  What is dropped: comments,
macros (already expanded by clang) and `const`/`static`/`inline` qualifiers.
"""
import json, os, re, subprocess, hashlib, tempfile

REPO = os.environ.get("OPTV_REPO", "/repo")
SRC = REPO + "/liboptv/src"
INC = REPO + "/liboptv/include"


# ----------------------------------------------------------------- C types
class CType:
    def __eq__(self, o): return type(self) is type(o) and self.__dict__ == o.__dict__
    def __hash__(self): return hash(repr(self))


class TVoid(CType):
    def __repr__(self): return "void"


class TInt(CType):
    def __init__(self, name, bits, signed):
        self.name, self.bits, self.signed = name, bits, signed

    @property
    def lo(self): return -(1 << (self.bits - 1)) if self.signed else 0

    @property
    def hi(self): return (1 << (self.bits - 1)) - 1 if self.signed else (1 << self.bits) - 1
    def __repr__(self): return self.name


class TReal(CType):
    def __init__(self, name="double"): self.name = name
    def __repr__(self): return self.name


class TPtr(CType):
    def __init__(self, to): self.to = to
    def __repr__(self): return "%r*" % (self.to,)


class TArr(CType):
    def __init__(self, of, n): self.of, self.n = of, n
    def __repr__(self): return "%r[%s]" % (self.of, self.n)


class TStruct(CType):
    def __init__(self, tag): self.tag = tag
    def __repr__(self): return "struct %s" % self.tag


class TFunc(CType):
    def __init__(self, ret): self.ret = ret
    def __repr__(self): return "func->%r" % self.ret


INT_TYPES = {
    "char": (8, True), "signed char": (8, True), "unsigned char": (8, False),
    "short": (16, True), "unsigned short": (16, False),
    "int": (32, True), "unsigned int": (32, False), "unsigned": (32, False),
    "long": (64, True), "unsigned long": (64, False), "long int": (64, True),
    "long unsigned int": (64, False), "long long": (64, True),
    "unsigned long long": (64, False), "_Bool": (8, False),
    "short int": (16, True), "unsigned short int": (16, False),
}
T_INT = TInt("int", 32, True)
T_DBL = TReal()


class FrontError(Exception):
    pass


class Program:
    """All translation units of the library, as parsed by clang."""

    def __init__(self):
        self.typedefs = {}
        self.structs = {}       # tag -> [(field, CType)]
        self.funcs = {}         # name -> Func
        self.enums = {}
        self.globals = {}
        self.decls = {}         # prototypes
        self._tcache = {}

    # -------------------------------------------------------------- types
    def ctype(self, s):
        if s in self._tcache:
            return self._tcache[s]
        t = self._parse_type(s)
        self._tcache[s] = t
        return t

    def _parse_type(self, s):
        toks = re.findall(r"[A-Za-z_][A-Za-z_0-9]*|\d+|\*|\(|\)|\[|\]|,|\.\.\.", s)
        pos = [0]

        def peek():
            return toks[pos[0]] if pos[0] < len(toks) else None

        def nxt():
            t = toks[pos[0]]
            pos[0] += 1
            return t
        words = []
        tag = None
        while peek() and re.match(r"[A-Za-z_]", peek()):
            w = nxt()
            if w in ("const", "volatile", "restrict", "register", "static", "inline", "extern", "__restrict"):
                continue
            if w in ("struct", "union", "enum"):
                if peek() and re.match(r"[A-Za-z_]", peek()):
                    tag = (w, nxt())
                else:
                    tag = (w, "?")
                continue
            words.append(w)
        if tag:
            base = TStruct(tag[1]) if tag[0] != "enum" else TInt("int", 32, True)
        else:
            nm = " ".join(words)
            if nm == "void":
                base = TVoid()
            elif nm in ("double", "float", "long double"):
                base = TReal(nm)
            elif nm in INT_TYPES:
                b, sg = INT_TYPES[nm]
                base = TInt(nm, b, sg)
            elif nm in self.typedefs:
                base = self.ctype(self.typedefs[nm]) if isinstance(self.typedefs[nm], str) else self.typedefs[nm]
            elif nm == "__builtin_va_list":
                base = TVoid()
            else:
                base = TStruct(nm)

        def declarator():
            """returns a function CType->CType"""
            stars = 0
            while peek() in ("*", "const", "volatile", "restrict", "__restrict"):
                if nxt() == "*":
                    stars += 1
            inner = None
            if peek() == "(" and pos[0] + 1 < len(toks) and toks[pos[0] + 1] in ("*", "("):
                nxt()
                inner = declarator()
                if peek() == ")":
                    nxt()
            suff = []
            while peek() in ("[", "("):
                if nxt() == "[":
                    n = None
                    if peek() != "]":
                        x = nxt()
                        n = int(x) if x.isdigit() else None
                    while peek() and peek() != "]":
                        nxt()
                    nxt()
                    suff.append(("arr", n))
                else:
                    depth = 1
                    while depth and peek():
                        x = nxt()
                        depth += (x == "(") - (x == ")")
                    suff.append(("func",))

            def build(t):
                for _ in range(stars):
                    t = TPtr(t)
                for sx in reversed(suff):
                    t = TArr(t, sx[1]) if sx[0] == "arr" else TFunc(t)
                return inner(t) if inner else t
            return build
        return declarator()(base)

    def fields(self, tag):
        return self.structs[tag]

    def field_type(self, tag, f):
        for n, t in self.structs[tag]:
            if n == f:
                return t
        raise FrontError("no field %s in %s" % (f, tag))

    def sizeof(self, t):
        if isinstance(t, TInt): return t.bits // 8
        if isinstance(t, TReal): return 4 if t.name == "float" else 8
        if isinstance(t, TPtr): return 8
        if isinstance(t, TArr): return self.sizeof(t.of) * t.n
        if isinstance(t, TStruct):
            off, al = 0, 1
            for _, ft in self.structs[t.tag]:
                a = self.alignof(ft)
                off = (off + a - 1) // a * a + self.sizeof(ft)
                al = max(al, a)
            return (off + al - 1) // al * al
        return 1

    def alignof(self, t):
        if isinstance(t, TArr): return self.alignof(t.of)
        if isinstance(t, TStruct):
            return max([self.alignof(ft) for _, ft in self.structs[t.tag]] or [1])
        return self.sizeof(t)


class Func:
    def __init__(self, name, params, ret, body, file, line):
        self.name, self.params, self.ret, self.body = name, params, ret, body
        self.file, self.line = file, line   # params: [(name, CType, id)]


def clang_text(path, defines=()):
    cmd = ["clang", "-x", "c", "-std=gnu11", "-I", INC, "-I", SRC, "-fsyntax-only", "-w",
           "-Xclang", "-ast-dump=json"] + ["-D" + d for d in defines] + [path]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode != 0:
        raise FrontError("clang failed on %s: %s" % (path, p.stderr.decode()[:2000]))
    return p.stdout


def _line_fixup(tu):
    """clang omits repeated file/line info; make `line` explicit on every node."""
    cur = [None, 0]

    def upd(loc):
        if not loc: return
        for k in ("spellingLoc", "expansionLoc"):
            if k in loc:
                upd(loc[k])
        if "file" in loc: cur[0] = loc["file"]
        if "line" in loc: cur[1] = loc["line"]

    st = [tu]
    # recursive walk in document order
    import sys
    sys.setrecursionlimit(100000)

    def walk(n):
        if "loc" in n: upd(n["loc"])
        f_, l_ = cur
        r = n.get("range")
        if r:
            upd(r.get("begin"))
            n["_line"] = cur[1]
            upd(r.get("end"))
        n["_file"] = f_ if f_ else cur[0]
        if r is None: n["_line"] = cur[1]
        for c in n.get("inner", ()):
            if c: walk(c)
    walk(tu)


def load_tu(prog, path, txt):
    tu = json.loads(txt)
    _line_fixup(tu)
    anon = {}
    for d in tu.get("inner", ()):
        k = d.get("kind")
        if k == "RecordDecl" and d.get("completeDefinition"):
            tag = d.get("name")
            flds = [(f["name"], f["type"]["qualType"]) for f in d.get("inner", ())
                    if f.get("kind") == "FieldDecl" and "name" in f]
            if tag is None:
                anon[d["id"]] = flds
            else:
                prog._pending.append((tag, flds))
        elif k == "TypedefDecl":
            nm = d["name"]
            q = d["type"]["qualType"]
            m = [c for c in d.get("inner", ()) if c.get("kind") == "ElaboratedType"]
            owned = None
            if m:
                o = m[0].get("ownedTagDecl")
                if o and o.get("kind") == "RecordDecl":
                    owned = o["id"]
            if owned in anon and (q.startswith("struct " + nm) or q == nm or "unnamed" in q or "anonymous" in q):
                prog._pending.append((nm, anon[owned]))
                prog.typedefs[nm] = TStruct(nm)
            elif q in ("struct " + nm,):
                prog.typedefs[nm] = TStruct(nm)
            elif "unnamed enum" in q or q.startswith("enum "):
                prog.typedefs[nm] = TInt("int", 32, True)
            else:
                prog.typedefs.setdefault(nm, q)
        elif k == "EnumDecl":
            v = -1
            for c in d.get("inner", ()):
                if c.get("kind") == "EnumConstantDecl":
                    v += 1
                    for x in c.get("inner", ()):
                        if "value" in x:
                            v = int(x["value"])
                    prog.enums[c["name"]] = v
        elif k == "FunctionDecl":
            body = [c for c in d.get("inner", ()) if c.get("kind") == "CompoundStmt"]
            params = [(c.get("name", "_"), c["type"]["qualType"], c["id"])
                      for c in d.get("inner", ()) if c.get("kind") == "ParmVarDecl"]
            rq = d["type"]["qualType"]
            ret = rq[:rq.index("(")].strip() if "(*" not in rq.split("(")[0] else rq
            prog.decls[d["name"]] = (params, ret)
            if body and ((d.get("_file") or "").startswith(REPO) or "/lemmas/" in (d.get("_file") or "")):
                prog._pfuncs.append((d["name"], params, ret, body[0], path, d.get("_line", 0)))
        elif k == "VarDecl" and (d.get("_file") or "").startswith(REPO):
            prog.globals[d["id"]] = d
    return prog


def load_program(files=None, extra=()):
    prog = Program()
    prog._pending, prog._pfuncs = [], []
    if files is None:
        files = sorted(f for f in os.listdir(SRC) if f.endswith(".c"))
    paths = [os.path.join(SRC, f) for f in files] + list(extra)
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex:
        raw = list(ex.map(clang_text, paths))
    for p, txt in zip(paths, raw):
        load_tu(prog, p, txt)
    for tag, flds in prog._pending:
        prog.structs[tag] = flds
    prog.structs = {t: [(n, prog.ctype(q)) for n, q in fl] for t, fl in prog.structs.items()
                    if not t.startswith("_") or True}
    for name, params, ret, body, path, line in prog._pfuncs:
        ps = []
        for pn, pq, pid in params:
            t = prog.ctype(pq)
            if isinstance(t, TArr):
                t = TPtr(t.of)
            ps.append((pn, t, pid))
        prog.funcs[name] = Func(name, ps, prog.ctype(ret), body, path, line)
    return prog


if __name__ == "__main__":
    import sys, time
    t = time.time()
    p = load_program(sys.argv[1:] or None)
    print(time.time() - t, len(p.funcs), "functions")
    for n, f in p.funcs.items():
        print(n, [(a, b) for a, b, _ in f.params], f.ret, os.path.basename(f.file), f.line)
    for t in ("Calibration", "target", "mmlut", "framebuf_base", "frame", "control_par", "coord_2d", "Candidate"):
        if t in p.structs: print(t, p.structs[t], p.sizeof(TStruct(t)))
