"""Contract-driven execution of the real code (built from /repo with AddressSanitizer):
random / structured inputs satisfying the preconditions are run through the real
function and the postconditions are evaluated concretely.  Used to turn a failed
obligation into a failing input, and as a cross-check of the verifier's model."""
import ctypes as C, json, os, random, subprocess, sys, time, hashlib, tempfile, math, struct, shutil

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def build_lib(outdir, repo=os.environ.get("OPTV_REPO", "/repo"), asan=True):
    src = os.path.join(repo, "liboptv/src")
    inc = os.path.join(repo, "liboptv/include")
    files = [os.path.join(src, f) for f in sorted(os.listdir(src)) if f.endswith(".c")]
    lem = os.path.join(ROOT, "lemmas")
    if os.path.isdir(lem):
        files += [os.path.join(lem, f) for f in sorted(os.listdir(lem)) if f.endswith(".c")]
    flags = ["-g", "-O1", "-fPIC", "-std=gnu11", "-w", "-fno-inline", "-ffp-contract=off", "-I", inc, "-I", src]
    if asan: flags += ["-fsanitize=address", "-fno-omit-frame-pointer"]
    procs = []
    objs = []
    for f in files:
        o = os.path.join(outdir, os.path.basename(f)[:-2] + ".o")
        objs.append(o)
        procs.append((f, subprocess.Popen(["gcc"] + flags + ["-c", f, "-o", o], stderr=subprocess.PIPE)))
    for f, p in procs:
        _, err = p.communicate()
        if p.returncode: raise RuntimeError("gcc failed on %s: %s" % (f, err.decode()[:1500]))
    so = os.path.join(outdir, "liboptv_rac.so")
    p = subprocess.run(["gcc", "-shared", "-o", so] + objs + (["-fsanitize=address"] if asan else []) + ["-lm"], stderr=subprocess.PIPE)
    if p.returncode: raise RuntimeError("link failed: " + p.stderr.decode()[:1500])
    return so


# ------------------------------------------------------------------ generators
class Gen:
    """input generator helpers (seeded)"""

    def __init__(self, rng): self.r = rng

    def real(self, scale=10.0, dyadic=False):
        r = self.r
        k = r.random()
        if dyadic: return r.randint(-64, 64) / 8.0
        if k < 0.08: return 0.0
        if k < 0.2: return float(r.randint(-4, 4))
        if k < 0.4: return r.randint(-64, 64) / 8.0
        if k < 0.9: return r.uniform(-scale, scale)
        return r.uniform(-1, 1) * 10 ** r.uniform(-4, 3)

    def pos(self, lo=0.1, hi=10.0): return self.r.uniform(lo, hi)
    def int(self, lo, hi): return self.r.randint(lo, hi)
    def vec(self, scale=10.0, dyadic=False): return [self.real(scale, dyadic) for _ in range(3)]
    def choice(self, xs): return self.r.choice(xs)

    def angle(self): return self.r.choice([0.0, self.r.uniform(-0.3, 0.3), self.r.uniform(-3.2, 3.2)])


def default_rep(prog, contract, t, path, g, scal):
    from .cfront import TInt, TReal, TPtr, TArr, TStruct
    if isinstance(t, TReal): return g.real(dyadic=contract.exact)
    if isinstance(t, TInt):
        if t.bits == 8 and not t.signed: return g.r.choice([0, 1, 2, 254, 255, g.r.randint(0, 255)])
        return g.r.choice([g.r.randint(-3, 8), g.r.randint(0, 20)])
    if isinstance(t, TStruct):
        return {f: default_rep(prog, contract, ft, path + "." + f, g, scal) for f, ft in prog.structs[t.tag]}
    if isinstance(t, TArr):
        return [default_rep(prog, contract, t.of, path + "[]", g, scal) for _ in range(t.n)]
    if isinstance(t, TPtr):
        shp = contract.shapes.get(path)
        if shp is None and path.count(".") + path.count("[") > 0 and not isinstance(t.to, TStruct): return None
        nullable = isinstance(shp, str) and shp.endswith("?")
        if nullable:
            shp = shp[:-1].strip() or None
            if g.r.random() < 0.2: return None
        if isinstance(t.to, TInt) and t.to.name == "char":
            return "s%d" % g.r.randint(0, 3)
        if shp in (None, "1", 1):
            x = default_rep(prog, contract, t.to, path, g, scal)
            return x if isinstance(x, dict) else [x]
        try:
            if " x " in str(shp):
                x, y = shp.split(" x ")
                shp = "(%s)*(%s)" % (x, y)
            n = int(shp) if str(shp).isdigit() else int(eval_shape(shp, scal))
        except Exception:
            n = 3
        return [default_rep(prog, contract, t.to, path + "[]", g, scal) for _ in range(max(n, 0))]
    return None


class _D:
    def __init__(self, d): self.__dict__.update({k: wrap(v) for k, v in d.items()})


def wrap(v):
    if isinstance(v, dict): return _D(v)
    return v


def eval_shape(shp, scal):
    return eval(shp, {"__builtins__": {"max": max, "min": min}}, {k: wrap(v) for k, v in scal.items()})


def gen_input(prog, contract, params, seed, idx):
    h = hashlib.sha256(("%s/%s/%d" % (seed, contract.name, idx)).encode()).digest()
    rng = random.Random(int.from_bytes(h[:8], "big"))
    g = Gen(rng)
    g.idx = idx
    rep = {}
    if contract.gen:
        rep.update(contract.gen(g))
    from .cfront import TPtr
    for ptrs in (False, True):
        for pn, pt, _ in params:
            if isinstance(pt, TPtr) != ptrs or pn in rep: continue
            rep[pn] = default_rep(prog, contract, pt, pn, g, rep)
    alias = None
    if contract.alias and idx % 3 == 2:
        alias = contract.alias[idx // 3 % len(contract.alias)]
        for a, b in alias: rep[a] = rep[b]
    return rep, alias


class Runner:
    def __init__(self, prog, contracts, so):
        self.prog, self.contracts = prog, contracts
        self.lib = C.CDLL(so)
        self.spec_errors = set()

    def call(self, name, rep, alias=None):
        """-> (post rep, result)"""
        from .crep import Marshal, CT
        from .cfront import TPtr, TStruct, TInt, TReal, TVoid
        ct = self.contracts[name]
        f = self.prog.funcs[name]
        m = Marshal(self.prog, ct, ct.shapes)
        cts = m.ctypes
        args, argt, addrs = [], [], {}
        amap = dict(alias or ())
        if ct.raw_call: return ct.raw_call(self, m, rep)
        for pn, pt, _ in f.params:
            v = rep[pn]
            if isinstance(pt, TPtr):
                if pn in amap:
                    args.append(None)
                else:
                    a = m.new(pt, v, pn)
                    addrs[pn] = a
                    args.append(a)
                argt.append(C.c_void_p)
            elif isinstance(pt, TStruct):
                s = cts.of(pt)()
                m.put(pt, C.addressof(s), v, pn)
                args.append(s)
                argt.append(cts.of(pt))
            else:
                args.append(v if isinstance(pt, TInt) else float(v))
                argt.append(cts.of(pt))
        names = [p[0] for p in f.params]
        for a, b in amap.items():
            addrs[a] = addrs[b]
            args[names.index(a)] = addrs[b]
        fn = getattr(self.lib, name)
        fn.argtypes = argt
        rt = f.ret
        fn.restype = None if isinstance(rt, TVoid) else (C.c_void_p if isinstance(rt, TPtr) else cts.of(rt))
        res = fn(*args)
        post = {}
        for pn, pt, _ in f.params:
            if isinstance(pt, TPtr): post[pn] = m.read(pt, addrs[pn], rep[pn], pn)
            else: post[pn] = rep[pn]
        if ct.read_result: res = ct.read_result(self, m, res, rep, post, addrs)
        elif isinstance(rt, TPtr): res = None
        if ct.post_read: ct.post_read(self, m, rep, post, addrs, res)
        if not ct.no_free: m.free_all()
        return post, res

    def check(self, name, rep, alias=None):
        """None if preconditions do not (definitely) hold, else list of violated clauses"""
        from .crep import CEnv, UNK, SpecRange
        ct = self.contracts[name]
        tol = 0 if ct.exact else (ct.tol if ct.tol is not None else 1e-9)
        env = CEnv(self.prog, rep, rep, tol=tol if ct.pre_tol is None else ct.pre_tol)
        env.pre_mode = True
        for rq in ct.requires + ct.guard + ct.rac_requires:
            try:
                v = env.eval(rq)
            except (SpecRange, TypeError, KeyError):
                v = False
            if env.tb(v) is not True: return None
        import copy
        pre = copy.deepcopy(rep)
        post, res = self.call(name, rep, alias)
        env = CEnv(self.prog, pre, post, result=res, tol=tol)
        env.runner = self
        bad = []
        for en in (ct.ensures if ct.rac_ensures_only is False else []) + ct.rac_ensures:
            try:
                v = env.eval(en)
            except SpecRange as e:
                v = UNK
            except Exception as e:
                # the clause could not be evaluated: no verdict
                v = UNK
                self.spec_errors.add("%s: %s: %r" % (name, en, e))
                if os.environ.get("OPTVC_STRICT"): raise
            if env.tb(v) is False:
                bad.append(en if isinstance(en, str) else getattr(en, "__name__", "clause"))
        bad += self.frame(ct, name, pre, post, env, alias)
        self.last = (pre, post, res)
        return bad

    def frame(self, ct, name, pre, post, env, alias=None):
        """memory outside the assigns clause is unchanged"""
        f = self.prog.funcs[name]
        bad = []
        import re
        written = set()
        for a in ct.assigns:
            m = re.match(r"[\s(]*(?:all\()?\s*([A-Za-z_]\w*)", a)
            if m: written |= {m.group(1), m.group(1).rstrip("_")}
        for a, b in alias or ():
            if a in written or b in written: written |= {a, b}
        for a, b in alias or ():
            if a in written or b in written: written |= {a, b}
        from .cfront import TPtr
        for pn, pt, _ in f.params:
            if not isinstance(pt, TPtr): continue
            if pn not in written and _differs(pre[pn], post[pn]):
                bad.append("assigns: %s was modified" % pn)
        return bad


def _differs(a, b):
    if isinstance(a, dict):
        if not isinstance(b, dict): return True
        return any(k in b and _differs(a[k], b[k]) for k in a)
    if isinstance(a, list):
        if not isinstance(b, list): return True
        return any(_differs(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, (int, float)) and a != a: return b == b
    if isinstance(b, tuple): return False
    if isinstance(a, float) and isinstance(b, float):
        return a != b and struct.pack("f", _f32(a)) != struct.pack("f", _f32(b))
    return a != b


def _f32(x):
    try:
        return struct.unpack("f", struct.pack("f", x))[0]
    except OverflowError:
        return math.inf


def worker_main(argv):
    """worker: argv = so, jobs.json, progress file"""
    so, jobs, prog_path = argv
    job = json.load(open(jobs))
    sys.path.insert(0, ROOT)
    from . import registry
    prog, contracts = registry.load()
    R = Runner(prog, contracts, so)
    pf = open(prog_path, "r+b", buffering=0)
    devnull = os.open("/dev/null", os.O_WRONLY)
    saved = os.dup(1)
    out = os.fdopen(saved, "w")
    os.dup2(devnull, 1)
    scratch = tempfile.mkdtemp(prefix="racw")
    os.chdir(scratch)
    try:
        for name in job["functions"]:
            ct = contracts[name]
            t0 = time.time()
            ran = tried = 0
            start = job.get("start", {}).get(name, 0)
            idx = start
            found = None
            while time.time() - t0 < job["seconds"] and idx - start < job["max"]:
                rep, alias = gen_input(prog, ct, prog.funcs[name].params, job["seed"], idx)
                pf.seek(0)
                pf.write(("%s %d" % (name, idx)).ljust(120).encode())
                idx += 1
                tried += 1
                try:
                    bad = R.check(name, rep, alias)
                except NameError as e:
                    out.write(json.dumps({"fn": name, "error": "clause not executable: %s" % e}) + "\n")
                    break
                if bad is None: continue
                ran += 1
                if bad:
                    pre, post, res = R.last
                    found = {"fn": name, "idx": idx - 1, "seed": job["seed"], "violated": bad, "input": jsonable(pre), "alias": alias,
                             "output": jsonable(post), "result": jsonable(res)}
                    break
            out.write(json.dumps({"fn": name, "tried": tried, "ran": ran, "found": found, "idx": idx, "secs": time.time() - t0}) + "\n")
            out.flush()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def jsonable(v):
    if isinstance(v, dict): return {k: jsonable(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)): return [jsonable(x) for x in v]
    if isinstance(v, (bytes, bytearray)): return {"bytes": v.hex()}
    if isinstance(v, float) and (v != v or math.isinf(v)): return str(v)
    return v


def unjson(v):
    if isinstance(v, dict):
        if set(v) == {"bytes"}: return bytes.fromhex(v["bytes"])
        return {k: unjson(x) for k, x in v.items()}
    if isinstance(v, list): return [unjson(x) for x in v]
    if isinstance(v, str) and v in ("nan", "inf", "-inf"): return float(v)
    return v


def asan_env():
    env = dict(os.environ)
    p = subprocess.run(["gcc", "-print-file-name=libasan.so"], stdout=subprocess.PIPE)
    env["LD_PRELOAD"] = p.stdout.decode().strip()
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:log_path=stderr:detect_odr_violation=0"
    return env


def run_search(so, functions, seed, seconds, maxn, work, procs=8, prog=None, contracts=None):
    """distribute functions over worker processes; returns {fn: {...}}"""
    results = {}
    fns = list(functions)
    nw = max(1, min(procs, len(fns)))
    shards = [fns[i::nw] for i in range(nw)]
    env = asan_env()

    def launch(k, fl, start):
        jf, pf = os.path.join(work, "job%d.json" % k), os.path.join(work, "prog%d" % k)
        json.dump({"functions": fl, "seed": seed, "seconds": seconds, "max": maxn, "start": start}, open(jf, "w"))
        open(pf, "wb").write(b" " * 120)
        ef = open(os.path.join(work, "err%d" % k), "w+b")
        p = subprocess.Popen([sys.executable, "-m", "optvc.rac", "worker", so, jf, pf], cwd=ROOT, env=env,
                             stdout=subprocess.PIPE, stderr=ef)
        return p, pf, ef
    from concurrent.futures import ThreadPoolExecutor

    def drive(k):
        fl = list(shards[k])
        start = {}
        crashes = 0
        while fl:
            p, pf, ef = launch(k, fl, start)
            try:
                out, _ = p.communicate(timeout=seconds * len(fl) * 1.5 + 60)
            except subprocess.TimeoutExpired:
                p.kill()
                out, _ = p.communicate()
            done = set()
            for ln in out.decode(errors="replace").splitlines():
                try:
                    d = json.loads(ln)
                except ValueError:
                    continue
                prev = results.get(d["fn"])
                if prev and "ran" in d: d["ran"] += prev.get("ran", 0)
                if prev and prev.get("found"): continue
                results[d["fn"]] = d
                done.add(d["fn"])
            fl = [f for f in fl if f not in done]
            if not fl: break
            if p.returncode == 0: break
            cur = open(pf, "rb").read().decode().split()
            ef.seek(0)
            err = ef.read().decode(errors="replace")
            if len(cur) < 2 or cur[0] not in fl:
                for f in fl: results.setdefault(f, {"fn": f, "error": "worker died: " + err[-1500:]})
                break
            nm, idx = cur[0], int(cur[1])
            timed_out = p.returncode in (-9, -15)
            info = {"fn": nm, "idx": idx, "seed": seed, "violated": ["does not return within the time limit" if timed_out else "memory safety / termination: process crashed"],
                    "crash": True, "stderr": err[:3000], "returncode": p.returncode}
            if prog is not None:
                rep, alias = gen_input(prog, contracts[nm], prog.funcs[nm].params, seed, idx)
                info["input"], info["alias"] = jsonable(rep), alias
            results[nm] = {"fn": nm, "found": info, "ran": 1, "tried": 1}
            fl.remove(nm)
        return
    with ThreadPoolExecutor(nw) as ex:
        list(ex.map(drive, range(nw)))
    return results


def replay_main(argv):
    """replay FILE: run the recorded input through the current /repo code"""
    d = json.load(open(argv[0]))
    work = tempfile.mkdtemp(prefix="optvreplay")
    try:
        so = build_lib(work)
        cfg = {"d": d}
        jf = os.path.join(work, "r.json")
        json.dump(d, open(jf, "w"))
        p = subprocess.run([sys.executable, "-m", "optvc.rac", "one", so, jf], cwd=ROOT, env=asan_env())
        print("replay: %s" % ("violation reproduced" if p.returncode else "no violation on the current tree"))
        return 1 if p.returncode else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def one_main(argv):
    so, jf = argv
    d = json.load(open(jf))
    from . import registry
    prog, contracts = registry.load()
    R = Runner(prog, contracts, so)
    fi = d.get("failing_input") or d
    bad = R.check(fi["fn"], unjson(fi["input"]), [tuple(x) for x in fi["alias"]] if fi.get("alias") else None)
    print("violated:", bad)
    return 1 if bad else 0


if __name__ == "__main__":
    mode = sys.argv[1]
    if mode == "worker": worker_main(sys.argv[2:])
    elif mode == "replay": sys.exit(replay_main(sys.argv[2:]))
    elif mode == "one": sys.exit(one_main(sys.argv[2:]))
