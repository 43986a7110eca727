"""Decide one property: verify every contract it rests on against /repo's current
source, then (on failure, and as a cross-check) execute the contracts on the real code.

usage: python3-vt -m optvc.check PROPERTY [--tier quick|thorough] [--fn NAME]"""
import argparse, json, multiprocessing as mp, os, shutil, subprocess, sys, tempfile, time, traceback, re
from collections import Counter

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(50000)


def verify_one(prog, contracts, name, alias, budget, procs):
    """verify one function (one alias variant); returns a plain-data report"""
    from .engine import Engine, EngineError
    from . import solve
    from . import registry
    t0 = time.time()
    rep = {"fn": name, "alias": [list(a) for a in alias], "obligations": [], "error": None}
    try:
        ct = contracts[name]
        eng = Engine(prog, contracts, name, ct, alias=alias)
        eng.deadline = time.time() + 120 * budget
        obls = eng.run()
        if ct.guard:
            # the memory and frame obligations again, without the functional guard
            e2 = Engine(prog, contracts, name, ct, alias=alias, opts={"unguarded": True})
            e2.deadline = time.time() + 120 * budget
            more = [o for o in e2.run() if o.kind in ("memory", "frame", "requires", "termination", "overflow", "invariant", "cut", "hint")]
            for o in more: o.name = "[no guard] " + o.name
            obls = obls + more
        rep["gen_s"] = time.time() - t0
        rep["paths"] = eng.paths
        solve.solve_all(obls, budget=budget * (ct.timeout or 1.0), strategy=ct.strategy, procs=procs)
        rep["covers"] = solve.check_covers(eng.covers[:12] + eng.covers[12::max(1, len(eng.covers) // 12)])
        rep["used"] = sorted(eng.used_contracts)
        rep["inlined"] = sorted(eng.inlined)
        rep["externals"] = sorted(eng.externals)
        rep["notes"] = sorted(eng.notes)
        for o in obls:
            rep["obligations"].append({"name": o.name, "kind": o.kind, "line": o.line, "status": o.status, "backend": o.backend,
                                       "time": round(o.time or 0, 4), "reason": getattr(o, "reason", ""), "model": o.model})
        if not obls: rep["error"] = "no obligations generated (vacuous)"
    except EngineError as e:
        rep["error"] = "verifier cannot process: %s" % e
    except RecursionError as e:
        rep["error"] = "verifier cannot process: recursion"
    except Exception as e:
        rep["error"] = "verifier error: %r\n%s" % (e, traceback.format_exc()[-1500:])
    rep["wall"] = time.time() - t0
    return rep


def _child(q, args):
    r = verify_one(*args)
    q.put(r)
    q.close()
    q.join_thread()
    os._exit(0)


def kill_tree(pid):
    """kill a verifier process and the solver processes it started"""
    try: kids = subprocess.run(["ps", "-o", "pid=", "--ppid", str(pid)], capture_output=True, text=True).stdout.split()
    except Exception: kids = []
    for k in kids: kill_tree(int(k))
    try: os.kill(pid, 9)
    except OSError: pass


def verify_many(prog, contracts, tasks, budget, procs=8, deadline=None):
    """tasks: [(name, alias)] -> reports"""
    from concurrent.futures import ThreadPoolExecutor
    ctx = mp.get_context("fork")

    def run(t):
        name, alias = t
        q = ctx.Queue()
        hard = contracts[name].heavy
        p = ctx.Process(target=_child, args=(q, (prog, contracts, name, alias, budget, hard or 1)))
        p.start()
        try:
            r = q.get(timeout=max(1.0, min(700, (deadline or 1e18) - time.time())))
        except Exception:
            r = {"fn": name, "alias": list(alias), "obligations": [], "error": "verifier process died or timed out"}
        p.join(0.01 if r.get("error", None) and "timed out" in r["error"] else 5)
        if p.is_alive():
            kill_tree(p.pid)
            p.kill()
        return r
    import sympy  # noqa  (import before forking)
    order = sorted(range(len(tasks)), key=lambda i: -(contracts[tasks[i][0]].heavy or 0))
    with ThreadPoolExecutor(procs) as ex:
        rs = dict(zip(order, ex.map(run, [tasks[i] for i in order])))
        return [rs[i] for i in range(len(tasks))]


def load_findings():
    p = os.path.join(ROOT, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"open: property=(\S+) fn=(\S+) clause=/(.*?)/ (.*)", ln.strip())
            if m: out.append(m.groups())
    return out


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--fn", default=None)
    ap.add_argument("--no-rac", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    t_start = time.time()
    from . import registry, rac
    work = tempfile.mkdtemp(prefix="optvc")
    try:
        return run(a, work, t_start, registry, rac)
    except Exception:
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        path = os.path.join(ROOT, "replays", "%s.json" % a.property)
        json.dump({"property": a.property, "kind": "the verifier could not process the source", "error": traceback.format_exc()}, open(path, "w"), indent=1)
        traceback.print_exc()
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (a.property, path))
        return 1
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run(a, work, t_start, registry, rac):
    prop = a.property
    thorough = a.tier == "thorough"
    budget = 3.0 if thorough else 1.0
    from .cfront import FrontError
    prog, contracts = registry.load()
    mine = [n for n, c in contracts.items() if prop in c.props]
    if a.fn: mine = a.fn.split(",")
    tasks, missing = [], []
    for n in mine:
        c = contracts[n]
        if n not in prog.funcs:
            missing.append(n)
            continue
        if c.trust or c.bounded: continue
        for al in [x for i, x in enumerate(c.cases or [()]) if i not in c.unproved_cases] + c.alias: tasks.append((n, al))
    bounded = [n for n in mine if contracts[n].bounded]
    racfns = [n for n in mine if n in prog.funcs and contracts[n].rac]
    # concrete runs of the contracts on the real code (cross-check; also the source of failing inputs)
    so = None
    rac_res = {}
    violations = []
    secs = (40 if thorough else 4)
    maxn = 200000 if thorough else 4000
    if not a.no_rac:
        so = rac.build_lib(work)
        if racfns: rac_res = rac.run_search(so, racfns, a.seed, secs, maxn, work, prog=prog, contracts=contracts)
    early = any(d.get("found") for d in rac_res.values())
    limit = t_start + (150 if early else (3000 if thorough else 480))
    reports = verify_many(prog, contracts, tasks, budget, deadline=limit)
    findings = [f for f in load_findings() if f[0] == prop]
    hit_findings = set()

    def known(fn, clause):
        for i, (p, f, rx, what) in enumerate(findings):
            if f == fn and re.search(rx, clause):
                hit_findings.add(i)
                return True
        return False
    failures = []       # (fn, label, detail)
    n_obl = n_dis = 0
    backends = Counter()
    kinds = Counter()
    solver_time = 0.0
    table = []
    vac = []
    for r in reports:
        fo = [o for o in r["obligations"]]
        ok = [o for o in fo if o["status"] == "proved"]
        kn = [o for o in fo if o["status"] != "proved" and known(r["fn"], o["name"])]
        n_obl += len(fo) - len(kn)
        n_dis += len(ok)
        for o in fo:
            kinds[o["kind"]] += 1
            solver_time += o["time"]
            if o["status"] == "proved": backends[o["backend"]] += 1
            elif o not in kn:
                failures.append((r["fn"], o["name"], o))
        if r["error"]:
            failures.append((r["fn"], r["error"].splitlines()[0], {"kind": "extraction", "reason": r["error"], "status": "undecided", "line": None, "model": None}))
        for nm, s in r.get("covers", ()):
            if nm == "precondition" and s == "unsat":
                vac.append("%s: precondition is contradictory" % r["fn"])
        if not r["error"] and r.get("covers") and not any(nm == "exit" and s != "unsat" for nm, s in r["covers"]):
            vac.append("%s: no reachable exit" % r["fn"])
        table.append({"function": r["fn"] + ("" if not r["alias"] else " [%s]" % ", ".join("%s%s%s" % (x, "" if y.startswith("=") else " aliased to ", y) for x, y in r["alias"])), "obligations": len(fo), "discharged": len(ok),
                      "known_findings": len(kn), "paths": r.get("paths"), "wall_s": round(r["wall"], 2) if "wall" in r else None,
                      "backends": dict(Counter(o["backend"] for o in ok)),
                      "slowest_s": max([o["time"] for o in fo] or [0])})
        if a.v:
            for o in fo:
                if o["status"] != "proved" or a.v and o["time"] > 1.0:
                    print("   %s %s:%s [%s] %s %.2fs %s" % (o["status"], r["fn"], o["line"], o["kind"], o["name"], o["time"], o["backend"]))
                    if o["status"] != "proved": print("       ", o["reason"], json.dumps(o["model"])[:600] if o["model"] else "")
            print("%s %s: %d/%d %.1fs covers=%s %s" % (r["fn"], r["alias"], len(ok), len(fo), r.get("wall", 0), Counter(r.get("covers", [])), r["error"] or ""))
    for n in missing:
        failures.append((n, "function under contract is missing from the source", {"kind": "extraction", "reason": "", "status": "undecided", "line": None, "model": None}))
    for v in vac:
        failures.append((v.split(":")[0], "vacuous: " + v, {"kind": "vacuity", "reason": v, "status": "undecided", "line": None, "model": None}))
    # ------------------------------------- a proof failed: search harder for a failing input
    if so and racfns:
        if failures and not any(d.get("found") for d in rac_res.values()):
            bad = {f for f, _, _ in failures}
            focus = [n for n in racfns if n in bad] or racfns
            w2 = os.path.join(work, "deep")
            os.makedirs(w2, exist_ok=True)
            deep = 100 if thorough else 30
            shards = {}
            for s2 in range(1, 4):
                r2 = rac.run_search(so, focus + [n for n in racfns if n not in focus], a.seed + 1000 * s2, deep / max(1, len(racfns) / 8.0) / 2, 10 ** 7, w2, prog=prog, contracts=contracts)
                for k, d in r2.items():
                    if d.get("found") or k not in rac_res: rac_res[k] = d
                    else: rac_res[k]["ran"] = rac_res[k].get("ran", 0) + d.get("ran", 0)
                if any(d.get("found") for d in r2.values()): break
    for fn, d in rac_res.items():
        f = d.get("found")
        if f:
            if all(known(fn, str(b)) for b in f["violated"]): continue
            violations.append((fn, f))
        if d.get("error"): print("note: concrete run of %s: %s" % (fn, d["error"]))
    # ---------------------------------------------------------------- verdict
    rdir = os.path.join(ROOT, "replays")
    os.makedirs(rdir, exist_ok=True)
    rc = 0
    nviol = 0
    if violations:
        fn, f = violations[0]
        path = os.path.join(rdir, "%s.json" % prop)
        json.dump({"property": prop, "kind": "failing input on the real code", "function": fn, "failing_input": f,
                   "failed_obligations": [{"function": x, "obligation": l, "line": o["line"], "reason": o["reason"], "model": o["model"]} for x, l, o in failures[:20]],
                   "how": "python3-vt -m optvc.rac replay " + path}, open(path, "w"), indent=1)
        print("failing input: %s violates %s" % (fn, f["violated"]))
        for x, l, o in failures[:10]: print("failed obligation: %s:%s %s -- %s" % (x, o["line"], l, o["reason"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        rc = 1
        nviol = len(violations)
    elif failures:
        path = os.path.join(rdir, "%s.json" % prop)
        json.dump({"property": prop, "kind": "obligation not discharged",
                   "failed_obligations": [{"function": x, "obligation": l, "line": o["line"], "kind": o["kind"], "status": o["status"], "reason": o["reason"], "model": o["model"]} for x, l, o in failures]},
                  open(path, "w"), indent=1)
        for x, l, o in failures[:10]: print("failed obligation: %s:%s %s -- %s %s" % (x, o["line"], l, o["status"], o["reason"]))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))
        rc = 1
        nviol = len(failures)
    for i in sorted(hit_findings):
        print("KNOWN-FINDING: property=%s %s" % (prop, findings[i][3]))
    wall = time.time() - t_start
    if not a.fn:
        write_evidence(prop, a, contracts, mine, reports, table, n_obl, n_dis, backends, kinds, solver_time, rac_res, bounded, nviol, wall, failures)
    print("%s: %d/%d obligations discharged over %d functions, %.1fs solver, concrete runs %d, wall %.1fs -> %s" % (
        prop, n_dis, n_obl, len(table), solver_time, sum(d.get("ran", 0) for d in rac_res.values()), wall, "OK" if rc == 0 else "VIOLATION"))
    if a.v:
        for k, d in rac_res.items(): print("   rac", k, d.get("tried"), d.get("ran"), d.get("error", ""))
    return rc


GENERAL_ASSUMPTIONS = [
    "double/float arithmetic is treated as exact real arithmetic (no rounding, no overflow to infinity, no NaN)",
    "pointer parameters are separated as stated by the contracts (checked at every verified call site) and formals are valid as their shapes say",
    "clang's AST (the parser, typing and implicit conversions of the real sources) and the VC generator in /verif/optvc are trusted",
    "libm functions sqrt/sin/cos/acos/... are uninterpreted symbols with the ground facts sqrt(x)>=0, sqrt(x)^2=x (x>=0), sin^2+cos^2=1",
    "termination is proved only for loops whose contract has a `decreases` clause; other results are partial correctness",
]


def write_evidence(prop, a, contracts, mine, reports, table, n_obl, n_dis, backends, kinds, solver_time, rac_res, bounded, nviol, wall, failures):
    ev = os.path.join(ROOT, "evidence")
    os.makedirs(ev, exist_ok=True)
    used = set()
    inl = set()
    ext = set()
    notes = set()
    for r in reports:
        used |= set(r.get("used", ()))
        inl |= set(r.get("inlined", ()))
        ext |= set(r.get("externals", ()))
        notes |= set(r.get("notes", ()))
    assumed = sorted(u for u in used if u in contracts and contracts[u].trust)
    elsewhere = sorted(u for u in used if u not in mine and not contracts[u].trust)
    assumptions = list(GENERAL_ASSUMPTIONS)
    for n in mine:
        for t in contracts[n].trusted: assumptions.append("%s: assumed without proof: %s" % (n, t))
        for t in contracts[n].ens_assumed: assumptions.append("%s: assumed of the result, not proved: %s" % (n, t))
        if not contracts[n].check_overflow: assumptions.append("%s: machine integer arithmetic treated as mathematical" % n)
        if not contracts[n].check_div: assumptions.append("%s: floating divisors assumed non-zero" % n)
        for i in contracts[n].unproved_cases:
            assumptions.append("%s: bounded stand-in, not proved, for the case %s: only run on generated inputs" % (n, " and ".join("%s == %s" % (k, v[1:]) for k, v in contracts[n].cases[i])))
        if contracts[n].notes: assumptions.append("%s: %s" % (n, contracts[n].notes))
    for n in sorted(notes): assumptions.append(n)
    for n in assumed: assumptions.append("contract of %s assumed (trusted, not proved)" % n)
    d = {
        "property": prop, "tier": a.tier, "seed": a.seed, "level": "proof", "wall_s": round(wall, 2), "violations": nviol,
        "coverage": {
            "obligations": n_obl, "discharged": n_dis,
            "checker_cmd": "python3-vt -m optvc.check %s --tier %s" % (prop, a.tier),
            "trusted_base": ["clang 18 AST", "optvc VC generator (/verif/optvc)", "z3 5.3.2 / cvc5 1.1.2", "optvc polynomial normal-form prover (sympy)",
                             "libm/libc models: " + ", ".join(sorted(ext)) if ext else "libc models (malloc/free/memcpy)"],
            "functions_under_contract": table,
            "obligation_kinds": dict(kinds),
            "discharged_by": dict(backends),
            "solver_time_s": round(solver_time, 2),
            "callee_contracts_used": sorted(used),
            "callee_contracts_verified_under_other_properties": elsewhere,
            "helpers_inlined": sorted(inl),
            "preconditions": {n: contracts[n].requires for n in mine if contracts[n].requires},
            "results_guaranteed_only_when": {n: contracts[n].guard for n in mine if contracts[n].guard},
            "bounded_standins": {n: contracts[n].notes for n in bounded},
            "concrete_cross_check": {k: {"inputs_tried": v.get("tried"), "preconditions_met_and_checked": v.get("ran")} for k, v in rac_res.items()},
            "undischarged": [{"function": x, "obligation": l} for x, l, o in failures],
        },
        "assumptions": assumptions,
    }
    json.dump(d, open(os.path.join(ev, prop + ".json"), "w"), indent=1)


if __name__ == "__main__":
    sys.exit(main())
