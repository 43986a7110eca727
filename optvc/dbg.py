"""developer aid: verify one function in-process, printing obligations as they are solved"""
import sys, time
sys.setrecursionlimit(50000)
from . import registry, solve
from .engine import Engine

def main():
    fn = sys.argv[1]
    pat = sys.argv[2] if len(sys.argv) > 2 else ""
    prog, cs = registry.load()
    ct = cs[fn]
    t0 = time.time()
    import os
    eng = Engine(prog, cs, fn, ct, alias=ct.cases[int(os.environ.get("CASE", 0))] if ct.cases else ())
    eng.deadline = time.time() + 300
    obls = eng.run()
    print("generated %d obligations on %d paths in %.1fs" % (len(obls), eng.paths, time.time() - t0))
    for o in obls:
        if pat and pat not in o.name: continue
        print("..", o.kind, o.line, o.name[:150], flush=True)
        if "-l" in sys.argv: continue
        r = solve.solve_one(o, 1.0, ct.strategy)
        print("   ->", r[0], r[1], "%.2fs" % r[2], r[4] if len(r) > 4 else "", flush=True)
        if r[0] != "proved" and "-p" in sys.argv:
            for c in o.pc: print("      H", str(c)[:600].replace("\n", " "))
            print("      G", str(o.goal)[:1500])
main()
