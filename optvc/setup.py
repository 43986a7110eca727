"""setup_cmd: nothing is built ahead of time; checks that the tools needed are present"""
import shutil, sys
import z3, sympy  # noqa
missing = [t for t in ("clang", "gcc", "cvc5", "z3") if not shutil.which(t)]
if missing:
    print("missing tools:", missing)
    sys.exit(1)
from . import registry
prog, contracts = registry.load()
print("functions in /repo/liboptv/src: %d, contracts: %d" % (len(prog.funcs), len(contracts)))
