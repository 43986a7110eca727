"""Collects contracts from /verif/contracts/*.py and parses the program."""
import importlib.util, os, sys
from .cfront import load_program, load_tu, SRC, REPO
from .spec import Contract

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CONTRACTS = {}


def K(name, **kw):
    extra = {k: kw.pop(k) for k in list(kw) if k in EXTRA}
    c = Contract(name, **kw)
    for k, v in EXTRA.items(): setattr(c, k, extra.get(k, v))
    if name in CONTRACTS: raise ValueError("duplicate contract " + name)
    CONTRACTS[name] = c
    return c


EXTRA = {"heap": {}, "exact": False, "pre_tol": None, "read_result": None, "post_read": None, "no_free": False, "raw_call": None,
         "rac_ensures_only": False, "bounded": False, "weak_calls": (), "share_sums": False, "heavy": False, "unproved_cases": ()}


def load_contracts():
    CONTRACTS.clear()
    d = os.path.join(ROOT, "contracts")
    for f in sorted(os.listdir(d)):
        if f.endswith(".py") and not f.startswith("_"):
            sp = importlib.util.spec_from_file_location("contracts_" + f[:-3], os.path.join(d, f))
            m = importlib.util.module_from_spec(sp)
            sp.loader.exec_module(m)
    return CONTRACTS


def load(files=None):
    import pickle, tempfile, hashlib
    contracts = load_contracts()
    lem = os.path.join(ROOT, "lemmas")
    lemf = [os.path.join(lem, f) for f in sorted(os.listdir(lem)) if f.endswith(".c")] if os.path.isdir(lem) else []
    prog = load_program(files, lemf)
    return prog, contracts
