"""Registry of contracts.  A contract is a harness function h(W): it allocates
arbitrary inputs from the world W (precondition), calls the real functions of
/repo, and states postconditions / invariants / frame conditions through W."""
import importlib
import os
import sys

REG = {}      # property -> [Contract]


class Contract:
    def __init__(self, prop, name, fn, sym, con, bounded, weight, note, budget):
        self.prop, self.name, self.fn = prop, name, fn
        self.sym, self.con, self.bounded = sym, con, bounded
        self.weight, self.note, self.budget = weight, note, budget


def contract(prop, name=None, sym=True, con=True, bounded=None, weight=1.0, note='', budget=None):
    """sym: discharged deductively; con: also executed concretely (cross-check /
    counterexample search); bounded: a text stating the bound when the symbolic
    run covers only a bounded part (then its obligations are not counted as proved)"""
    def deco(fn):
        props = [prop] if isinstance(prop, str) else list(prop)
        for p in props:
            REG.setdefault(p, []).append(Contract(p, name or fn.__name__, fn, sym, con, bounded, weight, note, budget))
        return fn
    return deco


def load(prop):
    importlib.import_module('props.' + prop.lower())
    return REG.get(prop, [])
