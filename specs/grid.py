"""Currency-grid vocabulary: rounding to a unit as abstract functions whose laws are proved on every run."""
import z3
from specs.account_common import *
from engine.arith import FLU, CEU, ROU, GRID, grid_lemmas


def units(c):
    a = c.this
    return acc(a, "base_unit"), acc(a, "quote_unit")


def gf(x, u):
    return z3.If(u > 0, FLU(x, u), x)


def gc(x, u):
    return z3.If(u > 0, CEU(x, u), x)


def gr(x, u):
    return z3.If(u > 0, ROU(x, u), x)


def fee_of(c, cfg, amount):
    f = cfg.f
    return gc(AR.fmax(f["minimum_fee"], f["fixed_fee"] + f["relative_fee"] * amount), acc(c.this, "quote_unit"))


def lemma_task():
    def run(task, ex):
        ex.pc = []
        for nm, g in grid_lemmas():
            ex.oblige("grid-lemma:" + nm, g, None, "lemma")
            ex.pc = []
    return Task("GridLemmas", None, None, runner=run, mode="real")
