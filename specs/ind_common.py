"""Shared vocabulary for the indicator properties (I01..I08)."""
import z3
from engine.contracts import *
from engine.task import Task
from engine.types import *
from engine import arith as AR

INT_MAX = 2147483647


def fld(v, n):
    if not isinstance(v, Rec) or n not in v.f:
        raise AnnotationMismatch("field %s" % n)
    return v.f[n]


def seq(v, n):
    s = fld(v, n)
    if not isinstance(s, Seq):
        raise AnnotationMismatch("%s is not a sequence" % n)
    return s


def size(s):
    return s.hi - s.lo


def at(s, i, *path):
    """element at absolute position i (component path inside records)"""
    d = s.data
    for p in path:
        d = d.f[p]
    return z3.Select(d, i)


def push_ghost(c, field, value):
    """ghost append at function exit"""
    l = c.this_loc.sub(field)
    s = c.ex.read(l)
    c.ex.write(l, Seq(s.et, c.V.sto(s.data, s.hi, value), s.lo, s.hi + 1, s.kind))


def set_last_ghost(c, field, value):
    l = c.this_loc.sub(field)
    s = c.ex.read(l)
    c.ex.write(l, Seq(s.et, c.V.sto(s.data, s.hi - 1, value), s.lo, s.hi, s.kind))


def pushed(new, old, v):
    """sequence equality: new = old ++ [v] (both start at position 0)"""
    return z3.And(new.lo == old.lo, new.hi == old.hi + 1, new.data == z3.Store(old.data, old.hi, v))


def last_set(new, old, v):
    return z3.And(new.lo == old.lo, new.hi == old.hi, new.data == z3.Store(old.data, old.hi - 1, v))
