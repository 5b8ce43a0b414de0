"""Helpers for writing contracts."""
import z3
z3.set_param("warning", False)
from z3 import And, Or, Not, Implies, If, Select, Store, ForAll, Exists, Const, Int, Ints, IntVal, BoolVal, MultiPattern
from . import theory as T
from .theory import Ref, Str, null, INT, BOOL, F64, seq, mapt
from .engine import Contract

S = seq(Ref)
u64max = 2 ** 64 - 1


class Unit:
    def __init__(self, name, cpps, filters, contracts, structs=None, ghosts=None, axioms=None, native=None, extra='', less_model=None, cls=None, opaque=False, values=(), cells=None, lemmas=None, derived=None, distinct_strings=False):
        self.name, self.cpps, self.filters, self.contracts = name, cpps, filters, contracts
        self.structs, self.ghosts, self.axioms, self.native, self.extra = structs, ghosts, axioms, native, extra
        self.less_model = less_model
        self.cls = cls
        self.opaque = opaque
        self.values, self.cells, self.lemmas = set(values), cells or {}, lemmas
        self.derived = derived
        self.distinct_strings = distinct_strings


def R(n='r'):
    return Const(n, Ref)


def fa(vs, body, pats=None):
    if not isinstance(vs, (list, tuple)):
        vs = [vs]
    if pats:
        try:
            return ForAll(vs, body, patterns=pats)
        except z3.Z3Exception:      # the term is not usable as a trigger (e.g. it was simplified)
            pass
    return ForAll(vs, body)


def only(c, key, *refs):
    """the field changed at most at the given objects"""
    r = R('r')
    return fa([r], Implies(And(*[r != x for x in refs]), c.h(key, r) == c.h0(key, r)), [c.h(key, r)])


def onlyA(c, key, *refs):
    """the field changed at most at the given objects, among those that existed before"""
    r = R('r')
    return fa([r], Implies(And(c.h0('$alloc', r), *[r != x for x in refs]), c.h(key, r) == c.h0(key, r)), [c.h(key, r)])


def same(c, key):
    r = R('r')
    return fa([r], c.h(key, r) == c.h0(key, r), [c.h(key, r)])


def retag(con, fn, **kw):
    """the same contract on an override (behavioural subtyping)"""
    d = dict(requires=con.requires, ensures=con.ensures, modifies=con.modifies, throws=con.throws, ensures_throw=con.ensures_throw,
             loops=con.loops, modargs=con.modargs, may_throw=con.may_throw, touches_new=con.touches_new, nparams=con.nparams)
    d.update(kw)
    c = Contract(fn, **d)
    c.override = True
    return c


def assumed(con, unit):
    """the same contract, used here and discharged in another unit"""
    d = dict(requires=con.requires, ensures=con.ensures, modifies=con.modifies, throws=con.throws, ensures_throw=con.ensures_throw,
             modargs=con.modargs, may_throw=con.may_throw, touches_new=con.touches_new, nparams=con.nparams, exc=con.exc, sel=con.sel)
    c = Contract(con.fn, trusted=True, note='discharged in unit ' + unit, **d)
    c.elsewhere = unit
    return c


def pick(cons, *names):
    return [c for c in cons if c.fn in names]
