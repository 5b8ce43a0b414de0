"""Integers drawn between two bounds (C17): the distribution of mutator/deterministicRandom.h, as instantiated by RNG.

The 64 bit engine is the one of the standard library: any value of its range may come out of it.
"""
from cdv.spec import *

MT = 'std::mersenne_twister_engine<unsigned long,64,312,156,31,13043109905998158313,29,6148914691236517205,17,8202884508482404352,37,18444473444759240704,43,6364136223846793005>'


def bits(cls):
    return cls + '._Bmask', cls + '._Bits', cls + '._Ref'


def classes(t):
    return '_Rng_from_urng<%s, %s>' % (t, MT), 'uniform_int<%s>' % t


def for_type(t, n, signed):
    R_, U = classes(t[0])[0], 'uniform_int<%s>' % t[1]
    W = 2 ** 64                      # bits are gathered in the type of the engine
    BM, BS, RF = bits(R_)
    M = 2 ** n                       # values of the drawn type
    ok = lambda c: [('adapter', And(c.h0(RF, c.this) != null, 0 <= c.h0(BM, c.this), c.h0(BM, c.this) < W, c.h0(BS, c.this) >= 1, c.h0(BS, c.this) <= 64))]
    ok2 = lambda c: [('adapter', And(0 <= c.h(BM, c.this), c.h(BM, c.this) < W, c.h(BS, c.this) >= 1, c.h(BS, c.this) <= 64))]
    rank = (lambda x: x + M // 2) if signed else (lambda x: x)
    lo, hi = (-(M // 2), M // 2 - 1) if signed else (0, M - 1)
    return [
        Contract(R_ + '::<ctor>', sel=lambda f: f.body is not None, ensures=lambda c: ok2(c) + [('the engine', c.h(RF, c.this) == c.a(0)), ('other adapters', And(*[only(c, k, c.this) for k in (BM, BS, RF)]))], modifies=[BM, BS, RF], loops=[lambda L: [('other adapters', And(*[fa([R('r')], Implies(R('r') != L.this, L.h(k, R('r')) == L.h0(k, R('r'))), [L.h(k, R('r'))]) for k in (BM, BS, RF)])), ('full width', And(L.h(BM, L.this) == W - 1, 1 <= L.h(BS, L.this), L.h(BS, L.this) <= 64, L.h(RF, L.this) == L.arg(0)))]]),
        Contract(R_ + '::_Get_bits', requires=ok, ensures=lambda c: [('[C17] bits within the mask', And(0 <= c.ret, c.ret <= c.h0(BM, c.this)))], loops=[lambda L: []]),
        Contract(R_ + '::_Get_all_bits', requires=ok, ensures=lambda c: [('[C17] a value of the type', And(0 <= c.ret, c.ret < W))], loops=[lambda L: [('value', And(0 <= L.var('_Ret'), L.var('_Ret') < W))]]),
        Contract(R_ + '::operator()', requires=lambda c: ok(c) + [('[C17] a non-empty range', c.a(0) >= 1)], ensures=lambda c: [('[C17] the draw lies in the range', And(0 <= c.ret, c.ret < c.a(0)))],
                 loops=[lambda L: [], lambda L: [('bits so far', And(0 <= L.var('_Ret'), L.var('_Ret') < W, 0 <= L.var('_Mask'), L.var('_Mask') < W))]]),
        Contract(U + '::_Adjust', sel=lambda f: len(f.params) == 1, ensures=lambda c: [('[C17] order of the values', c.ret == If(BoolVal(signed), If(c.a(0) < M // 2, c.a(0) + M // 2, c.a(0) - M // 2), c.a(0)))]),
        Contract(U + '::_Eval', requires=lambda c: [('an engine', c.a(0) != null), ('[C17] bounds in order', c.a(1) <= c.a(2))], ensures=lambda c: [('[C17] the draw lies between the bounds', And(c.a(1) <= c.ret, c.ret <= c.a(2)))], modifies=['$new']),
    ]


contracts = for_type(('unsigned long', 'unsigned long'), 64, False) + for_type(('unsigned int', 'int'), 32, True)
contracts += [Contract('RNG::' + f, requires=lambda c: [('seeded', c.h0('RNG.engine', c.this) != null), ('[C17] bounds in order', c.a(0) <= c.a(1))], ensures=lambda c: [('[C17] the draw lies between the bounds', And(c.a(0) <= c.ret, c.ret <= c.a(1)))], modifies=['$new']) for f in ('getUnsignedInt64', 'getInt32')]
unit = Unit('rng', ['src/mutator/rng.cpp'], ['Mutator'], contracts)
