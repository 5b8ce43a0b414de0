"""Environments: the instructions retained, the dimensions reported (C18). Discharges what the other units assume of an
environment (what its constructor establishes)."""
from cdv.spec import *
from cdv import theory as T
from cdv.theory import F64, fin
from . import program as P
from .program import NREG, NINS, MAXOP, NSRC, LARGEST, ISET, INSTR, TYPES, FAKE, CANH, NCST, DSRC

LSZ = 'Environment.lineSize'
FIELDS = NI_, ND_, NO_, NS_, NL_, NT_ = ['LineSize.' + x for x in ('nbInstructionBits', 'nbDestinationBits', 'nbOperandsBits', 'nbOperandDataSourceIndexBits', 'nbOperandLocationBits', 'totalNbBits')]
FREG, FCST = 'Environment.fakeRegisters', 'Environment.fakeConstants'
W = 2 ** 64
LAS = z3.Function('largest_address_space', Ref, INT)
LMAX = z3.Function('largest_of', S.S, INT, INT, INT)                       # largest space of the first k sources, at least b
REGC, CSTC = z3.Function('registers_provide', INT, Ref, BOOL), z3.Function('constants_provide', INT, Ref, BOOL)
ANYC, ANYW = z3.Function('a_source_provides', S.S, INT, Ref, BOOL), z3.Function('source_that_provides', S.S, INT, Ref, INT)
ALLT, ALLW = z3.Function('all_types_provided', S.S, INT, INT, INT, S.S, BOOL), z3.Function('type_not_provided', S.S, INT, INT, INT, S.S, INT)
TYP = z3.ArraySort(Ref, S.S)
FILT = z3.Function('usable_instructions', S.S, INT, TYP, INT, INT, S.S, S.S)
NMAX = z3.Function('most_operands', S.S, TYP, INT, INT)


def prov(t, nr, nc, src, n=None):
    return Or(REGC(nr, t), And(nc > 0, CSTC(nc, t)), ANYC(src, S.len(src) if n is None else n, t))


def axioms(eng):
    s, u, k, j, b, t, nr, nc, ty = Const('s', S.S), Const('u', S.S), Int('k'), Int('j'), Int('b'), R('t'), Int('nr'), Int('nc'), Const('ty', TYP)
    x = S.at(s, k)
    w = ANYW(s, k, t)
    v = ALLW(s, k, nr, nc, u)
    r, lg = z3.Real('r'), z3.Function('log2', z3.RealSort(), z3.RealSort())
    return [
        ForAll([r], Implies(And(1 <= r, r <= 2 ** 64), And(0 <= lg(r), lg(r) <= 64)), patterns=[lg(r)]),
        ForAll([s, b], LMAX(s, 0, b) == b, patterns=[LMAX(s, 0, b)]),
        ForAll([s, k, b], Implies(And(0 <= k, k < S.len(s)), LMAX(s, k + 1, b) == If(LAS(x) > LMAX(s, k, b), LAS(x), LMAX(s, k, b))), patterns=[MultiPattern(LMAX(s, k, b), x)]),
        ForAll([s, k, t, j], Implies(And(0 <= j, j < k, CANH(S.at(s, j), t)), ANYC(s, k, t)), patterns=[MultiPattern(ANYC(s, k, t), CANH(S.at(s, j), t))]),
        ForAll([s, k, t], Implies(ANYC(s, k, t), And(0 <= w, w < k, CANH(S.at(s, w), t))), patterns=[ANYC(s, k, t)]),
        ForAll([s, k, nr, nc, u, j], Implies(And(ALLT(s, k, nr, nc, u), 0 <= j, j < k), prov(S.at(s, j), nr, nc, u)), patterns=[MultiPattern(ALLT(s, k, nr, nc, u), S.at(s, j))]),
        ForAll([s, k, nr, nc, u], Or(ALLT(s, k, nr, nc, u), And(0 <= v, v < k, Not(prov(S.at(s, v), nr, nc, u)))), patterns=[ALLT(s, k, nr, nc, u)]),
        ForAll([s, ty, nr, nc, u], FILT(s, 0, ty, nr, nc, u) == S.empty, patterns=[FILT(s, 0, ty, nr, nc, u)]),
        ForAll([s, k, ty, nr, nc, u], Implies(And(0 <= k, k < S.len(s)), FILT(s, k + 1, ty, nr, nc, u) == If(ALLT(Select(ty, x), S.len(Select(ty, x)), nr, nc, u), S.push(FILT(s, k, ty, nr, nc, u), x), FILT(s, k, ty, nr, nc, u))),
               patterns=[MultiPattern(FILT(s, k, ty, nr, nc, u), x)]),
        ForAll([s, ty], NMAX(s, ty, 0) == 0, patterns=[NMAX(s, ty, 0)]),
        ForAll([s, k, ty], Implies(And(0 <= k, k < S.len(s)), NMAX(s, ty, k + 1) == If(S.len(Select(ty, x)) > NMAX(s, ty, k), S.len(Select(ty, x)), NMAX(s, ty, k))), patterns=[MultiPattern(NMAX(s, ty, k), x)]),
    ]


def bits(x):
    """ceiling of the base 2 logarithm, as computed by the mathematical library"""
    lg = z3.Function('log2', z3.RealSort(), z3.RealSort())(z3.ToReal(x))
    return z3.ToInt(lg) if 0 else -z3.ToInt(-lg)


def handlers_ok(c, s):
    i = Int('i')
    return And(S.len(s) < 2 ** 31, fa([i], Implies(And(0 <= i, i < S.len(s)), And(S.at(s, i) != null, c.h0('$alloc', S.at(s, i)), c.eng.is_a(S.at(s, i), 'DataHandler'))), [S.at(s, i)]))


def set_ok(c, s, h=None):
    i = Int('i')
    ins = (h or c.h0)(INSTR, s)
    return And(s != null, S.len(ins) < 2 ** 31, fa([i], Implies(And(0 <= i, i < S.len(ins)), And(S.at(ins, i) != null, c.h0('$alloc', S.at(ins, i)), c.eng.is_a(S.at(ins, i), 'Instruction'), S.len(c.h0(TYPES, S.at(ins, i))) < 2 ** 31)), [S.at(ins, i)]))


def largest_loop(L):
    b = If(L.arg(0) > L.arg(1), L.arg(0), L.arg(1))
    return [('cursor', And(0 <= L.k, L.k <= S.len(L.seq))), ('[C18] largest space so far', L.var('res') == LMAX(L.seq, L.k, b)), ('machine range', And(0 <= L.var('res'), L.var('res') < W))]


def most_loop(L):
    return [('cursor', And(0 <= L.k, L.k <= S.len(L.seq))), ('[C18] largest number of operands so far', And(L.var('res') == NMAX(L.seq, L.h.arr(TYPES), L.k), 0 <= L.var('res'), L.var('res') < 2 ** 31))]


def filt(L, k):
    return FILT(L.h0(INSTR, L.arg(0)), k, L.h0.arr(TYPES), L.arg(1), L.arg(2), L.arg(3))


def usable(c, h, s, nr, nc, src):
    i = Int('i')
    ins = h(INSTR, s)
    ty = h(TYPES, S.at(ins, i))
    return fa([i], Implies(And(0 <= i, i < S.len(ins)), ALLT(ty, S.len(ty), nr, nc, src)), [S.at(ins, i)])


def kept(L):
    r = R('r')
    return [('other sets', fa([r], Implies(L.h0('$alloc', r), L.h(INSTR, r) == L.h0(INSTR, r)), [L.h(INSTR, r)]))]


def outer(L):
    k = L.var('idxInstruction')
    return [('cursor', And(0 <= k, k <= S.len(L.h0(INSTR, L.arg(0))))), ('[C18] instructions retained so far', L.h(INSTR, L.obj('filteredSet').ref) == filt(L, k)), ('retained instructions', And(set_ok(L, L.obj('filteredSet').ref, L.h), S.len(L.h(INSTR, L.obj('filteredSet').ref)) <= k)), ('[C18] every operand type of a retained instruction is provided', usable(L, L.h, L.obj('filteredSet').ref, L.arg(1), L.arg(2), L.arg(3))), ('a new set', Not(L.h0('$alloc', L.obj('filteredSet').ref)))] + kept(L)


def operands(L):
    ty = L.h0(TYPES, L.var('instruction'))
    j = L.var('idxOperand')
    return [('cursor', And(0 <= j, j <= S.len(ty))), ('[C18] operands provided so far', And(L.var('allOperandsHandled'), ALLT(ty, j, L.arg(1), L.arg(2), L.arg(3))))]


def sources(L):
    t = L.var('type')
    return [('cursor', And(0 <= L.k, L.k <= S.len(L.seq))), ('[C18] sources tried so far', L.var('isHandled') == prov(t, L.arg(1), L.arg(2), L.arg(3), L.k))]


def dims(c, h):
    e = c.a(0)
    return h(NREG, e), h(NINS, e), h(MAXOP, e), h(NSRC, e), h(LARGEST, e)


def unusable(c, h, e):
    n, i, m, s, l = (h(x, e) for x in (NREG, NINS, MAXOP, NSRC, LARGEST))
    return Or(n == 0, i <= 1, m == 0, s <= 1, l == 0)


def sizes(h, z, n, i, m, s, l):
    return [('[C18] bits of a source', h(NS_, z) == bits(s)), ('[C18] bits of a location', h(NL_, z) == bits(l)), ('[C18] bits of the operands', h(NO_, z) == m * (h(NS_, z) + h(NL_, z))),
            # finding lineSizeFieldOrder: the two fields are swapped
            ('[C18] bits of the instruction and of the destination', Or(And(h(NI_, z) == bits(i), h(ND_, z) == bits(n)), And(h(NI_, z) == bits(n), h(ND_, z) == bits(i)))),
            ('[C18] bits of a line', h(NT_, z) == h(NI_, z) + h(ND_, z) + h(NO_, z))]


def dims_ok(c):
    n, i, m, s, l = dims(c, c.h0)
    return [('machine range', And(c.a(0) != null, *[And(0 <= x, x < 2 ** 31) for x in (i, m)], 0 <= s, s < 2 ** 32, *[And(0 <= x, x < W) for x in (n, l)]))]


getters = [Contract('Environment::' + f, ensures=lambda c, k=k: [('[C18] the dimension', c.ret == c.h0(k, c.this))]) for f, k in (('getNbRegisters', NREG), ('getNbConstant', NCST), ('getNbInstructions', NINS), ('getMaxNbOperands', MAXOP), ('getNbDataSources', NSRC), ('getLargestAddressSpace', LARGEST), ('getLineSize', LSZ))]
ENVK = [NREG, NINS, MAXOP, NSRC, LARGEST, ISET, FAKE, NCST, DSRC, LSZ, FREG, FCST]


def as_listed(h, e, lst, n):
    """the registers, the constants if any, then the first n sources of a list"""
    f, i, j = h(FAKE, e), Int('i'), Int('j')
    o = If(h(NCST, e) > 0, IntVal(2), IntVal(1))
    return And(S.len(f) == o + n, S.at(f, 0) == h(FREG, e), Implies(h(NCST, e) > 0, S.at(f, 1) == h(FCST, e)), fa([i], Implies(And(o <= i, i < o + n), S.at(f, i) == S.at(lst, i - o)), [S.at(f, i)]), fa([j], Implies(And(0 <= j, j < n), S.at(f, j + o) == S.at(lst, j)), [S.at(lst, j)]))


def cat_loop(L):
    h, r = L.h, R('r')
    return [('cursor', And(0 <= L.k, L.k <= S.len(L.seq))), ('[C18] sources listed so far', as_listed(h, L.this, L.seq, L.k)), ('other environments', fa([r], Implies(r != L.this, h(FAKE, r) == L.h0(FAKE, r)), [h(FAKE, r)]))]


def listed(c):
    lst = c.h(DSRC, c.this)
    return ('[C18] the sources are the registers, the constants if any, and the given ones', as_listed(c.h, c.this, lst, S.len(lst)))


def own(c):
    h, e = c.h, c.this
    return ('[C18] registers and constants of its own', And(*[And(h(k, e) != null, Not(c.h0('$alloc', h(k, e))), h('$alloc', h(k, e))) for k in (FREG, FCST)]))


def frame(c):
    return ('[C18] other environments', And(*[only(c, k, c.this) for k in ENVK] + [onlyA(c, INSTR)]))


def built(c):
    h, h0, e = c.h, c.h0, c.this
    ins = h(INSTR, h(ISET, e))
    src, nr, nc = c.a(1), c.a(2), c.a(3)
    i, j, k = Int('i'), Int('j'), Int('k')
    t = S.at(h(TYPES, S.at(ins, i)), j)
    return [('[C18] exactly the usable instructions, in order', ins == FILT(h0(INSTR, c.a(0)), S.len(h0(INSTR, c.a(0))), h0.arr(TYPES), nr, nc, src)),
            ('[C18] a source provides each operand type of the instructions', fa([i, j], Implies(And(0 <= i, i < S.len(ins), 0 <= j, j < S.len(h(TYPES, S.at(ins, i)))), ANYC(h(FAKE, e), S.len(h(FAKE, e)), t)), [t])),
            ('[C18] the given dimensions', And(h(NREG, e) == nr, h(NCST, e) == nc, h(DSRC, e) == src)),
            ('[C18] the number of instructions retained', h(NINS, e) == S.len(ins)), ('[C18] the largest number of operands of those', h(MAXOP, e) == NMAX(ins, h.arr(TYPES), S.len(ins))),
            ('[C18] the number of sources', h(NSRC, e) == S.len(h(FAKE, e))), ('[C18] the largest address space', h(LARGEST, e) == LMAX(src, S.len(src), If(nr > nc, nr, nc))), listed(c), own(c), frame(c)] + \
        [x for x in sizes(h, h(LSZ, e), h(NREG, e), h(NINS, e), h(MAXOP, e), h(NSRC, e), h(LARGEST, e))]


def refused(c):
    src, nr, nc = c.a(1), c.a(2), c.a(3)
    ins = FILT(c.h0(INSTR, c.a(0)), S.len(c.h0(INSTR, c.a(0))), c.h0.arr(TYPES), nr, nc, src)
    return Or(nr == 0, S.len(ins) <= 1, NMAX(ins, c.h0.arr(TYPES), S.len(ins)) == 0, S.len(src) + If(nc > 0, IntVal(2), IntVal(1)) <= 1, LMAX(src, S.len(src), If(nr > nc, nr, nc)) == 0)


def copied(c):
    h, h0, e, o = c.h, c.h0, c.this, c.a(0)
    return [('[C18] the same instructions and dimensions', And(h(INSTR, h(ISET, e)) == h0(INSTR, h0(ISET, o)), *[h(k, e) == h0(k, o) for k in (NREG, NINS, MAXOP, NSRC, LARGEST, NCST, DSRC)])),
            ('[C18] the same line size', And(*[h(k, h(LSZ, e)) == h0(k, h0(LSZ, o)) for k in FIELDS])), listed(c), own(c), frame(c)]


ctors = [
    Contract('Environment::<ctor>', nparams=4, requires=lambda c: [('sources', handlers_ok(c, c.a(1))), ('set', set_ok(c, c.a(0)))], throws=refused, exc='std::domain_error', modifies=['$new', INSTR] + ENVK + FIELDS, ensures=built, loops=[cat_loop]),
    Contract('Environment::<ctor>', nparams=1, requires=lambda c: [('source', And(c.a(0) != null, c.this != c.a(0), c.h0(ISET, c.a(0)) != null, c.h0(LSZ, c.a(0)) != null, handlers_ok(c, c.h0(DSRC, c.a(0)))))], modifies=['$new', INSTR] + ENVK + FIELDS, ensures=copied, loops=[cat_loop]),
]
contracts = getters + ctors + [
    Contract('DataHandler::getLargestAddressSpace', trusted=True, ensures=lambda c: [('', And(c.ret == LAS(c.this), 0 <= c.ret, c.ret < W))], note='bounded check in C08'),
    Contract('DataHandler::canHandle', trusted=True, ensures=lambda c: [('', c.ret == CANH(c.this, c.a(0)))], note='bounded check in C08'),
    Contract('Instruction::getNbOperands', trusted=True, requires=lambda c: [('machine range', S.len(c.h0(TYPES, c.this)) < 2 ** 32)], ensures=lambda c: [('', c.ret == S.len(c.h0(TYPES, c.this)))], note='discharged in unit program'),
    Contract('PrimitiveTypeArray<double>::<ctor>', trusted=True, sel=lambda f: 'size' in f.qual or 'long' in f.qual, ensures=lambda c: [('', fa([R('t')], CANH(c.this, R('t')) == REGC(c.a(0), R('t')), [CANH(c.this, R('t')), REGC(c.a(0), R('t'))]))], note='what an array of numbers provides depends on its size only; bounded check in C08'),
    Contract('ConstantHandler::<ctor>', trusted=True, sel=lambda f: 'size' in f.qual or 'long' in f.qual, ensures=lambda c: [('', fa([R('t')], CANH(c.this, R('t')) == CSTC(c.a(0), R('t')), [CANH(c.this, R('t')), CSTC(c.a(0), R('t'))]))], note='what an array of constants provides depends on its size only; bounded check in C08'),
    Contract('PrimitiveTypeArray<double>::<ctor>', trusted=True, sel=lambda f: 'PrimitiveTypeArray' in f.qual, ensures=lambda c: [('', fa([R('t')], CANH(c.this, R('t')) == CANH(c.a(0), R('t')), [CANH(c.this, R('t'))]))], note='a copy provides what its source provides; bounded check in C09'),
    Contract('ConstantHandler::<ctor>', trusted=True, sel=lambda f: 'ConstantHandler' in f.qual, ensures=lambda c: [('', fa([R('t')], CANH(c.this, R('t')) == CANH(c.a(0), R('t')), [CANH(c.this, R('t'))]))], note='a copy provides what its source provides; bounded check in C09'),
    Contract('Set::add', ensures=lambda c: [('[C18] appended', And(c.ret, c.h(INSTR, c.this) == S.push(c.h0(INSTR, c.this), c.a(0)))), ('[C18] other sets', only(c, INSTR, c.this))], modifies=[INSTR]),
    Contract('Set::getMaxNbOperands', requires=lambda c: [('set', set_ok(c, c.this))], ensures=lambda c: [('[C18] the largest number of operands of its instructions', c.ret == NMAX(c.h0(INSTR, c.this), c.h0.arr(TYPES), S.len(c.h0(INSTR, c.this)))), ('machine range', And(0 <= c.ret, c.ret < 2 ** 31))], loops=[most_loop]),
    Contract('Environment::computeLargestAddressSpace', requires=lambda c: [('sources', handlers_ok(c, c.a(2)))], ensures=lambda c: [('[C18] the largest of the registers, the constants and the sources', c.ret == LMAX(c.a(2), S.len(c.a(2)), If(c.a(0) > c.a(1), c.a(0), c.a(1)))), ('machine range', And(0 <= c.ret, c.ret < W))], loops=[largest_loop]),
    Contract('Environment::filterInstructionSet', requires=lambda c: [('sources', handlers_ok(c, c.a(3))), ('set', set_ok(c, c.a(0)))], modifies=['$new', INSTR], ensures=lambda c: [
        ('[C18] exactly the instructions whose operand types can be provided, in order', c.h(INSTR, c.ret) == FILT(c.h0(INSTR, c.a(0)), S.len(c.h0(INSTR, c.a(0))), c.h0.arr(TYPES), c.a(1), c.a(2), c.a(3))), ('[C18] every operand type of a retained instruction is provided', usable(c, c.h, c.ret, c.a(1), c.a(2), c.a(3))), ('other sets', onlyA(c, INSTR)), ('the set', set_ok(c, c.ret, c.h)), ('a set', And(c.ret != null, Not(c.h0('$alloc', c.ret)), c.h('$alloc', c.ret)))], loops=[outer, operands, sources]),
    Contract('Environment::computeLineSize', requires=dims_ok, throws=lambda c: unusable(c, c.h0, c.a(0)), exc='std::domain_error', modifies=['$new'] + FIELDS, ensures=lambda c: sizes(c.h, c.ret, *dims(c, c.h0)) + [('a new size', And(c.ret != null, Not(c.h0('$alloc', c.ret)), c.h('$alloc', c.ret)))]),
]
unit = Unit('environ', ['src/environment.cpp', 'src/instructions/set.cpp', 'src/instructions/instruction.cpp', 'src/data/dataHandler.cpp'], ['Environment', 'Instructions', 'Data', 'LineSize'], contracts, axioms=axioms)
