"""Programs: lines, structure, execution, introns, identical behaviour
(C06, C07, C10-C13)."""
from cdv.spec import *
from cdv import theory as T
from cdv.theory import F64

P2 = T.pair(INT, INT)
PAIR, pf = P2[0], P2[2]
OPS = seq(PAIR)
LI, LD, LO, LE = 'Line.instructionIndex', 'Line.destinationIndex', 'Line.operands', 'Line.environment'
NREG, NINS, MAXOP, NSRC, LARGEST = ('Environment.' + x for x in ('nbRegisters', 'nbInstructions', 'maxNbOperands', 'nbDataSources', 'largestAddressSpace'))
LINEKEYS = [LI, LD, LO]


def line_ok(c, h, l):
    """what the constructors of Line establish"""
    return And(l != null, h('$alloc', l), c.eng.is_a(l, 'Line'), h(LE, l) != null, OPS.len(h(LO, l)) == h(MAXOP, h(LE, l)))


def lreq(c):
    return [('line', line_ok(c, c.h0, c.this))]


def untouched(c, *keys):
    return [('[C10] no other line changes', And(*[only(c, k, c.this) for k in keys]))]


def set_dest(c):
    ok = Or(Not(c.a(1)), c.a(0) < c.h0(NREG, c.h0(LE, c.this)))
    return [('[C10] only an existing register is accepted', c.ret == ok), ('[C10] stored when accepted, unchanged otherwise', c.h(LD, c.this) == If(ok, c.a(0), c.h0(LD, c.this)))] + untouched(c, LD)


def set_ins(c):
    ok = Or(Not(c.a(1)), c.a(0) < c.h0(NINS, c.h0(LE, c.this)))
    return [('[C10] only an existing instruction is accepted', c.ret == ok), ('[C10] stored when accepted, unchanged otherwise', c.h(LI, c.this) == If(ok, c.a(0), c.h0(LI, c.this)))] + untouched(c, LI)


def set_op(c):
    e = c.h0(LE, c.this)
    ok = Or(Not(c.a(3)), And(c.a(1) < c.h0(NSRC, e), c.a(2) < c.h0(LARGEST, e)))
    return [('[C10] only an existing source and location are accepted', c.ret == ok),
            ('[C10] stored when accepted, unchanged otherwise', c.h(LO, c.this) == If(ok, OPS.upd(c.h0(LO, c.this), c.a(0), PAIR.mk(c.a(1), c.a(2))), c.h0(LO, c.this)))] + untouched(c, LO)


def frozen_line(c):
    return [('[C10] nothing changes', And(*[same(c, k) for k in LINEKEYS]))]


SAMEOPS = z3.Function('same_operands', OPS.S, OPS.S, INT, BOOL)      # the first n operands are equal
OPW = z3.Function('different_operand', OPS.S, OPS.S, INT, INT)


def opeq(h, a, b, n):
    return SAMEOPS(h(LO, a), h(LO, b), n)


def opeq_axioms():
    o, p, n, i = Const('o', OPS.S), Const('p', OPS.S), Int('n'), Int('i')
    w = OPW(o, p, n)
    return [ForAll([o, p, n, i], Implies(And(SAMEOPS(o, p, n), 0 <= i, i < n), OPS.at(o, i) == OPS.at(p, i)), patterns=[MultiPattern(SAMEOPS(o, p, n), OPS.at(o, i)), MultiPattern(SAMEOPS(o, p, n), OPS.at(p, i))]),
            ForAll([o, p, n], Or(SAMEOPS(o, p, n), And(0 <= w, w < n, OPS.at(o, w) != OPS.at(p, w))), patterns=[SAMEOPS(o, p, n)])]


def line_eq(h, a, b):
    return And(h(LI, a) == h(LI, b), h(LD, a) == h(LD, b), opeq(h, a, b, h(MAXOP, h(LE, a))))


def eqreq(c):
    return lreq(c) + [('both lines', line_ok(c, c.h0, c.a(0))), ('same environment', c.h0(LE, c.this) == c.h0(LE, c.a(0))), ('machine range', c.h0(MAXOP, c.h0(LE, c.this)) < 2 ** 31)]


def line_eq_loop(L):
    k = L.var('idx')
    return [('cursor', 0 <= k), ('[C13] the operands seen so far are equal', opeq(L.h, L.this, L.arg(0), k))]


line_eq_con = Contract('Line::operator==', requires=eqreq, ensures=lambda c: [('[C13] equal lines have the same instruction, destination and operands', c.ret == line_eq(c.h0, c.this, c.a(0)))], loops=[line_eq_loop])
line_contracts = [
    Contract('Line::<ctor>', sel=lambda f: 'Environment' in f.qual, requires=lambda c: [], modifies=LINEKEYS + [LE], ensures=lambda c: [
        ('[C11] a new line is zero filled', And(c.h(LI, c.this) == 0, c.h(LD, c.this) == 0, c.h(LE, c.this) == c.a(0), c.h(LO, c.this) == OPS.rep(c.h0(MAXOP, c.a(0)), PAIR.mk(0, 0)))),
        ('[C11] no other line changes', And(*[only(c, k, c.this) for k in LINEKEYS + [LE]]))]),
    Contract('Line::<ctor>', sel=lambda f: 'Line' in f.qual, requires=lambda c: [('source', line_ok(c, c.h0, c.a(0))), ('machine range', c.h0(MAXOP, c.h0(LE, c.a(0))) < 2 ** 31), ('not itself', c.this != c.a(0))], modifies=LINEKEYS + [LE], ensures=lambda c: [
        ('[C13] a copy equals its source', And(c.h(LE, c.this) == c.h0(LE, c.a(0)), OPS.len(c.h(LO, c.this)) == OPS.len(c.h0(LO, c.a(0))), line_eq(c.h, c.this, c.a(0)))),
        ('[C11] no other line changes', And(*[only(c, k, c.this) for k in LINEKEYS + [LE]]))],
        loops=[lambda L: [('cursor', 0 <= L.var('idx')), ('fields', And(L.h(LI, L.this) == L.h(LI, L.arg(0)), L.h(LD, L.this) == L.h(LD, L.arg(0)), L.h(LE, L.this) == L.h(LE, L.arg(0)), OPS.len(L.h(LO, L.this)) == OPS.len(L.h(LO, L.arg(0))))),
                          ('copied so far', opeq(L.h, L.this, L.arg(0), L.var('idx'))), ('other lines', others_kept(L, LO))]]),
    Contract('Line::getEnvironment', ensures=lambda c: [('[C10] the environment', c.ret == c.h0(LE, c.this))]),
    Contract('Line::getDestinationIndex', ensures=lambda c: [('[C10] the destination', c.ret == c.h0(LD, c.this))]),
    Contract('Line::getInstructionIndex', ensures=lambda c: [('[C10] the instruction', c.ret == c.h0(LI, c.this))]),
    Contract('Line::setDestinationIndex', requires=lreq, ensures=set_dest, modifies=[LD]),
    Contract('Line::setInstructionIndex', requires=lreq, ensures=set_ins, modifies=[LI]),
    Contract('Line::getOperand', requires=lreq, throws=lambda c: c.a(0) >= c.h0(MAXOP, c.h0(LE, c.this)), exc='std::range_error', ensures=lambda c: [('[C10] the operand', c.ret == OPS.at(c.h0(LO, c.this), c.a(0)))]),
    Contract('Line::setOperand', requires=lreq, throws=lambda c: c.a(0) >= c.h0(MAXOP, c.h0(LE, c.this)), exc='std::range_error', ensures=set_op, ensures_throw=frozen_line, modifies=[LO]),
    line_eq_con,
    Contract('Line::operator!=', requires=eqreq, ensures=lambda c: [('[C13] the negation of equality', c.ret == Not(line_eq(c.h0, c.this, c.a(0))))]),
]


def others_kept(L, key):
    r = R('r')
    return fa([r], Implies(r != L.this, L.h(key, r) == L.pre(key, r)), [L.h(key, r)])


# ---------------------------------------------------------------- structure
LP2 = T.pair(Ref, BOOL)
LPAIR, lf = LP2[0], LP2[2]
LS = seq(LPAIR)
PL, PENV, PCST = 'Program.lines', 'Program.environment', 'Program.constants'
lref, lintron = lf['first'], lf['second']
KEEP = z3.Function('lines_kept', LS.S, LS.S)          # the lines that are not marked as introns, in order
IDX = z3.Function('position_of_line', LS.S, Ref, INT)


def keep_axioms():
    s, x = Const('s', LS.S), Const('x', LPAIR)
    return [KEEP(LS.empty) == LS.empty, ForAll([s, x], KEEP(LS.push(s, x)) == If(lintron(x), KEEP(s), LS.push(KEEP(s), x)), patterns=[KEEP(LS.push(s, x))])]


def owned(c, h, p, ls=None):
    """the lines of a program are live, belong to its environment and are listed once"""
    i, j = Int('i'), Int('j')
    ls = h(PL, p) if ls is None else ls
    return And(fa([i], Implies(And(0 <= i, i < LS.len(ls)), And(line_ok(c, h, lref(LS.at(ls, i))), h(LE, lref(LS.at(ls, i))) == h(PENV, p))), [LS.at(ls, i)]),
               fa([i, j], Implies(And(0 <= i, i < j, j < LS.len(ls)), lref(LS.at(ls, i)) != lref(LS.at(ls, j))), [MultiPattern(LS.at(ls, i), LS.at(ls, j))]))


def preq(c):
    return [('lines are owned', owned(c, c.h0, c.this)), ('environment', c.h0(PENV, c.this) != null), ('machine range', LS.len(c.h0(PL, c.this)) < 2 ** 62)]


def nb(c):
    return LS.len(c.h0(PL, c.this))


def kept_lines(c, *exc):
    """no existing line changes"""
    return [('[C11] no existing line changes', And(*[onlyA(c, k, *exc) for k in LINEKEYS + [LE]])), ('[C11] no other program changes', only(c, PL, c.this))]


def add_at(pos):
    def post(c):
        k = pos(c)
        new = c.ret
        return [('[C11] exactly one line is inserted, at the requested place, not marked as an intron', c.h(PL, c.this) == LS.ins(c.h0(PL, c.this), k, LPAIR.mk(new, False))),
                ('[C11] the inserted line is new', And(Not(c.h0('$alloc', new)), c.h('$alloc', new))),
                ('[C11] the inserted line is zero filled', And(c.h(LI, new) == 0, c.h(LD, new) == 0, c.h(LE, new) == c.h0(PENV, c.this), c.h(LO, new) == OPS.rep(c.h0(MAXOP, c.h0(PENV, c.this)), PAIR.mk(0, 0)))),
                ('[C11] lines are owned', owned(c, c.h, c.this))] + kept_lines(c)
    return post


def frozen_prog(c):
    return [('[C11] a rejected edit changes nothing', And(same(c, PL), *[onlyA(c, k) for k in LINEKEYS]))]


def removed(c):
    gone = lref(LS.at(c.h0(PL, c.this), c.a(0)))
    r = R('r')
    return [('[C11] exactly the designated line is removed', c.h(PL, c.this) == LS.erase(c.h0(PL, c.this), c.a(0))),
            ('[C11] only the removed line is released', fa([r], c.h('$alloc', r) == And(c.h0('$alloc', r), r != gone), [c.h('$alloc', r)])), ('[C11] lines are owned', owned(c, c.h, c.this)), ('[C11] no other program changes', only(c, PL, c.this))]


def cleared(c):
    return [('[C12] exactly the lines marked as introns are removed, the others keep their order', LS.eq(c.h(PL, c.this), KEEP(c.h0(PL, c.this)))), ('[C11] lines are owned', owned(c, c.h, c.this)), ('[C11] no other program changes', only(c, PL, c.this))]


def clear_loop(L):
    ls, l0, k = L.h(PL, L.this), L.h0(PL, L.this), L.var('index')
    done = LS.len(l0) - (LS.len(ls) - k)
    i = Int('i')
    r = R('r')
    kept = KEEP(l0)
    return [('cursor', And(0 <= k, k <= LS.len(ls), LS.len(ls) <= LS.len(l0))), ('kept length', And(LS.len(KEEP(LS.take(l0, done))) == k, k <= LS.len(kept))),
            ('kept so far', fa([i], Implies(And(0 <= i, i < k), LS.at(ls, i) == LS.at(kept, i)), [LS.at(ls, i), LS.at(kept, i)])),
            ('still to come', fa([i], Implies(And(done <= i, i < LS.len(l0)), LS.at(ls, i - done + k) == LS.at(l0, i)), [LS.at(l0, i)])),
            ('still to come (from the current lines)', fa([i], Implies(And(k <= i, i < LS.len(ls)), LS.at(ls, i) == LS.at(l0, i + done - k)), [LS.at(ls, i)])),
            ('lines are owned', owned(L, L.h, L.this)), ('other programs', others_kept(L, PL))]


prog_contracts = [
    Contract('Program::addNewLine', nparams=0, requires=preq, ensures=add_at(nb), modifies=['$new', PL] + LINEKEYS + [LE]),
    Contract('Program::addNewLine', nparams=1, requires=preq, throws=lambda c: c.a(0) > nb(c), exc='std::out_of_range', ensures=add_at(lambda c: c.a(0)), ensures_throw=frozen_prog, modifies=['$new', PL] + LINEKEYS + [LE]),
    Contract('Program::removeLine', requires=preq, throws=lambda c: c.a(0) >= nb(c), exc='std::out_of_range', ensures=removed, ensures_throw=frozen_prog, modifies=['$alloc', PL]),
    Contract('Program::swapLines', requires=preq, throws=lambda c: Or(c.a(0) >= nb(c), c.a(1) >= nb(c)), exc='std::out_of_range', ensures_throw=frozen_prog, modifies=[PL], ensures=lambda c: [
        ('[C11] exactly the two designated lines are exchanged', c.h(PL, c.this) == LS.upd(LS.upd(c.h0(PL, c.this), c.a(0), LS.at(c.h0(PL, c.this), c.a(1))), c.a(1), LS.at(c.h0(PL, c.this), c.a(0)))),
        ('[C11] lines are owned', owned(c, c.h, c.this)), ('[C11] no other program changes', only(c, PL, c.this))]),
    Contract('Program::clearIntrons', requires=preq, ensures=cleared, modifies=['$alloc', PL], loops=[clear_loop]),
    Contract('Program::getEnvironment', ensures=lambda c: [('[C11] the environment', c.ret == c.h0(PENV, c.this))]),
    Contract('Program::getNbLines', ensures=lambda c: [('[C11] the number of lines', c.ret == nb(c))]),
    Contract('Program::getLine', sel=lambda f: f.qual.endswith('const'), throws=lambda c: c.a(0) >= nb(c), exc='std::out_of_range', requires=preq, ensures=lambda c: [('[C11] the designated line', c.ret == lref(LS.at(c.h0(PL, c.this), c.a(0))))]),
    Contract('Program::getLine', sel=lambda f: not f.qual.endswith('const'), throws=lambda c: c.a(0) >= nb(c), exc='std::out_of_range', requires=preq, ensures=lambda c: [('[C11] the designated line', c.ret == lref(LS.at(c.h0(PL, c.this), c.a(0))))]),
    Contract('Program::isIntron', throws=lambda c: c.a(0) >= nb(c), exc='std::out_of_range', ensures=lambda c: [('[C12] the mark of the line', c.ret == lintron(LS.at(c.h0(PL, c.this), c.a(0))))]),
]


# ---------------------------------------------------------------- execution
# The data layer (data handlers, instructions) enters through assumed contracts
# over uninterpreted functions of the content of the sources.
CONTENT = z3.DeclareSort('Content')
FS = seq(F64)
CK = '$content'
ACK = z3.ArraySort(Ref, CONTENT)
REG = z3.Function('registers_of', CONTENT, FS.S)
RESET = z3.Function('reset', CONTENT, CONTENT)
SETD = z3.Function('with_register', CONTENT, INT, F64, CONTENT)
SPACE = z3.Function('address_space', Ref, Ref, INT)
SCALED = z3.Function('scaled', INT, INT, INT)
DATAV = z3.Function('data_at', Ref, CONTENT, Ref, INT, Ref)
CELL = z3.Function('cell.double', Ref, F64)
EXEC = z3.Function('execute', Ref, S.S, F64)
FETCH = z3.Function('fetched', ACK, S.S, OPS.S, S.S, S.S)
RUN = z3.Function('run', LS.S, S.S, S.S, Ref, ACK, CONTENT)
SRCS, REGS, PROG, PCNT = 'ProgramEngine.dataScsConstsAndRegs', 'ProgramEngine.registers', 'ProgramEngine.program', 'ProgramEngine.programCounter'
ISET, INSTR, TYPES = 'Environment.instructionSet', 'Set.instructions', 'Instruction.operandTypes'


def step(h, line, ins, srcs, regs, A):
    """content of the registers after one line"""
    i = S.at(ins, h(LI, line))
    return SETD(Select(A, regs), h(LD, line), EXEC(i, FETCH(A, srcs, h(LO, line), h(TYPES, i))))


def src_of(srcs, ops, j):
    return S.at(srcs, pf['first'](OPS.at(ops, j)))


def exec_axioms(eng):
    from cdv.engine import Heap
    h = Heap(eng, {})
    s, x, ins, srcs, rg, A, c = Const('s', LS.S), Const('x', LPAIR), Const('ins', S.S), Const('srcs', S.S), R('rg'), Const('A', ACK), Const('c', CONTENT)
    i, j, v, o, ty, r, t = Int('i'), Int('j'), Const('v', F64), Const('o', OPS.S), Const('ty', S.S), R('r'), R('t')
    f = FETCH(A, srcs, o, ty)
    src = src_of(srcs, o, j)
    return [
        # registers
        ForAll([c, i, v], REG(SETD(c, i, v)) == FS.upd(REG(c), i, v), patterns=[SETD(c, i, v)]),
        ForAll([c], FS.len(REG(RESET(c))) == FS.len(REG(c)), patterns=[RESET(c)]),
        ForAll([c, i], Implies(And(0 <= i, i < FS.len(REG(c))), FS.at(REG(RESET(c)), i) == F64.fin(0)), patterns=[FS.at(REG(RESET(c)), i)]),
        ForAll([r, c, i], CELL(DATAV(r, c, eng.typeid('double'), i)) == FS.at(REG(c), i), patterns=[DATAV(r, c, eng.typeid('double'), i)]),
        # scaling of raw locations
        ForAll([i, j], Implies(j > 0, And(SCALED(i, j) == i % j, 0 <= SCALED(i, j), SCALED(i, j) < j)), patterns=[SCALED(i, j)]),
        # operands
        ForAll([A, srcs, o, ty], S.len(f) == S.len(ty), patterns=[f]),
        ForAll([A, srcs, o, ty, j], Implies(And(0 <= j, j < S.len(ty)), S.at(f, j) == DATAV(src, Select(A, src), S.at(ty, j), SCALED(pf['second'](OPS.at(o, j)), SPACE(src, S.at(ty, j))))), patterns=[S.at(f, j)]),
        # execution of a list of lines from the current content of the registers
        ForAll([ins, srcs, rg, A], RUN(LS.empty, ins, srcs, rg, A) == Select(A, rg), patterns=[RUN(LS.empty, ins, srcs, rg, A)]),
        ForAll([s, x, ins, srcs, rg, A], RUN(LS.push(s, x), ins, srcs, rg, A) == If(lintron(x), RUN(s, ins, srcs, rg, A), step(h, lref(x), ins, srcs, rg, Store(A, rg, RUN(s, ins, srcs, rg, A)))), patterns=[RUN(LS.push(s, x), ins, srcs, rg, A)]),
    ]


def ins_of(h, p):
    return h(INSTR, h(ISET, h(PENV, p)))


def line_valid(c, h, l, p, srcs):
    """the line can be executed: instruction, destination, sources and types exist"""
    j = Int('j')
    ins = ins_of(h, p)
    i = S.at(ins, h(LI, l))
    ty = h(TYPES, i)
    src = src_of(srcs, h(LO, l), j)
    return And(0 <= h(LI, l), h(LI, l) < S.len(ins), i != null, h('$alloc', i), S.len(ty) <= h(MAXOP, h(PENV, p)),
               fa([j], Implies(And(0 <= j, j < S.len(ty)), And(0 <= pf['first'](OPS.at(h(LO, l), j)), pf['first'](OPS.at(h(LO, l), j)) < S.len(srcs), src != null, h('$alloc', src), c.eng.is_a(src, 'DataHandler'), S.at(ty, j) != null, SPACE(src, S.at(ty, j)) > 0)), [OPS.at(h(LO, l), j)]))


def engine_ok(c, h, t):
    i = Int('i')
    p, srcs, regs = h(PROG, t), h(SRCS, t), h(REGS, t)
    ls = h(PL, p)
    return [('program', And(p != null, h('$alloc', p), h(PENV, p) != null, h(ISET, h(PENV, p)) != null, owned(c, h, p), LS.len(ls) < 2 ** 62, S.len(ins_of(h, p)) < 2 ** 32)),
            ('executable lines', fa([i], Implies(And(0 <= i, i < LS.len(ls)), And(line_valid(c, h, lref(LS.at(ls, i)), p, srcs), 0 <= h(LD, lref(LS.at(ls, i))), h(LD, lref(LS.at(ls, i))) < FS.len(REG(h(CK, regs))))), [LS.at(ls, i)])),
            ('registers', And(regs != null, h('$alloc', regs), c.eng.is_a(regs, 'PrimitiveTypeArray<double>'), SPACE(regs, c.eng.typeid('double')) > 0)),
            ('operand types are small', fa([i], S.len(h(TYPES, S.at(ins_of(h, p), i))) < 2 ** 32, [S.at(ins_of(h, p), i)]))]


def ereq(c):
    return engine_ok(c, c.h0, c.this)


def cur(c):
    return LS.at(c.h0(PL, c.h0(PROG, c.this)), c.h0(PCNT, c.this))


def in_prog(c):
    return [('inside the program', And(0 <= c.h0(PCNT, c.this), c.h0(PCNT, c.this) < LS.len(c.h0(PL, c.h0(PROG, c.this)))))]


def beyond(c):
    return c.h0(PCNT, c.this) >= LS.len(c.h0(PL, c.h0(PROG, c.this)))


def next_post(c):
    ls = c.h0(PL, c.h0(PROG, c.this))
    p0, p1 = c.h0(PCNT, c.this), c.h(PCNT, c.this)
    return [('[C06] moves forward', And(p0 < p1, p1 <= LS.len(ls), c.ret == (p1 < LS.len(ls)))), ('[C12] stops on a line that is not an intron', Implies(p1 < LS.len(ls), Not(lintron(LS.at(ls, p1))))),
            ('[C12] only introns are skipped', between(ls, p0, p1)), skipped(ls, p0 + 1, p1), ('[C06] other engines untouched', only(c, PCNT, c.this))]


def between(ls, a, b):
    i = Int('i')
    return fa([i], Implies(And(a < i, i < b), lintron(LS.at(ls, i))), [LS.at(ls, i)])


def skipped(ls, a, b):
    ins, srcs, rg, A = Const('ins', S.S), Const('srcs', S.S), R('rg'), Const('A', ACK)
    return ('[C12] skipping introns does not change the registers', fa([ins, srcs, rg, A], RUN(LS.take(ls, b), ins, srcs, rg, A) == RUN(LS.take(ls, a), ins, srcs, rg, A), [RUN(LS.take(ls, b), ins, srcs, rg, A)]))


def next_loop(L):
    ls = L.h0(PL, L.h0(PROG, L.this))
    p0, k = L.h0(PCNT, L.this), L.h(PCNT, L.this)
    ins, srcs, rg, A = Const('ins', S.S), Const('srcs', S.S), R('rg'), Const('A', ACK)
    return [('cursor', And(p0 <= k, Or(k == p0, And(k < LS.len(ls), lintron(LS.at(ls, k)))))), ('only introns', between(ls, p0, k)),
            ('[C12] skipped lines', Implies(k > p0, skipped(ls, p0 + 1, k)[1])), ('other engines', others_kept(L, PCNT))]


def loc_req(c):
    ty = c.h0(TYPES, cur_ins(c))
    return ereq(c) + in_prog(c) + [('operand of the instruction', c.a(0) < S.len(ty))]


def cur_ins(c):
    return S.at(ins_of(c.h0, c.h0(PROG, c.this)), c.h0(LI, lref(cur(c))))


def loc_post(c):
    l = lref(cur(c))
    o = c.h0(LO, l)
    src = src_of(c.h0(SRCS, c.this), o, c.a(0))
    return [('[C07] the raw location modulo the address space of the designated source', c.ret == SCALED(pf['second'](OPS.at(o, c.a(0))), SPACE(src, S.at(c.h0(TYPES, cur_ins(c)), c.a(0)))))]


def fetch_all(c):
    return FETCH(c.h0.arr(CK), c.h0(SRCS, c.this), c.h0(LO, lref(cur(c))), c.h0(TYPES, cur_ins(c)))


def fetch_loop(L):
    i = L.var('i')
    return [('cursor', And(0 <= i, i <= S.len(fetch_all(L)))), ('[C07] operands fetched so far', S.eq(L.var('operands'), S.cat(L.arg(0), S.take(fetch_all(L), i))))]


def exec_state(c, new):
    """the registers hold `new`, every other content is unchanged"""
    regs = c.h0(REGS, c.this)
    return [('[C06] registers', c.h(CK, regs) == new), ('[C06] no data source changes', only(c, CK, regs))]


def one_line(c):
    p = c.h0(PROG, c.this)
    return exec_state(c, step(c.h0, lref(cur(c)), ins_of(c.h0, p), c.h0(SRCS, c.this), c.h0(REGS, c.this), c.h0.arr(CK)))


def run_of(c, n, A=None):
    p = c.h0(PROG, c.this)
    ls = c.h0(PL, p)
    return RUN(LS.take(ls, n), ins_of(c.h0, p), c.h0(SRCS, c.this), c.h0(REGS, c.this), c.h0.arr(CK) if A is None else A)


def n_lines(c):
    return LS.len(c.h0(PL, c.h0(PROG, c.this)))


def iter_loop(L):
    ls = L.h0(PL, L.h0(PROG, L.this))
    k, regs = L.h(PCNT, L.this), L.h0(REGS, L.this)
    r = R('r')
    return [('cursor', And(0 <= k, k <= LS.len(ls), L.var('hasNext') == (k < LS.len(ls)))), ('on a line that is not an intron', Implies(k < LS.len(ls), Not(lintron(LS.at(ls, k))))),
            ('[C06] registers so far', L.h(CK, regs) == run_of(L, k)), ('number of registers', FS.len(REG(L.h(CK, regs))) == FS.len(REG(L.h0(CK, regs)))),
            ('other contents', fa([r], Implies(r != regs, L.h(CK, r) == L.h0(CK, r)), [L.h(CK, r)])), ('other engines', others_kept(L, PCNT))]


def is_exec(c):
    return [('an execution engine', c.eng.is_a(c.this, 'ProgramExecutionEngine'))]


def result(c):
    regs = c.h0(REGS, c.this)
    A0 = c.h0.arr(CK)
    A = Store(A0, regs, RESET(Select(A0, regs)))
    fin = RUN(c.h0(PL, c.h0(PROG, c.this)), ins_of(c.h0, c.h0(PROG, c.this)), c.h0(SRCS, c.this), regs, A)
    return [('[C06] starting from zero registers, the lines that are not introns are applied in order; the first register is returned', c.ret == FS.at(REG(fin), 0))] + exec_state(c, fin)[:1] + [('[C06] no data source changes', only(c, CK, regs))]


data_contracts = [
    Contract('DataHandler::getAddressSpace', trusted=True, ensures=lambda c: [('', c.ret == SPACE(c.this, c.a(0)))], note='bounded check in C08'),
    Contract('DataHandler::getDataAt', trusted=True, requires=lambda c: [('[C07] the source provides the type and the address is inside it', And(0 <= c.a(1), c.a(1) < SPACE(c.this, c.a(0))))],
             ensures=lambda c: [('', And(c.ret != null, c.ret == DATAV(c.this, c.h0(CK, c.this), c.a(0), c.a(1))))], note='bounded check in C08'),
    Contract('DataHandler::resetData', trusted=True, modifies=[CK], ensures=lambda c: [('', And(c.h(CK, c.this) == RESET(c.h0(CK, c.this)), only(c, CK, c.this)))], note='bounded check in C06 and C09'),
    Contract('PrimitiveTypeArray<double>::setDataAt', trusted=True, modifies=[CK], requires=lambda c: [('[C06] existing register', And(0 <= c.a(1), c.a(1) < FS.len(REG(c.h0(CK, c.this)))))],
             ensures=lambda c: [('', And(c.h(CK, c.this) == SETD(c.h0(CK, c.this), c.a(1), c.a(2)), only(c, CK, c.this)))], note='bounded check in C06 and C09'),
    Contract('Instruction::execute', trusted=True, ensures=lambda c: [('', c.ret == EXEC(c.this, c.a(0)))], note='instructions are functions of their operands'),
]
exec_contracts = [
    Contract('DataHandler::scaleLocation', requires=lambda c: [('the source provides the type', SPACE(c.this, c.a(1)) > 0)], ensures=lambda c: [('[C07] the raw location modulo the address space', c.ret == SCALED(c.a(0), SPACE(c.this, c.a(1)))), ('[C07] inside the source', And(0 <= c.ret, c.ret < SPACE(c.this, c.a(1))))]),
    Contract('Set::getInstruction', throws=lambda c: c.a(0) >= S.len(c.h0(INSTR, c.this)), exc='std::out_of_range', ensures=lambda c: [('[C06] the designated instruction', c.ret == S.at(c.h0(INSTR, c.this), c.a(0)))]),
    Contract('Set::getNbInstructions', requires=lambda c: [('machine range', S.len(c.h0(INSTR, c.this)) < 2 ** 32)], ensures=lambda c: [('[C06] the number of instructions', c.ret == S.len(c.h0(INSTR, c.this)))]),
    Contract('Instruction::getNbOperands', requires=lambda c: [('machine range', S.len(c.h0(TYPES, c.this)) < 2 ** 32)], ensures=lambda c: [('[C06] the number of operands', c.ret == S.len(c.h0(TYPES, c.this)))]),
    Contract('ProgramEngine::next', requires=lambda c: ereq(c) + in_prog(c), ensures=next_post, modifies=[PCNT], loops=[next_loop]),
    Contract('ProgramEngine::getCurrentLine', requires=ereq, throws=beyond, exc='std::out_of_range', ensures=lambda c: [('[C06] the line of the program counter', c.ret == lref(cur(c)))]),
    Contract('ProgramEngine::getCurrentInstruction', requires=ereq, throws=beyond, exc='std::out_of_range', ensures=lambda c: [('[C06] the instruction of the current line', c.ret == cur_ins(c))]),
    Contract('ProgramEngine::getOperandLocation', requires=loc_req, ensures=loc_post),
    Contract('ProgramEngine::fetchCurrentOperands', requires=lambda c: ereq(c) + in_prog(c), modargs=[0], loops=[fetch_loop], ensures=lambda c: [
        ('[C07] each operand comes from its designated source, at the scaled location, with the type of the instruction', S.eq(c.a1(0), S.cat(c.a(0), fetch_all(c))))]),
    Contract('ProgramExecutionEngine::executeCurrentLine', requires=lambda c: ereq(c) + in_prog(c), ensures=one_line, modifies=[CK]),
    Contract('ProgramEngine::processLine', trusted=True, requires=lambda c: ereq(c) + in_prog(c) + is_exec(c), ensures=one_line, modifies=[CK], note='contract of the overrides, proved for ProgramExecutionEngine'),
    Contract('ProgramExecutionEngine::processLine', requires=lambda c: ereq(c) + in_prog(c), ensures=one_line, modifies=[CK]),
    Contract('ProgramEngine::iterateThroughtProgram', requires=lambda c: ereq(c) + is_exec(c), modifies=[CK, PCNT], loops=[iter_loop], ensures=lambda c: exec_state(c, run_of(c, n_lines(c))) + [('[C06] other engines untouched', only(c, PCNT, c.this))]),
    Contract('ProgramExecutionEngine::executeProgram', requires=ereq, modifies=[CK, PCNT], ensures=result),
]


# ---------------------------------------------------------------- switching programs
DSRC, NCST, DID = 'Environment.dataSources', 'Environment.nbConstants', 'DataHandler.id'


def offset(c):
    return If(c.h0(NCST, c.h0(PENV, c.a(0))) > 0, IntVal(2), IntVal(1))


def sp_srcs(c, h0=None):
    s0 = c.h0(SRCS, c.this)
    return If(c.h0(NCST, c.h0(PENV, c.a(0))) > 0, S.upd(s0, 1, c.h0(PCST, c.a(0))), s0)


def sp_req(c):
    i = Int('i')
    e = c.h0(PENV, c.a(0))
    s0, ds = c.h0(SRCS, c.this), c.h0(DSRC, e)
    return [('program', And(c.a(0) != null, e != null)), ('registers and constants come first', S.len(s0) >= offset(c)), ('registers', c.h0(REGS, c.this) != null),
            ('sources', And(fa([i], Implies(And(0 <= i, i < S.len(s0)), S.at(s0, i) != null), [S.at(s0, i)]), fa([i], Implies(And(0 <= i, i < S.len(ds)), S.at(ds, i) != null), [S.at(ds, i)])))]


def ids_agree(c, h, n):
    i = Int('i')
    s0, ds = sp_srcs(c), c.h0(DSRC, c.h0(PENV, c.a(0)))
    return fa([i], Implies(And(0 <= i, i < n), c.h0(DID, S.at(s0, i + offset(c))) == c.h0(DID, S.at(ds, i))), [S.at(ds, i)])


def sp_throws(c):
    n = S.len(c.h0(SRCS, c.this)) - offset(c)
    ds = c.h0(DSRC, c.h0(PENV, c.a(0)))
    return Or(n != S.len(ds), Not(ids_agree(c, c.h0, S.len(ds))))


def sp_post(c):
    regs = c.h0(REGS, c.this)
    return [('[C06] the program is executed from its first line', And(c.h(PROG, c.this) == c.a(0), c.h(PCNT, c.this) == 0)), ('[C06] the constants are those of the program', c.h(SRCS, c.this) == sp_srcs(c)),
            ('[C06] registers restart from zero', c.h(CK, regs) == RESET(c.h0(CK, regs))), ('[C06] no data source changes', only(c, CK, regs)), ('[C06] other engines untouched', And(*[only(c, k, c.this) for k in (PROG, PCNT, SRCS)]))]


def sp_loop(L):
    return [('cursor', And(0 <= L.var('i'), L.var('i') <= S.len(L.h0(SRCS, L.this)) - offset(L))), ('identifiers agree so far', ids_agree(L, L.h, L.var('i')))]


switch_contracts = [
    Contract('Environment::getNbConstant', ensures=lambda c: [('[C06] the number of constants', c.ret == c.h0(NCST, c.this))]),
    Contract('Environment::getDataSources', ensures=lambda c: [('[C06] the data sources', c.ret == c.h0(DSRC, c.this))]),
    Contract('DataHandler::getId', ensures=lambda c: [('[C06] the identifier', c.ret == c.h0(DID, c.this))]),
    Contract('Program::cGetConstantHandler', ensures=lambda c: [('[C06] the constants', c.ret == c.h0(PCST, c.this))]),
    Contract('ProgramEngine::setProgram', requires=sp_req, throws=sp_throws, exc='std::runtime_error', ensures=sp_post, modifies=[SRCS, PROG, PCNT, CK], loops=[sp_loop]),
]


# ---------------------------------------------------------------- introns
ADDRS = z3.Function('addresses_accessed', Ref, Ref, INT, seq(INT).S)
FAKE = 'Environment.fakeDataSources'
ISETT = z3.ArraySort(INT, BOOL)
READ = z3.Function('registers_read', Ref, OPS.S, S.S, INT, ISETT)             # by the first operands of a line
USE = z3.Function('useful_registers', LS.S, INT, S.S, Ref, ISETT)             # needed by the lines from a position on
NI = z3.Function('number_of_introns', LS.S, INT, S.S, Ref, INT)


def intron_axioms(eng):
    from cdv.engine import Heap
    h = Heap(eng, {})
    ls, ins, fk, o, ty = Const('ls', LS.S), Const('ins', S.S), R('fk'), Const('o', OPS.S), Const('ty', S.S)
    j, k = Int('j'), Int('k')
    AT = seq(INT)
    l = lref(LS.at(ls, j))
    u, u1 = USE(ls, j, ins, fk), USE(ls, j + 1, ins, fk)
    t = h(TYPES, S.at(ins, h(LI, l)))
    n = LS.len(ls)
    return [
        ForAll([fk, o, ty, k], Not(Select(READ(fk, o, ty, 0), k)), patterns=[Select(READ(fk, o, ty, 0), k)]),
        ForAll([fk, o, ty, j, k], Implies(And(0 <= j, j < S.len(ty)), Select(READ(fk, o, ty, j + 1), k) == Or(Select(READ(fk, o, ty, j), k), And(
            pf['first'](OPS.at(o, j)) == 0, AT.mem(ADDRS(fk, S.at(ty, j), SCALED(pf['second'](OPS.at(o, j)), SPACE(fk, S.at(ty, j)))), k)))),
            patterns=[MultiPattern(READ(fk, o, ty, j), Select(READ(fk, o, ty, j + 1), k)), MultiPattern(Select(READ(fk, o, ty, j), k), READ(fk, o, ty, j + 1))]),
        ForAll([ls, ins, fk, k], Select(USE(ls, n, ins, fk), k) == (k == 0), patterns=[Select(USE(ls, n, ins, fk), k)]),
        ForAll([ls, j, ins, fk, k], Implies(And(0 <= j, j < n), Select(u, k) == If(Select(u1, h(LD, l)), Or(And(Select(u1, k), k != h(LD, l)), Select(READ(fk, h(LO, l), t, S.len(t)), k)), Select(u1, k))),
               patterns=[MultiPattern(Select(u, k), LS.at(ls, j))]),
        ForAll([ls, ins, fk], NI(ls, n, ins, fk) == 0, patterns=[NI(ls, n, ins, fk)]),
        ForAll([ls, j, ins, fk], Implies(And(0 <= j, j < n), NI(ls, j, ins, fk) == NI(ls, j + 1, ins, fk) + If(Select(u1, h(LD, l)), 0, 1)), patterns=[MultiPattern(NI(ls, j, ins, fk), LS.at(ls, j))]),
    ]


def fake(c, h=None):
    h = h or c.h0
    return S.at(h(FAKE, h(PENV, c.this)), 0)


def ii_req(c):
    i, j = Int('i'), Int('j')
    h, p = c.h0, c.this
    ls, ins, fk = h(PL, p), ins_of(c.h0, p), fake(c)
    l = lref(LS.at(ls, i))
    ty = h(TYPES, S.at(ins, h(LI, l)))
    t, o = S.at(ty, j), OPS.at(h(LO, l), j)
    return preq(c) + [('environment', And(h(ISET, h(PENV, p)) != null, S.len(ins) < 2 ** 32, S.len(h(FAKE, h(PENV, p))) > 0, fk != null, h('$alloc', fk), c.eng.is_a(fk, 'DataHandler'))),
                      ('the lines designate existing instructions', fa([i], Implies(And(0 <= i, i < LS.len(ls)), And(0 <= h(LI, l), h(LI, l) < S.len(ins), S.at(ins, h(LI, l)) != null, S.len(ty) <= h(MAXOP, h(PENV, p)), S.len(ty) < 2 ** 31)), [LS.at(ls, i)])),
                      ('register operands have a type that registers provide', fa([i, j], Implies(And(0 <= i, i < LS.len(ls), 0 <= j, j < S.len(ty), pf['first'](o) == 0), And(t != null, SPACE(fk, t) > 0)), [OPS.at(h(LO, l), j)]))]


def marked(c, h, j):
    i = Int('i')
    ls, l0 = h(PL, c.this), c.h0(PL, c.this)
    return And(LS.len(ls) == LS.len(l0), fa([i], Implies(And(0 <= i, i < LS.len(ls)), And(lref(LS.at(ls, i)) == lref(LS.at(l0, i)), lintron(LS.at(ls, i)) == If(i < j, lintron(LS.at(l0, i)), Not(Select(use(c, i + 1), c.h0(LD, lref(LS.at(l0, i)))))))), [LS.at(ls, i)]))


def use(c, j):
    return USE(c.h0(PL, c.this), j, ins_of(c.h0, c.this), fake(c))


def ii_post(c):
    ls0 = c.h0(PL, c.this)
    return [('[C12] a line is an intron exactly when the lines after it do not need its destination', marked(c, c.h, 0)), ('[C12] the number of introns', c.ret == NI(ls0, 0, ins_of(c.h0, c.this), fake(c))), ('[C12] other programs untouched', only(c, PL, c.this))]


def has_set(M, m, k, want):
    return fa([k], M.has(m, k) == want, [M.has(m, k)])


def ii_loop(L):
    M = mapt(INT, BOOL)
    k = Int('k')
    n = LS.len(L.h0(PL, L.this))
    j = n - L.obj('backIter').idx
    return [('cursor', And(0 <= j, j <= n)), ('[C12] useful registers', has_set(M, L.var('usefulRegisters'), k, Select(use(L, j), k))), ('[C12] marks', marked(L, L.h, j)),
            ('[C12] count', L.var('nbIntrons') == NI(L.h0(PL, L.this), j, ins_of(L.h0, L.this), fake(L))), ('count range', And(L.var('nbIntrons') >= 0, L.var('nbIntrons') <= n - j)), ('other programs', others_kept(L, PL))]


def ii_ops(L):
    M = mapt(INT, BOOL)
    k = Int('k')
    o = L.var('idxOperand')
    l = L.var('currentLine')
    rd = READ(fake(L), L.h0(LO, l), L.h0(TYPES, S.at(ins_of(L.h0, L.this), L.h0(LI, l))), o)
    return [('cursor', And(0 <= o, o <= L.var('nbOperands'))), ('[C12] registers read so far', has_set(M, L.var('usefulRegisters'), k, Or(M.has(L.prevar('usefulRegisters'), k), Select(rd, k))))]


def ii_addr(L):
    M, AT = mapt(INT, BOOL), seq(INT)
    k = Int('k')
    return [('cursor', And(0 <= L.k, L.k <= AT.len(L.seq))), ('[C12] addresses so far', has_set(M, L.var('usefulRegisters'), k, Or(M.has(L.prevar('usefulRegisters'), k), AT.mem(AT.take(L.seq, L.k), k))))]


intron_contracts = [
    Contract('DataHandler::getAddressesAccessed', trusted=True, ensures=lambda c: [('', c.ret == ADDRS(c.this, c.a(0), c.a(1)))], note='bounded check in C08'),
    Contract('Environment::getFakeDataSources', ensures=lambda c: [('[C12] the sources used for static analysis', c.ret == c.h0(FAKE, c.this))]),
    Contract('Environment::getInstructionSet', ensures=lambda c: [('[C06] the instructions', c.ret == c.h0(ISET, c.this))]),
    Contract('Instruction::getOperandTypes', ensures=lambda c: [('[C06] the types of the operands', c.ret == c.h0(TYPES, c.this))]),
    Contract('Program::identifyIntrons', requires=ii_req, ensures=ii_post, modifies=[PL], loops=[ii_loop, ii_ops, ii_addr]),
]


def axioms(eng):
    return ident_axioms(eng) + derived(eng) + intron_axioms(eng) + keep_axioms() + exec_axioms(eng)


# ---------------------------------------------------------------- identical behaviour
CANH = z3.Function('can_handle', Ref, Ref, BOOL)
CVAL = 'Constant.value'


def cst_type(c, hd, t):
    return If(CANH(hd, t), t, c.eng.typeid('Data::Constant'))


def cst_at(c, h, p, k):
    hd = h(PCST, p)
    return DATAV(hd, h(CK, hd), c.eng.typeid('Data::Constant'), k)


SAMEC = z3.Function('same_constants', Ref, Ref, CONTENT, CONTENT, OPS.S, S.S, INT, BOOL)      # read by the first n operands
SCJ = z3.Function('different_constant.operand', Ref, Ref, CONTENT, CONTENT, OPS.S, S.S, INT, INT)
SCK = z3.Function('different_constant.address', Ref, Ref, CONTENT, CONTENT, OPS.S, S.S, INT, INT)
SAMEK = z3.Function('same_kept_lines', Ref, Ref, LS.S, LS.S, BOOL)
SKW = z3.Function('different_kept_line', Ref, Ref, LS.S, LS.S, INT)


class Named:
    def __init__(self, eng):
        self.eng = eng


def same_consts(c, h, p, q, l, n):
    """the constants accessed by the first n operands of a line are equal in both programs"""
    hp, hq = h(PCST, p), h(PCST, q)
    return SAMEC(hp, hq, h(CK, hp), h(CK, hq), h(LO, l), h(TYPES, S.at(ins_of(h, p), h(LI, l))), n)


def same_line(c, h, p, q, a, b):
    ty = h(TYPES, S.at(ins_of(h, p), h(LI, a)))
    return And(line_eq(h, a, b), Implies(h(NCST, h(PENV, p)) > 0, same_consts(c, h, p, q, a, S.len(ty))))


def ident_axioms(eng):
    from cdv.engine import Heap
    h, c = Heap(eng, {}), Named(eng)
    p, q, cp, cq, o, ty, n, j, k, i = R('p'), R('q'), Const('cp', CONTENT), Const('cq', CONTENT), Const('o', OPS.S), Const('ty', S.S), Int('n'), Int('j'), Int('k'), Int('i')
    AT = seq(INT)
    t = lambda jj: cst_type(c, p, S.at(ty, jj))
    ad = lambda jj: ADDRS(p, t(jj), SCALED(pf['second'](OPS.at(o, jj)), SPACE(p, t(jj))))
    val = lambda hd, ct, kk: h(CVAL, DATAV(hd, ct, eng.typeid('Data::Constant'), kk))
    sc = SAMEC(p, q, cp, cq, o, ty, n)
    wj, wk = SCJ(p, q, cp, cq, o, ty, n), SCK(p, q, cp, cq, o, ty, n)
    reads = lambda jj, kk: And(0 <= jj, jj < n, pf['first'](OPS.at(o, jj)) == 1, AT.mem(ad(jj), kk))
    ka, kb = Const('ka', LS.S), Const('kb', LS.S)
    sk, w = SAMEK(p, q, ka, kb), SKW(p, q, ka, kb)
    sl = lambda ii: same_line(c, h, p, q, lref(LS.at(ka, ii)), lref(LS.at(kb, ii)))
    inside = lambda ii: And(0 <= ii, ii < LS.len(ka), ii < LS.len(kb))
    return opeq_axioms() + [
        ForAll([p, q, cp, cq, o, ty, n, j, k], Implies(And(sc, reads(j, k)), val(p, cp, k) == val(q, cq, k)), patterns=[MultiPattern(sc, OPS.at(o, j), val(p, cp, k))]),
        ForAll([p, q, cp, cq, o, ty, n], Or(sc, And(reads(wj, wk), val(p, cp, wk) != val(q, cq, wk))), patterns=[sc]),
        ForAll([p, q, ka, kb, i], Implies(And(sk, inside(i)), sl(i)), patterns=[MultiPattern(sk, LS.at(ka, i)), MultiPattern(sk, LS.at(kb, i))]),
        ForAll([p, q, ka, kb], Or(sk, And(inside(w), Not(sl(w)))), patterns=[sk])]


def samek_push(eng, p, q, ka, kb, x, y):
    from cdv.engine import Heap
    return Implies(LS.len(ka) == LS.len(kb), SAMEK(p, q, LS.push(ka, x), LS.push(kb, y)) == And(SAMEK(p, q, ka, kb), same_line(Named(eng), Heap(eng, {}), p, q, lref(x), lref(y))))


def derived(eng):
    """consequences of the definitions, stated for the provers and proved as lemmas without them"""
    p, q, ka, kb, x, y = R('p'), R('q'), Const('ka', LS.S), Const('kb', LS.S), Const('x', LPAIR), Const('y', LPAIR)
    s, t = Const('s', LS.S), Int('t')
    kt = KEEP(LS.take(s, t))
    return [ForAll([s, t], next_kept(s, t), patterns=[MultiPattern(kt, LS.at(s, t))]), ForAll([s], KEEP(LS.take(s, LS.len(s))) == KEEP(s), patterns=[KEEP(s)]), ForAll([p, q, ka, kb, x, y], samek_push(eng, p, q, ka, kb, x, y), patterns=[SAMEK(p, q, LS.push(ka, x), LS.push(kb, y))])]


def kept_same(p, q, ka, kb):
    return SAMEK(p, q, ka, kb)


def hib_ok(c, h, p):
    i, j = Int('i'), Int('j')
    ls, ins, hd = h(PL, p), ins_of(h, p), h(PCST, p)
    l = lref(LS.at(ls, i))
    ty = h(TYPES, S.at(ins, h(LI, l)))
    t, o = S.at(ty, j), OPS.at(h(LO, l), j)
    dt = cst_type(c, hd, t)
    ad = ADDRS(hd, dt, SCALED(pf['second'](o), SPACE(hd, dt)))
    k = Int('k')
    return [('lines are owned', And(owned(c, h, p), LS.len(ls) < 2 ** 62, h(PENV, p) != null)), ('environment', And(h(ISET, h(PENV, p)) != null, S.len(ins) < 2 ** 32, h(MAXOP, h(PENV, p)) < 2 ** 31)),
            ('constants', And(hd != null, h('$alloc', hd), c.eng.is_a(hd, 'DataHandler'), c.eng.is_a(hd, 'ConstantHandler'))),
            ('the lines designate existing instructions', fa([i], Implies(And(0 <= i, i < LS.len(ls)), And(0 <= h(LI, l), h(LI, l) < S.len(ins), S.at(ins, h(LI, l)) != null, S.len(ty) <= h(MAXOP, h(PENV, p)), S.len(ty) < 2 ** 31)), [LS.at(ls, i)])),
            ('operands that read constants stay inside them', fa([i, j], Implies(And(h(NCST, h(PENV, p)) > 0, 0 <= i, i < LS.len(ls), 0 <= j, j < S.len(ty), pf['first'](o) == 1), And(t != null, SPACE(hd, dt) > 0)), [OPS.at(h(LO, l), j)])),
            ('accessed addresses are inside the constants', fa([dt_ := R('ty'), k, j], Implies(seq(INT).mem(ADDRS(hd, dt_, j), k), And(0 <= k, k < SPACE(hd, c.eng.typeid('Data::Constant')))), [seq(INT).cnt(ADDRS(hd, dt_, j), k)]))]


def hib_req(c):
    h = c.h0
    return hib_ok(c, h, c.this) + hib_ok(c, h, c.a(0)) + [('same environment', h(PENV, c.this) == h(PENV, c.a(0))), ('same shape of constants', fa([R('ty')], SPACE(h(PCST, c.this), R('ty')) == SPACE(h(PCST, c.a(0)), R('ty')), [SPACE(h(PCST, c.a(0)), R('ty'))]))]


def hib_post(c):
    ka, kb = KEEP(c.h0(PL, c.this)), KEEP(c.h0(PL, c.a(0)))
    return [('[C13] identical exactly when the lines that are not introns are pairwise equal and read equal constants', c.ret == And(LS.len(ka) == LS.len(kb), kept_same(c.this, c.a(0), ka, kb)))]


def hib_skip(L):
    ls, k = L.h0(PL, L.var('p')), L.var('lineIdx')
    k0 = L.prevar('lineIdx')
    return [('cursor', And(0 <= k0, k0 <= k, k <= LS.len(ls))), ('[C13] only introns are skipped', KEEP(LS.take(ls, k)) == KEEP(LS.take(ls, k0)))]


def next_kept(ls, a):
    ka, x, k = KEEP(LS.take(ls, a)), LS.at(ls, a), KEEP(ls)
    return Implies(And(0 <= a, a < LS.len(ls)), If(lintron(x), KEEP(LS.take(ls, a + 1)) == ka, And(KEEP(LS.take(ls, a + 1)) == LS.push(ka, x), LS.len(ka) < LS.len(k), LS.at(k, LS.len(ka)) == x)))


def hib_main(L):
    la, lb = L.h0(PL, L.this), L.h0(PL, L.arg(0))
    a, b = L.var('thisLineIdx'), L.var('otherLineIdx')
    ka, kb = KEEP(LS.take(la, a)), KEEP(LS.take(lb, b))
    return [('cursors', And(0 <= a, a <= LS.len(la), 0 <= b, b <= LS.len(lb))), ('on lines that are not introns', And(Implies(a < LS.len(la), Not(lintron(LS.at(la, a)))), Implies(b < LS.len(lb), Not(lintron(LS.at(lb, b)))))),
            ('[C13] same number of lines so far', LS.len(ka) == LS.len(kb)), ('[C13] same lines so far', kept_same(L.this, L.arg(0), ka, kb))]


def hib_ops(L):
    o, l = L.var('operandIdx'), L.var('thisLine')
    return [('cursor', And(0 <= o, o <= S.len(L.h0(TYPES, S.at(ins_of(L.h0, L.this), L.h0(LI, l)))))), ('[C13] constants equal so far', same_consts(L, L.h0, L.this, L.arg(0), l, o))]


def hib_addr(L):
    AT = seq(INT)
    k = Int('k')
    return [('cursor', And(0 <= L.k, L.k <= AT.len(L.seq))), ('[C13] constants at the addresses seen so far', fa([k], Implies(AT.mem(AT.take(L.seq, L.k), k), L.h0(CVAL, cst_at(L, L.h0, L.this, k)) == L.h0(CVAL, cst_at(L, L.h0, L.arg(0), k))), [AT.cnt(AT.take(L.seq, L.k), k)]))]


def prefix_axiom(eng):
    s, t = Const('s', LS.S), Int('t')
    kt = KEEP(LS.take(s, t))
    return [ForAll([s, t], Implies(And(0 <= t, t <= LS.len(s)), And(LS.len(kt) <= LS.len(KEEP(s)), kt == LS.take(KEEP(s), LS.len(kt)))), patterns=[kt])]


ident_contracts = [
    Contract('DataHandler::canHandle', trusted=True, ensures=lambda c: [('', c.ret == CANH(c.this, c.a(0)))], note='bounded check in C08'),
    Contract('Constant::operator==', ensures=lambda c: [('[C13] equality of values', c.ret == (c.h0(CVAL, c.this) == c.h0(CVAL, c.a(0))))]),
    Contract('Constant::operator!=', ensures=lambda c: [('[C13] the negation of equality', c.ret == (c.h0(CVAL, c.this) != c.h0(CVAL, c.a(0))))]),
    Contract('Program::getConstantAt', requires=lambda c: [('constants', And(c.h0(PCST, c.this) != null, c.eng.is_a(c.h0(PCST, c.this), 'ConstantHandler'))), ('existing constant', c.a(0) < SPACE(c.h0(PCST, c.this), c.eng.typeid('Data::Constant')))],
             ensures=lambda c: [('[C13] the designated constant', c.ret == cst_at(c, c.h0, c.this, c.a(0)))]),
    Contract('Program::hasIdenticalBehavior', requires=hib_req, ensures=hib_post, loops=[hib_skip, hib_main, hib_ops, hib_addr]),
]


# ---------------------------------------------------------------- copies
def copied(c, h, n):
    """the first n lines are new and equal to those of the source"""
    i, j = Int('i'), Int('j')
    ls, l0 = h(PL, c.this), c.h0(PL, c.a(0))
    a, b = lref(LS.at(ls, i)), lref(LS.at(l0, i))
    return And(LS.len(ls) == LS.len(l0), fa([i], Implies(And(0 <= i, i < n), And(lintron(LS.at(ls, i)) == lintron(LS.at(l0, i)), Not(c.h0('$alloc', a)), line_ok(c, h, a), h(LE, a) == h(PENV, c.this), c.h0('$alloc', b),
               h(LI, a) == c.h0(LI, b), h(LD, a) == c.h0(LD, b), SAMEOPS(h(LO, a), c.h0(LO, b), c.h0(MAXOP, c.h0(LE, b))))), [LS.at(ls, i)]))


def fresh_once(c, h, n):
    i, j = Int('i'), Int('j')
    ls = h(PL, c.this)
    return fa([i, j], Implies(And(0 <= i, i < j, j < n), lref(LS.at(ls, i)) != lref(LS.at(ls, j))), [MultiPattern(LS.at(ls, i), LS.at(ls, j))])


def copy_loop(L):
    i, r = Int('i'), R('r')
    ls, l0 = L.h(PL, L.this), L.h0(PL, L.arg(0))
    return [('cursor', And(0 <= L.k, L.k <= LS.len(l0))), ('[C13] copied so far', copied(L, L.h, L.k)), ('each line once', fresh_once(L, L.h, L.k)), ('not copied yet', fa([i], Implies(And(L.k <= i, i < LS.len(l0)), LS.at(ls, i) == LS.at(l0, i)), [LS.at(ls, i)])),
            ('the environment', L.h(PENV, L.this) == L.h0(PENV, L.arg(0))), ('other programs', others_kept(L, PL)), ('other environments', others_kept(L, PENV)), ('constants', And(L.h(CK, L.h(PCST, L.this)) == L.h0(CK, L.h0(PCST, L.arg(0))), Not(L.h0('$alloc', L.h(PCST, L.this))))),
            ('what existed is kept', And(*[fa([r], Implies(L.h0('$alloc', r), L.h(kk, r) == L.h0(kk, r)), [L.h(kk, r)]) for kk in LINEKEYS + [LE, CK]])), ('what existed is alive', fa([r], Implies(L.h0('$alloc', r), L.h('$alloc', r)), [L.h('$alloc', r)])),
            ('new lines exist', fa([i], Implies(And(0 <= i, i < L.k), L.h('$alloc', lref(LS.at(ls, i)))), [LS.at(ls, i)]))]


copy_contracts = [
    Contract('ConstantHandler::<ctor>', trusted=True, sel=lambda f: 'ConstantHandler' in f.qual, modifies=[CK], ensures=lambda c: [('', And(c.h(CK, c.this) == c.h0(CK, c.a(0)), only(c, CK, c.this)))], note='bounded check in C09'),
    Contract('Program::<ctor>', sel=lambda f: 'Program &' in f.qual, requires=lambda c: [('source', And(owned(c, c.h0, c.a(0)), c.h0(PENV, c.a(0)) != null, LS.len(c.h0(PL, c.a(0))) < 2 ** 62, c.h0(MAXOP, c.h0(PENV, c.a(0))) < 2 ** 31)), ('not itself', c.this != c.a(0))],
             modifies=['$new', CK, PL, PENV, PCST] + LINEKEYS + [LE], loops=[copy_loop], ensures=lambda c: [
        ('[C13] a copy has new lines, equal to those of its source in the same order, with the same marks', copied(c, c.h, LS.len(c.h0(PL, c.a(0))))),
        ('[C13] the same environment', c.h(PENV, c.this) == c.h0(PENV, c.a(0))), ('[C13] the same constants, of its own', And(c.h(CK, c.h(PCST, c.this)) == c.h0(CK, c.h0(PCST, c.a(0))), Not(c.h0('$alloc', c.h(PCST, c.this))), onlyA(c, CK))), ('[C11] lines are owned', owned(c, c.h, c.this)), ('[C11] the source does not change', And(*[onlyA(c, k) for k in LINEKEYS + [LE]] + [only(c, PL, c.this)]))]),
]


# ---------------------------------------------------------------- lemmas
ALL = z3.Function('run_every_line', LS.S, S.S, S.S, Ref, ACK, CONTENT)     # the marks are ignored
DIFF = z3.Function('differing_register', Ref, CONTENT, CONTENT, Ref, INT, INT)


def lemmas(eng):
    from cdv.engine import Heap
    h = Heap(eng, {})
    s, l0, ls, x, ins, srcs, rg, fk, A = Const('s', LS.S), Const('l0', LS.S), Const('ls', LS.S), Const('x', LPAIR), Const('ins', S.S), Const('srcs', S.S), R('rg'), R('fk'), Const('A', ACK)
    c, d, i, j, k, m, t, a = Const('c', CONTENT), Const('d', CONTENT), Int('i'), Int('j'), Int('k'), Int('m'), R('t'), Int('a')
    o, ty, ir = Const('o', OPS.S), Const('ty', S.S), R('instr')
    AT = seq(INT)
    out = []
    run = lambda q: RUN(q, ins, srcs, rg, A)
    every = lambda q: ALL(q, ins, srcs, rg, A)
    all_ax = [ALL(LS.empty, ins, srcs, rg, A) == Select(A, rg), ForAll([s, x], every(LS.push(s, x)) == step(h, lref(x), ins, srcs, rg, Store(A, rg, every(s))), patterns=[every(LS.push(s, x))])]
    # removing the marked lines keeps the result
    out.append(('[C12] clearing introns keeps the result: no line', [], run(KEEP(LS.empty)) == run(LS.empty)))
    out.append(('[C12] clearing introns keeps the result: one more line', [run(KEEP(s)) == run(s)], run(KEEP(LS.push(s, x))) == run(LS.push(s, x))))
    # the kept lines of a prefix are a prefix of the kept lines
    pre = lambda q, tt: And(LS.len(KEEP(LS.take(q, tt))) <= LS.len(KEEP(q)), KEEP(LS.take(q, tt)) == LS.take(KEEP(q), LS.len(KEEP(LS.take(q, tt)))))
    out.append(('[C13] kept lines of a prefix: no line', None, Implies(And(0 <= m, m <= 0), pre(LS.empty, m))))
    out.append(('[C13] kept lines of a prefix: one more line', None, Implies(And(0 <= m, m <= LS.len(s) + 1, Implies(m <= LS.len(s), pre(s, m))), pre(LS.push(s, x), m))))
    out.append(('[C13] the next line that is kept', tuple(prefix_axiom(eng) + [z3.Function('hint2', LS.S, BOOL)(KEEP(LS.take(s, m + 1)))]), next_kept(s, m)))
    pp, qq, ka, kb, y = R('p'), R('q'), Const('ka', LS.S), Const('kb', LS.S), Const('y', LPAIR)
    out.append(('[C13] same kept lines: one more line', None, samek_push(eng, pp, qq, ka, kb, x, y)))
    # a register read by an operand is in the set of registers read
    reads = lambda q, b: fa([j, k], Implies(And(0 <= j, j < q, q <= S.len(ty), pf['first'](OPS.at(o, j)) == 0, AT.mem(ADDRS(fk, S.at(ty, j), SCALED(pf['second'](OPS.at(o, j)), SPACE(fk, S.at(ty, j)))), k)), Select(READ(fk, o, ty, b), k)), [MultiPattern(Select(READ(fk, o, ty, b), k), OPS.at(o, j))])
    out.append(('[C12] registers read by operands: none', [], reads(IntVal(0), IntVal(0))))
    out.append(('[C12] registers read by operands: one more', [0 <= m, m < S.len(ty), reads(m, m), z3.Function('hint', ISETT, BOOL)(READ(fk, o, ty, m))], reads(m + 1, m + 1)))
    # operands are equal when the registers they read are
    agree = fa([t, a], And(SPACE(fk, t) == SPACE(rg, t), ADDRS(fk, t, a) == ADDRS(rg, t, a)), [ADDRS(rg, t, a)])
    agree2 = fa([t], SPACE(fk, t) == SPACE(rg, t), [SPACE(rg, t)])
    frame = ForAll([c, d, t, a], Implies(And(FS.len(REG(c)) == FS.len(REG(d)), Implies(AT.mem(ADDRS(rg, t, a), DIFF(rg, c, d, t, a)), FS.at(REG(c), DIFF(rg, c, d, t, a)) == FS.at(REG(d), DIFF(rg, c, d, t, a)))), DATAV(rg, c, t, a) == DATAV(rg, d, t, a)),
                   patterns=[MultiPattern(DATAV(rg, c, t, a), DATAV(rg, d, t, a))])
    only_reg = [S.at(srcs, 0) == rg, fa([i], Implies(And(0 < i, i < S.len(srcs)), S.at(srcs, i) != rg), [S.at(srcs, i)])]
    regs_eq = lambda C, D, need: And(FS.len(REG(C)) == FS.len(REG(D)), fa([k], Implies(need(k), FS.at(REG(C), k) == FS.at(REG(D), k)), [FS.at(REG(C), k)]))
    opsok = lambda oo, tt: fa([j], Implies(And(0 <= j, j < S.len(tt)), And(0 <= pf['first'](OPS.at(oo, j)), pf['first'](OPS.at(oo, j)) < S.len(srcs))), [OPS.at(oo, j)])
    readsn = fa([j, k], Implies(And(0 <= j, j < S.len(ty), pf['first'](OPS.at(o, j)) == 0, AT.mem(ADDRS(fk, S.at(ty, j), SCALED(pf['second'](OPS.at(o, j)), SPACE(fk, S.at(ty, j)))), k)), Select(READ(fk, o, ty, S.len(ty)), k)),
                [MultiPattern(OPS.at(o, j), AT.cnt(ADDRS(fk, S.at(ty, j), SCALED(pf['second'](OPS.at(o, j)), SPACE(fk, S.at(ty, j)))), k))])
    F = lambda C: FETCH(Store(A, rg, C), srcs, o, ty)
    same_ops = lambda oo, tt, C, D: FETCH(Store(A, rg, C), srcs, oo, tt) == FETCH(Store(A, rg, D), srcs, oo, tt)
    need = lambda oo, tt: (lambda q: Select(READ(fk, oo, tt, S.len(tt)), q))
    # element by element, then by extensionality
    jj = Int('jj')
    el = lambda C: S.at(F(C), jj)
    out.append(('[C12] an operand depends only on the registers it reads', [agree, agree2, frame, readsn, opsok(o, ty), regs_eq(c, d, need(o, ty)), 0 <= jj, jj < S.len(ty)] + only_reg, el(c) == el(d)))
    out.append(('[C12] equal operands, equal lists of operands', [fa([jj], Implies(And(0 <= jj, jj < S.len(ty)), el(c) == el(d)), [el(c)])], S.eq(F(c), F(d))))
    # the induction over the lines
    n = LS.len(ls)
    uni = ForAll([o, ty, c, d], Implies(And(opsok(o, ty), regs_eq(c, d, need(o, ty))), same_ops(o, ty, c, d)), patterns=[MultiPattern(F(c), F(d))])
    lj, l0j = LS.at(ls, m), LS.at(l0, m)
    tyj = h(TYPES, S.at(ins, h(LI, lref(l0j))))
    marks = lintron(lj) == Not(Select(USE(l0, m + 1, ins, fk), h(LD, lref(l0j))))
    ih = lambda q: regs_eq(run(LS.take(ls, q)), every(LS.take(ls, q)), lambda z: Select(USE(l0, q, ins, fk), z))
    nr = FS.len(REG(run(LS.take(ls, m))))
    hyps = all_ax + [uni, 0 <= m, m < n, LS.len(l0) == n, lref(lj) == lref(l0j), marks, opsok(h(LO, lref(l0j)), tyj), 0 <= h(LD, lref(l0j)), h(LD, lref(l0j)) < nr, ih(m), LS.take(ls, m + 1) == LS.push(LS.take(ls, m), lj)]
    out.append(('[C12] lines marked as introns never affect the result: no line', all_ax, ih(IntVal(0))))
    out.append(('[C12] lines marked as introns never affect the result: one more line', hyps, ih(m + 1)))
    out.append(('[C12] lines marked as introns never affect the result', all_ax + [LS.len(l0) == n, ih(n)], FS.at(REG(run(ls)), 0) == FS.at(REG(every(ls)), 0)))
    return out + ident_lemmas(eng)


CW = z3.Function('differing_constant', Ref, Ref, CONTENT, CONTENT, Ref, INT, INT)


def ident_lemmas(eng):
    """programs declared identical compute the same registers on any data"""
    from cdv.engine import Heap
    h, c = Heap(eng, {}), Named(eng)
    AT = seq(INT)
    hp, hq, rg, srcs, sa, sb, ins, A, C = R('hp'), R('hq'), R('rg'), Const('srcs', S.S), Const('sa', S.S), Const('sb', S.S), Const('ins', S.S), Const('A', ACK), Const('C', CONTENT)
    o, o2, ty, mx, jj, j, t, a, x, d = Const('o', OPS.S), Const('o2', OPS.S), Const('ty', S.S), Int('mx'), Int('jj'), Int('j'), R('t'), Int('a'), Const('x', CONTENT), Const('d', CONTENT)
    B = Store(A, rg, C)
    el = lambda ss, oo, i: S.at(FETCH(B, ss, oo, ty), i)
    val = lambda hd, ct, kk: h(CVAL, DATAV(hd, ct, eng.typeid('Data::Constant'), kk))
    w = CW(hp, hq, x, d, t, a)
    cong = ForAll([x, d, t, a], Implies(And(CANH(hp, t), Implies(AT.mem(ADDRS(hp, t, a), w), val(hp, x, w) == val(hq, d, w))), DATAV(hp, x, t, a) == DATAV(hq, d, t, a)), patterns=[MultiPattern(DATAV(hp, x, t, a), DATAV(hq, d, t, a))])
    shape = fa([t], SPACE(hp, t) == SPACE(hq, t), [SPACE(hq, t)])
    consts = [S.len(srcs) > 1, sa == S.upd(srcs, 1, hp), sb == S.upd(srcs, 1, hq), rg != hp, rg != hq, cong, shape]
    opsok = fa([j], Implies(And(0 <= j, j < S.len(ty)), And(0 <= pf['first'](OPS.at(o, j)), pf['first'](OPS.at(o, j)) < S.len(srcs), Implies(pf['first'](OPS.at(o, j)) == 1, CANH(hp, S.at(ty, j))))), [OPS.at(o, j)])
    base = [SAMEOPS(o, o2, mx), S.len(ty) <= mx, 0 <= jj, jj < S.len(ty)]
    sc = SAMEC(hp, hq, Select(A, hp), Select(A, hq), o, ty, S.len(ty))
    out = [('[C13] equal lines read equal operands, with constants', base + consts + [opsok, sc], el(sa, o, jj) == el(sb, o2, jj)),
           ('[C13] equal lines read equal operands, without constants', base, el(sa, o, jj) == el(sa, o2, jj)),
           ('[C13] equal operands, equal lists of operands', [fa([jj], Implies(And(0 <= jj, jj < S.len(ty)), el(sa, o, jj) == el(sb, o2, jj)), [el(sa, o, jj)])], S.eq(FETCH(B, sa, o, ty), FETCH(B, sb, o2, ty)))]
    # induction over the kept lines
    p, q, ka, kb, m = R('p'), R('q'), Const('ka', LS.S), Const('kb', LS.S), Int('m')
    la, lb = LS.at(ka, m), LS.at(kb, m)
    run = lambda ss, ls: RUN(ls, ins, ss, rg, A)
    tyl = h(TYPES, S.at(ins, h(LI, lref(la))))
    fetch_eq = ForAll([o, o2, ty, mx, C], Implies(And(SAMEOPS(o, o2, mx), S.len(ty) <= mx, Or(sa == sb, And(opsok, sc))), FETCH(B, sa, o, ty) == FETCH(B, sb, o2, ty)), patterns=[MultiPattern(FETCH(B, sa, o, ty), FETCH(B, sb, o2, ty), SAMEOPS(o, o2, mx))])
    opsl = fa([j], Implies(And(0 <= j, j < S.len(tyl)), And(0 <= pf['first'](OPS.at(h(LO, lref(la)), j)), pf['first'](OPS.at(h(LO, lref(la)), j)) < S.len(srcs), Implies(pf['first'](OPS.at(h(LO, lref(la)), j)) == 1, CANH(hp, S.at(tyl, j))))), [OPS.at(h(LO, lref(la)), j)])
    hyps = [fetch_eq, hp == h(PCST, p), hq == h(PCST, q), ins == ins_of(h, p), Select(A, hp) == h(CK, hp), Select(A, hq) == h(CK, hq), Or(h(NCST, h(PENV, p)) > 0, sa == sb), SAMEK(p, q, ka, kb), 0 <= m, m < LS.len(ka), LS.len(ka) == LS.len(kb),
            Not(lintron(la)), Not(lintron(lb)), S.len(tyl) <= h(MAXOP, h(LE, lref(la))), opsl, run(sa, LS.take(ka, m)) == run(sb, LS.take(kb, m)),
            LS.take(ka, m + 1) == LS.push(LS.take(ka, m), la), LS.take(kb, m + 1) == LS.push(LS.take(kb, m), lb)]
    out += [('[C13] programs declared identical compute the same: no line', [], run(sa, LS.take(ka, 0)) == run(sb, LS.take(kb, 0))),
            ('[C13] programs declared identical compute the same: one more line', hyps, run(sa, LS.take(ka, m + 1)) == run(sb, LS.take(kb, m + 1)))]
    # a program and its copy
    l0, l1, n = Const('l0', LS.S), Const('l1', LS.S), R('n')
    x0, x1 = LS.at(l0, m), LS.at(l1, m)
    K0, K1 = KEEP(LS.take(l0, m)), KEEP(LS.take(l1, m))
    a0, a1 = lref(x0), lref(x1)
    k = Int('k')
    same_content = [h(CK, h(PCST, p)) == h(CK, h(PCST, q)), fa([x, k], val(h(PCST, p), x, k) == val(h(PCST, q), x, k), [val(h(PCST, q), x, k)])]
    line_facts = And(lintron(x0) == lintron(x1), h(LI, a0) == h(LI, a1), h(LD, a0) == h(LD, a1), SAMEOPS(h(LO, a0), h(LO, a1), h(MAXOP, h(LE, a0))), h(LE, a0) == h(LE, a1))
    P = lambda A0, A1: And(LS.len(A0) == LS.len(A1), SAMEK(p, q, A0, A1))
    out += [('[C13] a line and its copy have the same effect', same_content + [line_facts], same_line(c, h, p, q, a0, a1)),
            ('[C13] a program is identical to its copy: no line', [], P(KEEP(LS.take(l0, 0)), KEEP(LS.take(l1, 0)))),
            ('[C13] a program is identical to its copy: one more line', [0 <= m, m < LS.len(l0), LS.len(l1) == LS.len(l0), lintron(x0) == lintron(x1), same_line(c, h, p, q, a0, a1), P(K0, K1)], P(KEEP(LS.take(l0, m + 1)), KEEP(LS.take(l1, m + 1))))]
    return out


native = {'UntypedSharedPtr::getSharedPointer': lambda eng, this, args: this}
contracts = line_contracts + prog_contracts + data_contracts + exec_contracts + switch_contracts + intron_contracts + ident_contracts + copy_contracts
unit = Unit('program', ['src/program/line.cpp', 'src/program/program.cpp', 'src/program/programEngine.cpp', 'src/program/programExecutionEngine.cpp', 'src/environment.cpp', 'src/data/dataHandler.cpp', 'src/instructions/instruction.cpp', 'src/instructions/set.cpp', 'src/data/constant.cpp'],
            ['Program', 'Environment', 'Data', 'Instructions'], contracts, axioms=axioms, ghosts={CK: CONTENT}, native=native, values=['UntypedSharedPtr', 'Constant'], cells={'double': CELL}, lemmas=lemmas, derived=derived)
