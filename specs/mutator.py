"""Mutation of lines and programs (C10, C11).

The environment enters as the facts its constructor establishes (env_ok): sizes of the instruction set and of the list
of sources, and for every operand type a source able to provide it.
"""
from cdv.spec import *
from cdv import theory as T
from . import program as P
from .program import LI, LD, LO, LE, LINEKEYS, NREG, NINS, MAXOP, NSRC, LARGEST, OPS, PAIR, pf, PL, PENV, LS, lref, lintron, ISET, INSTR, TYPES, FAKE, CANH, CK, PCST, NCST, SPACE

M = mapt(INT, BOOL)
W = 2 ** 64
LSZ = 'Environment.lineSize'
NI_, ND_, NO_, NS_, NL_, NT_ = ('LineSize.' + x for x in ('nbInstructionBits', 'nbDestinationBits', 'nbOperandsBits', 'nbOperandDataSourceIndexBits', 'nbOperandLocationBits', 'totalNbBits'))
HSRC = z3.Function('source_providing', S.S, Ref, INT)
ALL = z3.Function('keys_below', M.S, INT, BOOL)           # every key lies in [0, n)
ALLW = z3.Function('key_outside', M.S, INT, INT)


def axioms(eng):
    m, n, k = Const('m', M.S), Int('n'), Int('k')
    w = ALLW(m, n)
    a, b, d = Int('a'), Int('b'), Int('d')
    return P.axioms(eng) + cst_axioms() + [
        ForAll([m, n, k], Implies(And(ALL(m, n), M.has(m, k)), And(0 <= k, k < n)), patterns=[MultiPattern(ALL(m, n), M.has(m, k))]),
        ForAll([m, n], Or(ALL(m, n), And(M.has(m, w), Or(w < 0, w >= n))), patterns=[ALL(m, n)]),
        # pigeonhole: n different keys below n are all of them
        ForAll([m, n], Implies(And(ALL(m, n), n >= 0), M.size(m) <= n), patterns=[ALL(m, n)]),
        ForAll([m, n, k], Implies(And(ALL(m, n), M.size(m) >= n, 0 <= k, k < n), M.has(m, k)), patterns=[MultiPattern(ALL(m, n), M.has(m, k))]),
    ]


def env_ok(c, h, e):
    i, j = Int('i'), Int('j')
    ins, fk = h(INSTR, h(ISET, e)), h(FAKE, e)
    ty = h(TYPES, S.at(ins, i))
    t = S.at(ty, j)
    z = h(LSZ, e)
    return And(e != null, h('$alloc', e), c.eng.is_a(e, 'Environment'), c.eng.is_a(h(ISET, e), 'Set'), c.eng.is_a(h(LSZ, e), 'LineSize'), h(ISET, e) != null, h('$alloc', h(ISET, e)), h(NREG, e) >= 1, h(NINS, e) >= 2, h(NINS, e) == S.len(ins), S.len(ins) < 2 ** 32, h(MAXOP, e) >= 1, h(MAXOP, e) < 2 ** 31, h(NSRC, e) >= 2, h(NSRC, e) == S.len(fk), S.len(fk) < 2 ** 32, h(LARGEST, e) >= 1,
               fa([i], Implies(And(0 <= i, i < S.len(fk)), And(S.at(fk, i) != null, h('$alloc', S.at(fk, i)), c.eng.is_a(S.at(fk, i), 'DataHandler'))), [S.at(fk, i)]),
               fa([i], Implies(And(0 <= i, i < S.len(ins)), And(S.at(ins, i) != null, h('$alloc', S.at(ins, i)), c.eng.is_a(S.at(ins, i), 'Instruction'), S.len(ty) <= h(MAXOP, e))), [S.at(ins, i)]),
               fa([i, j], Implies(And(0 <= i, i < S.len(ins), 0 <= j, j < S.len(ty)), And(t != null, provided(fk, t))), [t]),
               # the encoding of a line
               z != null, h('$alloc', z), h(NI_, z) >= 0, h(ND_, z) >= 0, h(NS_, z) >= 1, h(NS_, z) <= 64, h(NL_, z) >= 0, h(NL_, z) <= 64, h(NI_, z) <= 64, h(ND_, z) <= 64, h(NO_, z) == h(MAXOP, e) * (h(NS_, z) + h(NL_, z)), h(NT_, z) == h(NI_, z) + h(ND_, z) + h(NO_, z), h(NT_, z) >= 1)


def provided(fk, t):
    w = HSRC(fk, t)
    return And(0 <= w, w < S.len(fk), CANH(S.at(fk, w), t))


def line_in(c, h, l):
    return And(P.line_ok(c, h, l), env_ok(c, h, h(LE, l)))


def valid(c, h, l):
    """what the checked setters accept, with sources able to provide the types of the instruction"""
    j = Int('j')
    e, o = h(LE, l), h(LO, l)
    ty = h(TYPES, S.at(h(INSTR, h(ISET, e)), h(LI, l)))
    return And(0 <= h(LI, l), h(LI, l) < h(NINS, e), 0 <= h(LD, l), h(LD, l) < h(NREG, e), operands(c, h, l, h(MAXOP, e)), handled(c, h, l, S.len(ty)))


def operands(c, h, l, n):
    j = Int('j')
    e, o = h(LE, l), h(LO, l)
    x = OPS.at(o, j)
    return fa([j], Implies(And(0 <= j, j < n), And(0 <= pf['first'](x), pf['first'](x) < h(NSRC, e), 0 <= pf['second'](x), pf['second'](x) < h(LARGEST, e))), [x])


def handled(c, h, l, n, ins=None):
    j = Int('j')
    e, o = h(LE, l), h(LO, l)
    ty = h(TYPES, S.at(h(INSTR, h(ISET, e)), h(LI, l))) if ins is None else h(TYPES, ins)
    return fa([j], Implies(And(0 <= j, j < n, j < S.len(ty)), CANH(S.at(h(FAKE, e), pf['first'](OPS.at(o, j))), S.at(ty, j))), [OPS.at(o, j)])


# ----------------------------------------------------------------- operands
def in_set(c, h, l, ins):
    e = h(LE, l)
    iset = h(INSTR, h(ISET, e))
    k = S.idx(iset, ins) if hasattr(S, 'idx') else None
    return And(S.cnt(iset, ins) >= 1, ins != null)


def op_req(c):
    h, l, i, ids, iloc = c.h0, c.a(1), c.a(2), c.a(3), c.a(4)
    x = OPS.at(h(LO, l), i)
    e = h(LE, l)
    return [('line', line_in(c, h, l)), ('an instruction of the environment', in_set(c, h, l, c.a(0))), ('an operand of the line', i < h(MAXOP, e)),
            ('what is kept or avoided is valid', And(Implies(Or(Not(ids), c.a(5)), And(0 <= pf['first'](x), pf['first'](x) < h(NSRC, e))), Implies(Not(iloc), And(0 <= pf['second'](x), pf['second'](x) < h(LARGEST, e)))))]


def op_post(c):
    h, h0, l, i, ids, iloc, force = c.h, c.h0, c.a(1), c.a(2), c.a(3), c.a(4), c.a(5)
    e = h0(LE, l)
    old, new = OPS.at(h0(LO, l), i), OPS.at(h(LO, l), i)
    ty, fk = h0(TYPES, c.a(0)), h0(FAKE, e)
    t = S.at(ty, i)
    k = Int('k')
    need = And(ids, i < S.len(ty))
    okold = And(0 <= pf['first'](old), pf['first'](old) < h0(NSRC, e), 0 <= pf['second'](old), pf['second'](old) < h0(LARGEST, e))
    oknew = And(0 <= pf['first'](new), pf['first'](new) < h0(NSRC, e), 0 <= pf['second'](new), pf['second'](new) < h0(LARGEST, e))
    return [('[C10] only the designated operand changes', And(OPS.len(h(LO, l)) == OPS.len(h0(LO, l)), fa([k], Implies(k != i, OPS.at(h(LO, l), k) == OPS.at(h0(LO, l), k)), [OPS.at(h(LO, l), k)]))),
            ('[C10] an operand drawn anew designates an existing source and location', Implies(And(c.ret, Or(Not(force), okold)), oknew)),
            ('[C10] the source drawn provides the type', Implies(And(c.ret, need, Not(And(force, iloc))), CANH(S.at(fk, pf['first'](new)), t))),
            ('[C10] the source only changes on demand', Implies(Not(ids), pf['first'](new) == pf['first'](old))),
            ('[C10] the location only changes on demand', Implies(Not(iloc), pf['second'](new) == pf['second'](old))),
            ('[C10] the search only fails when no other source provides the type', Implies(Not(c.ret), And(need, force, fa([k], Implies(And(0 <= k, k < S.len(fk), k != pf['first'](old)), Not(CANH(S.at(fk, k), t))), [S.at(fk, k)])))),
            ('[C10] a failed search changes nothing', Implies(Not(c.ret), h(LO, l) == h0(LO, l))),
            ('[C10] no other line changes', only(c, LO, l))]


def search(L):
    h, l, i, force = L.h, L.arg(1), L.arg(2), L.arg(5)
    e = h(LE, l)
    s, x, found = L.var('operandDataSourceIndexes'), L.var('operandDataSourceIndex'), L.var('operandFound')
    fk, t = h(FAKE, e), S.at(h(TYPES, L.arg(0)), i)
    old = pf['first'](OPS.at(h(LO, l), i))
    k = Int('k')
    return [('indices tested so far', ALL(s, h(NSRC, e))),
            ('the current source is excluded on demand', Implies(force, M.has(s, old))),
            ('the source found provides the type', Implies(found, And(0 <= x, x < h(NSRC, e), CANH(S.at(fk, x), t)))),
            ('sources tested without success', Implies(Not(found), fa([k], Implies(And(M.has(s, k), Or(Not(force), k != old)), Not(CANH(S.at(fk, k), t))), [M.has(s, k), S.at(fk, k)])))]


def shift(L):
    """the k smallest excluded indices were skipped"""
    s, x, j = L.var('operandDataSourceIndexes'), L.var('operandDataSourceIndex'), L.k
    r = L.prevar('operandDataSourceIndex')
    i = Int('i')
    key = lambda q: M.keyat(s, q)
    last = key(j - 1)
    return [('cursor', And(0 <= j, j <= M.size(s))), ('[C10] shifted past the smaller indices', And(r <= x, x <= r + j)),
            ('indices handled so far', fa([i], Implies(And(0 <= i, i < j), key(i) != x), [key(i)])),
            ('larger indices remain larger', Or(fa([i], Implies(And(0 <= i, i < j), key(i) < x), [key(i)]), And(j > 0, last > x)))]


rng = Contract('RNG::getUnsignedInt64', trusted=True, requires=lambda c: [('[C10 C11] bounds in order', c.a(0) <= c.a(1))], ensures=lambda c: [('drawn within the bounds', And(c.a(0) <= c.ret, c.ret <= c.a(1)))], note='proved in unit rng (C17)')


# -------------------------------------------------------------------- lines
def only_line(c, l):
    return ('[C11] no other line changes', And(*[only(c, k, l) for k in LINEKEYS]))


def init_loop(L):
    h, l, i = L.h, L.arg(0), L.var('operandIdx')
    r = R('r')
    e = h(LE, l)
    ins = L.var('instruction')
    return [('cursor', And(0 <= i, i <= h(MAXOP, e))), ('the instruction', And(0 <= h(LI, l), h(LI, l) < h(NINS, e), ins == S.at(h(INSTR, h(ISET, e)), h(LI, l)), 0 <= h(LD, l), h(LD, l) < h(NREG, e))), ('line', P.line_ok(L, h, l)),
            ('[C10] operands drawn so far', And(operands(L, h, l, i), handled(L, h, l, i))), ('other lines', And(*[fa([r], Implies(r != l, h(q, r) == L.h0(q, r)), [h(q, r)]) for q in LINEKEYS]))]


def alter_loop(L):
    h, l, i = L.h, L.arg(0), L.var('i')
    r = R('r')
    e = h(LE, l)
    ins = L.var('instruction')
    return [('cursor', And(0 <= i, i <= S.len(h(TYPES, ins)))), ('the instruction', And(0 <= h(LI, l), h(LI, l) < h(NINS, e), ins == S.at(h(INSTR, h(ISET, e)), h(LI, l)), h(LD, l) == L.h0(LD, l), h(LI, l) != L.h0(LI, l))), ('line', P.line_ok(L, h, l)),
            ('[C10] operands stay valid', operands(L, h, l, h(MAXOP, e))), ('[C10] operands of the new instruction checked so far', handled(L, h, l, i)), ('other lines', And(*[fa([r], Implies(r != l, h(q, r) == L.h0(q, r)), [h(q, r)]) for q in LINEKEYS]))]


line_contracts = [
    Contract('initRandomCorrectLineOperand', requires=op_req, ensures=op_post, modifies=[LO], loops=[search, shift]),
    Contract('initRandomCorrectLine', requires=lambda c: [('line', line_in(c, c.h0, c.a(0)))], ensures=lambda c: [('[C10] a valid line', valid(c, c.h, c.a(0))), ('[C10] still a line', P.line_ok(c, c.h, c.a(0))), only_line(c, c.a(0))], modifies=LINEKEYS, loops=[init_loop]),
    Contract('alterCorrectLine', requires=lambda c: [('line', line_in(c, c.h0, c.a(0))), ('a valid line', valid(c, c.h0, c.a(0)))], ensures=lambda c: [('[C10] the line remains valid', valid(c, c.h, c.a(0))), ('[C10] still a line', P.line_ok(c, c.h, c.a(0))), only_line(c, c.a(0))], modifies=LINEKEYS, loops=[alter_loop]),
]
# ----------------------------------------------------------------- programs
WITHC = z3.Function('with_constant', P.CONTENT, INT, INT, P.CONTENT)
CST = z3.Function('constant', P.CONTENT, INT, INT)
CVAL = P.CVAL
MAXS, MINC, MAXC = 'ProgramParameters.maxProgramSize', 'ProgramParameters.minConstValue', 'ProgramParameters.maxConstValue'
REFS = z3.ArraySort(Ref, INT)
MARKED = z3.Function('introns_up_to_date', LS.S, REFS, REFS, z3.ArraySort(Ref, OPS.S), Ref, BOOL)


def prog_cl(c, h, p):
    i = Int('i')
    ls = h(PL, p)
    return [('lines belong to the program', And(p != null, P.owned(c, h, p))), ('environment', env_ok(c, h, h(PENV, p))), ('every line is valid', fa([i], Implies(And(0 <= i, i < LS.len(ls)), valid(c, h, lref(LS.at(ls, i)))), [LS.at(ls, i)])),
            ('constants', And(h(PCST, p) != null, h('$alloc', h(PCST, p)), c.eng.is_a(h(PCST, p), 'ConstantHandler')))]


def prog_ok(c, h, p):
    return And(*[f for _, f in prog_cl(c, h, p)])


def pok(c):
    return prog_cl(c, c.h0, c.a(0)) + [('machine range', LS.len(c.h0(PL, c.a(0))) < 2 ** 62)]


def lines(c):
    return c.h(PL, c.a(0)), c.h0(PL, c.a(0))


def still(c):
    return [('[C11] the program remains valid: ' + n, f) for n, f in prog_cl(c, c.h, c.a(0))] + [('[C11] no other program changes', only(c, PL, c.a(0)))]


def no_record(c):
    return ('[C11] no existing line changes', And(*[onlyA(c, q) for q in LINEKEYS + [LE]]))


def del_post(c):
    l, l0 = lines(c)
    k = Int('k')
    return [('[C11] a line is deleted unless it is the only one', c.ret == (LS.len(l0) > 1)), ('[C11] exactly one line is removed, the others keep their order', Implies(c.ret, z3.Exists([k], And(0 <= k, k < LS.len(l0), l == LS.erase(l0, k)), patterns=[LS.erase(l0, k)]))),
            ('[C11] otherwise nothing changes', Implies(Not(c.ret), l == l0)), no_record(c)] + still(c)


def ins_post(c):
    l, l0 = lines(c)
    k, x = Int('k'), Const('x', LS.T)
    return [('[C11] exactly one new line is inserted, the others keep their order', z3.Exists([k, x], And(0 <= k, k <= LS.len(l0), l == LS.ins(l0, k, x), Not(c.h0('$alloc', lref(x))), Not(lintron(x))), patterns=[LS.ins(l0, k, x)])), ('[C11] one more line', LS.len(l) == LS.len(l0) + 1), no_record(c)] + still(c)


def swap_post(c):
    l, l0 = lines(c)
    k, j = Int('k'), Int('j')
    up = LS.upd(LS.upd(l0, k, LS.at(l0, j)), j, LS.at(l0, k))
    return [('[C11] two lines are exchanged when there are two', c.ret == (LS.len(l0) >= 2)), ('[C11] exactly two distinct lines are exchanged', Implies(c.ret, z3.Exists([k, j], And(0 <= k, k < LS.len(l0), 0 <= j, j < LS.len(l0), k != j, l == up), patterns=[LS.upd(LS.upd(l0, k, LS.at(l0, j)), j, LS.at(l0, k))]))),
            ('[C11] as many lines', LS.len(l) == LS.len(l0)), ('[C11] otherwise nothing changes', Implies(Not(c.ret), l == l0)), no_record(c)] + still(c)


def alt_post(c):
    l, l0 = lines(c)
    k, r = Int('k'), R('r')
    return [('[C11] a line is altered when there is one', c.ret == (LS.len(l0) >= 1)), ('[C11] the list of lines does not change', l == l0),
            ('[C11] at most one line of the program is altered', Or(no_record(c)[1], z3.Exists([k], And(0 <= k, k < LS.len(l0), *[fa([r], Implies(r != lref(LS.at(l0, k)), c.h(q, r) == c.h0(q, r)), [c.h(q, r)]) for q in LINEKEYS]), patterns=[LS.at(l0, k)])))] + still(c)


def within(c, params, v):
    return And(c.h0(MINC, pp(c, params)) <= v, v <= c.h0(MAXC, pp(c, params)))


def pp(c, params):
    return c.h0('MutationParameters.prog', params)


def par_ok(c, params):
    return [('parameters', And(pp(c, params) != null, c.h0(MINC, pp(c, params)) <= c.h0(MAXC, pp(c, params)), c.h0(MAXS, pp(c, params)) >= 1, c.h0(MAXS, pp(c, params)) < 2 ** 32))]


def ncst(c):
    return c.h0(NCST, c.h0(PENV, c.a(0)))


def cst_post(c):
    hd = c.h0(PCST, c.a(0))
    k, v = Int('k'), Int('v')
    c0, c1 = c.h0(CK, hd), c.h(CK, hd)
    return [('[C11] a change is reported', c.ret == True), ('[C11] exactly one constant is redrawn, within its configured bounds', z3.Exists([k, v], And(0 <= k, k < ncst(c), within(c, c.a(1), v), c1 == WITHC(c0, k, v)), patterns=[WITHC(c0, k, v)])),
            ('[C11] no other content changes', only(c, CK, hd))]


def mut_post(c):
    l, l0 = lines(c)
    p, h = c.a(0), c.h
    mx = c.h0(MAXS, pp(c, c.a(1)))
    hd = c.h0(PCST, p)
    k = Int('k')
    return [('[C11] at least one line', Implies(LS.len(l0) >= 1, LS.len(l) >= 1)), ('[C11] no more lines than configured', Implies(LS.len(l0) <= mx, LS.len(l) <= mx)),
            ('[C11] without reported change nothing changed', Implies(Not(c.ret), And(l == l0, *[same(c, q) for q in LINEKEYS + [LE, CK]]))),
            ('[C11] the marking of introns is up to date', Implies(c.ret, MARKED(l, h.arr(LI), h.arr(LD), h.arr(LO), c.h0(PENV, p)))),
            ('[C11] no other content changes', only(c, CK, hd)), ('[C11] constants are kept or within their bounds', fa([k], Implies(And(0 <= k, k < ncst(c)), Or(CST(h(CK, hd), k) == CST(c.h0(CK, hd), k), within(c, c.a(1), CST(h(CK, hd), k)))), [CST(h(CK, hd), k)]))] + still(c)


def init_post(c):
    l, l0 = lines(c)
    p, h = c.a(0), c.h
    hd = c.h0(PCST, p)
    k = Int('k')
    return [('[C11] the number of lines is between one and the configured maximum', And(1 <= LS.len(l), LS.len(l) <= c.h0(MAXS, pp(c, c.a(1))))), ('[C11] the marking of introns is up to date', MARKED(l, h.arr(LI), h.arr(LD), h.arr(LO), c.h0(PENV, p))),
            ('[C11] every constant is within its configured bounds', fa([k], Implies(And(0 <= k, k < ncst(c)), within(c, c.a(1), CST(h(CK, hd), k))), [CST(h(CK, hd), k)])), ('[C11] no other content changes', only(c, CK, hd))] + still(c)


def others_init(L):
    r = R('r')
    p = L.arg(0)
    return [('other programs', fa([r], Implies(r != p, L.h(PL, r) == L.h0(PL, r)), [L.h(PL, r)])), ('other contents', fa([r], Implies(r != L.h0(PCST, p), L.h(CK, r) == L.h0(CK, r)), [L.h(CK, r)]))]


def empty_loop(L):
    p = L.arg(0)
    return [('owned', And(P.owned(L, L.h, p), LS.len(L.h(PL, p)) <= LS.len(L.h0(PL, p)))), ('the program keeps its parts', prog_frame(L))] + others_init(L)


def prog_frame(L):
    """what a program refers to outlives its lines"""
    h, p = L.h, L.arg(0)
    return And(env_ok(L, h, h(PENV, p)), h('$alloc', h(PCST, p)))


def cst_loop(L):
    h, p, i = L.h, L.arg(0), L.var('i')
    hd, k = L.h0(PCST, p), Int('k')
    return [('cursor', 0 <= i), ('[C11] constants drawn so far', fa([k], Implies(And(0 <= k, k < i), within(L, L.arg(1), CST(h(CK, hd), k))), [CST(h(CK, hd), k)]))] + others_init(L)


def fill_loop(L):
    h, p = L.h, L.arg(0)
    return [('[C11] lines inserted so far: ' + n, f) for n, f in prog_cl(L, h, p)] + [('number of lines', LS.len(h(PL, p)) <= L.var('nbLine'))] + others_init(L)


def up_to_date(c):
    i = Int('i')
    l, l0 = c.h(PL, c.this), c.h0(PL, c.this)
    return [('same lines', And(LS.len(l) == LS.len(l0), fa([i], Implies(And(0 <= i, i < LS.len(l)), lref(LS.at(l, i)) == lref(LS.at(l0, i))), [LS.at(l, i)]))), ('marks', MARKED(l, c.h.arr(LI), c.h.arr(LD), c.h.arr(LO), c.h0(PENV, c.this))), ('other programs', only(c, PL, c.this))]


def ii_req(c):
    i, j = Int('i'), Int('j')
    return [('[C11] introns are identified in a program whose lines are valid', prog_ok(c, c.h0, c.this))]


ii = Contract('Program::identifyIntrons', trusted=True, requires=ii_req, ensures=up_to_date, modifies=[PL], note='weakening of the contract discharged in unit program, whose precondition follows from the validity of the lines: what the marks say is abstracted by a predicate over the lines')
PM = ['$alloc', '$new', PL] + LINEKEYS + [LE]
prog_contracts = [
    Contract('deleteRandomLine', requires=pok, ensures=del_post, modifies=['$alloc', PL]),
    Contract('insertRandomLine', requires=pok, ensures=ins_post, modifies=['$new', PL] + LINEKEYS + [LE]),
    Contract('swapRandomLines', requires=pok, ensures=swap_post, modifies=[PL]),
    Contract('alterRandomLine', requires=pok, ensures=alt_post, modifies=LINEKEYS),
    Contract('alterRandomConstant', requires=lambda c: pok(c) + par_ok(c, c.a(1)) + [('there is a constant', ncst(c) > 0)], ensures=cst_post, modifies=[CK]),
    Contract('mutateProgram', requires=lambda c: pok(c) + par_ok(c, c.a(1)), ensures=mut_post, modifies=PM + [CK]),
    Contract('initRandomProgram', requires=lambda c: pok(c) + par_ok(c, c.a(1)) + [('machine range', ncst(c) < 2 ** 31)], ensures=init_post, modifies=PM + [CK], loops=[empty_loop, cst_loop, fill_loop]),
    ii,
    Contract('PrimitiveTypeArray<Data::Constant>::setDataAt', trusted=True, modifies=[CK], ensures=lambda c: [('', And(c.h(CK, c.this) == WITHC(c.h0(CK, c.this), c.a(1), c.h0(CVAL, c.a(2))), only(c, CK, c.this)))], note='bounded check in C09'),
    Contract('RNG::getInt32', trusted=True, requires=lambda c: [('[C11] bounds in order', c.a(0) <= c.a(1))], ensures=lambda c: [('drawn within the bounds', And(c.a(0) <= c.ret, c.ret <= c.a(1)))], note='proved in unit rng (C17)'),
    Contract('RNG::getDouble', trusted=True, ensures=lambda c: [], note='bounded check in C17'),
    Contract('Program::getConstantHandler', ensures=lambda c: [('[C11] the constants', c.ret == c.h0(PCST, c.this))]),
]


def cst_axioms():
    c, i, v, k = Const('c', P.CONTENT), Int('i'), Int('v'), Int('k')
    return [ForAll([c, i, v, k], CST(WITHC(c, i, v), k) == If(k == i, v, CST(c, k)), patterns=[CST(WITHC(c, i, v), k)])]


data = [
    Contract('DataHandler::canHandle', trusted=True, ensures=lambda c: [('', c.ret == CANH(c.this, c.a(0)))], note='bounded check in C08'),
    Contract('Environment::getNbDataSources', ensures=lambda c: [('[C10] the number of sources', c.ret == c.h0(NSRC, c.this))]),
    Contract('Environment::getLargestAddressSpace', ensures=lambda c: [('[C10] the largest address space', c.ret == c.h0(LARGEST, c.this))]),
    Contract('Environment::getNbRegisters', ensures=lambda c: [('[C10] the number of registers', c.ret == c.h0(NREG, c.this))]),
    Contract('Environment::getNbInstructions', ensures=lambda c: [('[C10] the number of instructions', c.ret == c.h0(NINS, c.this))]),
    Contract('Environment::getMaxNbOperands', ensures=lambda c: [('[C10] the number of operands', c.ret == c.h0(MAXOP, c.this))]),
    Contract('Environment::getLineSize', ensures=lambda c: [('[C10] the size of lines', c.ret == c.h0(LSZ, c.this))]),
]
had = [assumed(c, 'program') for c in pick(P.line_contracts + P.exec_contracts + P.switch_contracts + P.intron_contracts + P.prog_contracts, 'Line::getEnvironment', 'Line::getDestinationIndex', 'Line::getInstructionIndex', 'Line::setDestinationIndex',
       'Line::setInstructionIndex', 'Line::getOperand', 'Line::setOperand', 'Set::getInstruction', 'Instruction::getNbOperands', 'Instruction::getOperandTypes', 'Environment::getFakeDataSources', 'Environment::getInstructionSet',
       'Program::getNbLines', 'Program::removeLine', 'Program::addNewLine', 'Program::swapLines', 'Program::getLine', 'Program::getEnvironment', 'Environment::getNbConstant')]
contracts = line_contracts + prog_contracts + data + had + [rng]
unit = Unit('mutator', ['src/mutator/lineMutator.cpp', 'src/mutator/programMutator.cpp', 'src/program/line.cpp', 'src/program/program.cpp', 'src/environment.cpp'],
            ['Program', 'Environment', 'Data', 'Instructions', 'Mutator', 'initRandomCorrectLineOperand', 'LineSize'], contracts, axioms=axioms, ghosts={CK: P.CONTENT}, native=P.native, values=['UntypedSharedPtr', 'Constant'], cells={'double': P.CELL})
