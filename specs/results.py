"""Evaluation results and their combination (C19)."""
from cdv.spec import *
from cdv.theory import F64, f_add, f_div, f_mul, f_lt, fin
from cdv import theory as T

FS, NS = seq(F64), seq(INT)
RES, NB = 'EvaluationResult.result', 'EvaluationResult.nbEvaluation'
SPC, NPC = 'ClassificationEvaluationResult.scorePerClass', 'ClassificationEvaluationResult.nbEvaluationPerClass'
SC = 'AdversarialEvaluationResult.scores'
ER, CR, AR = 'EvaluationResult', 'ClassificationEvaluationResult', 'AdversarialEvaluationResult'
KEYS = [RES, NB, SPC, NPC, SC]
W = 2 ** 64


def is_c(c, r):
    return c.eng.is_a(r, CR)


def is_a(c, r):
    return c.eng.is_a(r, AR)


def plain(c, r):
    return And(Not(is_c(c, r)), Not(is_a(c, r)))


def dyn(c, r):
    return c.eng.dyntype(r)


WM = z3.Function('combines', F64, F64, INT, F64, INT, BOOL)   # stands for the formula of wmean where its content is not needed
ABSTRACT = [False]


def abstractly(f):
    """the same clauses with wmean left uninterpreted (for callers that only pass it on)"""
    def g(c):
        ABSTRACT[0] = True
        try:
            return f(c)
        finally:
            ABSTRACT[0] = False
    return g


def wmean(new, x, n, y, m):
    """new is the mean of x and y weighted by n and m"""
    if ABSTRACT[0]:
        return WM(new, x, n, y, m)
    return Implies(And(F64.is_fin(x), F64.is_fin(y), n + m > 0), And(F64.is_fin(new), F64.r(new) == T.rdiv(T.rmul(F64.r(x), z3.ToReal(n)) + T.rmul(F64.r(y), z3.ToReal(m)), z3.ToReal(n) + z3.ToReal(m))))


def shape(c, h, r):
    """what the constructors establish"""
    return Implies(is_c(c, r), FS.len(h(SPC, r)) == NS.len(h(NPC, r)))


def small(c, h, r):
    i = Int('i')
    n = h(NPC, r)
    return And(Implies(is_c(c, r), And(fa([i], Implies(And(0 <= i, i < NS.len(n)), And(0 <= NS.at(n, i), NS.at(n, i) < W)), [NS.at(n, i)]), FS.len(h(SPC, r)) < 2 ** 31)),
               Implies(is_a(c, r), FS.len(h(SC, r)) < 2 ** 31))


def req(c):
    t, o = c.this, c.a(0)
    return [('sizes agree', And(shape(c, c.h0, t), shape(c, c.h0, o))), ('machine range', And(small(c, c.h0, t), small(c, c.h0, o)))]


def rejected(c):
    t, o = c.this, c.a(0)
    h = c.h0
    return Or(dyn(c, t) != dyn(c, o), And(is_c(c, t), FS.len(h(SPC, t)) != FS.len(h(SPC, o))), And(is_a(c, t), FS.len(h(SC, t)) != FS.len(h(SC, o))))


def others(c):
    return [('[C19] other results untouched', And(*[onlyA(c, k, c.this) for k in KEYS]))]


def frozen(c):
    return [('[C19] a rejected combination changes nothing', And(*[onlyA(c, k) for k in KEYS]))]


def post_plain(c):
    t, o, h, h0 = c.this, c.a(0), c.h, c.h0
    return [('[C19] mean weighted by the numbers of evaluations', wmean(h(RES, t), h0(RES, t), h0(NB, t), h0(RES, o), h0(NB, o)))]


def mean(s):
    """mean of a list of values"""
    return f_div(FS.sum(s, FS.len(s)), F64.fin(z3.ToReal(FS.len(s))))


def nb_sum(c):
    t, o = c.this, c.a(0)
    return [('[C19] the numbers of evaluations are added', c.h(NB, t) == (c.h0(NB, t) + c.h0(NB, o)) % W)]


def class_upto(c, h, h0, t, o, k):
    i = Int('i')
    s, n = h(SPC, t), h(NPC, t)
    s0, n0, s1, n1 = h0(SPC, t), h0(NPC, t), h0(SPC, o), h0(NPC, o)
    tot = NS.at(n0, i) + NS.at(n1, i)
    return [('[C19] number of classes', And(FS.len(s) == FS.len(s0), NS.len(n) == NS.len(n0))),
            ('[C19] per class weighted mean', fa([i], Implies(And(0 <= i, i < k, tot < W), And(
                wmean(FS.at(s, i), FS.at(s0, i), NS.at(n0, i), FS.at(s1, i), NS.at(n1, i)), Implies(tot == 0, FS.at(s, i) == FS.at(s0, i)))), [FS.at(s, i)])),
            ('[C19] per class numbers of evaluations are added', fa([i], Implies(And(0 <= i, i < k, tot < W), NS.at(n, i) == tot), [NS.at(n, i)]))]


def post_class(c):
    t, o, h, h0 = c.this, c.a(0), c.h, c.h0
    return class_upto(c, h, h0, t, o, FS.len(h0(SPC, t))) + [('[C19] the global score is the mean of the class scores', h(RES, t) == mean(h(SPC, t)))]


def class_loop(L):
    t, o, h, h0 = L.this, L.arg(0), L.h, L.h0
    i, k = Int('i'), L.var('idx')
    s, n = h(SPC, t), h(NPC, t)
    return [('cursor', And(0 <= k, k <= FS.len(h0(SPC, t))))] + class_upto(L, h, h0, t, o, k) + [
        ('the others are still to combine', fa([i], Implies(i >= k, And(FS.at(s, i) == FS.at(h0(SPC, t), i), NS.at(n, i) == NS.at(h0(NPC, t), i))), [FS.at(s, i)])),
        ('the others are still to combine (numbers)', fa([i], Implies(i >= k, NS.at(n, i) == NS.at(h0(NPC, t), i)), [NS.at(n, i)])),
        ('other results', And(kept(L, SPC), kept(L, NPC)))]


def kept(L, key):
    r = R('r')
    return fa([r], Implies(r != L.this, L.h(key, r) == L.pre(key, r)), [L.h(key, r)])


def adv_upto(c, h, h0, t, o, k):
    i = Int('i')
    s, s0, s1 = h(SC, t), h0(SC, t), h0(SC, o)
    return [('[C19] number of agents', FS.len(s) == FS.len(s0)),
            ('[C19] per agent weighted mean', fa([i], Implies(And(0 <= i, i < k), wmean(FS.at(s, i), FS.at(s0, i), h0(NB, t), FS.at(s1, i), h0(NB, o))), [FS.at(s, i)]))]


def adv_loop(L):
    t, o, h, h0 = L.this, L.arg(0), L.h, L.h0
    i, k = Int('i'), L.var('i')
    return [('cursor', And(0 <= k, k <= FS.len(h0(SC, t))))] + adv_upto(L, h, h0, t, o, k) + [
        ('the others are still to combine', fa([i], Implies(i >= k, FS.at(h(SC, t), i) == FS.at(h0(SC, t), i)), [FS.at(h(SC, t), i)])), ('other results', kept(L, SC))]


def guard(cond, l):
    return [(n, Implies(cond, f)) for n, f in l]


def add_post(c):
    t = c.this
    return [('[C19] the left operand is returned', c.ret == t)] + nb_sum(c) + guard(plain(c, t), post_plain(c)) + guard(is_c(c, t), post_class(c)) + \
        guard(is_a(c, t), adv_upto(c, c.h, c.h0, t, c.a(0), FS.len(c.h0(SC, t)))) + others(c) + [
        ('only results are created', fa([R('r')], Implies(And(c.h('$alloc', R('r')), Not(c.h0('$alloc', R('r')))), c.eng.is_a(R('r'), 'EvaluationResult')), [c.h('$alloc', R('r'))]))]


def base_post(c):
    """the body of the base class: combines plain results only"""
    t = c.this
    p = dyn(c, t) == c.eng.typeid('Learn::EvaluationResult')
    return [('[C19] the left operand is returned', c.ret == t)] + guard(p, nb_sum(c) + post_plain(c)) + guard(Not(p), frozen(c)) + others(c)


def divided(c, h, k):
    i = Int('i')
    s, s0, d = h(SC, c.this), c.h0(SC, c.this), (c.arg(0) if hasattr(c, 'arg') else c.a(0))
    return fa([i], Implies(And(0 <= i, i < k), FS.at(s, i) == f_div(FS.at(s0, i), d)), [FS.at(s, i)])


def divrest(L):
    i = Int('i')
    s, s0 = L.h(SC, L.this), L.h0(SC, L.this)
    return fa([i], Implies(i >= L.k, FS.at(s, i) == FS.at(s0, i)), [FS.at(s, i)])


MOD = ['$new', RES, NB, SPC, NPC, SC]
add = Contract(ER + '::operator+=', requires=req, throws=rejected, ensures=add_post, ensures_throw=frozen, modifies=MOD)
contracts = [
    add,
    Contract(ER + '::operator+=', throws=lambda c: dyn(c, c.this) != dyn(c, c.a(0)), ensures=base_post, ensures_throw=frozen, modifies=[RES, NB], direct=True),
    retag(add, CR + '::operator+=', loops=[class_loop]),
    retag(add, AR + '::operator+=', loops=[adv_loop]),
    Contract(ER + '::getResult', ensures=lambda c: [('[C19] the score', c.ret == score(c, c.h0, c.this))]),
    Contract(ER + '::getNbEvaluation', ensures=lambda c: [('[C19] the number of evaluations', c.ret == c.h0(NB, c.this))]),
    Contract(CR + '::getScorePerClass', ensures=lambda c: [('[C19] class scores', c.ret == c.h0(SPC, c.this))]),
    Contract(CR + '::getNbEvaluationPerClass', ensures=lambda c: [('[C19] class numbers of evaluations', c.ret == c.h0(NPC, c.this))]),
    Contract(AR + '::getResult', ensures=lambda c: [('[C19] the score', c.ret == score(c, c.h0, c.this))], loops=[lambda L: [
        ('cursor', And(0 <= L.k, L.k <= FS.len(L.seq), L.seq == L.h0(SC, L.this))), ('[C19] sum so far', L.var('mean') == FS.sum(L.seq, L.k))]]),
    Contract(AR + '::operator/=', ensures=lambda c: [('[C23] the operand is returned', c.ret == c.this), ('[C23] every score is divided', divided(c, c.h, FS.len(c.h0(SC, c.this)))), ('[C23] number of agents', FS.len(c.h(SC, c.this)) == FS.len(c.h0(SC, c.this))),
             ('[C23] other results untouched', only(c, SC, c.this))], modifies=[SC], loops=[lambda L: [('cursor', And(0 <= L.k, L.k <= FS.len(L.h0(SC, L.this)), FS.len(L.h(SC, L.this)) == FS.len(L.h0(SC, L.this)))), ('[C23] divided so far', divided(L, L.h, L.k)),
                 ('still to divide', divrest(L)), ('other results', kept(L, SC))]]),
    Contract(AR + '::getSize', ensures=lambda c: [('[C19] number of agents', c.ret == FS.len(c.h0(SC, c.this)))]),
    Contract(AR + '::getScoreOf', requires=lambda c: [('existing agent', And(0 <= c.a(0), c.a(0) < FS.len(c.h0(SC, c.this))))], ensures=lambda c: [('[C19] score of that agent', c.ret == FS.at(c.h0(SC, c.this), c.a(0)))]),
    Contract('operator<', nparams=2, ensures=lambda c: [('[C19] results are ordered by their scores', c.ret == f_lt(score(c, c.h0, c.a(0)), score(c, c.h0, c.a(1))))]),
]


def score(c, h, r):
    return If(is_a(c, r), mean(h(SC, r)), h(RES, r))


def axioms(eng):
    return T.opaque_axioms()


unit = Unit('results', ['src/learn/evaluationResult.cpp', 'src/learn/classificationEvaluationResult.cpp', 'src/learn/adversarialEvaluationResult.cpp'], ['Learn'], contracts, axioms=axioms, opaque=True)
