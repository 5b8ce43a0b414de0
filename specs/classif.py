"""Classification: the table of decisions and the scores computed from it (C24)."""
from cdv.spec import *
from cdv.theory import F64, f_add, f_div, f_mul, fin
from cdv import theory as T

NS, FS = seq(INT), seq(F64)
TT = seq(NS.S)
W = 2 ** 64
CE = 'ClassificationLearningEnvironment'
CT, CC = CE + '.classificationTable', CE + '.currentClass'
COL = z3.Function('column_sum', TT.S, INT, INT, INT)     # decisions for a class among the first rows
TOT = z3.Function('sum_of_scores', TT.S, INT, F64)


def real(x):
    return fin(z3.ToReal(x))


def tp(t, i):
    return NS.at(TT.at(t, i), i)


def row(t, i):
    return NS.sum(TT.at(t, i), NS.len(TT.at(t, i)))


def f1(t, i):
    """harmonic mean of the recall (true positives among the decisions about the class) and the precision (among the decisions for the class)"""
    p, r = f_div(real(tp(t, i)), real(COL(t, TT.len(t), i))), f_div(real(tp(t, i)), real(row(t, i)))
    return If(tp(t, i) != 0, f_div(f_mul(fin(2), f_mul(p, r)), f_add(p, r)), fin(0))


def axioms(eng):
    t, k, i = Const('t', TT.S), Int('k'), Int('i')
    return T.opaque_axioms() + [
        ForAll([t, i], COL(t, 0, i) == 0, patterns=[COL(t, 0, i)]),
        ForAll([t, k, i], Implies(And(0 <= k, k < TT.len(t)), COL(t, k + 1, i) == COL(t, k, i) + NS.at(TT.at(t, k), i)), patterns=[MultiPattern(COL(t, k, i), TT.at(t, k))]),
        ForAll([t], TOT(t, 0) == fin(0), patterns=[TOT(t, 0)]),
        ForAll([t, k], Implies(And(0 <= k, k < TT.len(t)), TOT(t, k + 1) == f_add(TOT(t, k), f1(t, k))), patterns=[MultiPattern(TOT(t, k), TT.at(t, k))]),
    ]


def square(c, h, r):
    t, i = h(CT, r), Int('i')
    return fa([i], Implies(And(0 <= i, i < TT.len(t)), NS.len(TT.at(t, i)) == TT.len(t)), [TT.at(t, i)])


def counts(c, t):
    i, k = Int('i'), Int('k')
    return And(TT.len(t) < W, fa([i, k], And(0 <= COL(t, k, i), COL(t, k, i) < W), [COL(t, k, i)]), fa([i], Implies(And(0 <= i, i < TT.len(t)), And(0 <= row(t, i), row(t, i) < W)), [TT.at(t, i)]),
               fa([i, k], Implies(And(0 <= k, k < TT.len(t)), And(0 <= NS.at(TT.at(t, k), i), NS.at(TT.at(t, k), i) < W)), [NS.at(TT.at(t, k), i)]))


def req(c):
    return [('a square table', square(c, c.h0, c.this)), ('machine range', counts(c, c.h0(CT, c.this)))]


def classes_loop(L):
    t, k = L.h0(CT, L.this), L.var('classIdx')
    return [('cursor', And(0 <= k, k <= TT.len(t))), ('[C24] sum of the scores of the classes so far', L.var('averageF1Score') == TOT(t, k))]


def column_loop(L):
    t = L.h0(CT, L.this)
    return [('cursor', And(0 <= L.k, L.k <= TT.len(t), L.seq == t)), ('[C24] decisions for the class so far', L.var('falsePositive') == COL(t, L.k, L.var('classIdx')))]


def zero_rows(t, t0, k):
    i, j = Int('i'), Int('j')
    return And(TT.len(t) == TT.len(t0), fa([i], Implies(And(0 <= i, i < TT.len(t)), NS.len(TT.at(t, i)) == NS.len(TT.at(t0, i))), [TT.at(t, i)]),
               fa([i, j], Implies(And(0 <= i, i < k, 0 <= j, j < NS.len(TT.at(t, i))), NS.at(TT.at(t, i), j) == 0), [NS.at(TT.at(t, i), j)]))


def others(L):
    return [('other environments', fa([R('r')], Implies(R('r') != L.this, L.h(CT, R('r')) == L.h0(CT, R('r'))), [L.h(CT, R('r'))]))]


def reset_rows(L):
    return [('cursor', And(0 <= L.k, L.k <= TT.len(L.h0(CT, L.this)))), ('[C24] rows cleared so far', zero_rows(L.h(CT, L.this), L.h0(CT, L.this), L.k))] + others(L)


def reset_cells(L):
    t, t0 = L.h(CT, L.this), L.pre(CT, L.this)
    r = L.obj('perClass').idx
    i, n = Int('i'), NS.len(TT.at(t0, r))
    x, x0 = TT.at(t, r), TT.at(t0, r)
    return [('cursor', And(0 <= L.k, L.k <= n, NS.len(x) == n)), ('only this row', And(TT.len(t) == TT.len(t0), fa([i], Implies(i != r, TT.at(t, i) == TT.at(t0, i)), [TT.at(t, i)]))), ('[C24] cells cleared so far', fa([i], NS.at(x, i) == If(And(0 <= i, i < L.k), 0, NS.at(x0, i)), [NS.at(x, i)]))] + others(L)


def act(c):
    t, t0, cl, a = c.h(CT, c.this), c.h0(CT, c.this), c.h0(CC, c.this), c.a(0)
    r = TT.at(t0, cl)
    return [('[C24] the decision is recorded for the current class, and nothing else changes', t == TT.upd(t0, cl, NS.upd(r, a, NS.at(r, a) + 1))), ('[C24] other environments untouched', only(c, CT, c.this))]


NA_ = 'LearningEnvironment.nbActions'
contracts = [
    Contract(CE + '::getClassificationTable', ensures=lambda c: [('[C24] the table', c.ret == c.h0(CT, c.this))]),
    Contract(CE + '::doAction', requires=lambda c: req(c) + [('an existing class', And(0 <= c.h0(CC, c.this), c.h0(CC, c.this) < TT.len(c.h0(CT, c.this)))), ('one action per class', c.h0(NA_, c.this) == TT.len(c.h0(CT, c.this))),
             ('machine range', NS.at(TT.at(c.h0(CT, c.this), c.h0(CC, c.this)), c.a(0)) < W - 1)],
             throws=lambda c: c.a(0) >= c.h0(NA_, c.this), ensures=act, ensures_throw=lambda c: [('[C24] a rejected decision is not recorded', same(c, CT))], modifies=[CT]),
    Contract(CE + '::getScore', requires=req, loops=[classes_loop, column_loop], ensures=lambda c: [('[C24] the mean over the classes of the harmonic mean of precision and recall', c.ret == f_div(TOT(c.h0(CT, c.this), TT.len(c.h0(CT, c.this))), real(TT.len(c.h0(CT, c.this)))))]),
    Contract(CE + '::reset', requires=req, loops=[reset_rows, reset_cells], ensures=lambda c: [('[C24] every count restarts from zero', zero_rows(c.h(CT, c.this), c.h0(CT, c.this), TT.len(c.h0(CT, c.this)))), ('[C24] other environments untouched', only(c, CT, c.this))], modifies=[CT]),
]
unit = Unit('classif', ['src/learn/classificationLearningEnvironment.cpp', 'src/learn/learningEnvironment.cpp'], ['Learn'], contracts, axioms=axioms, opaque=True)
