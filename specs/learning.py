"""Evaluation budget of the roots (C21), selection and best root (C20)."""
from cdv.spec import *
from cdv.theory import F64, f_add, f_div, f_mul, f_lt, fin, xor
from cdv import theory as T
from . import graph as G
from . import exec as X
from . import results as RS

LA = 'LearningAgent'
RPR, BEST = 'LearningAgent.resultsPerRoot', 'LearningAgent.bestRoot'
RM = mapt(Ref, Ref)
FS, NS = seq(F64), seq(INT)
RES, NB = RS.RES, RS.NB
# what an environment was asked, in order (ghost histories, one per environment)
EP, SEED, MODE, ITER, GEN, SCORES, ROOTS = '$stepsPerEpisode', '$seeds', '$modes', '$iterations', '$generations', '$scores', '$executedRoots'
SUMF = z3.Function('sum_from', FS.S, INT, INT, F64)
HASH = z3.Function('hash_of', INT, INT)
W = 2 ** 64
HIST = [EP, SEED, MODE, ITER, GEN, SCORES]


def axioms(eng):
    s, x, a, b = Const('s', FS.S), Const('x', F64), Int('a'), Int('b')
    return T.opaque_axioms() + [
        ForAll([s, a], SUMF(s, a, a) == fin(0), patterns=[SUMF(s, a, a)]),
        ForAll([s, x, a, b], Implies(And(a <= b, b <= FS.len(s)), SUMF(FS.push(s, x), a, b) == SUMF(s, a, b)), patterns=[SUMF(FS.push(s, x), a, b)]),
        ForAll([s, x, a, b], Implies(And(0 <= a, a <= FS.len(s), b == FS.len(s) + 1), SUMF(FS.push(s, x), a, b) == f_add(SUMF(s, a, FS.len(s)), x)), patterns=[SUMF(FS.push(s, x), a, b)]),
    ]


def par(c, h, name):
    return h('LearningParameters.' + name, h('LearningAgent.params', c.this))


def wfR(c, h):
    """recorded results are usable"""
    r = R('r')
    m = h(RPR, c.this)
    return ('[C20,C21] recorded results are usable', fa([r], Implies(RM.has(m, r), usable(c, h, RM.get(m, r))), [RM.has(m, r)]))


def usable(c, h, e):
    return And(e != null, h('$alloc', e), c.eng.is_a(e, 'EvaluationResult'))


def plain(c, e):
    return c.eng.dyntype(e) == c.eng.typeid('Learn::EvaluationResult')


def skipped(c, h, root):
    m = h(RPR, c.this)
    return And(RM.has(m, root), h(NB, RM.get(m, root)) >= par(c, h, 'maxNbEvaluationPerPolicy'))


def prev(c, h, root):
    m = h(RPR, c.this)
    return If(RM.has(m, root), RM.get(m, root), null)


def isteam(c, v):
    return c.eng.is_a(v, 'TPGTeam')


# ------------------------------------------------------------- environments
def hist(c, key, v, Q=NS):
    return [('history', And(c.h(key, c.this) == v, only(c, key, c.this)))]


def env_reset(c):
    t = c.this
    out = []
    for k, a in ((SEED, 0), (MODE, 1), (ITER, 2), (GEN, 3)):
        out += hist(c, k, NS.push(c.h0(k, t), c.a(a)))
    return out + hist(c, EP, NS.push(c.h0(EP, t), IntVal(0)))


def env_action(c):
    e = c.h0(EP, c.this)
    return hist(c, EP, NS.upd(e, NS.len(e) - 1, NS.at(e, NS.len(e) - 1) + 1))


USER = 'user code behind a virtual interface: assumed not to touch the agent, its graph or its results'
envc = [
    Contract('LearningEnvironment::reset', trusted=True, may_throw=False, ensures=env_reset, modifies=[EP, SEED, MODE, ITER, GEN], note=USER),
    Contract('LearningEnvironment::doAction', trusted=True, requires=lambda c: [('the environment was reset first', NS.len(c.h0(EP, c.this)) > 0)], ensures=env_action, modifies=[EP], note=USER),
    Contract('LearningEnvironment::isTerminal', trusted=True, note=USER),
    Contract('LearningEnvironment::getScore', trusted=True, ensures=lambda c: hist(c, SCORES, FS.push(c.h0(SCORES, c.this), c.ret), FS), modifies=[SCORES], note=USER),
]


def root_post(c):
    p = c.ret
    last = S.at(p, S.len(p) - 1)
    v = R('v')
    arch = c.h0(X.ARCH, c.this)
    return [('path', And(S.len(p) >= 1, S.at(p, 0) == c.a(0), last != null, c.h('$alloc', last), c.eng.is_a(last, 'TPGVertex'), Not(isteam(c, last)))),
            ('range', fa([v], And(c.h(X.VV, v) >= 0, c.h(X.VV, v) < W), [c.h(X.VV, v)])),
            ('executed', c.h(ROOTS) == S.push(c.h0(ROOTS), c.a(0))),
            ('nothing is offered without archive', Implies(arch == null, And(c.h(X.OFFP) == c.h0(X.OFFP), c.h(X.OFFV) == c.h0(X.OFFV))))]


def exec_req(c, h=None, this=None):
    class D:
        pass
    d = D()
    d.h0, d.eng, d.this = h or c.h0, c.eng, c.a(0) if this is None else this
    return [x for x in X.root_req(d) if not x[0].startswith('definition')]


execc = Contract('TPGExecutionEngine::executeFromRoot', trusted=True, requires=lambda c: exec_req(c, this=c.this), ensures=root_post, modifies=X.MOD + [X.TH, ROOTS],
                 note='weakening of the contract discharged in unit exec, with a log of the executed roots')


# --------------------------------------------------------------- evaluation
def base_agent(c):
    return ('a plain or parallel agent', Or(*[c.eng.dyntype(c.this) == c.eng.typeid('Learn::' + n) for n in ('LearningAgent', 'ParallelLearningAgent')]))


def job_req(c):
    v = R('v')
    j = c.a(1)
    m = c.h0(RPR, c.this)
    return [wfR(c, c.h0), base_agent(c)] + exec_req(c) + [
        ('plain results are recorded', fa([v], Implies(RM.has(m, v), plain(c, RM.get(m, v))), [RM.has(m, v)])),
        ('what is not a team is an action', fa([v], Implies(And(v != null, c.h0('$alloc', v), c.eng.is_a(v, 'TPGVertex'), Not(isteam(c, v))), c.eng.is_a(v, 'TPGAction')), [c.eng.is_a(v, 'TPGVertex')])),
        ('the job has a root', And(c.h0('Job.root', j) != null, c.h0('$alloc', c.h0('Job.root', j)), c.eng.is_a(c.h0('Job.root', j), 'TPGVertex'))),
        ('machine range', And(*[NS.len(c.h0(EP, c.a(4))) >= 0]))]


TRAINING = 0


def skip(c, root):
    return And(c.a(3) == TRAINING, skipped(c, c.h0, root))


def log_upto(c, h, h0, le, n, gen, mode, mx):
    i = Int('i')

    def run(key, val):
        s, e = h(key, le), NS.len(h0(key, le))
        return fa([i], Implies(And(e <= i, i < e + n), NS.at(s, i) == val(i, e)), [NS.at(s, i)])
    out = [('[C21] number of episodes', And(*[NS.len(h(k, le)) == NS.len(h0(k, le)) + n for k in (EP, SEED, MODE, ITER, GEN)], FS.len(h(SCORES, le)) == FS.len(h0(SCORES, le)) + n))]
    e0 = NS.len(h0(EP, le))
    out += [('[C21] no episode exceeds the configured number of actions', fa([i], Implies(And(e0 <= i, i < e0 + n), And(0 <= NS.at(h(EP, le), i), NS.at(h(EP, le), i) <= mx)), [NS.at(h(EP, le), i)])),
            ('[C21] every episode is reset in the given mode', run(MODE, lambda i, e: mode)),
            ('[C21] every episode is reset with its iteration number', run(ITER, lambda i, e: (i - e) % 65536)),
            ('[C21] every episode is reset with the number of the generation', run(GEN, lambda i, e: gen)),
            ('[C21] every episode is reset with the seed of its iteration and generation', run(SEED, lambda i, e: xor(HASH(gen), HASH(i - e)))),
            ]
    return out


def eval_post(c):
    t, tee, j, gen, mode, le = c.this, c.a(0), c.a(1), c.a(2), c.a(3), c.a(4)
    h, h0 = c.h, c.h0
    root = h0('Job.root', j)
    sk = skip(c, root)
    n = par(c, h0, 'nbIterationsPerPolicyEvaluation')
    p = If(mode == TRAINING, prev(c, h0, root), null)
    r = c.ret
    s = h(SCORES, le)
    mean = f_div(SUMF(s, FS.len(h0(SCORES, le)), FS.len(s)), fin(z3.ToReal(n)))
    i = Int('i')
    out = [('[C21] a root evaluated often enough keeps its recorded result', Implies(sk, r == prev(c, h0, root))),
           ('[C21] a root evaluated often enough is not evaluated again', Implies(sk, And(h(ROOTS) == h0(ROOTS), *[same(c, k) for k in HIST]))),
           ('[C21] a result is returned', usable(c, h, r)),
           ('[C21] a plain result is returned', plain(c, r)),
           ('[C21] the returned result is new', Implies(Not(sk), Not(h0('$alloc', r)))),
           ('[C21] the number of evaluations is added to the recorded one', Implies(Not(sk), h(NB, r) == If(p == null, n, (n + h0(NB, p)) % W))),
           ('[C21] the score is the mean over the episodes', Implies(And(Not(sk), p == null), h(RES, r) == mean)),
           ('[C21] the new mean is combined with the recorded one', Implies(And(Not(sk), p != null), RS.wmean(h(RES, r), mean, n, h0(RES, p), h0(NB, p)))),
           ('[C21] only the root of the job is executed', Implies(Not(sk), fa([i], Implies(And(S.len(h0(ROOTS)) <= i, i < S.len(h(ROOTS))), S.at(h(ROOTS), i) == root), [S.at(h(ROOTS), i)])))]
    out += [(a, Implies(Not(sk), b)) for a, b in log_upto(c, h, h0, le, n, gen, mode, par(c, h0, 'maxNbActionsPerEval'))]
    out += [('nothing relevant is created', created(c, h0, h)),
            ('counters stay in range', fa([R('v')], And(h(X.VV, R('v')) >= 0, h(X.VV, R('v')) < W), [h(X.VV, R('v'))])),
            ('[C21] no other environment is used', And(*[only(c, k, le) for k in HIST])),
            ('[C21] recorded results keep their values', And(*[onlyA(c, k) for k in RS.KEYS])),
            ('[C21] nothing is offered to an archive outside training', Implies(c.h0(X.ARCH, tee) == null, And(h(X.OFFP) == h0(X.OFFP), h(X.OFFV) == h0(X.OFFV))))]
    return out


def created(c, h0, h):
    r = R('r')
    return fa([r], And(Implies(h0('$alloc', r), h('$alloc', r)), Implies(And(h('$alloc', r), Not(h0('$alloc', r))), And(Not(c.eng.is_a(r, 'TPGVertex')), Not(c.eng.is_a(r, 'TPGEdge'))))), [h('$alloc', r), h0('$alloc', r)])


def ev_common(L):
    h, h0 = L.h, L.h0
    le, tee, j = L.arg(4), L.arg(0), L.arg(1)
    root = h0('Job.root', j)
    v, r, i = R('v'), R('r'), Int('i')
    return [('range', fa([v], And(h(X.VV, v) >= 0, h(X.VV, v) < W), [h(X.VV, v)])),
            ('executed', And(S.len(h(ROOTS)) >= S.len(h0(ROOTS)), fa([i], Implies(And(S.len(h0(ROOTS)) <= i, i < S.len(h(ROOTS))), S.at(h(ROOTS), i) == root), [S.at(h(ROOTS), i)]))),
            ('others', And(*[fa([r], Implies(r != le, h(k, r) == h0(k, r)), [h(k, r)]) for k in HIST])),
            ('archive', Implies(h0(X.ARCH, tee) == null, And(h(X.OFFP) == h0(X.OFFP), h(X.OFFV) == h0(X.OFFV)))),
            ('nothing relevant is created', created(L, h0, h))]


def outer(L):
    h, h0, le = L.h, L.h0, L.arg(4)
    k = L.var('iterationNumber')
    n = par(L, h0, 'nbIterationsPerPolicyEvaluation')
    s = h(SCORES, le)
    return [('cursor', And(0 <= k, k <= n))] + ev_common(L) + log_upto(L, h, h0, le, k, L.arg(2), L.arg(3), par(L, h0, 'maxNbActionsPerEval')) + [
        ('sum so far', L.var('result') == SUMF(s, FS.len(h0(SCORES, le)), FS.len(s)))]


def inner(L):
    h, p, h0, le = L.h, L.pre, L.h0, L.arg(4)
    a = L.var('nbActions')
    e, e0 = h(EP, le), p(EP, le)
    i = Int('i')
    last = NS.len(e0) - 1
    return [('cursor', And(0 <= a, a <= par(L, h0, 'maxNbActionsPerEval')))] + ev_common(L) + [
        ('steps of this episode', And(NS.len(e) == NS.len(e0), NS.at(e, last) == a)),
        ('earlier episodes', fa([i], Implies(And(0 <= i, i < last), NS.at(e, i) == NS.at(e0, i)), [NS.at(e, i)]))]


def skip_post(c):
    root = c.a(0)
    return [('[C21] skipped exactly when evaluated often enough', c.ret == skipped(c, c.h0, root)),
            ('[C21] the recorded result is handed out', c.a1(1) == prev(c, c.h0, root))]


cAdd = assumed(RS.add, 'results')
cAdd.ensures = RS.abstractly(RS.add_post)

# ------------------------------------------------- selection and best root
PT = T.pair(Ref, Ref)
mk, res_of, root_of = PT[0].mk, PT[2]["first"], PT[2]["second"]
D = seq(PT[0])
PROJ = z3.Function('roots_of_results', D.S, S.S)        # the roots of a list of results, in order
NA = z3.Function('non_actions_before', D.S, INT, INT)   # how many of the first k results belong to something else than an action
V, E, SRC, DST, IN, OUT = G.V, G.E, G.SRC, G.DST, G.IN, G.OUT
cnt, at, ln = S.cnt, S.at, S.len
TPG = 'LearningAgent.tpg'


def sel_axioms(eng):
    s, x, i, j = Const('s', D.S), Const('x', D.T), Int('i'), Int('j')
    act = lambda r: eng.is_a(r, 'TPGAction')
    return [
        ForAll([s], ln(PROJ(s)) == D.len(s), patterns=[PROJ(s)]),
        ForAll([s, i], at(PROJ(s), i) == root_of(D.at(s, i)), patterns=[at(PROJ(s), i)]),
        ForAll([s, i], at(PROJ(s), i) == root_of(D.at(s, i)), patterns=[MultiPattern(PROJ(s), D.at(s, i))]),
        ForAll([s, i, x], Implies(And(0 <= i, i <= D.len(s)), PROJ(D.ins(s, i, x)) == S.ins(PROJ(s), i, root_of(x))), patterns=[PROJ(D.ins(s, i, x))]),
        PROJ(D.empty) == S.empty,
        ForAll([s], NA(s, 0) == 0, patterns=[PROJ(s)]),
        ForAll([s, i], Implies(And(0 <= i, i < D.len(s)), NA(s, i + 1) == NA(s, i) + If(act(root_of(D.at(s, i))), 0, 1)), patterns=[MultiPattern(NA(s, i), D.at(s, i))]),
        ForAll([s, i, j], Implies(And(0 <= i, i <= j, j <= D.len(s)), And(NA(s, i) <= NA(s, j), NA(s, j) - NA(s, i) <= j - i, NA(s, i) >= 0)), patterns=[MultiPattern(NA(s, i), NA(s, j))]),
    ]


def tpg(c, h):
    return h(TPG, c.this)


class On:
    """a view of the context with the graph of the agent as receiver"""
    def __init__(self, c, h0=None):
        self.eng, self.this = c.eng, c.h0(TPG, c.this)
        self.h, self.h0 = c.h, h0 or c.h0
        self.a = c.a if hasattr(c, 'a') else None


def owned(c, h):
    g = On(c)
    return [('the agent owns a graph', And(g.this != null, h('$alloc', g.this), c.eng.is_a(g.this, 'TPGGraph')))] + G.wf(g, h, g.this)


def rec_req(c, s):
    i = Int('i')
    x = R('x')
    g = c.h0(TPG, c.this)
    b = c.h0(BEST, c.this)
    return [wfR(c, c.h0)] + owned(c, c.h0) + [
        ('results are usable', fa([i], Implies(And(0 <= i, i < D.len(s)), usable(c, c.h0, res_of(D.at(s, i)))), [D.at(s, i)])),
        ('one result per root', fa([x], cnt(PROJ(s), x) <= 1, [cnt(PROJ(s), x)])),
        ('results belong to vertices', fa([i], Implies(And(0 <= i, i < D.len(s)), root_of(D.at(s, i)) != null), [D.at(s, i)])),
        ('the best root has a result', Implies(root_of_b(b) != null, usable(c, c.h0, res_of_b(b))))]


# bestRoot is a pair (root, result): the components are the other way round
root_of_b, res_of_b = PT[2]['first'], PT[2]['second']


def entry(s, v):
    """position of the result of a root"""
    return S.idx(PROJ(s), v)


def inres(s, v):
    return cnt(PROJ(s), v) >= 1


def recorded(c, h, h0, s, k):
    """the first k results are recorded, the other recorded results unchanged"""
    v = R('v')
    m, m0 = h(RPR, c.this), h0(RPR, c.this)
    mine = And(inres(s, v), entry(s, v) < k)
    return [('[C20,C21] every result is recorded for its root', fa([v], Implies(mine, And(RM.has(m, v), RM.get(m, v) == res_of(D.at(s, entry(s, v))))), [RM.has(m, v), cnt(PROJ(s), v)])),
            ('[C20] the recorded results of other roots are kept', fa([v], Implies(Not(mine), And(RM.has(m, v) == RM.has(m0, v), Implies(RM.has(m0, v), RM.get(m, v) == RM.get(m0, v)))), [RM.has(m, v)]))]


def followed(c, h0, s, k):
    """the best root with its own re-evaluation among the first k results"""
    b, m0 = h0(BEST, c.this), h0(RPR, c.this)
    v = root_of_b(b)
    new = res_of(D.at(s, entry(s, v)))
    return If(And(inres(s, v), entry(s, v) < k, RM.has(m0, v), new != RM.get(m0, v)), mk(v, new), b)


def upd_post(c):
    s = c.a(0)
    h, h0 = c.h, c.h0
    n = D.len(s)
    b0, b1 = h0(BEST, c.this), followed(c, h0, s, n)
    g = On(c)
    gone = Not(G.inV(g, h0, root_of_b(b0)))
    last = D.at(s, n - 1)
    better = f_lt(RS.score(c, h0, res_of_b(b1)), RS.score(c, h0, res_of(last)))
    rep = Or(root_of_b(b0) == null, better, gone)
    return recorded(c, h, h0, s, n) + [
        ('[C20] the best root is replaced when there is none, by a strictly better one, or when it left the graph', Implies(And(n > 0, rep), h(BEST, c.this) == mk(root_of(last), res_of(last)))),
        ('[C20] otherwise the best root stays and its result follows its own evaluations', Implies(And(n > 0, Not(rep)), h(BEST, c.this) == b1)),
        ('[C20] without any root left the best root is forgotten exactly when it left the graph', Implies(n == 0, h(BEST, c.this) == If(And(root_of_b(b0) != null, gone), mk(null, null), b0))),
        ('[C20] other agents untouched', And(only(c, RPR, c.this), only(c, BEST, c.this)))]


def upd_loop(L):
    s = L.seq
    k = L.k
    return [('cursor', And(0 <= k, k <= D.len(s), s == L.arg(0))), ('best root so far', L.h(BEST, L.this) == followed(L, L.h0, s, k)),
            ('other agents', And(*[fa([R()], Implies(R() != L.this, L.h(q, R()) == L.h0(q, R())), [L.h(q, R())]) for q in (RPR, BEST)]))] + recorded(L, L.h, L.h0, s, k)


def lastgen(c):
    s = c.a(0)
    return [('[C20] the best score of the generation is the highest result', c.h('LearningAgent.bestScoreLastGen', c.this) == RS.score(c, c.h0, res_of(D.at(s, D.len(s) - 1)))),
            ('[C20] other agents untouched', only(c, 'LearningAgent.bestScoreLastGen', c.this))]


# --- decimation
def target(c, h):
    """the configured share of the target number of roots"""
    p = h('LearningAgent.params', c.this)
    nb = h('TPGParameters.nbRoots', h('MutationParameters.tpg', h('LearningParameters.mutation', p)))
    x = f_mul(h('LearningParameters.ratioDeletedRoots', p), fin(z3.ToReal(nb)))
    return x


def below(c, k):
    """k < floor(target)"""
    x = target(c, c.h0)
    return f_lt(fin(z3.ToReal(k)), If(F64.is_fin(x), fin(z3.ToReal(z3.ToInt(F64.r(x)))), x))


def isact(c, v):
    return c.eng.is_a(v, 'TPGAction')


def dec_req(c):
    s = c.a(0)
    i, x, e = Int('i'), R('x'), Const('e', D.T)
    g = On(c)
    return [wfR(c, c.h0)] + owned(c, c.h0) + [
        ('one result per root', fa([x], cnt(PROJ(s), x) <= 1, [cnt(PROJ(s), x)])),
        ('each result once', fa([e], D.cnt(s, e) <= 1, [D.cnt(s, e)])),
        ('results belong to vertices of the graph', fa([i], Implies(And(0 <= i, i < D.len(s)), And(root_of(D.at(s, i)) != null, G.inV(g, c.h0, root_of(D.at(s, i))))), [D.at(s, i)])),
        ('machine range', And(D.len(s) < 2 ** 31))]


def removed_upto(c, s, v, k):
    """the root v has been removed once the first k results have been examined"""
    return And(inres(s, v), entry(s, v) < k, Not(isact(c, v)))


def dec_state(c, h, h0, s, gone):
    """what is left when exactly the roots satisfying gone have been removed"""
    v = R('v')
    g = h0(TPG, c.this)
    m, m0 = h(RPR, c.this), h0(RPR, c.this)
    return [('[C20] exactly the lowest results that are not actions leave the graph', fa([v], cnt(h(V, g), v) == If(gone(v), 0, cnt(h0(V, g), v)), [cnt(h(V, g), v)])),
            ('[C20] exactly their recorded results are dropped', fa([v], And(RM.has(m, v) == And(RM.has(m0, v), Not(gone(v))), Implies(RM.has(m, v), RM.get(m, v) == RM.get(m0, v))), [RM.has(m, v)]))]


def dec_post(c):
    s, t = c.a(0), c.a1(0)
    h, h0 = c.h, c.h0
    gone = lambda v: And(inres(s, v), Not(isact(c, v)), below(c, NA(s, entry(s, v))))
    e = Const('e', D.T)
    return dec_state(c, h, h0, s, gone) + [('[C20] exactly their results leave the list of results', fa([e], D.cnt(t, e) == If(And(D.cnt(s, e) >= 1, gone(root_of(e))), 0, D.cnt(s, e)), [D.cnt(t, e)])),
            ('[C20] other agents untouched', only(c, RPR, c.this))] + [(a, b) for a, b in G.wf(On(c), h, h0(TPG, c.this))]


def dec_loop(L):
    s0, s, P = L.arg(0), L.var('results'), L.var('preservedActionRoots')
    h, h0 = L.h, L.h0
    k = D.len(s0) - D.len(s)
    i = L.var('i')
    j, e = Int('j'), Const('e', D.T)
    g = On(L)
    return [('cursor', And(0 <= k, k <= D.len(s0))),
            ('number of removed roots', i == NA(s0, k)),
            ('results still to examine', fa([j], Implies(And(0 <= j, j < D.len(s)), D.at(s, j) == D.at(s0, k + j)), [D.at(s, j)])),
            ('results still to examine (counts)', fa([e], D.cnt(s, e) == If(And(D.cnt(s0, e) >= 1, D.idx(s0, e) >= k), 1, 0), [D.cnt(s, e)])),
            ('preserved actions', fa([e], D.cnt(P, e) == If(And(D.cnt(s0, e) >= 1, D.idx(s0, e) < k, isact(L, root_of(e))), 1, 0), [D.cnt(P, e)])),
            ('removed within the share', fa([j], Implies(And(0 <= j, j < k, Not(isact(L, root_of(D.at(s0, j))))), below(L, NA(s0, j))), [D.at(s0, j)])),
            ('actions keep no outgoing edge', BoolVal(True)),
            ('other agents', fa([R()], Implies(R() != L.this, h(RPR, R()) == h0(RPR, R())), [h(RPR, R())])),
            ('what is left is alive', fa([j], Implies(And(k <= j, j < D.len(s0)), G.inV(g, h, root_of(D.at(s0, j)))), [D.at(s0, j)])),
            ('alive', And(g.this != null, h('$alloc', g.this)))] + G.wf(g, h, g.this) + dec_state(L, h, h0, s0, lambda v: removed_upto(L, s0, v, k))


# --- keeping the best policy only
REACH = z3.Function('reached_from_the_best_root', Ref, BOOL)   # any set of vertices, each reached from the best root through edges of the graph
PRED = z3.Function('edge_reaching', Ref, Ref)


def supported(c, h, h0, g, b):
    """every vertex of the set is the best root or reached by an edge of the graph leaving the set"""
    v = R('v')
    p = PRED(v)
    return fa([v], Implies(REACH(v), And(cnt(h(V, g), v) >= 1, Or(v == b, And(cnt(h(E, g), p) >= 1, h(DST, p) == v, REACH(h(SRC, p)))))), [REACH(v)])


def keep_req(c):
    g, b = c.h0(TPG, c.this), root_of_b(c.h0(BEST, c.this))
    return owned(c, c.h0) + [('there is a best root', b != null), ('a set of vertices reached from the best root', supported(c, c.h0, c.h0, g, b))]


def keep_post(c):
    g, b = c.h0(TPG, c.this), root_of_b(c.h0(BEST, c.this))
    h, h0 = c.h, c.h0
    v = R('v')
    m, m0 = h(RPR, c.this), h0(RPR, c.this)
    had = cnt(h0(V, g), b) >= 1
    return G.wf(On(c), h, g) + [
        ('[C20] the best root is the only root left', Implies(had, fa([v], And(cnt(h(V, g), v) >= 1, ln(h(IN, v)) == 0) == (v == b), [cnt(h(V, g), v)]))),
        ('[C20] every vertex the best root can reach is kept', fa([v], Implies(REACH(v), cnt(h(V, g), v) >= 1), [REACH(v)])),
        ('[C20] no vertex is added', fa([v], cnt(h(V, g), v) <= cnt(h0(V, g), v), [cnt(h(V, g), v)])),
        ('[C20] nothing changes when the best root left the graph', Implies(Not(had), And(h(V, g) == h0(V, g), m == m0))),
        ('[C20] recorded results are only dropped with their root', fa([v], And(Implies(RM.has(m, v), And(RM.has(m0, v), RM.get(m, v) == RM.get(m0, v))), Implies(And(RM.has(m0, v), cnt(h(V, g), v) >= 1), RM.has(m, v))), [RM.has(m, v), RM.has(m0, v)])),
        ('[C20] other agents untouched', only(c, RPR, c.this))]


def keep_state(L):
    h, h0 = L.h, L.h0
    g, b = h0(TPG, L.this), root_of_b(h0(BEST, L.this))
    v = R('v')
    m, m0 = h(RPR, L.this), h0(RPR, L.this)
    return [('the graph is alive', And(g != null, h('$alloc', g))), ('best root', And(L.var('bestRootVertex') == b, cnt(h0(V, g), b) >= 1, cnt(h(V, g), b) >= 1, b != null))] + G.wf(On(L), h, g) + [
        ('reached vertices kept', supported(L, h, h0, g, b)),
        ('no vertex added', fa([v], cnt(h(V, g), v) <= cnt(h0(V, g), v), [cnt(h(V, g), v)])),
        ('recorded', fa([v], And(Implies(RM.has(m, v), And(RM.has(m0, v), RM.get(m, v) == RM.get(m0, v))), Implies(And(RM.has(m0, v), cnt(h(V, g), v) >= 1), RM.has(m, v))), [RM.has(m, v), RM.has(m0, v)])),
        ('other agents', fa([R()], Implies(R() != L.this, h(RPR, R()) == h0(RPR, R())), [h(RPR, R())]))]


def isroots(h, g, s):
    v = R('v')
    return fa([v], cnt(s, v) == If(And(cnt(h(V, g), v) >= 1, ln(h(IN, v)) == 0), 1, 0), [cnt(s, v)])


def keep_outer(L):
    g = L.h0(TPG, L.this)
    return keep_state(L) + [('roots', isroots(L.h, g, L.var('roots')))]


def keep_inner(L):
    h = L.h
    g, b = L.h0(TPG, L.this), root_of_b(L.h0(BEST, L.this))
    i = Int('i')
    s = L.seq
    return keep_state(L) + [('cursor', And(0 <= L.k, L.k <= ln(s))), ('listed once', fa([R('v')], cnt(s, R('v')) <= 1, [cnt(s, R('v'))])),
        ('roots still to remove', fa([i], Implies(And(0 <= i, i < ln(s), Or(i >= L.k, at(s, i) == b)), And(cnt(h(V, g), at(s, i)) >= 1, ln(h(IN, at(s, i))) == 0)), [at(s, i)]))]


# --- jobs and evaluation of all roots
def job_post(c):
    r = c.ret
    g = c.h0(TPG, c.this) if len(c.args) < 4 else If(c.a(3) == null, c.h0(TPG, c.this), c.a(3))
    x = R('x')
    some = lambda v: cnt(c.h0(V, g), v) >= 1
    return [('[C21] a graph with a vertex yields a job', fa([x], Implies(some(x), r != null), [cnt(c.h0(V, g), x)])),
            ('[C21] the job carries the given vertex and index', Implies(r != null, And(c.h('Job.root', r) == c.a(0), c.h('Job.idx', r) == c.a(2) % W, c.eng.is_a(r, 'Job'), Not(c.h0('$alloc', r)), c.h('$alloc', r)))),
            ('nothing relevant is created', created(c, c.h0, c.h)),
            ('[C21] earlier jobs untouched', And(onlyA(c, 'Job.root'), onlyA(c, 'Job.idx')))]


def graph_of_job(c):
    g = If(c.a(3) == null, c.h0(TPG, c.this), c.a(3))

    class O:
        eng, this, h0 = c.eng, g, c.h0
    return [('the graph is alive', And(g != null, c.h0('$alloc', g)))] + G.wf(O, c.h0, g)


def all_req(c, mode=1):
    v, r = R('v'), R('r')
    m = c.h0(RPR, c.this)
    h = c.h0
    ins = c.eng.is_a(h('TPGGraph.factory', h(TPG, c.this)), 'TPGInstrumentedFactory')

    class I:
        eng = c.eng
    ex = [x for x in exec_req(c, this=c.this) if not x[0].startswith('an instrumented')]
    return [wfR(c, h), base_agent(c), ('plain results are recorded', fa([v], Implies(RM.has(m, v), plain(c, RM.get(m, v))), [RM.has(m, v)]))] + owned(c, h) + ex + [
        ('what is not a team is an action', fa([v], Implies(And(v != null, h('$alloc', v), c.eng.is_a(v, 'TPGVertex'), Not(isteam(c, v))), c.eng.is_a(v, 'TPGAction')), [c.eng.is_a(v, 'TPGVertex')])),
        ('a graph of an instrumented factory is instrumented', Implies(ins, instrumented(c, h))),
        ('the agent has an environment', And(h(LE, c.this) != null, h('$alloc', h(LE, c.this)), c.eng.is_a(h(LE, c.this), 'LearningEnvironment')))]


LE = 'LearningAgent.learningEnvironment'


def instrumented(c, h):
    v = R('v')
    return fa([v], Implies(And(v != null, h('$alloc', v)), And(Implies(isteam(c, v), And(c.eng.is_a(v, 'TPGTeamInstrumented'), X.edges_ins(c, h, v))),
                   Implies(c.eng.is_a(v, 'TPGVertex'), Or(isteam(c, v), c.eng.is_a(v, 'TPGActionInstrumented'))))), [h('$alloc', v)])


def new_engine(c):
    r = c.ret
    return [('engine', And(r != null, Not(c.h0('$alloc', r)), c.h('$alloc', r), c.eng.is_a(r, 'TPGExecutionEngine'), c.h(X.ARCH, r) == c.a(1))),
            ('kind', Implies(c.eng.is_a(r, 'TPGExecutionEngineInstrumented'), c.eng.is_a(c.this, 'TPGInstrumentedFactory'))),
            ('nothing relevant is created', created(c, c.h0, c.h)), ('other engines', onlyA(c, X.ARCH))]


def all_entries(c, h, h0, s, mode):
    i, v = Int('i'), R('v')
    r, q = res_of(D.at(s, i)), root_of(D.at(s, i))
    sk = And(mode == TRAINING, skipped(c, h0, q))
    return [('[C21] every result is usable', fa([i], Implies(And(0 <= i, i < D.len(s)), usable(c, h, r)), [D.at(s, i)])),
            ('[C21] a root evaluated often enough keeps its recorded result, any other root gets a new one', fa([i], Implies(And(0 <= i, i < D.len(s)), And(Implies(sk, r == prev(c, h0, q)), Implies(Not(sk), Not(h0('$alloc', r))))), [D.at(s, i)]))]


def all_post(c):
    s, mode = c.ret, c.a(1)
    h, h0 = c.h, c.h0
    g = h0(TPG, c.this)
    v = R('v')
    return [('[C21] every root has exactly one result', fa([v], cnt(PROJ(s), v) == If(And(cnt(h0(V, g), v) >= 1, ln(h0(IN, v)) == 0), 1, 0), [cnt(PROJ(s), v)]))] + all_entries(c, h, h0, s, mode) + [
        ('[C21] recorded results keep their values', And(*[onlyA(c, k) for k in RS.KEYS])),
        ('[C21] nothing is offered to the archive outside training', Implies(mode != TRAINING, And(h(X.OFFP) == h0(X.OFFP), h(X.OFFV) == h0(X.OFFV))))]


def all_loop(L):
    h, h0 = L.h, L.h0
    k, s, roots, mode = L.var('i'), L.var('result'), L.var('roots'), L.arg(1)
    g = h0(TPG, L.this)
    v, r = R('v'), R('r')
    p = L.pre
    tee = L.var('tee')
    return [('cursor', And(0 <= k, k <= ln(roots))), ('roots', isroots(h0, g, roots)),
            ('results of the first roots', fa([v], cnt(PROJ(s), v) == cnt(S.take(roots, k), v), [cnt(PROJ(s), v)]))] + all_entries(L, h, h0, s, mode) + [
        ('range', fa([v], And(h(X.VV, v) >= 0, h(X.VV, v) < W), [h(X.VV, v)])),
        ('nothing relevant is created', created(L, h0, h)),
        ('the engine', And(tee != null, h('$alloc', tee), h(X.ARCH, tee) == If(mode == TRAINING, h0('LearningAgent.archive', L.this), null))),
        ('recorded', And(*[fa([r], Implies(h0('$alloc', r), h(q, r) == h0(q, r)), [h(q, r)]) for q in RS.KEYS])),
        ('offered', Implies(mode != TRAINING, And(h(X.OFFP) == h0(X.OFFP), h(X.OFFV) == h0(X.OFFV))))]


def one_post(c):
    h, h0 = c.h, c.h0
    mode, root, r = c.a(1), c.a(2), c.ret
    sk = And(mode == TRAINING, skipped(c, h0, root))
    return [('[C21] a result is returned', usable(c, h, r)), ('[C21] a root evaluated often enough keeps its recorded result, any other root gets a new one', And(Implies(sk, r == prev(c, h0, root)), Implies(Not(sk), Not(h0('$alloc', r))))),
            ('[C21] recorded results keep their values', And(*[onlyA(c, k) for k in RS.KEYS])),
            ('[C21] nothing is offered to the archive outside training', Implies(mode != TRAINING, And(h(X.OFFP) == h0(X.OFFP), h(X.OFFV) == h0(X.OFFV))))]


EVMOD = ['$new', ROOTS] + HIST + X.MOD + [X.TH] + RS.KEYS
NEWK = ['Job.root', 'Job.idx', 'Job.archiveSeed', X.ARCH, X.PE]
ext = [
    Contract('TPGFactory::createTPGExecutionEngine', trusted=True, modifies=['$new'], touches_new=[X.ARCH, X.PE], ensures=new_engine, note='constructs an engine on the given archive; instrumented factories create instrumented engines'),
    Contract('TPGGraph::getFactory', trusted=True, ensures=lambda c: [('factory', And(c.ret == c.h0('TPGGraph.factory', c.this), c.ret != null))], note='getter'),
    Contract('RNG::getUnsignedInt64', trusted=True, modifies=[], ensures=lambda c: [('drawn within the bounds', Implies(c.a(0) <= c.a(1), And(c.a(0) <= c.ret, c.ret <= c.a(1))))], note='proved in unit rng (C17)'),
    Contract('Archive::setRandomSeed', trusted=True, note='seeds the generator of the archive'),
]

graphc = [assumed(c, 'graph') for c in pick(G.graph, 'TPGGraph::hasVertex', 'TPGGraph::removeVertex', 'TPGGraph::getRootVertices', 'TPGGraph::getNbRootVertices', 'TPGGraph::getNbVertices', 'TPGGraph::getVertices')]
resc = [cAdd] + [assumed(c, 'results') for c in RS.contracts if c.fn == 'operator<'] + [assumed(c, 'results') for c in RS.contracts if c.fn == 'EvaluationResult::getResult']

contracts = envc + [execc] + resc + graphc + ext + [
    Contract('LearningAgent::keepBestPolicy', modifies=[RPR, '$alloc', V, E, OUT, IN], requires=keep_req, ensures=keep_post, loops=[keep_outer, keep_inner]),
    Contract('LearningAgent::makeJob', modifies=['$new'], touches_new=NEWK, requires=graph_of_job, ensures=job_post),
    Contract('LearningAgent::evaluateAllRoots', modifies=EVMOD, touches_new=NEWK + RS.KEYS, requires=all_req, ensures=all_post, loops=[all_loop]),
    Contract('LearningAgent::evaluateOneRoot', modifies=EVMOD, touches_new=NEWK + RS.KEYS, requires=all_req, throws=lambda c: cnt(c.h0(V, c.h0(TPG, c.this)), c.a(2)) == 0, ensures=one_post),
    Contract('Job::getRoot', ensures=lambda c: [('[C21] the root of the job', c.ret == c.h0('Job.root', c.this))]),
    Contract('LearningAgent::isRootEvalSkipped', modargs=[1], requires=lambda c: [wfR(c, c.h0)], ensures=skip_post),
    Contract('LearningAgent::evaluateJob', modifies=['$new', ROOTS] + HIST + X.MOD + [X.TH] + RS.KEYS, touches_new=RS.KEYS, requires=job_req, ensures=RS.abstractly(eval_post), loops=[outer, inner]),
    Contract('LearningAgent::updateEvaluationRecords', modifies=[RPR, BEST], requires=lambda c: rec_req(c, c.a(0)), ensures=upd_post, loops=[upd_loop]),
    Contract('LearningAgent::decimateWorstRoots', modifies=[RPR, '$alloc', V, E, OUT, IN], modargs=[0], requires=dec_req, ensures=dec_post, loops=[dec_loop]),
    Contract('LearningAgent::updateBestScoreLastGen', modifies=['LearningAgent.bestScoreLastGen'], requires=lambda c: [('there is a result', And(D.len(c.a(0)) > 0, usable(c, c.h0, res_of(D.at(c.a(0), D.len(c.a(0)) - 1)))))], ensures=lastgen),
    Contract('LearningAgent::forgetPreviousResults', modifies=[RPR, BEST], ensures=lambda c: [('[C20] nothing is recorded any more', And(c.h(RPR, c.this) == RM.empty, c.h(BEST, c.this) == mk(null, null))),
             ('[C20] other agents untouched', And(only(c, RPR, c.this), only(c, BEST, c.this)))]),
    Contract('LearningAgent::getBestRoot', ensures=lambda c: [('[C20] the recorded best root', c.ret == c.h0(BEST, c.this))]),
    Contract('LearningAgent::getBestScoreLastGen', ensures=lambda c: [('[C20] the recorded score', c.ret == c.h0('LearningAgent.bestScoreLastGen', c.this))]),
    Contract('Hash<unsigned long>::_Do_hash', trusted=True, ensures=lambda c: [('hash', And(c.ret == HASH(c.a(0)), 0 <= c.ret, c.ret < W))]),
]


def all_axioms(eng):
    return axioms(eng) + sel_axioms(eng)


unit = Unit('learning', ['src/learn/learningAgent.cpp', 'src/learn/classificationEvaluationResult.cpp', 'src/learn/adversarialEvaluationResult.cpp', 'src/tpg/instrumented/tpgExecutionEngineInstrumented.cpp',
                         'src/learn/job.cpp', 'src/learn/evaluationResult.cpp', 'src/tpg/tpgAction.cpp', 'src/tpg/tpgGraph.cpp'],
            ['Learn', 'TPG', 'Mutator', 'Archive', 'Environment', 'Program', 'Data'], contracts,
            ghosts={EP: NS.S, SEED: NS.S, MODE: NS.S, ITER: NS.S, GEN: NS.S, SCORES: FS.S, ROOTS: S.S, X.EXEC: S.S, X.OFFP: S.S, X.OFFV: FS.S}, axioms=all_axioms, opaque=True)
