"""Cycle detection of the logger (C31).

Two unrestricted ghosts stand for the two ways of looking at a cycle in a finite graph:
RANK   any numbering of the vertices; when it decreases along every edge the graph has no cycle, so no cycle may be reported;
CYC    any set of vertices of which each has an edge towards another one of the set (NEXT); when it is not empty the
       graph has a cycle, so one must be reported.
"""
from cdv.spec import *
from cdv import theory as T
from . import graph as G

V, E, SRC, DST, IN, OUT = G.V, G.E, G.SRC, G.DST, G.IN, G.OUT
cnt, at, ln = S.cnt, S.at, S.len
LOG = '$messages'
L_S = seq(Str)
VM = mapt(Ref, BOOL)
AGENT, OK = 'LALogger.learningAgent', 'CycleDetectionLALogger.logOnSuccess'
TPG = 'LearningAgent.tpg'

RANK = z3.Function('rank', Ref, INT)
CYC = z3.Function('on_cycle', Ref, BOOL)
NEXT = z3.Function('next_edge_on_cycle', Ref, Ref)
C0 = Const('some_vertex_on_cycle', Ref)
NN = z3.Function('nulls_before', S.S, INT, INT)      # how many of the first k entries are null
MAXU = z3.Function('unvisited_of_maximal_rank', VM.S, S.S, Ref)


def axioms(eng):
    s, x, i, j, k = Const('s', S.S), R('x'), Int('i'), Int('j'), Int('k')
    m, u, v = Const('m', VM.S), R('u'), R('v')
    w = MAXU(m, s)
    miss = And(cnt(s, w) >= 1, Not(VM.has(m, w)))
    return [
        ForAll([s], NN(s, 0) == 0, patterns=[ln(s)]),
        ForAll([s, i], Implies(And(0 <= i, i < ln(s)), NN(s, i + 1) == NN(s, i) + If(at(s, i) == null, 1, 0)), patterns=[MultiPattern(NN(s, i), at(s, i))]),
        ForAll([s, x, i], Implies(And(0 <= i, i <= ln(s)), NN(S.push(s, x), i) == NN(s, i)), patterns=[NN(S.push(s, x), i)]),
        ForAll([s, x], NN(S.push(s, x), ln(s) + 1) == NN(s, ln(s)) + If(x == null, 1, 0), patterns=[S.push(s, x)]),
        ForAll([s, k, i], Implies(And(k == ln(s) - 1, 0 <= i, i < ln(s)), NN(S.erase(s, k), i) == NN(s, i)), patterns=[NN(S.erase(s, k), i)]),
        ForAll([s, k], Implies(And(k == ln(s) - 1, 0 <= k), NN(s, ln(s)) == NN(s, k) + If(at(s, k) == null, 1, 0)), patterns=[S.erase(s, k)]),
        ForAll([s, i, j], Implies(And(0 <= i, i <= j, j <= ln(s)), And(0 <= NN(s, i), NN(s, i) <= NN(s, j))), patterns=[MultiPattern(NN(s, i), NN(s, j))]),
        ForAll([s, k], Or(NN(s, k) == 0, k < 0, k > ln(s), And(0 <= FN(s, k), FN(s, k) < k, at(s, FN(s, k)) == null)), patterns=[NN(s, k)]),
        # PEND: some entry is x with n nulls before it
        ForAll([s, x, k], Implies(PEND(s, x, k), And(0 <= FP(s, x, k), FP(s, x, k) < ln(s), at(s, FP(s, x, k)) == x, NN(s, FP(s, x, k)) == k)), patterns=[PEND(s, x, k)]),
        ForAll([s, x, u, k], PEND(S.push(s, u), x, k) == Or(PEND(s, x, k), And(x == u, k == NN(s, ln(s)))), patterns=[PEND(S.push(s, u), x, k)]),
        ForAll([s, x, i, k], Implies(And(i == ln(s) - 1, 0 <= i), PEND(s, x, k) == Or(PEND(S.erase(s, i), x, k), And(x == at(s, i), k == NN(s, i)))), patterns=[PEND(S.erase(s, i), x, k), MultiPattern(PEND(s, x, k), S.erase(s, i))]),
        # finite sets and sequences: the sizes of a set of elements of a sequence without repetition, and an unvisited element of maximal rank
        ForAll([m, s], Implies(SUBSET(m, s), And(VM.size(m) <= ln(s), Implies(And(cnt(s, C0) >= 1, Not(VM.has(m, C0))), VM.size(m) < ln(s)), Implies(VM.size(m) < ln(s), miss))), patterns=[SUBSET(m, s)]),
        ForAll([m, s, u], Implies(And(SUBSET(m, s), cnt(s, u) >= 1, Not(VM.has(m, u))), And(miss, RANK(u) <= RANK(w))), patterns=[MultiPattern(SUBSET(m, s), VM.has(m, u))]),
        ForAll([m, s], Implies(And(NOREP(s), Implies(VM.has(m, SKO(m, s)), cnt(s, SKO(m, s)) >= 1)), SUBSET(m, s)), patterns=[SUBSET(m, s)]),
        ForAll([m, s, x], Implies(And(SUBSET(m, s), VM.has(m, x)), cnt(s, x) >= 1), patterns=[MultiPattern(SUBSET(m, s), VM.has(m, x))]),
        ForAll([s], Implies(cnt(s, SKR(s)) <= 1, NOREP(s)), patterns=[NOREP(s)]),
    ]


FN = z3.Function('a_null_before', S.S, INT, INT)
PEND = z3.Function('pending_at', S.S, Ref, INT, BOOL)
FP = z3.Function('pending_position', S.S, Ref, INT, INT)
SUBSET = z3.Function('elements_of_without_repetition', VM.S, S.S, BOOL)
SKO = z3.Function('not_an_element', VM.S, S.S, Ref)
NOREP = z3.Function('no_repetition', S.S, BOOL)
SKR = z3.Function('repeated', S.S, Ref)


def graph(c):
    return c.h0(TPG, c.h0(AGENT, c.this))


def ranked(c):
    g, e = graph(c), R('e')
    return fa([e], Implies(cnt(c.h0(E, g), e) >= 1, RANK(c.h0(SRC, e)) > RANK(c.h0(DST, e))), [cnt(c.h0(E, g), e)])


def cyclic(c):
    g, v = graph(c), R('v')
    return And(CYC(C0), fa([v], Implies(CYC(v), And(cnt(c.h0(V, g), v) >= 1, cnt(c.h0(E, g), NEXT(v)) >= 1, c.h0(SRC, NEXT(v)) == v, CYC(c.h0(DST, NEXT(v))))), [CYC(v)]))


RK, CY = z3.Const('ranks_decrease', BOOL), z3.Const('cycle_given', BOOL)


def req(c):
    g = graph(c)

    class O:
        eng, this = c.eng, g
    a = c.h0(AGENT, c.this)
    return [('the logger has an agent with a graph', And(a != null, c.h0('$alloc', a), g != null, c.h0('$alloc', g)))] + G.wf(O, c.h0, g) + [
        ('ranks', Implies(RK, ranked(c))), ('cycle', Implies(CY, cyclic(c)))]


def post(c):
    l, l0 = c.h(LOG, c.this), c.h0(LOG, c.this)
    yes = L_S.push(l0, c.eng.strlit('"A cycle was detected in the TPG."'))
    no = If(c.h0(OK, c.this), L_S.push(l0, c.eng.strlit('"No cycle detected in this TPG."')), l0)
    return [('[C31] the outcome is reported once: a cycle, or on demand its absence', Or(l == yes, l == no)),
            ('[C31] a graph with a cycle is reported', Implies(CY, l == yes)),
            ('[C31] a graph without cycle is not reported as having one', Implies(RK, l == no))]


def state(L, busy):
    """busy: the outgoing edges of the last vertex of the path are being scanned"""
    h0, g = L.h0, graph(L)
    lifo, path, vis = L.var('lifoToVisit'), L.var('currentPath'), L.var('visitedVertices')
    i, p, q, v, e = Int('i'), Int('p'), Int('q'), R('v'), R('e')
    Vs = h0(V, g)
    top = ln(path) - 1
    nxt = lambda p_: h0(DST, NEXT(at(path, p_)))
    pend = lambda p_: PEND(lifo, nxt(p_), p_ + 1)
    first = lambda v_: at(h0(IN, v_), 0)
    own = lambda x: at(path, NN(lifo, x) - 1)
    scanned = lambda x: And(Not(And(x == at(path, top), top >= 0))) if busy else BoolVal(True)
    out = [
        ('one mark per vertex of the path', And(NN(lifo, ln(lifo)) == ln(path))),
        ('the lifo holds vertices and marks', fa([i], Implies(And(0 <= i, i < ln(lifo), at(lifo, i) != null), cnt(Vs, at(lifo, i)) >= 1), [at(lifo, i)])),
        ('visited vertices belong to the graph', SUBSET(vis, Vs)),
        ('a vertex neither visited nor pending has a predecessor not handled yet', fa([v], Implies(cnt(Vs, v) >= 1, Or(VM.has(vis, v), cnt(lifo, v) >= 1, And(cnt(h0(E, g), first(v)) >= 1, h0(DST, first(v)) == v, Or(Not(VM.has(vis, h0(SRC, first(v)))), Not(scanned(h0(SRC, first(v)))))))), [VM.has(vis, v)])),
        ('the path was visited', fa([p], Implies(And(0 <= p, p < ln(path)), And(VM.has(vis, at(path, p)), at(path, p) != null)), [at(path, p)])),
        ('ranks decrease along the path', Implies(RK, fa([p, q], Implies(And(0 <= p, p < q, q < ln(path)), RANK(at(path, p)) > RANK(at(path, q))), [MultiPattern(at(path, p), at(path, q))]))),
        ('ranks decrease towards pending vertices', Implies(RK, fa([i], Implies(And(0 <= i, i < ln(lifo), at(lifo, i) != null, NN(lifo, i) >= 1), RANK(at(lifo, i)) < RANK(own(i))), [at(lifo, i)]))),
        ('a vertex of the cycle on the path still has its successor to come', Implies(CY, fa([p], Implies(And(0 <= p, p < ln(path), CYC(at(path, p)), *([p < top] if busy else [])), Or(pend(p), And(p + 1 < ln(path), at(path, p + 1) == nxt(p)))), [at(path, p)]))),
        ('visited vertices of the cycle are on the path', Implies(CY, fa([v], Implies(And(CYC(v), VM.has(vis, v)), cnt(path, v) >= 1), [VM.has(vis, v)]))),
        ('roots are visited or pending', fa([v], Implies(And(cnt(Vs, v) >= 1, ln(h0(IN, v)) == 0), Or(VM.has(vis, v), cnt(lifo, v) >= 1)), [VM.has(vis, v), cnt(Vs, v)])),
        ('successors of visited vertices are visited or pending', fa([e], Implies(And(cnt(h0(E, g), e) >= 1, VM.has(vis, h0(SRC, e)), scanned(h0(SRC, e))), Or(VM.has(vis, h0(DST, e)), cnt(lifo, h0(DST, e)) >= 1)), [cnt(h0(E, g), e)])),
        ('nothing reported yet', L.h(LOG, L.this) == L.h0(LOG, L.this)),
    ]
    return out


def outer(L):
    return state(L, False) + [('the graph is the one of the agent', L.var('tpg') == graph(L))]


def inner(L):
    h0, g = L.h0, graph(L)
    lifo, path, vis = L.var('lifoToVisit'), L.var('currentPath'), L.var('visitedVertices')
    t, k, s = L.var('vertex'), L.k, L.seq
    pre = L.prevar('lifoToVisit')
    j, e = Int('j'), R('e')
    return state(L, True) + [('the graph is the one of the agent', L.var('tpg') == graph(L)), ('cursor', And(0 <= k, k <= ln(s), s == h0(OUT, t), t == L.var('team'), cnt(h0(V, g), t) >= 1, L.eng.is_a(t, 'TPGTeam'))),
        ('path and visited vertices', And(path == L.prevar('currentPath'), vis == L.prevar('visitedVertices'), ln(path) >= 1, at(path, ln(path) - 1) == t)),
        ('pending destinations', And(ln(lifo) == ln(pre) + k, fa([j], Implies(And(0 <= j, j < k), And(at(lifo, ln(pre) + j) == h0(DST, at(s, j)), PEND(lifo, h0(DST, at(s, j)), ln(path)))), [at(s, j)]))),
        ('pending destinations (counts)', fa([j], Implies(And(0 <= j, j < k), cnt(lifo, h0(DST, at(s, j))) >= 1), [at(s, j)]))]


contracts = [
    Contract('CycleDetectionLALogger::logAfterPopulateTPG', requires=req, ensures=post, modifies=[LOG], loops=[outer, inner]),
    Contract('LearningAgent::getTPGGraph', ensures=lambda c: [('[C31] the graph of the agent', c.ret == c.h0(TPG, c.this))]),
] + [assumed(c, 'graph') for c in pick(G.graph + G.edge + G.vertex, 'TPGGraph::getRootVertices', 'TPGGraph::getNbVertices', 'TPGEdge::getDestination', 'TPGVertex::getOutgoingEdges')]
unit = Unit('cycle', ['src/log/cycleDetectionLALogger.cpp', 'src/learn/learningAgent.cpp', 'src/tpg/tpgGraph.cpp', 'src/tpg/tpgAction.cpp', 'src/tpg/tpgEdge.cpp'], ['Log', 'TPG', 'Learn'], contracts, axioms=axioms, ghosts={LOG: L_S.S})
