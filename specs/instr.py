"""Instrumentation of a graph: counters, resetting, pruning (C25)."""
from cdv.spec import *
from specs.graph import V, E, OUT, IN, SRC, DST, cnt, at, ln, wf, isA
from specs import graph as GR

VV, EV, ET = 'TPGVertexInstrumentation.nbVisits', 'TPGEdgeInstrumented.nbVisits', 'TPGEdgeInstrumented.nbTraversal'
VI, EI = 'TPGVertexInstrumentation', 'TPGEdgeInstrumented'


def listed(c, h, key, g, cls, n=None):
    """the first n listed objects"""
    l = h(key, g) if n is None else S.take(h(key, g), n)
    return lambda r: And(cnt(l, r) >= 1, c.eng.is_a(r, cls))


def reset_post(c, h, h0, g, nv=None, ne=None):
    r = R('r')
    v, e = listed(c, h0, V, g, VI, nv), listed(c, h0, E, g, EI, ne)
    return [('[C25] exactly the vertex counters of the graph return to zero', fa([r], h(VV, r) == If(v(r), 0, h0(VV, r)), [h(VV, r)])),
            ('[C25] exactly the edge visit counters of the graph return to zero', fa([r], h(EV, r) == If(e(r), 0, h0(EV, r)), [h(EV, r)])),
            ('[C25] exactly the edge traversal counters of the graph return to zero', fa([r], h(ET, r) == If(e(r), 0, h0(ET, r)), [h(ET, r)]))]


def unvisited(c, h, v):
    return And(c.eng.is_a(v, VI), h(VV, v) == 0)


def untraversed(c, h, e):
    return And(c.eng.is_a(e, EI), h(ET, e) == 0)


def prune_post(c):
    g = c.a(0)
    v, e = R('v'), R('e')
    h, h0 = c.h, c.h0
    gone = lambda x: unvisited(c, h0, x)
    return [('[C25] exactly the never visited vertices are removed', fa([v], cnt(h(V, g), v) == If(gone(v), 0, cnt(h0(V, g), v)), [cnt(h(V, g), v)])),
            ('[C25] exactly the never traversed edges and those of removed vertices are removed', fa([e], cnt(h(E, g), e) == If(Or(untraversed(c, h0, e), gone(h0(SRC, e)), gone(h0(DST, e))), 0, cnt(h0(E, g), e)), [cnt(h(E, g), e)]))] + wf(c, h, g)


def prune1(L):
    h, h0, k, g = L.h, L.pre, L.k, L.arg(0)
    lst = L.seq
    v, e = R('v'), R('e')
    done = lambda x: And(cnt(S.take(lst, k), x) >= 1, unvisited(L, h0, x))
    return wf(L, h, g) + [
        ('cursor', And(0 <= k, k <= ln(lst))), ('snapshot', lst == h0(V, g)),
        ('[C25] vertices', fa([v], cnt(h(V, g), v) == If(done(v), 0, cnt(h0(V, g), v)), [cnt(h(V, g), v)])),
        ('[C25] edges', fa([e], cnt(h(E, g), e) == If(Or(done(h0(SRC, e)), done(h0(DST, e))), 0, cnt(h0(E, g), e)), [cnt(h(E, g), e)])),
        ('graph alive', fa([v], Implies(And(h0('$alloc', v), Not(isA(L, v, 'TPGVertex')), Not(isA(L, v, 'TPGEdge'))), h('$alloc', v)), [h('$alloc', v)])),
        ('nothing created', fa([v], Implies(h('$alloc', v), h0('$alloc', v)), [h('$alloc', v)]))]


def copy_loop(L):
    h, k, g = L.h, L.k, L.arg(0)
    ed = L.var('edges')
    return [('cursor', And(0 <= k, k <= ln(L.seq))), ('copy so far', ed == S.take(L.seq, k))]


def prune2(L):
    h, h0, k, g = L.h, L.pre, L.k, L.arg(0)
    lst = L.seq
    v, e = R('v'), R('e')
    return wf(L, h, g) + [
        ('cursor', And(0 <= k, k <= ln(lst))), ('snapshot', lst == h0(E, g)),
        ('[C25] edges', fa([e], cnt(h(E, g), e) == If(And(cnt(S.take(lst, k), e) >= 1, untraversed(L, h0, e)), 0, cnt(h0(E, g), e)), [cnt(h(E, g), e)])),
        ('nothing created', fa([v], Implies(h('$alloc', v), h0('$alloc', v)), [h('$alloc', v)]))]


def reset1(L):
    g = L.arg(0)
    return [('cursor', And(0 <= L.k, L.k <= ln(L.seq))), ('list', L.seq == L.h0(V, g))] + reset_post(L, L.h, L.h0, g, L.k, IntVal(0))


def reset2(L):
    g = L.arg(0)
    return [('cursor', And(0 <= L.k, L.k <= ln(L.seq))), ('list', L.seq == L.h0(E, g))] + reset_post(L, L.h, L.h0, g, None, L.k)


def bump(key):
    return lambda c: [('[C25] the counter grows by one', c.h(key, c.this) == (c.h0(key, c.this) + 1) % 2 ** 64), ('[C25] other counters untouched', only(c, key, c.this))]


contracts = [
    Contract(VI + '::getNbVisits', ensures=lambda c: [('[C25] visit counter', c.ret == c.h0(VV, c.this))]),
    Contract(VI + '::incrementNbVisits', ensures=bump(VV), modifies=[VV]),
    Contract(VI + '::reset', ensures=lambda c: [('[C25] zero', c.h(VV, c.this) == 0), ('[C25] other counters untouched', only(c, VV, c.this))], modifies=[VV]),
    Contract(EI + '::getNbVisits', ensures=lambda c: [('[C25] visit counter', c.ret == c.h0(EV, c.this))]),
    Contract(EI + '::getNbTraversal', ensures=lambda c: [('[C25] traversal counter', c.ret == c.h0(ET, c.this))]),
    Contract(EI + '::incrementNbVisits', ensures=bump(EV), modifies=[EV]),
    Contract(EI + '::incrementNbTraversal', ensures=bump(ET), modifies=[ET]),
    Contract(EI + '::reset', ensures=lambda c: [('[C25] zero', And(c.h(EV, c.this) == 0, c.h(ET, c.this) == 0)), ('[C25] other counters untouched', And(only(c, EV, c.this), only(c, ET, c.this)))], modifies=[EV, ET]),
    Contract('TPGInstrumentedFactory::resetTPGGraphCounters', requires=lambda c: wf(c, c.h0, c.a(0)), ensures=lambda c: reset_post(c, c.h, c.h0, c.a(0)), modifies=[VV, EV, ET], loops=[reset1, reset2]),
    Contract('TPGInstrumentedFactory::clearUnusedTPGGraphElements', requires=lambda c: wf(c, c.h0, c.a(0)), ensures=prune_post, modifies=['$alloc', V, E, OUT, IN], loops=[prune1, copy_loop, prune2]),
    Contract('TPGExecutionEngineInstrumented::getTraceHistory', ensures=lambda c: [('[C25] the recorded traces', c.ret == c.h0('TPGExecutionEngineInstrumented.traceHistory', c.this))]),
    Contract('TPGExecutionEngineInstrumented::clearTraceHistory', ensures=lambda c: [('[C25] no trace is left', seq(S.S).len(c.h('TPGExecutionEngineInstrumented.traceHistory', c.this)) == 0),
             ('[C25] other engines untouched', only(c, 'TPGExecutionEngineInstrumented.traceHistory', c.this))], modifies=['TPGExecutionEngineInstrumented.traceHistory']),
] + [assumed(x, 'graph') for x in pick(GR.graph, 'TPGGraph::removeVertex', 'TPGGraph::removeEdge', 'TPGGraph::getVertices', 'TPGGraph::getEdges')]

unit = Unit('instr', ['src/tpg/instrumented/tpgInstrumentedFactory.cpp', 'src/tpg/instrumented/tpgEdgeInstrumented.cpp', 'src/tpg/instrumented/tpgVertexInstrumentation.cpp',
                      'src/tpg/instrumented/tpgExecutionEngineInstrumented.cpp', 'src/tpg/tpgGraph.cpp'], ['TPG'], contracts)
