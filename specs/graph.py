"""TPG graph: structural consistency (C01), exact effect of every edit (C02),
queries (C03)."""
from cdv.spec import *

V, E = 'TPGGraph.vertices', 'TPGGraph.edges'
OUT, IN = 'TPGVertex.outgoingEdges', 'TPGVertex.incomingEdges'
SRC, DST, PRG = 'TPGEdge.source', 'TPGEdge.destination', 'TPGEdge.program'
AID = 'TPGAction.actionID'
cnt, at, ln = S.cnt, S.at, S.len


def isA(c, r, cls):
    return c.eng.is_a(r, cls)


def wf(c, h, g):
    """The structural invariant of a TPGGraph."""
    v, e = R('v'), R('e')
    Vs, Es = h(V, g), h(E, g)
    al = lambda r: h('$alloc', r)
    return [
        ('[C01] wf: vertices live, unique, team or action; actions have no outgoing edge', fa([v], Implies(cnt(Vs, v) >= 1, And(
            v != null, al(v), isA(c, v, 'TPGVertex'), Or(isA(c, v, 'TPGTeam'), isA(c, v, 'TPGAction')), cnt(Vs, v) == 1,
            Implies(isA(c, v, 'TPGAction'), ln(h(OUT, v)) == 0))), [cnt(Vs, v)])),
        ('[C01] wf: edges live, unique, registered in both end points', fa([e], Implies(cnt(Es, e) >= 1, And(
            e != null, al(e), isA(c, e, 'TPGEdge'), cnt(Es, e) == 1, cnt(Vs, h(SRC, e)) >= 1, cnt(Vs, h(DST, e)) >= 1,
            cnt(h(OUT, h(SRC, e)), e) == 1, cnt(h(IN, h(DST, e)), e) == 1)), [cnt(Es, e)])),
        ('[C01] wf: outgoing lists contain only edges of the graph leaving the vertex', fa([v, e], Implies(And(cnt(Vs, v) >= 1, cnt(h(OUT, v), e) >= 1),
            And(cnt(Es, e) >= 1, h(SRC, e) == v)), [cnt(h(OUT, v), e)])),
        ('[C01] wf: incoming lists contain only edges of the graph entering the vertex', fa([v, e], Implies(And(cnt(Vs, v) >= 1, cnt(h(IN, v), e) >= 1),
            And(cnt(Es, e) >= 1, h(DST, e) == v)), [cnt(h(IN, v), e)])),
        ('[C01] wf: the graph owns a factory', h('TPGGraph.factory', g) != null),
    ]


def req(c):
    return wf(c, c.h0, c.this)


def ens(c):
    return wf(c, c.h, c.this)


def unchanged_graph(c):
    """a rejected edit leaves everything as it was"""
    r = R('r')
    al = c.h0('$alloc', r)
    return [('[C01,C02] rejected: vertex list unchanged', S.eq(c.h(V, c.this), c.h0(V, c.this))),
            ('[C01,C02] rejected: edge list unchanged', S.eq(c.h(E, c.this), c.h0(E, c.this))),
            ('[C01,C02] rejected: outgoing lists unchanged', fa([r], Implies(al, c.h(OUT, r) == c.h0(OUT, r)), [c.h(OUT, r)])),
            ('[C01,C02] rejected: incoming lists unchanged', fa([r], Implies(al, c.h(IN, r) == c.h0(IN, r)), [c.h(IN, r)])),
            ('[C01,C02] rejected: edge end points unchanged', fa([r], Implies(al, And(c.h(SRC, r) == c.h0(SRC, r), c.h(DST, r) == c.h0(DST, r), c.h(PRG, r) == c.h0(PRG, r))), [c.h(SRC, r)])),
            ] + ens(c)


def others_kept(c, key, *refs):
    return only(c, key, *refs)


# ---------------------------------------------------------------- vertices
def add_list(key):
    def f(c):
        s0 = c.h0(key, c.this)
        return [('[C02] list: the edge is appended once', c.h(key, c.this) == If(Or(c.a(0) == null, cnt(s0, c.a(0)) >= 1), s0, S.push(s0, c.a(0)))),
                ('[C02] list: other vertices untouched', only(c, key, c.this))]
    return f


def rem_list(key):
    return lambda c: [('[C02] list: the edge is removed', c.h(key, c.this) == S.remove(c.h0(key, c.this), c.a(0))),
                      ('[C02] list: other vertices untouched', only(c, key, c.this))]


addOut = Contract('TPGVertex::addOutgoingEdge', throws=lambda c: c.eng.is_a(c.this, 'TPGAction'), ensures=add_list(OUT), modifies=[OUT],
                  ensures_throw=lambda c: [('[C02] rejected: list unchanged', same(c, OUT))])
vertex = [
    Contract('TPGVertex::addIncomingEdge', ensures=add_list(IN), modifies=[IN]),
    Contract('TPGVertex::removeIncomingEdge', ensures=rem_list(IN), modifies=[IN]),
    addOut, retag(addOut, 'TPGAction::addOutgoingEdge'),
    Contract('TPGVertex::removeOutgoingEdge', ensures=rem_list(OUT), modifies=[OUT]),
    Contract('TPGVertex::getIncomingEdges', ensures=lambda c: [('[C03] incoming list', c.ret == c.h0(IN, c.this))]),
    Contract('TPGVertex::getOutgoingEdges', ensures=lambda c: [('[C03] outgoing list', c.ret == c.h0(OUT, c.this))]),
]

# ----------------------------------------------------------------- factory
NEWF = [OUT, IN, SRC, DST, PRG, AID]


def new_vertex(cls):
    def f(c):
        r = c.ret
        out = [('[C02] new vertex is fresh', And(r != null, Not(c.h0('$alloc', r)), c.h('$alloc', r))),
               ('[C02] only one object is created', fa([R()], Implies(And(R() != r), c.h('$alloc', R()) == c.h0('$alloc', R())), [c.h('$alloc', R())])),
               ('[C02] new vertex has the right class', And(isA(c, r, cls), isA(c, r, 'TPGVertex'))),
               ('[C02] new vertex has no edge', And(c.h(OUT, r) == S.empty, c.h(IN, r) == S.empty))]
        if cls == 'TPGAction':
            out.append(('[C02] new action carries the given identifier', c.h(AID, r) == c.a(0)))
        return out
    return f


INSTR = ['TPGVertexInstrumentation.nbVisits', 'TPGEdgeInstrumented.nbVisits', 'TPGEdgeInstrumented.nbTraversal']
VNEW = [OUT, IN, AID, INSTR[0]]
ENEW = [SRC, DST, PRG] + INSTR[1:]
fTeam = Contract('TPGFactory::createTPGTeam', ensures=new_vertex('TPGTeam'), modifies=['$new'], touches_new=VNEW)
fAction = Contract('TPGFactory::createTPGAction', ensures=new_vertex('TPGAction'), modifies=['$new'], touches_new=VNEW)


def new_edge(c):
    r = c.ret
    return [('[C02] new edge is fresh', And(r != null, Not(c.h0('$alloc', r)), c.h('$alloc', r))),
            ('[C02] only one object is created', fa([R()], Implies(And(R() != r), c.h('$alloc', R()) == c.h0('$alloc', R())), [c.h('$alloc', R())])),
            ('[C02] new edge has the right class', isA(c, r, 'TPGEdge')),
            ('[C02] new edge has the given end points and program', And(c.h(SRC, r) == c.a(0), c.h(DST, r) == c.a(1), c.h(PRG, r) == c.a(2)))]


fEdge = Contract('TPGFactory::createTPGEdge', ensures=new_edge, modifies=['$new'], touches_new=ENEW)
factory = [fTeam, fAction, fEdge] + [retag(x, x.fn.replace('TPGFactory', 'TPGInstrumentedFactory')) for x in (fTeam, fAction, fEdge)]


# ------------------------------------------------------------------- graph
def add_vertex(cls):
    def f(c):
        r = c.ret
        out = [('[C02] the new vertex is appended to the vertex list', c.h(V, c.this) == S.push(c.h0(V, c.this), r)),
               ('[C02] the new vertex is fresh, of the right class and unconnected', And(r != null, Not(c.h0('$alloc', r)), isA(c, r, cls), c.h(OUT, r) == S.empty, c.h(IN, r) == S.empty)),
               ('[C02] other graphs untouched', only(c, V, c.this)),
               ('[C02] only one object is created', fa([R()], Implies(R() != r, c.h('$alloc', R()) == c.h0('$alloc', R())), [c.h('$alloc', R())]))]
        if cls == 'TPGAction':
            out.append(('[C02] the new action carries the given identifier', c.h(AID, r) == c.a(0)))
        return out + ens(c)
    return f


def inV(c, h, v):
    return cnt(h(V, c.this), v) >= 1


def inE(c, h, e):
    return cnt(h(E, c.this), e) >= 1


def add_edge(c):
    s, d, p, r = c.a(0), c.a(1), c.a(2), c.ret
    x = R('x')
    return [('[C02] the new edge is appended to the edge list', c.h(E, c.this) == S.push(c.h0(E, c.this), r)),
            ('[C02] the new edge is fresh and has the given end points and program', And(Not(c.h0('$alloc', r)), c.h(SRC, r) == s, c.h(DST, r) == d, c.h(PRG, r) == p)),
            ('[C02] the new edge is appended to the outgoing list of its source', c.h(OUT, s) == S.push(c.h0(OUT, s), r)),
            ('[C02] the new edge is appended to the incoming list of its destination', c.h(IN, d) == S.push(c.h0(IN, d), r)),
            ('[C02] no other outgoing list changes', only(c, OUT, s)), ('[C02] no other incoming list changes', only(c, IN, d)),
            ('[C02] no other graph changes', only(c, E, c.this)),
            ('[C02] only one object is created', fa([x], Implies(x != r, c.h('$alloc', x) == c.h0('$alloc', x)), [c.h('$alloc', x)]))] + ens(c)


def remove_edge(c):
    e = c.a(0)
    x = R('x')
    s, d = c.h0(SRC, e), c.h0(DST, e)
    return [('[C02] exactly the edge leaves the edge list', c.h(E, c.this) == S.remove(c.h0(E, c.this), e)),
            ('[C02] the edge leaves the outgoing list of its source', c.h(OUT, s) == S.remove(c.h0(OUT, s), e)),
            ('[C02] the edge leaves the incoming list of its destination', c.h(IN, d) == S.remove(c.h0(IN, d), e)),
            ('[C02] no other outgoing list changes', only(c, OUT, s)), ('[C02] no other incoming list changes', only(c, IN, d)),
            ('[C02] no other graph changes', only(c, E, c.this)),
            ('[C02] only the edge is destroyed', fa([x], c.h('$alloc', x) == And(x != e, c.h0('$alloc', x)), [c.h('$alloc', x)]))] + ens(c)


def touches(h0, e, v):
    return Or(h0(SRC, e) == v, h0(DST, e) == v)


def remove_vertex(c):
    v = c.a(0)
    x, e = R('x'), R('e')
    was = inV(c, c.h0, v)
    return [('[C02] exactly the vertex leaves the vertex list', c.h(V, c.this) == S.remove(c.h0(V, c.this), v)),
            ('[C02] exactly the edges touching the vertex leave the edge list', Implies(was, fa([e], cnt(c.h(E, c.this), e) == If(touches(c.h0, e, v), 0, cnt(c.h0(E, c.this), e)), [cnt(c.h(E, c.this), e)]))),
            ('[C02] nothing changes when the vertex is not in the graph', Implies(Not(was), And(c.h(E, c.this) == c.h0(E, c.this), same(c, OUT), same(c, IN)))),
            ('[C02] the other vertices only lose edges touching the vertex', Implies(was, fa([x, e], Implies(And(inV(c, c.h0, x), x != v),
                And(cnt(c.h(OUT, x), e) == If(touches(c.h0, e, v), 0, cnt(c.h0(OUT, x), e)), cnt(c.h(IN, x), e) == If(touches(c.h0, e, v), 0, cnt(c.h0(IN, x), e)))), [cnt(c.h(OUT, x), e)], ))),
            ('[C02] vertices outside the graph are untouched', fa([x], Implies(Not(inV(c, c.h0, x)), And(c.h(OUT, x) == c.h0(OUT, x), c.h(IN, x) == c.h0(IN, x))), [c.h(OUT, x)])),
            ('[C02] no other graph changes', And(only(c, E, c.this), only(c, V, c.this))),
            ('[C02] exactly the vertex and the edges touching it are destroyed', fa([x], c.h('$alloc', x) == And(c.h0('$alloc', x), Not(And(was, Or(x == v, And(inE(c, c.h0, x), touches(c.h0, x, v)))))), [c.h('$alloc', x)])),
            ] + ens(c)


def rv_loop(second):
    """after k of the listed edges have been removed"""
    def f(L):
        p = L.pre if second else None
        h, h0, g, k = L.h, L.pre, L.this, L.k
        lst = L.seq
        pre = S.take(lst, k)
        x, e = R('x'), R('e')
        gone = lambda e_: cnt(pre, e_) >= 1
        return wf(L, h, g) + [
            ('cursor', And(0 <= k, k <= ln(lst))),
            ('vertex list unchanged', h(V, g) == h0(V, g)),
            ('edge list', fa([e], cnt(h(E, g), e) == If(gone(e), 0, cnt(h0(E, g), e)), [cnt(h(E, g), e)])),
            ('outgoing lists', fa([x, e], Implies(cnt(h0(V, g), x) >= 1, cnt(h(OUT, x), e) == If(gone(e), 0, cnt(h0(OUT, x), e))), [cnt(h(OUT, x), e)])),
            ('incoming lists', fa([x, e], Implies(cnt(h0(V, g), x) >= 1, cnt(h(IN, x), e) == If(gone(e), 0, cnt(h0(IN, x), e))), [cnt(h(IN, x), e)])),
            ('outside', fa([x], Implies(Not(cnt(h0(V, g), x) >= 1), And(h(OUT, x) == h0(OUT, x), h(IN, x) == h0(IN, x))), [h(OUT, x)])),
            ('outside2', fa([x], Implies(Not(cnt(h0(V, g), x) >= 1), And(h(OUT, x) == h0(OUT, x), h(IN, x) == h0(IN, x))), [h(IN, x)])),
            ('graphs', fa([x], Implies(x != g, h(E, x) == h0(E, x)), [h(E, x)])),
            ('liveness', fa([x], h('$alloc', x) == And(h0('$alloc', x), Not(gone(x))), [h('$alloc', x)])),
        ]
    return f


def clear_loop(L):
    x = R('x')
    h, h0, g = L.h, L.pre, L.this
    return wf(L, h, g) + [('graphs', fa([x], Implies(x != g, And(h(V, x) == h0(V, x), h(E, x) == h0(E, x))), [h(V, x)])),
                          ('graphs2', fa([x], Implies(x != g, And(h(V, x) == h0(V, x), h(E, x) == h0(E, x))), [h(E, x)])),
                          ('nothing is created', fa([x], Implies(h('$alloc', x), h0('$alloc', x)), [h('$alloc', x)])),
                          ('graph alive', fa([x], Implies(And(h0('$alloc', x), Not(isA(L, x, 'TPGVertex')), Not(isA(L, x, 'TPGEdge'))), h('$alloc', x)), [h('$alloc', x)])),
                          ('vertices only from the graph', fa([x], Implies(cnt(h(V, g), x) >= 1, cnt(h0(V, g), x) >= 1), [cnt(h(V, g), x)])),
                          ('outside', fa([x], Implies(Not(cnt(h0(V, g), x) >= 1), And(h(OUT, x) == h0(OUT, x), h(IN, x) == h0(IN, x))), [h(OUT, x)])),
                          ('outside2', fa([x], Implies(Not(cnt(h0(V, g), x) >= 1), And(h(OUT, x) == h0(OUT, x), h(IN, x) == h0(IN, x))), [h(IN, x)]))]


def clone_vertex(c):
    v, r = c.a(0), c.ret
    i, x, e = Int('i'), R('x'), R('e')
    o0, o = c.h0(OUT, v), c.h(OUT, r)
    E0, E1 = c.h0(E, c.this), c.h(E, c.this)
    return [('[C02] one vertex is appended', c.h(V, c.this) == S.push(c.h0(V, c.this), r)),
            ('[C02] the clone is new and of the kind of the original', And(Not(c.h0('$alloc', r)), isA(c, r, 'TPGTeam') == isA(c, v, 'TPGTeam'), isA(c, r, 'TPGAction') == isA(c, v, 'TPGAction'))),
            ('[C02] a cloned action keeps its identifier', Implies(isA(c, v, 'TPGAction'), c.h(AID, r) == c.h0(AID, v))),
            ('[C02] the clone has as many outgoing edges', ln(o) == ln(o0)),
            ('[C02] the i-th edge of the clone mirrors the i-th edge of the original', fa([i], Implies(And(0 <= i, i < ln(o0)), And(c.h(SRC, at(o, i)) == r, c.h(DST, at(o, i)) == c.h0(DST, at(o0, i)), c.h(PRG, at(o, i)) == c.h0(PRG, at(o0, i)), Not(c.h0('$alloc', at(o, i))))), [at(o, i)])),
            ('[C02] no pre-existing outgoing list changes', onlyA(c, OUT)),
            ('[C02] existing edges stay first, the new ones follow in order', And(ln(E1) == ln(E0) + ln(o0), fa([i], Implies(And(0 <= i, i < ln(E0)), at(E1, i) == at(E0, i)), [at(E1, i)]),
                fa([i], Implies(And(0 <= i, i < ln(o0)), at(E1, ln(E0) + i) == at(o, i)), [at(o, i)]))),
            ('[C02] incoming lists of existing vertices only gain edges of the clone', fa([x, e], Implies(And(inV(c, c.h0, x), c.h0('$alloc', e)), cnt(c.h(IN, x), e) == cnt(c.h0(IN, x), e)), [cnt(c.h(IN, x), e)])),
            ('[C02] no other graph changes', And(only(c, E, c.this), only(c, V, c.this))),
            ('[C02] the edges that existed remain, the new ones leave the clone', fa([e], And(Implies(c.h0('$alloc', e), cnt(E1, e) == cnt(E0, e)), Implies(And(cnt(E1, e) >= 1, Not(c.h0('$alloc', e))), c.h(SRC, e) == r)), [cnt(E1, e)])),
            ] + ens(c)


def cv_loop(L):
    h, h0, g, k = L.h, L.pre, L.this, L.k
    nv = L.var('newVertex')
    i, x, e = Int('i'), R('x'), R('e')
    src = L.seq                      # outgoing edges of the original
    o, E0, E1 = h(OUT, nv), h0(E, g), h(E, g)
    return wf(L, h, g) + [
        ('cursor', And(0 <= k, k <= ln(src))),
        ('source list', src == h0(OUT, L.arg(0))),
        ('vertex list', h(V, g) == h0(V, g)),
        ('clone in the graph', cnt(h(V, g), nv) >= 1),
        ('size', ln(o) == k),
        ('mirror', fa([i], Implies(And(0 <= i, i < k), And(h(SRC, at(o, i)) == nv, h(DST, at(o, i)) == h0(DST, at(src, i)), h(PRG, at(o, i)) == h0(PRG, at(src, i)), Not(h0('$alloc', at(o, i))))), [at(o, i)])),
        ('out lists', fa([x], Implies(And(h0('$alloc', x), x != nv), h(OUT, x) == h0(OUT, x)), [h(OUT, x)])),
        ('edges: count', ln(E1) == ln(E0) + k),
        ('edges: old part', fa([i], Implies(And(0 <= i, i < ln(E0)), at(E1, i) == at(E0, i)), [at(E1, i)])),
        ('edges: new part', fa([i], Implies(And(0 <= i, i < k), at(E1, ln(E0) + i) == at(o, i)), [at(o, i)])),
        ('old edges kept', fa([e], Implies(h0('$alloc', e), cnt(E1, e) == cnt(E0, e)), [cnt(E1, e)])),
        ('new edges', fa([e], Implies(And(cnt(E1, e) >= 1, Not(h0('$alloc', e))), h(SRC, e) == nv), [cnt(E1, e)])),
        ('incoming', fa([x, e], Implies(And(cnt(h0(V, g), x) >= 1, h0('$alloc', e)), cnt(h(IN, x), e) == cnt(h0(IN, x), e)), [cnt(h(IN, x), e)])),
        ('end points', fa([e], Implies(h0('$alloc', e), And(h(SRC, e) == h0(SRC, e), h(DST, e) == h0(DST, e), h(PRG, e) == h0(PRG, e))), [h(SRC, e)])),
        ('end points2', fa([e], Implies(h0('$alloc', e), And(h(SRC, e) == h0(SRC, e), h(DST, e) == h0(DST, e), h(PRG, e) == h0(PRG, e))), [h(DST, e)])),
        ('end points3', fa([e], Implies(h0('$alloc', e), And(h(SRC, e) == h0(SRC, e), h(DST, e) == h0(DST, e), h(PRG, e) == h0(PRG, e))), [h(PRG, e)])),
        ('graphs', fa([x], Implies(x != g, h(E, x) == h0(E, x)), [h(E, x)])),
        ('alloc grows', fa([x], Implies(h0('$alloc', x), h('$alloc', x)), [h('$alloc', x)])),
        ('identifier', h(AID, nv) == h0(AID, nv)),
        ('outside', fa([x], Implies(And(h0('$alloc', x), Not(cnt(h0(V, g), x) >= 1)), h(IN, x) == h0(IN, x)), [h(IN, x)])),
    ]


def set_dest(c):
    e, nd, ok = c.a(0), c.a(1), c.ret
    od = c.h0(DST, e)
    x = R('x')
    yes = And(inE(c, c.h0, e), inV(c, c.h0, nd))
    rem = S.remove(c.h0(IN, od), e)
    return [('[C02] succeeds exactly when edge and vertex belong to the graph', ok == yes),
            ('[C02] the destination is the new vertex', Implies(yes, c.h(DST, e) == nd)),
            ('[C02] the edge moves to the end of the new incoming list', Implies(yes, c.h(IN, nd) == If(od == nd, S.push(rem, e), S.push(c.h0(IN, nd), e)))),
            ('[C02] the edge leaves the old incoming list', Implies(And(yes, od != nd), c.h(IN, od) == rem)),
            ('[C02] no other incoming list changes', only(c, IN, od, nd)),
            ('[C02] no other edge changes', only(c, DST, e)),
            ('[C02] nothing changes on refusal', Implies(Not(yes), And(same(c, IN), same(c, DST))))] + ens(c)


def set_src(c):
    e, ns, ok = c.a(0), c.a(1), c.ret
    os = c.h0(SRC, e)
    yes = And(inE(c, c.h0, e), inV(c, c.h0, ns))
    x = R('x')
    rem = S.remove(c.h0(OUT, os), e)
    return [('[C02] succeeds exactly when edge and vertex belong to the graph', ok == yes),
            ('[C02] the source is the new vertex', Implies(yes, c.h(SRC, e) == ns)),
            ('[C02] the new source lists the edge', Implies(And(yes, os != ns), c.h(OUT, ns) == S.push(c.h0(OUT, ns), e))),
            ('[C02] the edge leaves the old outgoing list', Implies(And(yes, os != ns), c.h(OUT, os) == rem)),
            ('[C02] re-setting the same source keeps the same edges', Implies(And(yes, os == ns), fa([x], cnt(c.h(OUT, ns), x) == cnt(c.h0(OUT, ns), x), [cnt(c.h(OUT, ns), x)]))),
            ('[C02] no other outgoing list changes', only(c, OUT, os, ns)),
            ('[C02] no other edge changes', only(c, SRC, e)),
            ('[C02] nothing changes on refusal', Implies(Not(yes), And(same(c, OUT), same(c, SRC))))] + ens(c)


def root_fact(c, v):
    return And(inV(c, c.h0, v), ln(c.h0(IN, v)) == 0)


def roots(c):
    x, i = R('x'), Int('i')
    r = c.ret
    return [('[C03] exactly the vertices without incoming edge, each once', fa([x], cnt(r, x) == If(root_fact(c, x), 1, 0), [cnt(r, x)])),
            ]


def nbroots(c):
    """count = length of any sequence listing exactly the roots"""
    x, t = R('x'), Const('t', S.S)
    return [('[C03] the number of vertices without incoming edge', ForAll([t], Implies(And(fa([x], cnt(t, x) == If(root_fact(c, x), 1, 0), [cnt(t, x)]), *[S.hint(t, f) for f in getattr(c.eng, 'filtered_log', [])]), c.ret == ln(t)))),
            ('[C03] positive when there is a root', fa([x], Implies(root_fact(c, x), c.ret > 0), [cnt(c.h0(V, c.this), x)]))]


graph = [
    Contract('TPGGraph::addNewTeam', requires=req, ensures=add_vertex('TPGTeam'), modifies=['$new', V], touches_new=VNEW),
    Contract('TPGGraph::addNewAction', requires=req, ensures=add_vertex('TPGAction'), modifies=['$new', V], touches_new=VNEW, nparams=1),
    Contract('TPGGraph::addNewEdge', requires=req, ensures=add_edge, modifies=['$new', E, OUT, IN], touches_new=ENEW, nparams=3,
             throws=lambda c: Or(Not(inV(c, c.h0, c.a(0))), Not(inV(c, c.h0, c.a(1))), isA(c, c.a(0), 'TPGAction')),
             ensures_throw=unchanged_graph),
    Contract('TPGGraph::removeEdge', requires=req, ensures=remove_edge, modifies=['$alloc', E, OUT, IN],
             throws=lambda c: Not(inE(c, c.h0, c.a(0))), ensures_throw=unchanged_graph),
    Contract('TPGGraph::removeVertex', requires=req, ensures=remove_vertex, modifies=['$alloc', V, E, OUT, IN], loops=[rv_loop(False), rv_loop(True)]),
    Contract('TPGGraph::clear', requires=req, ensures=lambda c: [('[C02] the graph is empty', And(ln(c.h(V, c.this)) == 0, ln(c.h(E, c.this)) == 0)),
                                                                ('[C02] no other graph changes', And(only(c, E, c.this), only(c, V, c.this)))] + ens(c),
             modifies=['$alloc', V, E, OUT, IN], loops=[clear_loop]),
    Contract('TPGGraph::cloneVertex', requires=req, ensures=clone_vertex, modifies=['$new', V, E, IN], touches_new=NEWF + INSTR, loops=[cv_loop],
             throws=lambda c: Not(inV(c, c.h0, c.a(0))), ensures_throw=unchanged_graph),
    Contract('TPGGraph::cloneEdge', requires=req, ensures=lambda c: [('[C02] the clone has the end points and program of the original', And(
        c.h(SRC, c.ret) == c.h0(SRC, c.a(0)), c.h(DST, c.ret) == c.h0(DST, c.a(0)), c.h(PRG, c.ret) == c.h0(PRG, c.a(0)))),
        ('[C02] the clone is new and appended', And(Not(c.h0('$alloc', c.ret)), c.h(E, c.this) == S.push(c.h0(E, c.this), c.ret))),
        ('[C02] the clone is appended to the list of its source', c.h(OUT, c.h0(SRC, c.a(0))) == S.push(c.h0(OUT, c.h0(SRC, c.a(0))), c.ret)),
        ('[C02] no other outgoing list changes', only(c, OUT, c.h0(SRC, c.a(0)))),
        ('[C02] no other incoming list changes', only(c, IN, c.h0(DST, c.a(0)))), ('[C02] no other graph changes', only(c, E, c.this)),
        ] + ens(c), modifies=['$new', E, OUT, IN], touches_new=ENEW,
        throws=lambda c: Not(inE(c, c.h0, c.a(0))), ensures_throw=unchanged_graph),
    Contract('TPGGraph::setEdgeDestination', requires=req, ensures=set_dest, modifies=[DST, IN]),
    Contract('TPGGraph::setEdgeSource', requires=req, ensures=set_src, modifies=[SRC, OUT],
             throws=lambda c: And(inV(c, c.h0, c.a(1)), inE(c, c.h0, c.a(0)), isA(c, c.a(1), 'TPGAction')), ensures_throw=unchanged_graph),
    Contract('TPGGraph::getNbVertices', requires=req, ensures=lambda c: [('[C03] number of vertices', c.ret == ln(c.h0(V, c.this)))]),
    Contract('TPGGraph::getVertices', requires=req, ensures=lambda c: [('[C03] all vertices in order', S.eq(c.ret, c.h0(V, c.this)))]),
    Contract('TPGGraph::getEdges', requires=req, ensures=lambda c: [('[C03] all edges in order', c.ret == c.h0(E, c.this))]),
    Contract('TPGGraph::hasVertex', requires=req, ensures=lambda c: [('[C03] membership', c.ret == inV(c, c.h0, c.a(0)))]),
    Contract('TPGGraph::getRootVertices', requires=req, ensures=roots),
    Contract('TPGGraph::getNbRootVertices', requires=req, ensures=nbroots),
]

edge = [
    Contract('TPGEdge::getSource', ensures=lambda c: [('[C03] source', c.ret == c.h0(SRC, c.this))]),
    Contract('TPGEdge::getDestination', ensures=lambda c: [('[C03] destination', c.ret == c.h0(DST, c.this))]),
    Contract('TPGEdge::setSource', ensures=lambda c: [('[C02] source set', c.h(SRC, c.this) == c.a(0)), ('[C02] only this edge', only(c, SRC, c.this))], modifies=[SRC]),
    Contract('TPGEdge::setDestination', ensures=lambda c: [('[C02] destination set', c.h(DST, c.this) == c.a(0)), ('[C02] only this edge', only(c, DST, c.this))], modifies=[DST]),
    Contract('TPGEdge::setProgram', ensures=lambda c: [('[C02] program set', c.h(PRG, c.this) == c.a(0)), ('[C02] only this edge', only(c, PRG, c.this))], modifies=[PRG]),
    Contract('TPGEdge::getProgramSharedPointer', ensures=lambda c: [('[C02] program', c.ret == c.h0(PRG, c.this))]),
    Contract('TPGAction::getActionID', ensures=lambda c: [('[C03] action identifier', c.ret == c.h0(AID, c.this))]),
]

unit = Unit('graph', ['src/tpg/tpgVertex.cpp', 'src/tpg/tpgEdge.cpp', 'src/tpg/tpgGraph.cpp', 'src/tpg/tpgAction.cpp', 'src/tpg/tpgFactory.cpp',
                      'src/tpg/instrumented/tpgInstrumentedFactory.cpp'], ['TPG'], vertex + factory + edge + graph)
