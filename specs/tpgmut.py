"""Mutation of graphs of policies (C14): what a mutation of a team may change, where its edges lead, acyclicity."""
from cdv.spec import *
from . import graph as G
from .graph import V, E, OUT, IN, SRC, DST, PRG, AID, cnt, at, ln, wf, inV, inE
from .mutator import rng as rng_int

RANK = '$rank'                                                             # ghost: an order that every edge descends
MUT, TPGP = 'MutationParameters.tpg', 'MutationParameters.tpg'
PKEYS = {k: 'TPGParameters.' + k for k in ('nbActions', 'nbRoots', 'maxInitOutgoingEdges', 'maxOutgoingEdges')}
ALL = [V, E, OUT, IN, SRC, DST, PRG]


def axioms(eng):
    s, x = Const('s', S.S), R('x')
    return [ForAll([s, x], Implies(cnt(s, x) == 0, S.remove(S.push(s, x), x) == s), patterns=[S.remove(S.push(s, x), x)])]


class On:
    """the context with the graph as this"""
    def __init__(self, c, g):
        self.c, self.this, self.eng = c, g, c.eng


def gwf(c, h, g):
    return wf(On(c, g), h, g)


def inv(c, h, g):
    return [(n.replace('[C01] ', ''), f) for n, f in gwf(c, h, g)]


def acyclic(h, g):
    e = R('e')
    return ('[C14] every edge descends the order: no cycle', fa([e], Implies(cnt(h(E, g), e) >= 1, h(RANK, h(SRC, e)) > h(RANK, h(DST, e))), [cnt(h(E, g), e)]))


def have_programs(h, g):
    e = R('e')
    return ('[C14] every edge has a program', fa([e], Implies(cnt(h(E, g), e) >= 1, h(PRG, e) != null), [cnt(h(E, g), e)]))


def state(c, h, g):
    return inv(c, h, g) + [acyclic(h, g), have_programs(h, g)]


def surviving(h, h0, g, t):
    """nothing changes but the edges that leave the team"""
    x, e = R('x'), R('e')
    return [('[C14] the other vertices keep their outgoing edges', fa([x], Implies(And(cnt(h0(V, g), x) >= 1, x != t), h(OUT, x) == h0(OUT, x)), [h(OUT, x)])),
            ('[C14] the edges of the others remain as they are', fa([e], Implies(And(cnt(h0(E, g), e) >= 1, h0(SRC, e) != t), And(cnt(h(E, g), e) >= 1, h('$alloc', e), h(SRC, e) == h0(SRC, e), h(DST, e) == h0(DST, e), h(PRG, e) == h0(PRG, e))), [cnt(h0(E, g), e)])),
            ('other objects', fa([x], Implies(And(h0('$alloc', x), Not(And(cnt(h0(E, g), x) >= 1, h0(SRC, x) == t))), h('$alloc', x)), [h('$alloc', x)]))]


def vertices_kept(h, h0):
    x = R('x')
    return ('[C14] the vertices of the graphs', fa([x], h(V, x) == h0(V, x), [h(V, x)]))


def other_graphs(h, h0, g):
    x = R('x')
    return ('other graphs', fa([x], Implies(x != g, h(E, x) == h0(E, x)), [h(E, x)]))


def targets(c, h, g, lst, t):
    """a list of vertices of the graph, below the team in the order"""
    x = R('x')
    return And(ln(lst) >= 1, fa([x], Implies(cnt(lst, x) >= 1, And(cnt(h(V, g), x) >= 1, h(RANK, x) < h(RANK, t))), [cnt(lst, x)]))


def edges_to_copy(c, h, g, lst, t):
    """a list of edges of the graph that lead below the team and do not touch it"""
    e = R('e')
    return And(ln(lst) >= 1, fa([e], Implies(cnt(lst, e) >= 1, And(cnt(h(E, g), e) >= 1, h(SRC, e) != t, h(DST, e) != t, h(RANK, h(DST, e)) < h(RANK, t))), [cnt(lst, e)]))


def team_in(c, h, g, t):
    return ('a team of the graph', And(t != null, cnt(h(V, g), t) >= 1, c.eng.is_a(t, 'TPGTeam')))


# ------------------------------------------------------------------ one edge
def dest_req(c, params=4):
    h, g, e = c.h0, c.a(0), c.a(1)
    return [('the edge', And(e != null, cnt(h(E, g), e) >= 1)), ('pre-existing teams', targets(c, h, g, c.a(2), h(SRC, e))), ('pre-existing actions', targets(c, h, g, c.a(3), h(SRC, e))), ('parameters', And(c.a(params) != null, h(TPGP, c.a(params)) != null))] + state(c, h, g)


def drawn(c, e):
    return Or(cnt(c.a(2), c.h(DST, e)) >= 1, cnt(c.a(3), c.h(DST, e)) >= 1)


def dest_post(c):
    h, h0, g, e = c.h, c.h0, c.a(0), c.a(1)
    # finding edgeDestinationAction: the list drawn from is always the teams
    return [('[C14] the destination is drawn from the pre-existing vertices', drawn(c, e)), ('[C14] only the destination of this edge changes', only(c, DST, e))] + state(c, h, g)


def out_req(c):
    return dest_req(c, 5)


def out_post(c):
    h, h0, g, e = c.h, c.h0, c.a(0), c.a(1)
    p = h(PRG, e)
    return [('[C14] the destination is kept, or drawn from the pre-existing vertices', Or(h(DST, e) == h0(DST, e), drawn(c, e))), ('[C14] only this edge changes', And(only(c, DST, e), only(c, PRG, e))),
            ('[C14] the edge has a program of its own', And(p != null, Not(h0('$alloc', p)), h('$alloc', p))), ('[C14] the new program is listed for mutation', c.a1(4) == S.push(c.a(4), p))] + state(c, h, g)


# ------------------------------------------------------------------ one team
def rem_req(c):
    h, g, t = c.h0, c.a(0), c.a(1)
    return [team_in(c, h, g, t), ('an edge to remove', ln(h(OUT, t)) >= 1)] + state(c, h, g)


def rem_post(c):
    h, h0, g, t = c.h, c.h0, c.a(0), c.a(1)
    e = R('e')
    return [('[C14] one edge of the team is removed', And(ln(h(OUT, t)) == ln(h0(OUT, t)) - 1, fa([e], cnt(h(OUT, t), e) <= cnt(h0(OUT, t), e), [cnt(h(OUT, t), e)]))),
            ('[C14] no edge is added', fa([e], cnt(h(E, g), e) <= cnt(h0(E, g), e), [cnt(h(E, g), e)])), other_graphs(h, h0, g)] + surviving(h, h0, g, t) + state(c, h, g)


def add_req(c):
    h, g, t = c.h0, c.a(0), c.a(1)
    return [team_in(c, h, g, t), ('edges to copy', edges_to_copy(c, h, g, c.a(2), t))] + state(c, h, g)


def add_post(c):
    h, h0, g, t = c.h, c.h0, c.a(0), c.a(1)
    e = R('e')
    return [('[C14] one edge of the team is added', And(ln(h(OUT, t)) == ln(h0(OUT, t)) + 1, fa([e], Implies(h0('$alloc', e), cnt(h(OUT, t), e) == cnt(h0(OUT, t), e)), [cnt(h(OUT, t), e)]))),
            ('[C14] the existing edges remain', fa([e], Implies(h0('$alloc', e), And(cnt(h(E, g), e) == cnt(h0(E, g), e), h(SRC, e) == h0(SRC, e), h(DST, e) == h0(DST, e), h(PRG, e) == h0(PRG, e))), [cnt(h(E, g), e)])),
            other_graphs(h, h0, g)] + surviving(h, h0, g, t) + state(c, h, g)


# ------------------------------------------------------------------- mutation
def team_req(c):
    h, g, t = c.h0, c.a(0), c.a(2)
    return [team_in(c, h, g, t), ('the team has an edge', ln(h(OUT, t)) >= 1), ('pre-existing teams', targets(c, h, g, c.a(3), t)), ('pre-existing actions', targets(c, h, g, c.a(4), t)), ('edges to copy', edges_to_copy(c, h, g, c.a(5), t)),
            ('parameters', And(c.a(7) != null, h(TPGP, c.a(7)) != null))] + state(c, h, g)


def size_ok(h, h0, t, p):
    m = h0(PKEYS['maxOutgoingEdges'], h0(TPGP, p))
    return And(ln(h(OUT, t)) >= 1, ln(h(OUT, t)) <= If(ln(h0(OUT, t)) > m, ln(h0(OUT, t)), m))


def own_programs(h0, lst, lst0):
    x = R('x')
    return ('[C14] only new programs are listed for mutation', fa([x], Implies(And(cnt(lst, x) >= 1, cnt(lst0, x) == 0), Not(h0('$alloc', x))), [cnt(lst, x)]))


def team_post(c):
    h, h0, g, t = c.h, c.h0, c.a(0), c.a(2)
    return [('[C14] the team has an edge, and no more than the maximum', size_ok(h, h0, t, c.a(7))), own_programs(h0, c.a1(6), c.a(6)), other_graphs(h, h0, g)] + surviving(h, h0, g, t) + state(c, h, g)


def edges_loop(L):
    h, h0, g, t = L.h, L.h0, L.arg(0), L.arg(2)
    return [('[C14] the team has an edge, and no more than the maximum', size_ok(h, h0, t, L.arg(7))), other_graphs(h, h0, g)] + surviving(h, h0, g, t) + state(L, h, g)


def removing_loop(L):
    e = R('e')
    h, h0, g = L.h, L.h0, L.arg(0)
    return edges_loop(L) + [('no edge is added', fa([e], cnt(h(E, g), e) <= cnt(h0(E, g), e), [cnt(h(E, g), e)]))]


def programs_loop(L):
    h, t = L.h, L.arg(2)
    return edges_loop(L) + [own_programs(L.h0, L.a(6), L.arg(6))]


def each_loop(L):
    return [('cursor', And(0 <= L.k, L.k <= ln(L.seq))), ('the edges of the team', L.h(OUT, L.arg(2)) == L.seq)] + programs_loop(L)


# ----------------------------------------------------------------- population
BMAX = Int('largest_team')
NROOTS = z3.Function('number_of_roots', S.S, z3.ArraySort(Ref, S.S), INT)


def is_team(c, x):
    return And(c.eng.is_a(x, 'TPGTeam'), Not(c.eng.is_a(x, 'TPGAction')))


def sizes(c, h, g):
    x = R('x')
    return ('[C14] every team has an edge, and no more than the largest allowed', fa([x], Implies(And(cnt(h(V, g), x) >= 1, Not(c.eng.is_a(x, 'TPGAction'))), And(ln(h(OUT, x)) >= 1, ln(h(OUT, x)) <= BMAX)), [cnt(h(V, g), x)]))


def kept(h, h0, g):
    """every vertex and edge is there as it was"""
    x, e = R('x'), R('e')
    return [('[C14] the existing vertices remain with their edges', fa([x], Implies(cnt(h0(V, g), x) >= 1, And(cnt(h(V, g), x) >= 1, h(OUT, x) == h0(OUT, x))), [cnt(h0(V, g), x)])),
            ('[C14] the existing edges remain as they are', fa([e], Implies(cnt(h0(E, g), e) >= 1, And(cnt(h(E, g), e) >= 1, h(SRC, e) == h0(SRC, e), h(DST, e) == h0(DST, e), h(PRG, e) == h0(PRG, e))), [cnt(h0(E, g), e)])),
            ('objects', fa([x], Implies(h0('$alloc', x), h('$alloc', x)), [h('$alloc', x)]))]


def param(h, p, k):
    return h(PKEYS[k], h(TPGP, p))


SOMER, SOMEA = Const('some_root', Ref), Const('some_action', Ref)          # a root team and an action of the graph, whichever


def root_team(c, h, g, r):
    return And(cnt(h(V, g), r) >= 1, ln(h(IN, r)) == 0, is_team(c, r))


def pop_req(c):
    h, g = c.h0, c.a(0)
    return [('parameters', And(c.a(2) != null, h(TPGP, c.a(2)) != null, param(h, c.a(2), 'maxOutgoingEdges') <= BMAX)), sizes(c, h, g),
            ('a root team', root_team(c, h, g, SOMER)), ('an action', And(cnt(h(V, g), SOMEA) >= 1, c.eng.is_a(SOMEA, 'TPGAction')))] + state(c, h, g)


def pop_post(c):
    h, h0, g = c.h, c.h0, c.a(0)
    return [sizes(c, h, g), ('[C14] the number of roots has reached the target', NROOTS(h(V, g), h.arr(IN)) >= param(h0, c.a(2), 'nbRoots'))] + kept(h, h0, g) + state(c, h, g)


def prefix(L):
    return S.take(L.seq, L.k)


def cur(L):
    return ('cursor', And(0 <= L.k, L.k <= ln(L.seq)))


def roots_loop(L):
    x = R('x')
    t = L.var('rootTeams')
    return [cur(L), ('root teams so far', fa([x], (cnt(t, x) >= 1) == And(cnt(prefix(L), x) >= 1, is_team(L, x)), [cnt(t, x)], )), ('all of them', fa([x], Implies(And(cnt(prefix(L), x) >= 1, is_team(L, x)), cnt(t, x) >= 1), [cnt(prefix(L), x)])), ('the root team', Implies(cnt(prefix(L), SOMER) >= 1, cnt(t, SOMER) >= 1))]


def split_loop(L):
    x = R('x')
    a, t, p = L.var('preExistingActions'), L.var('preExistingTeams'), prefix(L)
    ia = L.eng.is_a(x, 'TPGAction')
    return [cur(L), ('actions so far', fa([x], (cnt(a, x) >= 1) == And(cnt(p, x) >= 1, ia), [cnt(a, x)])), ('teams so far', fa([x], (cnt(t, x) >= 1) == And(cnt(p, x) >= 1, Not(ia)), [cnt(t, x)])),
            ('all of them', fa([x], Implies(cnt(p, x) >= 1, If(ia, cnt(a, x) >= 1, cnt(t, x) >= 1)), [cnt(p, x)])), ('the root team', Implies(cnt(p, SOMER) >= 1, cnt(t, SOMER) >= 1)), ('the action', Implies(cnt(p, SOMEA) >= 1, cnt(a, SOMEA) >= 1))]


def copy_loop(L):
    x = R('x')
    l, p = L.var('preExistingEdges'), prefix(L)
    return [cur(L), ('edges so far', And(ln(l) == L.k, fa([x], (cnt(l, x) >= 1) == (cnt(p, x) >= 1), [cnt(l, x)])))]


def grow_loop(L):
    x, e = R('x'), R('e')
    h, h0, g = L.h, L.h0, L.arg(0)
    return [sizes(L, h, g), ('[C14] the number of roots', L.var('currentNumberOfRoot') == NROOTS(h(V, g), h.arr(IN))), own_programs(h0, L.var('newPrograms'), S.empty)] + kept(h, h0, g) + state(L, h, g)


# -------------------------------------------------------------- initialisation
def init_req(c):
    return [('[C14] only when the graph has no root team', Not(root_team(c, c.h0, c.a(0), SOMER))), ('parameters', And(c.a(1) != null, c.h0(TPGP, c.a(1)) != null, param(c.h0, c.a(1), 'nbActions') < 2 ** 30))] + inv(c, c.h0, c.a(0))


def refused(c):
    n, m = param(c.h0, c.a(1), 'nbActions'), param(c.h0, c.a(1), 'maxInitOutgoingEdges')
    return Or(m > n, n < 2, m < 2)


def lists(c, h, g, a, t):
    """the vertices are the listed actions and teams; teams are roots"""
    x, i = R('x'), Int('i')
    ia, it = c.eng.is_a(x, 'TPGAction'), c.eng.is_a(x, 'TPGTeam')
    return [('[C14] the vertices are the actions and the teams', And(ln(a) == ln(t), ln(a) < 2 ** 30, ln(h(V, g)) == ln(a) + ln(t), fa([x], (cnt(h(V, g), x) >= 1) == Or(cnt(a, x) >= 1, cnt(t, x) >= 1), [cnt(h(V, g), x)]),
                fa([x], Implies(cnt(a, x) >= 1, And(cnt(h(V, g), x) >= 1, ia, Not(it), h(RANK, x) == 0, cnt(a, x) == 1)), [cnt(a, x)]), fa([x], Implies(cnt(t, x) >= 1, And(cnt(h(V, g), x) >= 1, it, Not(ia), h(RANK, x) == 1, cnt(t, x) == 1)), [cnt(t, x)]))),
            ('[C14] one action per identifier', fa([i], Implies(And(0 <= i, i < ln(a)), h(AID, at(a, i)) == i), [at(a, i)])),
            ('[C14] every team is a root', fa([x], Implies(cnt(t, x) >= 1, ln(h(IN, x)) == 0), [cnt(t, x)]))]


def reached(h, a, n):
    i = Int('i')
    return ('[C14] the actions are reached', fa([i], Implies(And(0 <= i, 2 * i < n), ln(h(IN, at(a, i))) >= 1), [at(a, i)]))


def vertices_loop(L):
    h, g, a, t, x = L.h, L.arg(0), L.var('actions'), L.var('teams'), R('x')
    return [('cursor', And(0 <= L.var('i'), L.var('i') <= param(L.h0, L.arg(1), 'nbActions'), ln(a) == L.var('i'))), ('no edge yet', And(ln(h(E, g)) == 0, fa([x], Implies(cnt(h(V, g), x) >= 1, And(ln(h(OUT, x)) == 0, ln(h(IN, x)) == 0)), [cnt(h(V, g), x)])))] + lists(L, h, g, a, t) + inv(L, h, g)


def create_loop(L):
    p, x, h, g, a, t = L.var('programs'), R('x'), L.h, L.arg(0), L.var('actions'), L.var('teams')
    i = L.var('i')
    return [('cursor', And(0 <= i, i <= 2 * param(L.h0, L.arg(1), 'nbActions'), ln(p) == i)), ('programs', fa([x], Implies(cnt(p, x) >= 1, x != null), [cnt(p, x)]))] + lists(L, h, g, a, t) + inv(L, h, g)


def connect_loop(L):
    h, g, a, t, j = L.h, L.arg(0), L.var('actions'), L.var('teams'), Int('j')
    i = L.var('i')
    n = i - 2 * j
    return [('cursor', And(0 <= i, i <= 2 * param(L.h0, L.arg(1), 'nbActions'))), ('[C14] two edges per team', fa([j], Implies(And(0 <= j, j < ln(t)), ln(h(OUT, at(t, j))) == If(n < 0, 0, If(n > 2, 2, n))), [at(t, j)])), reached(h, a, i)] + lists(L, h, g, a, t) + state(L, h, g)


def bounds(L, k, here):
    h, t, j = L.h, L.var('teams'), Int('j')
    m = param(L.h0, L.arg(1), 'maxInitOutgoingEdges')
    n = ln(h(OUT, at(t, j)))
    return ('[C14] two edges per team at least, and no more than the initial maximum', fa([j], Implies(And(0 <= j, j < ln(t)), And(n >= 2, n <= If(j < k, m, If(j == k, here, IntVal(2))))), [at(t, j)]))


def more_loop(L):
    h, g, a, t = L.h, L.arg(0), L.var('actions'), L.var('teams')
    return [cur(L), bounds(L, L.k, IntVal(2)), reached(h, a, 2 * ln(a))] + lists(L, h, g, a, t) + state(L, h, g)


def extra_loop(L):
    h, g, a, t = L.h, L.arg(0), L.var('actions'), L.var('teams')
    i = L.var('i')
    return [('cursor', And(0 <= i, i <= L.var('nbAdditionalEdges'))), bounds(L, S.idx(t, L.var('team')), 2 + i), reached(h, a, 2 * ln(a))] + lists(L, h, g, a, t) + state(L, h, g)


def choices(L):
    q, x = seq(INT), Int('x')
    v = L.var('availableChoices')
    return ('choices', And(q.len(v) <= S.len(L.var('programs')), fa([x], Implies(q.cnt(v, x) >= 1, And(0 <= x, x < S.len(L.var('programs')))), [q.cnt(v, x)])))


def erase_loop(L):
    return [choices(L), ('cursor', And(0 <= L.obj('iter').idx, L.obj('iter').idx <= seq(INT).len(L.var('availableChoices'))))]


def pick_loop(L):
    return [choices(L), ('cursor', And(0 <= L.var('i'), L.var('i') <= 2))]


def init_post(c):
    h, g, x, i = c.h, c.a(0), R('x'), Int('i')
    m, n = param(c.h0, c.a(1), 'maxInitOutgoingEdges'), param(c.h0, c.a(1), 'nbActions')
    ia = c.eng.is_a(x, 'TPGAction')
    return [('[C14] refused parameters are not accepted', Not(refused(c))), ('[C14] every team is a root, with two edges at least and no more than the initial maximum', fa([x], Implies(And(cnt(h(V, g), x) >= 1, Not(ia)), And(ln(h(IN, x)) == 0, ln(h(OUT, x)) >= 2, ln(h(OUT, x)) <= m)), [cnt(h(V, g), x)])),
            ('[C14] every action is the destination of an edge', fa([x], Implies(And(cnt(h(V, g), x) >= 1, ia), ln(h(IN, x)) >= 1), [cnt(h(V, g), x)])),
            ('[C14] as many actions and teams as configured', ln(h(V, g)) == 2 * n)] + state(c, h, g)


def new_only(c):
    x = R('x')
    return [('[C14] only programs of new edges are mutated', fa([x], Implies(cnt(c.a(1), x) >= 1, Not(c.eng.entry_alloc(x))), [cnt(c.a(1), x)]))]


def ghost_clone(c):
    x = R('x')
    return G.clone_vertex(c) + [('ghost: the clone comes above the existing vertices', And(fa([x], Implies(cnt(c.h0(V, c.this), x) >= 1, c.h(RANK, x) < c.h(RANK, c.ret)), [cnt(c.h0(V, c.this), x)])))]


vg = G.vertex + G.edge
gr = [assumed(c, 'graph') for c in G.graph if c.fn in ('TPGGraph::removeEdge', 'TPGGraph::cloneEdge', 'TPGGraph::setEdgeSource', 'TPGGraph::setEdgeDestination', 'TPGGraph::getVertices', 'TPGGraph::getEdges', 'TPGGraph::clear', 'TPGGraph::addNewTeam', 'TPGGraph::addNewEdge', 'TPGGraph::getEnvironment', 'TPGGraph::addNewAction')]
vg = [assumed(c, 'graph') for c in G.vertex + G.edge]
cl = next(c for c in G.graph if c.fn == 'TPGGraph::cloneVertex')
clone = Contract('TPGGraph::cloneVertex', trusted=True, requires=cl.requires, ensures=ghost_clone, modifies=cl.modifies, touches_new=cl.touches_new + [RANK], throws=cl.throws, ensures_throw=cl.ensures_throw, note='discharged in unit graph; the ghost order of the new vertex is chosen above the others')
nbr = next(c for c in G.graph if c.fn == 'TPGGraph::getNbRootVertices')
rts = next(c for c in G.graph if c.fn == 'TPGGraph::getRootVertices')
other = [
    Contract('TPGGraph::getNbRootVertices', trusted=True, requires=nbr.requires, ensures=lambda c: [('', c.ret == NROOTS(c.h0(V, c.this), c.h0.arr(IN)))], note='the number of roots (C03, discharged in unit graph)'),
    Contract('TPGGraph::getRootVertices', trusted=True, requires=rts.requires, ensures=lambda c: G.roots(c) + [('', ln(c.ret) == NROOTS(c.h0(V, c.this), c.h0.arr(IN)))], note='the roots (C03, discharged in unit graph)'),
    Contract('mutateNewProgramBehaviors', trusted=True, requires=new_only, note='changes the programs it is given only; bounded check in the harness'),
    rng_int,
    Contract('RNG::getDouble', trusted=True, ensures=lambda c: [], note='any value'),
    Contract('Program::<ctor>', trusted=True, sel=lambda f: 'const Program' in f.qual, note='a copy (C13)'),
]
def ghosted(fn, rank, n):
    k = next(c for c in G.graph if c.fn == fn)
    return Contract(fn, trusted=True, requires=k.requires, ensures=lambda c: k.ensures(c) + [('ghost: order', c.h(RANK, c.ret) == rank)], modifies=k.modifies, touches_new=k.touches_new + [RANK], nparams=k.nparams, note='discharged in unit graph; the ghost order of the new vertex is chosen')


gr = [c for c in gr if c.fn not in ('TPGGraph::addNewTeam', 'TPGGraph::addNewAction')] + [ghosted('TPGGraph::addNewTeam', 1, 0), ghosted('TPGGraph::addNewAction', 0, 1)]
contracts = vg + gr + [clone] + other + [
    Contract('removeRandomEdge', requires=rem_req, ensures=rem_post, modifies=['$alloc', E, OUT, IN]),
    Contract('addRandomEdge', requires=add_req, ensures=add_post, modifies=['$new', E, OUT, IN, SRC], touches_new=G.ENEW),
    Contract('mutateEdgeDestination', requires=dest_req, ensures=dest_post, modifies=[DST, IN], may_throw=True),
    Contract('mutateOutgoingEdge', requires=out_req, ensures=out_post, modifies=['$new', DST, IN, PRG], modargs=[4], may_throw=True),
    Contract('mutateTPGTeam', requires=team_req, ensures=team_post, modifies=['$new', '$alloc', E, OUT, IN, SRC, DST, PRG] + G.INSTR[1:], modargs=[6], may_throw=True, loops=[removing_loop, edges_loop, programs_loop, each_loop]),
    Contract('Program::<ctor>', trusted=True, sel=lambda f: 'const Program' not in f.qual, note='a program of the environment (C11)'),
    Contract('initRandomProgram', trusted=True, note='proved in unit mutator (C11): changes the program only'),
    Contract('initRandomTPG', requires=init_req, may_throw=True, ensures=init_post, modifies=['$new', '$alloc'] + ALL + [RANK, AID] + G.INSTR, loops=[vertices_loop, create_loop, connect_loop, more_loop, extra_loop, erase_loop, pick_loop]),
    Contract('populateTPG', requires=pop_req, ensures=pop_post, modifies=['$new', '$alloc'] + ALL + [RANK, AID] + G.INSTR, may_throw=True, loops=[roots_loop, roots_loop, split_loop, copy_loop, grow_loop]),
]
unit = Unit('tpgmut', ['src/mutator/tpgMutator.cpp', 'src/tpg/tpgVertex.cpp', 'src/tpg/tpgEdge.cpp', 'src/tpg/tpgGraph.cpp', 'src/tpg/tpgAction.cpp', 'src/tpg/tpgFactory.cpp', 'src/tpg/instrumented/tpgInstrumentedFactory.cpp'], ['TPG', 'Mutator', 'Program'], contracts, axioms=axioms, ghosts={RANK: INT})
