"""Policy execution: evaluation of edges and teams (C04), inference path (C05),
execution counters (C25)."""
from cdv.spec import *
from cdv.theory import F64, f_le, f_lt, f_isnan

OUT, SRC, DST, PRG = 'TPGVertex.outgoingEdges', 'TPGEdge.source', 'TPGEdge.destination', 'TPGEdge.program'
ARCH, CUR = 'TPGExecutionEngine.archive', 'ProgramEngine.program'
PE = 'TPGExecutionEngine.progExecutionEngine'
EXEC, OFFP, OFFV = '$executed', '$offeredProg', '$offeredValue'
VV, EV, ET, TH = 'TPGVertexInstrumentation.nbVisits', 'TPGEdgeInstrumented.nbVisits', 'TPGEdgeInstrumented.nbTraversal', 'TPGExecutionEngineInstrumented.traceHistory'
cnt, at, ln = S.cnt, S.at, S.len
FS = seq(F64)
SS = seq(S.S)
RES = z3.Function('program_result', Ref, F64)     # result of a program on the current data (a function of the program: unit program)
NEXT = z3.Function('winning_destination', Ref, Ref)
COUNTERS = [VV, EV, ET]


def bid(c, h, e):
    r = RES(h(PRG, e))
    return If(f_isnan(r), F64.ninf, r)


def alive(c, h, e):
    return And(e != null, h('$alloc', e), h(PRG, e) != null, c.eng.is_a(e, 'TPGEdge'))


def team_ok(c, h, t):
    i = Int('i')
    o = h(OUT, t)
    return And(ln(o) > 0, fa([i], Implies(And(0 <= i, i < ln(o)), alive(c, h, at(o, i))), [at(o, i)]))


def is_ins(c):
    return c.eng.is_a(c.this, 'TPGExecutionEngineInstrumented')


def bump(c, key, r, n=1):
    return c.h(key, r) == (c.h0(key, r) + n) % (2 ** 64)


def appended(new, old, x, T=S):
    return new == T.push(old, x)


def ev_edge(c):
    e = c.a(0)
    arch = c.h0(ARCH, c.this)
    return [('[C04] the bid is the result of the program, minus infinity when it is not a number', c.ret == bid(c, c.h0, e)),
            ('[C04] the program of the edge is executed exactly once', c.h(EXEC) == S.push(c.h0(EXEC), c.h0(PRG, e))),
            ('[C04] the bid is offered once to the archive, if any, with its program', If(arch == null, And(c.h(OFFP) == c.h0(OFFP), c.h(OFFV) == c.h0(OFFV)),
                And(c.h(OFFP) == S.push(c.h0(OFFP), c.h0(PRG, e)), c.h(OFFV) == FS.push(c.h0(OFFV), c.ret)))),
            ('[C25] an instrumented engine counts one visit of the edge', Implies(And(is_ins(c), c.eng.is_a(e, 'TPGEdgeInstrumented')), bump(c, EV, e))),
            ('[C25] no other edge visit counter changes', only(c, EV, e)),
            ('[C25] a plain engine counts nothing', Implies(Not(And(is_ins(c), c.eng.is_a(e, 'TPGEdgeInstrumented'))), c.h(EV, e) == c.h0(EV, e)))]


def best(c, h, v, e):
    i = Int('i')
    o = h(OUT, v)
    return And(cnt(o, e) >= 1, fa([i], Implies(And(0 <= i, i < ln(o)), And(f_le(bid(c, h, at(o, i)), bid(c, h, e)),
               Implies(f_le(bid(c, h, e), bid(c, h, at(o, i))), i <= S.idx(o, e)))), [at(o, i)]))


def logs(c, h, h0, this, o, n, offered):
    """n elements of o have been executed and offered since h0"""
    i = Int('i')
    L0 = ln(h0(EXEC))
    K0 = ln(h0(OFFP))
    arch = h0(ARCH, this)
    return [('[C04] number of executed programs', ln(h(EXEC)) == L0 + n),
            ('[C04] earlier executions unchanged', fa([i], Implies(And(0 <= i, i < L0), at(h(EXEC), i) == at(h0(EXEC), i)), [at(h(EXEC), i)])),
            ('[C04] each program is executed once, in the order of the edges', fa([i], Implies(And(0 <= i, i < n), at(h(EXEC), L0 + i) == h0(PRG, at(o, i))), [at(o, i)])),
            ('[C04] nothing is offered without archive', Implies(arch == null, And(h(OFFP) == h0(OFFP), h(OFFV) == h0(OFFV)))),
            ('[C04] number of offered bids', Implies(arch != null, And(ln(h(OFFP)) == K0 + n, FS.len(h(OFFV)) == FS.len(h0(OFFV)) + n))),
            ('[C04] each bid is offered with its program and the value used for the decision', Implies(arch != null, fa([i], Implies(And(0 <= i, i < n), And(
                at(h(OFFP), K0 + i) == h0(PRG, at(o, i)), FS.at(h(OFFV), FS.len(h0(OFFV)) + i) == bid(c, h0, at(o, i)))), [at(o, i)])))]


def uniq(h, t):
    """well-formed teams list each of their edges once (C01)"""
    x = R('x')
    return fa([x], cnt(h(OUT, t), x) <= 1, [cnt(h(OUT, t), x)])


def edges_ins(c, h, t):
    i = Int('i')
    o = h(OUT, t)
    return fa([i], Implies(And(0 <= i, i < ln(o)), c.eng.is_a(at(o, i), 'TPGEdgeInstrumented')), [at(o, i)])


def team_req(c):
    t = c.a(0)
    return [('the team has an edge and its edges are usable', team_ok(c, c.h0, t)), ('edges are listed once', uniq(c.h0, t)),
            ('an instrumented engine runs on instrumented teams', Implies(is_ins(c), And(c.eng.is_a(t, 'TPGTeamInstrumented'), edges_ins(c, c.h0, t))))]


def team_counters(c, h, h0, o, n, this):
    e = R('e')
    ins = c.eng.is_a(this, 'TPGExecutionEngineInstrumented')
    pre = S.take(o, n)
    one = lambda v: (v + 1) % (2 ** 64)
    return [('[C25] exactly the evaluated edges gain one visit', fa([e], h(EV, e) == If(And(ins, cnt(pre, e) >= 1, c.eng.is_a(e, 'TPGEdgeInstrumented')), one(h0(EV, e)), h0(EV, e)), [h(EV, e)]))]


def ev_team(c):
    t = c.a(0)
    o = c.h0(OUT, t)
    r = c.ret
    x = R('x')
    ins = And(is_ins(c), c.eng.is_a(r, 'TPGEdgeInstrumented'))
    return [('[C04] the returned edge belongs to the team and has the maximal bid, the last one on ties', best(c, c.h0, t, r))] + logs(c, c.h, c.h0, c.this, o, ln(o), 0) + \
        team_counters(c, c.h, c.h0, o, ln(o), c.this) + [
            ('[C25] the followed edge gains one traversal', If(ins, bump(c, ET, r), c.h(ET, r) == c.h0(ET, r))),
            ('[C25] no other traversal counter changes', only(c, ET, r)),
            ('[C25] the evaluated team gains one visit', If(is_ins(c), bump(c, VV, t), c.h(VV, t) == c.h0(VV, t))),
            ('[C25] no other vertex counter changes', only(c, VV, t))]


def team_loop(L):
    h, h0, k = L.h, L.h0, L.k
    t = L.arg(0)
    o = h0(OUT, t)
    be, bb = L.var('bestEdge'), L.var('bestBid')
    i = Int('i')
    return [('cursor', And(1 <= k, k <= ln(o))),
            ('best edge so far', And(cnt(o, be) >= 1, S.idx(o, be) < k, bb == bid(L, h0, be), fa([i], Implies(And(0 <= i, i < k), And(f_le(bid(L, h0, at(o, i)), bb),
                Implies(f_le(bb, bid(L, h0, at(o, i))), i <= S.idx(o, be)))), [at(o, i)]))),
            ] + logs(L, h, h0, L.this, o, k, 0) + team_counters(L, h, h0, o, k, L.this)


def isteam(c, v):
    return c.eng.is_a(v, 'TPGTeam')


def root_req(c):
    v, e = R('v'), R('e')
    h = c.h0
    return [('reachable teams are usable', fa([v], Implies(And(v != null, h('$alloc', v), isteam(c, v)), And(team_ok(c, h, v), uniq(h, v))), [h(OUT, v)])),
            ('edges lead to vertices', fa([e], Implies(alive(c, h, e), And(h(DST, e) != null, h('$alloc', h(DST, e)), c.eng.is_a(h(DST, e), 'TPGVertex'))), [h(DST, e)])),
            ('an instrumented engine runs on an instrumented graph', Implies(is_ins(c), fa([v], Implies(And(v != null, h('$alloc', v)), And(
                Implies(isteam(c, v), And(c.eng.is_a(v, 'TPGTeamInstrumented'), edges_ins(c, h, v))), Implies(c.eng.is_a(v, 'TPGVertex'), Or(isteam(c, v), c.eng.is_a(v, 'TPGActionInstrumented'))))), [h('$alloc', v)]))),
            ('machine range', fa([v], And(h(VV, v) >= 0, h(VV, v) < 2 ** 64), [h(VV, v)])),
            ('definition of the winning destination', fa([v, e], Implies(best(c, h, v, e), NEXT(v) == h(DST, e)), [MultiPattern(cnt(h(OUT, v), e), NEXT(v))]))]


def path_facts(c, p, n):
    i = Int('i')
    return [('[C05] the path starts at the given vertex', And(ln(p) >= 1, at(p, 0) == c.arg0)),
            ('[C05] every step follows the winning edge of the team it leaves', fa([i], Implies(And(0 <= i, i < ln(p) - 1), And(isteam(c, at(p, i)), at(p, i + 1) == NEXT(at(p, i)))), [at(p, i)]))]


def ev_root(c):
    c.arg0 = c.a(0)
    p = c.ret
    v = R('v')
    return path_facts(c, p, 0) + [('[C25] exactly the vertices of the path gain a visit, one per occurrence', fa([v], c.h(VV, v) == If(is_ins(c), (c.h0(VV, v) + cnt(p, v)) % (2 ** 64), c.h0(VV, v)), [c.h(VV, v)])),
        ('[C25] the trace is recorded', If(is_ins(c), c.h(TH, c.this) == SS.push(c.h0(TH, c.this), p), c.h(TH, c.this) == c.h0(TH, c.this))),
        ('[C25] other trace histories untouched', only(c, TH, c.this)), ('[C05] the path ends at a vertex that is not a team', Not(isteam(c, at(p, ln(p) - 1))))]


def root_loop(L):
    L.arg0 = L.arg(0)
    p, cur = L.var('visitedVertices'), L.var('currentVertex')
    i = Int('i')
    v = R('v')
    # inside the base body the engine may be instrumented: only teams have been counted so far
    return path_facts(L, p, 0) + [('[C25] visits so far', fa([v], L.h(VV, v) == If(is_ins(L), (L.h0(VV, v) + cnt(p, v) - If(v == cur, 1, 0)) % (2 ** 64), L.h0(VV, v)), [L.h(VV, v)])), ('cursor', And(cur != null, L.h('$alloc', cur), L.eng.is_a(cur, 'TPGVertex'), at(p, ln(p) - 1) == cur))]


MOD = [EXEC, OFFP, OFFV, CUR, 'ProgramEngine.programCounter', 'ProgramEngine.registers'] + COUNTERS
cE = Contract('TPGExecutionEngine::evaluateEdge', requires=lambda c: [('the edge is usable', alive(c, c.h0, c.a(0))), ('an instrumented engine runs on instrumented edges', Implies(is_ins(c), c.eng.is_a(c.a(0), 'TPGEdgeInstrumented')))], ensures=ev_edge, modifies=[k for k in MOD if k not in (VV, ET)])
cT = Contract('TPGExecutionEngine::evaluateTeam', requires=team_req, ensures=ev_team, modifies=MOD, loops=[team_loop])
cR = Contract('TPGExecutionEngine::executeFromRoot', requires=root_req, ensures=ev_root, modifies=MOD + [TH], loops=[root_loop])


def ev_team_body(c):
    """the body of the base class, whatever the dynamic type of the engine"""
    t = c.a(0)
    o = c.h0(OUT, t)
    return [('[C04] the returned edge belongs to the team and has the maximal bid, the last one on ties', best(c, c.h0, t, c.ret))] + logs(c, c.h, c.h0, c.this, o, ln(o), 0) + \
        team_counters(c, c.h, c.h0, o, ln(o), c.this) + [('[C25] no traversal is counted', same(c, ET)), ('[C25] no vertex visit is counted', same(c, VV))]


def ev_root_body(c):
    c.arg0 = c.a(0)
    p = c.ret
    v = R('v')
    last = at(p, ln(p) - 1)
    return path_facts(c, p, 0) + [('[C25] the vertices left by the path gain a visit, one per occurrence', fa([v], c.h(VV, v) == If(is_ins(c), (c.h0(VV, v) + cnt(p, v) - If(v == last, 1, 0)) % (2 ** 64), c.h0(VV, v)), [c.h(VV, v)])),
        ('[C25] no trace is recorded', same(c, TH)), ('[C05] the path ends at a vertex that is not a team', Not(isteam(c, last))),
        ('[C05] the path ends at a live vertex', And(last != null, c.h('$alloc', last), c.eng.is_a(last, 'TPGVertex')))]


contracts = [
    cE, cT, cR, Contract(cT.fn, requires=cT.requires, ensures=ev_team_body, modifies=MOD, loops=[team_loop], direct=True),
    Contract(cR.fn, requires=cR.requires, ensures=ev_root_body, modifies=MOD + [TH], loops=[root_loop], direct=True),
    retag(cE, 'TPGExecutionEngineInstrumented::evaluateEdge'), retag(cT, 'TPGExecutionEngineInstrumented::evaluateTeam', loops=[]),
    retag(cR, 'TPGExecutionEngineInstrumented::executeFromRoot', loops=[]),
    Contract('TPGExecutionEngine::setArchive', ensures=lambda c: [('[C04] the archive is attached', c.h(ARCH, c.this) == c.a(0)), ('[C04] other engines untouched', only(c, ARCH, c.this))], modifies=[ARCH]),
    Contract('TPGEdge::getProgram', requires=lambda c: [('the edge has a program', c.h0(PRG, c.this) != null)], ensures=lambda c: [('[C04] the program of the edge', c.ret == c.h0(PRG, c.this))]),
    Contract('TPGEdge::getDestination', ensures=lambda c: [('[C05] the destination of the edge', c.ret == c.h0(DST, c.this))]),
    Contract('TPGVertex::getOutgoingEdges', ensures=lambda c: [('[C04] outgoing edges', c.ret == c.h0(OUT, c.this))]),
    Contract('ProgramEngine::setProgram', trusted=True, ensures=lambda c: [('program set', c.h(CUR, c.this) == c.a(0)), ('x', only(c, CUR, c.this))], modifies=[CUR, 'ProgramEngine.programCounter', 'ProgramEngine.registers'],
             note='verified in unit program'),
    Contract('ProgramExecutionEngine::executeProgram', trusted=True, ensures=lambda c: [('result', c.ret == RES(c.h0(CUR, c.this))), ('log', c.h(EXEC) == S.push(c.h0(EXEC), c.h0(CUR, c.this)))],
             modifies=[EXEC, 'ProgramEngine.programCounter', 'ProgramEngine.registers']),
    Contract('Archive::addRecording', trusted=True, ensures=lambda c: [('offered', And(c.h(OFFP) == S.push(c.h0(OFFP), c.a(0)), c.h(OFFV) == FS.push(c.h0(OFFV), c.a(2))))], modifies=[OFFP, OFFV]),
    Contract('ProgramEngine::getDataSources', trusted=True),
]

unit = Unit('exec', ['src/tpg/tpgExecutionEngine.cpp', 'src/tpg/instrumented/tpgExecutionEngineInstrumented.cpp', 'src/tpg/tpgEdge.cpp', 'src/tpg/tpgVertex.cpp',
                     'src/tpg/instrumented/tpgEdgeInstrumented.cpp', 'src/tpg/instrumented/tpgVertexInstrumentation.cpp'],
            ['TPG', 'Program', 'Archive'], contracts, ghosts={EXEC: S.S, OFFP: S.S, OFFV: FS.S})
