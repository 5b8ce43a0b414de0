"""Identifiers given to programs and vertices by the graph engines (C27)."""
from cdv.spec import *

M = mapt(Ref, INT)
PID, NP = 'TPGAbstractEngine.programID', 'TPGAbstractEngine.nbPrograms'
VID, NV = 'TPGAbstractEngine.vertexID', 'TPGAbstractEngine.nbVertex'


def inv(h, o, m, n):
    """identifiers are below the counter and never shared; nothing else was handed out"""
    p, q = R('p'), R('q')
    t = h(m, o)
    return [('[C27] identifiers are those handed out so far', fa([p], Implies(M.has(t, p), And(0 <= M.get(t, p), M.get(t, p) < h(n, o))), [M.has(t, p)])),
            ('[C27] two objects never share an identifier', fa([p, q], Implies(And(M.has(t, p), M.has(t, q), M.get(t, p) == M.get(t, q)), p == q), [MultiPattern(M.has(t, p), M.has(t, q))]))]


def dense(h, o, m, n):
    return [('[C27] identifiers are consecutive from the first one', M.size(h(m, o)) <= h(n, o))]


def req(m, n):
    return lambda c: inv(c.h0, c.this, m, n) + dense(c.h0, c.this, m, n) + [('machine range', c.h0(n, c.this) < u64max)]


def post(c, m, n, rid, key):
    t0, t, o = c.h0(m, c.this), c.h(m, c.this), c.this
    q = R('q')
    known = M.has(t0, key)
    return [('[C27] a known object keeps its identifier', Implies(known, And(rid == M.get(t0, key), t == t0, c.h(n, o) == c.h0(n, o)))),
            ('[C27] a new object receives the next identifier', Implies(Not(known), And(rid == c.h0(n, o), M.has(t, key), M.get(t, key) == rid, c.h(n, o) == c.h0(n, o) + 1, M.size(t) == M.size(t0) + 1))),
            ('[C27] identifiers of the other objects never change', fa([q], Implies(q != key, And(M.has(t, q) == M.has(t0, q), Implies(M.has(t0, q), M.get(t, q) == M.get(t0, q)))), [M.has(t, q)])),
            ('[C27] other engines untouched', And(only(c, m, o), only(c, n, o)))] + inv(c.h, o, m, n) + dense(c.h, o, m, n)


contracts = [
    Contract('TPGAbstractEngine::findProgramID', requires=req(PID, NP), modifies=[PID, NP], modargs=[1],
             ensures=lambda c: post(c, PID, NP, c.a1(1), c.a(0)) + [('[C27] the caller is told whether the program is new', c.ret == Not(M.has(c.h0(PID, c.this), c.a(0))))]),
    Contract('TPGAbstractEngine::findVertexID', requires=req(VID, NV), modifies=[VID, NV], ensures=lambda c: post(c, VID, NV, c.ret, c.a(0))),
]

unit = Unit('ident', ['src/tpg/tpgAbstractEngine.cpp'], ['TPG'], contracts)
