"""Archive of recent executions (C15) and behaviour uniqueness (C16)."""
from cdv.spec import *
from cdv.theory import F64, f_le, f_sub, f_eq, f_neg, f_lt, xor
from cdv import theory as T

RT, _, RF = T.struct('Struct_ArchiveRecording', [('prog', Ref), ('dataHash', INT), ('result', F64)])
prog, hsh, res = RF['prog'], RF['dataHash'], RF['result']
D = seq(RT)
PM = mapt(Ref, D.S)
DH = mapt(INT, S.S)
RD = mapt(INT, F64)

REC, RPP, DHS, MAX, PROB = 'Archive.recordings', 'Archive.recordingsPerProgram', 'Archive.dataHandlers', 'Archive.maxSize', 'Archive.archivingProbability'
CLONE = '$cloneOf'
HASH = z3.Function('content_hash', Ref, INT)          # hash of a source in the state of the call
FOLD = z3.Function('combined_hash', S.S, INT, INT)    # xor of the hashes of the first k sources
REFD = z3.Function('referenced', D.S, INT, BOOL)       # some recording is on that state
WIT = z3.Function('referenced_at', D.S, INT, INT)
FILT = z3.Function('recordings_of', D.S, Ref, D.S)    # recordings of one program, in order


def axioms(eng):
    s, x, p, i, k = Const('s', D.S), Const('x', RT), R('p'), Int('i'), Int('k')
    v = Const('v', S.S)
    f = FILT
    return [
        # definition of the filter on push_back, and its three standard consequences
        ForAll([p], f(D.empty, p) == D.empty, patterns=[f(D.empty, p)]),
        ForAll([s, x, p], f(D.push(s, x), p) == If(prog(x) == p, D.push(f(s, p), x), f(s, p)), patterns=[f(D.push(s, x), p)]),
        ForAll([s, p], Implies(D.len(s) > 0, f(D.erase(s, 0), p) == If(prog(D.at(s, 0)) == p, D.erase(f(s, p), 0), f(s, p))), patterns=[f(D.erase(s, 0), p)]),
        ForAll([s, p], Implies(And(D.len(s) > 0, prog(D.at(s, 0)) == p), And(D.len(f(s, p)) > 0, D.at(f(s, p), 0) == D.at(s, 0))), patterns=[f(s, p)]),
        ForAll([s], Implies(D.len(s) > 0, And(D.len(f(s, prog(D.at(s, 0)))) > 0, D.at(f(s, prog(D.at(s, 0))), 0) == D.at(s, 0))), patterns=[D.erase(s, 0)]),
        # definition of REFD, and its consequences for push_back and pop_front
        ForAll([s, k], Implies(REFD(s, k), And(0 <= WIT(s, k), WIT(s, k) < D.len(s), hsh(D.at(s, WIT(s, k))) == k)), patterns=[REFD(s, k)]),
        ForAll([s, i], Implies(And(0 <= i, i < D.len(s)), REFD(s, hsh(D.at(s, i)))), patterns=[D.at(s, i)]),
        ForAll([s, x, k], REFD(D.push(s, x), k) == Or(REFD(s, k), hsh(x) == k), patterns=[REFD(D.push(s, x), k)]),
        ForAll([s, k], Implies(D.len(s) > 0, REFD(s, k) == Or(REFD(D.erase(s, 0), k), hsh(D.at(s, 0)) == k)), patterns=[REFD(D.erase(s, 0), k)]),
        # xor of hashes
        ForAll([v], FOLD(v, 0) == 0, patterns=[S.len(v)]),
        ForAll([v, k], Implies(And(0 <= k, k < S.len(v)), FOLD(v, k + 1) == xor(FOLD(v, k), HASH(S.at(v, k)))), patterns=[MultiPattern(FOLD(v, k), S.at(v, k))]),
    ]


def comb(v):
    return FOLD(v, S.len(v))


def referenced(rec, x):
    return REFD(rec, x)


def inv(c, h, a, skip=None, rec=None):
    """consistency of an archive; skip: a hash whose snapshot is not yet known to be needed"""
    rec = h(REC, a) if rec is None else rec
    pm, dh = h(RPP, a), h(DHS, a)
    i, p, x, y, j, k = Int('i'), R('p'), Int('x'), Int('y'), Int('j'), Int('k')
    g = lambda m, q: S.at(DH.get(dh, m), q)
    out = [
        ('[C15] a snapshot is kept for every held recording', fa([i], Implies(And(0 <= i, i < D.len(rec)), DH.has(dh, hsh(D.at(rec, i)))), [D.at(rec, i)])),
        ('[C15] no snapshot is kept for other states', fa([x], Implies(DH.has(dh, x), Or(referenced(rec, x), x == skip) if skip is not None else referenced(rec, x)), [DH.has(dh, x)])),
        ('[C15] the index of a program lists exactly its held recordings', fa([p], And(PM.has(pm, p) == (D.len(FILT(rec, p)) > 0), Implies(PM.has(pm, p), PM.get(pm, p) == FILT(rec, p))), [PM.has(pm, p)])),
        ('[C15] snapshots are alive', fa([x, j], Implies(And(DH.has(dh, x), 0 <= j, j < S.len(DH.get(dh, x))), And(g(x, j) != null, h('$alloc', g(x, j)))), [g(x, j)])),
        ('[C15] snapshots are not shared', fa([x, j, y, k], Implies(And(DH.has(dh, x), 0 <= j, j < S.len(DH.get(dh, x)), DH.has(dh, y), 0 <= k, k < S.len(DH.get(dh, y)), g(x, j) == g(y, k)), And(x == y, j == k)), [MultiPattern(g(x, j), g(y, k))])),
    ]
    return out


def size_inv(c, h, a):
    return [('[C15] no more recordings than configured', D.len(h(REC, a)) <= h(MAX, a))]


def full(c, h, a):
    return inv(c, h, a) + size_inv(c, h, a)


def newrec(c):
    return RT.mk(c.a(0), comb(c.a(1)), c.a(2))


def add_post(c):
    a = c.this
    h, h0 = c.h, c.h0
    x, i = Int('x'), Int('i')
    pushed = D.push(h0(REC, a), newrec(c))
    ok = Int('accepted')
    want = If(D.len(h0(REC, a)) < h0(MAX, a), pushed, D.erase(pushed, 0))
    acc = D.eq(h(REC, a), want)
    rej = And(h(REC, a) == h0(REC, a), h(RPP, a) == h0(RPP, a), h(DHS, a) == h0(DHS, a))
    must = Or(c.a(3), h0(PROB, a) == F64.fin(1))
    H = comb(c.a(1))
    dh0, dh = h0(DHS, a), h(DHS, a)
    fresh = DH.get(dh, H)
    return [('[C15] the recording is appended and only the oldest ones are evicted, or it is refused and nothing changes', Or(acc, rej)),
            ('[C15] a forced recording, or any recording with probability one, is accepted', Implies(must, acc)),
            ('[C15] snapshots of other states are kept as they are', fa([x], Implies(And(DH.has(dh, x), Or(x != H, DH.has(dh0, x))), And(DH.has(dh0, x), DH.get(dh, x) == DH.get(dh0, x))), [DH.has(dh, x)])),
            ('[C15] the snapshot of a new state is a copy of each of its sources', Implies(And(DH.has(dh, H), Not(DH.has(dh0, H))), And(S.len(fresh) == S.len(c.a(1)), fa([i], Implies(And(0 <= i, i < S.len(fresh)), h(CLONE, S.at(fresh, i)) == S.at(c.a(1), i)), [S.at(fresh, i)])))),
            ('[C15] other archives untouched', And(only(c, REC, a), only(c, RPP, a), only(c, DHS, a)))] + full(c, h, a)


def clone_loop(L):
    h, k, h0 = L.h, L.k, L.h0
    cp = L.var('dHandlersCpy')
    i, j, r, x = Int('i'), Int('j'), R('r'), Int('x')
    return [('cursor', And(0 <= k, k <= S.len(L.seq))), ('list', L.seq == L.arg(1)), ('copies', S.len(cp) == k),
            ('each is a copy', fa([i], Implies(And(0 <= i, i < k), And(S.at(cp, i) != null, h('$alloc', S.at(cp, i)), Not(h0('$alloc', S.at(cp, i))), h(CLONE, S.at(cp, i)) == S.at(L.seq, i))), [S.at(cp, i)])),
            ('copies are distinct', fa([i, j], Implies(And(0 <= i, i < k, 0 <= j, j < k, S.at(cp, i) == S.at(cp, j)), i == j), [MultiPattern(S.at(cp, i), S.at(cp, j))])),
            ('alive stays alive', fa([r], Implies(h0('$alloc', r), h('$alloc', r)), [h('$alloc', r)])),
            ('alive stays alive2', fa([r], Implies(h0('$alloc', r), h('$alloc', r)), [h0('$alloc', r)]))]


def evict_loop(L):
    h, h0, a = L.h, L.h0, L.this
    pre = L.pre
    rec, p0 = h(REC, a), pre(REC, a)
    x = Int('x')
    dh, dp = h(DHS, a), pre(DHS, a)
    return inv(L, h, a) + [
        ('at most one eviction', Or(rec == p0, And(rec == D.erase(p0, 0), D.len(p0) > h(MAX, a)))),
        ('enough left', Implies(rec != p0, D.len(rec) <= h(MAX, a))),
        ('snapshots', fa([x], Implies(DH.has(dh, x), And(DH.has(dp, x), DH.get(dh, x) == DH.get(dp, x))), [DH.has(dh, x)])),
        ('other archives', And(*[fa([R()], Implies(R() != a, h(k, R()) == pre(k, R())), [h(k, R())]) for k in (REC, RPP, DHS)]))]


def free_loop(L):
    """the snapshots of one state are destroyed one by one"""
    h, k, pre = L.h, L.k, L.pre
    r, i = R('r'), Int('i')
    t = S.take(L.seq, k)
    return [('cursor', And(0 <= k, k <= S.len(L.seq))), ('exactly the first ones are destroyed', fa([r], h('$alloc', r) == And(pre('$alloc', r), Not(S.cnt(t, r) >= 1)), [h('$alloc', r)]))]


def clear_outer(L):
    h, k, h0, a = L.h, L.k, L.h0, L.this
    dh = L.seq
    x, j = Int('x'), Int('j')
    r = R('r')
    return [('cursor', And(0 <= k, k <= DH.size(dh))), ('map', dh == h0(DHS, a)),
            ('the remaining snapshots are alive', fa([x, j], Implies(And(DH.has(dh, x), DH.pos(dh, x) >= k, 0 <= j, j < S.len(DH.get(dh, x))), h('$alloc', S.at(DH.get(dh, x), j))), [S.at(DH.get(dh, x), j)]))]


def clear_inner(L):
    h, k, pre = L.h, L.k, L.pre
    r = R('r')
    t = S.take(L.seq, k)
    return [('cursor', And(0 <= k, k <= S.len(L.seq))), ('exactly the first ones are destroyed', fa([r], h('$alloc', r) == And(pre('$alloc', r), Not(S.cnt(t, r) >= 1)), [h('$alloc', r)]))]


def within(x, y, tau):
    d = f_sub(x, y)
    return Or(And(x == y, Not(F64.is_nan(x))), f_le(If(f_lt(d, F64.fin(0)), f_neg(d), d), tau))


def matches(c, recs, given, tau, n=None):
    """some recording is on a given state, and all those recorded on given states agree"""
    i = Int('mi')
    n = D.len(recs) if n is None else n
    return And(Exists([i], And(0 <= i, i < n, RD.has(given, hsh(D.at(recs, i))))), agree(recs, given, tau, n))


def agree(recs, given, tau, n):
    i = Int('ai')
    return fa([i], Implies(And(0 <= i, i < n, RD.has(given, hsh(D.at(recs, i)))), within(RD.get(given, hsh(D.at(recs, i))), res(D.at(recs, i)), tau)), [D.at(recs, i)])


MATCH = z3.Function('same_behaviour', D.S, RD.S, F64, BOOL)


def match_def(c, given, tau):
    s = Const('ms', D.S)
    return ('definition: the recordings agree with the given results', fa([s], MATCH(s, given, tau) == matches(c, s, given, tau), [MATCH(s, given, tau)]))


def uniq_post(c):
    pm = c.h0(RPP, c.this)
    p = R('p')
    return [('[C16] unique exactly when no archived program agrees on all the states it is compared on', c.ret == Not(Exists([p], And(PM.has(pm, p), MATCH(PM.get(pm, p), c.a(0), c.a(1))))))]


def uniq_outer(L):
    pm, k = L.seq, L.k
    i = Int('i')
    return [('cursor', And(0 <= k, k <= PM.size(pm))), ('index', pm == L.h0(RPP, L.this)),
            ('[C16] none of the first programs agrees', fa([i], Implies(And(0 <= i, i < k), Not(MATCH(PM.get(pm, PM.keyat(pm, i)), L.arg(0), L.arg(1)))), [PM.keyat(pm, i)]))]


def uniq_inner(L):
    s, k = L.seq, L.k
    g, tau = L.arg(0), L.arg(1)
    i = Int('i')
    ident = L.var('isIdentical')
    return [('cursor', And(0 <= k, k <= D.len(s))),
            ('[C16] agreement so far', agree(s, g, tau, k)),
            ('[C16] some state compared', Implies(ident, Exists([i], And(0 <= i, i < k, RD.has(g, hsh(D.at(s, i))))))),
            ('[C16] no state compared', Implies(Not(ident), fa([i], Implies(And(0 <= i, i < k), Not(RD.has(g, hsh(D.at(s, i))))), [D.at(s, i)])))]


def comb_loop(L):
    return [('cursor', And(0 <= L.k, L.k <= S.len(L.seq))), ('list', L.seq == L.arg(0)), ('[C15] xor of the first hashes', L.var('hash') == FOLD(L.seq, L.k))]


def clone_post(c):
    r = c.ret
    x = R('x')
    return [('fresh', And(r != null, Not(c.h0('$alloc', r)), c.h('$alloc', r))), ('snapshot', And(c.h(CLONE, r) == c.this, c.eng.is_a(r, 'DataHandler'))),
            ('others', fa([x], Implies(x != r, And(c.h('$alloc', x) == c.h0('$alloc', x), c.h(CLONE, x) == c.h0(CLONE, x))), [c.h('$alloc', x)])),
            ('others2', fa([x], Implies(x != r, c.h(CLONE, x) == c.h0(CLONE, x)), [c.h(CLONE, x)]))]


def q(fn, post):
    return Contract(fn, ensures=post)


contracts = [
    Contract('Archive::getCombinedHash', ensures=lambda c: [('[C15] the identity of a state is the combination of the hashes of all its sources', c.ret == comb(c.a(0)))], loops=[comb_loop]),
    Contract('Archive::addRecording', requires=lambda c: full(c, c.h0, c.this) + [('sources', fa([Int('i')], Implies(And(0 <= Int('i'), Int('i') < S.len(c.a(1))), And(S.at(c.a(1), Int('i')) != null, c.h0('$alloc', S.at(c.a(1), Int('i'))))), [S.at(c.a(1), Int('i'))]))],
             ensures=add_post, modifies=['$alloc', '$new', REC, RPP, DHS, CLONE, '$draws'], loops=[clone_loop, evict_loop, free_loop]),
    Contract('Archive::clear', requires=lambda c: full(c, c.h0, c.this), modifies=['$alloc', REC, RPP, DHS], loops=[clear_outer, clear_inner],
             ensures=lambda c: [('[C15] nothing is left', And(D.len(c.h(REC, c.this)) == 0, PM.size(c.h(RPP, c.this)) == 0, DH.size(c.h(DHS, c.this)) == 0)),
                                ('[C15] other archives untouched', And(only(c, REC, c.this), only(c, RPP, c.this), only(c, DHS, c.this)))] + full(c, c.h, c.this)),
    Contract('Archive::areProgramResultsUnique', requires=lambda c: [match_def(c, c.a(0), c.a(1))], ensures=uniq_post, loops=[uniq_outer, uniq_inner]),
    q('Archive::hasDataHandlers', lambda c: [('[C15] a snapshot of the state is held', c.ret == DH.has(c.h0(DHS, c.this), c.a(0)))]),
    q('Archive::getNbRecordings', lambda c: [('[C15] number of held recordings', c.ret == D.len(c.h0(REC, c.this)))]),
    q('Archive::getNbDataHandlers', lambda c: [('[C15] number of snapshots', c.ret == DH.size(c.h0(DHS, c.this)))]),
    q('Archive::getDataHandlers', lambda c: [('[C15] the snapshots', c.ret == c.h0(DHS, c.this))]),
    Contract('Archive::at', throws=lambda c: c.a(0) >= D.len(c.h0(REC, c.this)), ensures=lambda c: [('[C15] the n-th held recording', c.ret == D.at(c.h0(REC, c.this), c.a(0)))], exc='std::out_of_range'),
    Contract('DataHandler::getHash', trusted=True, ensures=lambda c: [('hash', c.ret == HASH(c.this))], note='discharged per class in unit data: the hash is a function of the content'),
    Contract('DataHandler::clone', trusted=True, ensures=clone_post, modifies=['$new', CLONE], note='discharged per class in unit data'),
    Contract('RNG::getDouble', trusted=True, modifies=['$draws'], ensures=lambda c: [('in bounds', And(f_le(c.a(0), c.ret), f_le(c.ret, c.a(1))))], note='bounded check in C17'),
]

unit = Unit('archive', ['src/archive.cpp'], ['Archive', 'DataHandler', 'RNG'], contracts, structs={'ArchiveRecording': ['prog', 'dataHash', 'result']},
            ghosts={CLONE: Ref, '$draws': INT}, axioms=axioms)
