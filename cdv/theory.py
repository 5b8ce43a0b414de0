"""Mathematical theories used by the verification conditions: references,
finite sequences with occurrence counts, finite ordered maps, extended reals.
All axioms below hold in the standard model (finite sequences / finite maps);
they are the trusted contracts of the STL containers."""
import z3
from z3 import (Int, Ints, Const, Consts, Function, ForAll, Exists, Implies, And, Or, Not, If,
                IntSort, BoolSort, DeclareSort, IntVal, MultiPattern)

Ref = DeclareSort('Ref')
Str = DeclareSort('Str')
null = Const('null', Ref)
INT, BOOL = IntSort(), BoolSort()

# ---------------------------------------------------------------- doubles
_F = z3.Datatype('F64')
_F.declare('nan'); _F.declare('pinf'); _F.declare('ninf'); _F.declare('fin', ('r', z3.RealSort()))
F64 = _F.create()


def fin(x):
    return F64.fin(z3.RealVal(x) if not isinstance(x, z3.ExprRef) else (z3.ToReal(x) if x.sort() == INT else x))


def f_lt(a, b):
    return z3.simplify(Or(And(F64.is_ninf(a), Or(F64.is_pinf(b), F64.is_fin(b))),
                          And(F64.is_fin(a), F64.is_pinf(b)),
                          And(F64.is_fin(a), F64.is_fin(b), F64.r(a) < F64.r(b))))


def f_eq(a, b):
    return z3.simplify(And(a == b, Not(F64.is_nan(a))))


def f_le(a, b):
    return Or(f_lt(a, b), f_eq(a, b))


def f_isnan(a):
    return F64.is_nan(a)


def f_neg(a):
    return If(F64.is_nan(a), F64.nan, If(F64.is_pinf(a), F64.ninf, If(F64.is_ninf(a), F64.pinf, F64.fin(-F64.r(a)))))


def f_add(a, b):
    return If(And(F64.is_fin(a), F64.is_fin(b)), F64.fin(F64.r(a) + F64.r(b)),
              If(Or(F64.is_nan(a), F64.is_nan(b)), F64.nan,
                 If(F64.is_fin(a), b, If(F64.is_fin(b), a, If(a == b, a, F64.nan)))))


def f_sub(a, b):
    return f_add(a, f_neg(b))


# products and quotients of reals may be left uninterpreted (commutativity only),
# which is weaker and keeps the solver out of non-linear arithmetic
OPAQUE = [False]
RMUL = Function('real.mul', z3.RealSort(), z3.RealSort(), z3.RealSort())
RDIV = Function('real.div', z3.RealSort(), z3.RealSort(), z3.RealSort())


def rmul(a, b):
    return RMUL(a, b) if OPAQUE[0] else a * b


def rdiv(a, b):
    return RDIV(a, b) if OPAQUE[0] else a / b


def opaque_axioms():
    a, b = z3.Reals('a b')
    return [ForAll([a, b], RMUL(a, b) == RMUL(b, a), patterns=[RMUL(a, b)])]


def _sgn(a):
    return If(F64.is_pinf(a), 1, If(F64.is_ninf(a), -1, If(F64.r(a) > 0, 1, If(F64.r(a) < 0, -1, 0))))


def f_mul(a, b):
    s = _sgn(a) * _sgn(b)
    return If(And(F64.is_fin(a), F64.is_fin(b)), F64.fin(rmul(F64.r(a), F64.r(b))),
              If(Or(F64.is_nan(a), F64.is_nan(b)), F64.nan,
                 If(s == 0, F64.nan, If(s > 0, F64.pinf, F64.ninf))))


def f_div(a, b):
    # sign of zero is not modelled: x/0 for x != 0 is +-inf by the sign of x
    return If(And(F64.is_fin(a), F64.is_fin(b)),
              If(F64.r(b) != 0, F64.fin(rdiv(F64.r(a), F64.r(b))),
                 If(F64.r(a) == 0, F64.nan, If(F64.r(a) > 0, F64.pinf, F64.ninf))),
              If(Or(F64.is_nan(a), F64.is_nan(b)), F64.nan,
                 If(F64.is_fin(a), F64.fin(0),
                    If(F64.is_fin(b), If(_sgn(a) * If(F64.r(b) < 0, -1, 1) > 0, F64.pinf, F64.ninf), F64.nan))))


# ---------------------------------------------------------------- registry
AX = {}          # theory name -> list of axioms
_seq, _map = {}, {}


def _fa(vs, body, pats):
    return ForAll(vs, body, patterns=pats)


class SeqT:
    """Finite sequences over sort T."""

    def __init__(self, T):
        self.T = T
        n = self.name = 'Seq_' + _sn(T)
        S = self.S = DeclareSort(n)
        f = lambda x, *a: Function(n + '.' + x, *a)
        self.len = f('len', S, INT)
        self.at = f('at', S, INT, T)
        self.cnt = f('cnt', S, T, INT)
        self.idx = f('idx', S, T, INT)          # first occurrence when cnt>=1
        self.empty = Const(n + '.empty', S)
        self.push = f('push', S, T, S)
        self.ins = f('ins', S, INT, T, S)
        self.erase = f('erase', S, INT, S)
        self.upd = f('upd', S, INT, T, S)
        self.remove = f('remove', S, T, S)
        self.take = f('take', S, INT, S)        # prefix
        self.drop = f('drop', S, INT, S)        # suffix
        self.rep = f('rep', INT, T, S)          # n copies
        self.cat = f('cat', S, S, S)
        self.seqeq = f('eq', S, S, BOOL)
        self.perm = f('perm', S, S, BOOL)       # same multiset
        self.pskol = f('pdiff', S, S, T)
        self.hint = f('hint', S, S, BOOL)       # always true; makes the prover compare s and t
        if T in (INT, F64):
            self.sum = f('sum', S, INT, T)      # left-to-right sum of the first k elements
        self.skol = f('diff', S, S, INT)
        s, t = Consts('s t', S)
        x, y = Consts('x y', T)
        i, j, k = Ints('i j k')
        L, at, cnt = self.len, self.at, self.cnt
        E = self.empty
        ax = [
            _fa([s], L(s) >= 0, [L(s)]),
            _fa([s, x], cnt(s, x) >= 0, [cnt(s, x)]),
            _fa([s, i], Implies(And(0 <= i, i < L(s)), cnt(s, at(s, i)) >= 1), [at(s, i)]),
            _fa([s], Implies(L(s) > 0, cnt(s, at(s, 0)) >= 1), [L(s)]),
            _fa([s, x], Implies(cnt(s, x) >= 1, And(0 <= self.idx(s, x), self.idx(s, x) < L(s),
                                                    at(s, self.idx(s, x)) == x)), [cnt(s, x)]),
            _fa([s, i], Implies(And(0 <= i, i < L(s)), And(self.idx(s, at(s, i)) <= i,
                Implies(cnt(s, at(s, i)) <= 1, self.idx(s, at(s, i)) == i))), [at(s, i)]),
            L(E) == 0, _fa([x], cnt(E, x) == 0, [cnt(E, x)]),
            # push_back
            _fa([s, x], L(self.push(s, x)) == L(s) + 1, [self.push(s, x)]),
            _fa([s, x], at(self.push(s, x), L(s)) == x, [self.push(s, x)]),
            _fa([s, x, i], at(self.push(s, x), i) == If(i == L(s), x, at(s, i)), [at(self.push(s, x), i)]),
            _fa([s, x, i], Implies(And(0 <= i, i < L(s)), at(self.push(s, x), i) == at(s, i)), [MultiPattern(at(s, i), self.push(s, x))]),
            _fa([s, x, y], cnt(self.push(s, x), y) == cnt(s, y) + If(x == y, 1, 0), [cnt(self.push(s, x), y)]),
            _fa([s, x, y], cnt(self.push(s, x), y) == cnt(s, y) + If(x == y, 1, 0), [MultiPattern(cnt(s, y), self.push(s, x))]),
            # insert before position i
            _fa([s, k, x], Implies(And(0 <= k, k <= L(s)), And(L(self.ins(s, k, x)) == L(s) + 1, at(self.ins(s, k, x), k) == x)), [self.ins(s, k, x)]),
            _fa([s, k, x, i], Implies(And(0 <= k, k <= L(s)), at(self.ins(s, k, x), i) == If(i < k, at(s, i), If(i == k, x, at(s, i - 1)))), [at(self.ins(s, k, x), i)]),
            _fa([s, k, x, i], Implies(And(0 <= k, k <= L(s)), at(self.ins(s, k, x), If(i < k, i, i + 1)) == at(s, i)), [MultiPattern(at(s, i), self.ins(s, k, x))]),
            _fa([s, k, x, y], Implies(And(0 <= k, k <= L(s)), cnt(self.ins(s, k, x), y) == cnt(s, y) + If(x == y, 1, 0)), [cnt(self.ins(s, k, x), y)]),
            # erase at i
            _fa([s, k], Implies(And(0 <= k, k < L(s)), L(self.erase(s, k)) == L(s) - 1), [self.erase(s, k)]),
            _fa([s, k, i], Implies(And(0 <= k, k < L(s)), at(self.erase(s, k), i) == If(i < k, at(s, i), at(s, i + 1))), [at(self.erase(s, k), i)]),
            _fa([s, k, i], Implies(And(0 <= k, k < L(s), i != k), at(s, i) == at(self.erase(s, k), If(i < k, i, i - 1))), [MultiPattern(at(s, i), self.erase(s, k))]),
            _fa([s, k, y], Implies(And(0 <= k, k < L(s)), cnt(self.erase(s, k), y) == cnt(s, y) - If(at(s, k) == y, 1, 0)), [cnt(self.erase(s, k), y)]),
            _fa([s, k, y], Implies(And(0 <= k, k < L(s)), cnt(self.erase(s, k), y) == cnt(s, y) - If(at(s, k) == y, 1, 0)), [MultiPattern(cnt(s, y), self.erase(s, k))]),
            # overwrite at i
            _fa([s, k, x], L(self.upd(s, k, x)) == L(s), [self.upd(s, k, x)]),
            _fa([s, k, x, i], at(self.upd(s, k, x), i) == If(And(i == k, 0 <= k, k < L(s)), x, at(s, i)), [at(self.upd(s, k, x), i)]),
            _fa([s, k, x, i], at(self.upd(s, k, x), i) == If(And(i == k, 0 <= k, k < L(s)), x, at(s, i)), [MultiPattern(at(s, i), self.upd(s, k, x))]),
            _fa([s, k, x, y], Implies(And(0 <= k, k < L(s)), cnt(self.upd(s, k, x), y) == cnt(s, y) + If(x == y, 1, 0) - If(at(s, k) == y, 1, 0)), [cnt(self.upd(s, k, x), y)]),
            _fa([s, k, x, y], self.upd(self.upd(s, k, x), k, y) == self.upd(s, k, y), [self.upd(self.upd(s, k, x), k, y)]),
            # remove all equal to x
            _fa([s, x, y], cnt(self.remove(s, x), y) == If(x == y, 0, cnt(s, y)), [cnt(self.remove(s, x), y)]),
            _fa([s, x], And(L(self.remove(s, x)) == L(s) - cnt(s, x), cnt(s, x) <= L(s)), [self.remove(s, x)]),
            _fa([s, x], Implies(cnt(s, x) == 0, self.remove(s, x) == s), [self.remove(s, x)]),
            _fa([s, x], Implies(cnt(s, x) == 1, self.remove(s, x) == self.erase(s, self.idx(s, x))), [self.remove(s, x)]),
            # prefix / suffix
            _fa([s, k], Implies(And(0 <= k, k <= L(s)), L(self.take(s, k)) == k), [self.take(s, k)]),
            _fa([s, k, i], Implies(And(0 <= i, i < k, k <= L(s)), at(self.take(s, k), i) == at(s, i)), [at(self.take(s, k), i)]),
            _fa([s, k], Implies(And(0 <= k, k < L(s)), self.take(s, k + 1) == self.push(self.take(s, k), at(s, k))), [MultiPattern(self.take(s, k), at(s, k))]),
            _fa([s], self.take(s, 0) == E, [L(s)]),
            _fa([s, x, k], Implies(And(0 <= k, k <= L(s)), self.take(self.push(s, x), k) == self.take(s, k)), [self.take(self.push(s, x), k)]),
            _fa([s], self.take(s, L(s)) == s, [L(s)]),
            _fa([s, k, x], Implies(And(0 <= k, k <= L(s)), And(cnt(self.take(s, k), x) <= cnt(s, x),
                Implies(And(cnt(s, x) <= 1, cnt(s, x) >= 1), cnt(self.take(s, k), x) == If(self.idx(s, x) < k, 1, 0)))), [cnt(self.take(s, k), x)]),
            _fa([s, k], Implies(And(0 <= k, k <= L(s)), L(self.drop(s, k)) == L(s) - k), [self.drop(s, k)]),
            _fa([s, k, i], Implies(And(0 <= k, k <= L(s), 0 <= i), at(self.drop(s, k), i) == at(s, k + i)), [at(self.drop(s, k), i)]),
            _fa([s, k, i], Implies(And(0 <= k, k <= i, i < L(s)), at(s, i) == at(self.drop(s, k), i - k)), [MultiPattern(at(s, i), self.drop(s, k))]),
            # n copies
            _fa([k, x], Implies(k >= 0, L(self.rep(k, x)) == k), [self.rep(k, x)]),
            _fa([k, x, i], Implies(And(0 <= i, i < k), at(self.rep(k, x), i) == x), [at(self.rep(k, x), i)]),
            # extensional equality
            _fa([s, t], self.seqeq(s, t) == (s == t), [self.seqeq(s, t)]),
            _fa([s, t], Implies(Or(L(s) != L(t), And(0 <= self.skol(s, t), self.skol(s, t) < L(s), at(s, self.skol(s, t)) != at(t, self.skol(s, t)))) == False, s == t), [self.seqeq(s, t)]),
        ]
        ax += [
            _fa([s, t], L(self.cat(s, t)) == L(s) + L(t), [self.cat(s, t)]),
            _fa([s, t, i], at(self.cat(s, t), i) == If(i < L(s), at(s, i), at(t, i - L(s))), [at(self.cat(s, t), i)]),
            _fa([s, t, x], cnt(self.cat(s, t), x) == cnt(s, x) + cnt(t, x), [cnt(self.cat(s, t), x)]),
            _fa([s, t], Implies(self.perm(s, t), L(s) == L(t)), [self.perm(s, t)]),
            _fa([s, t, x], Implies(self.perm(s, t), cnt(s, x) == cnt(t, x)), [MultiPattern(self.perm(s, t), cnt(s, x))]),
            _fa([s, t], Implies(cnt(s, self.pskol(s, t)) == cnt(t, self.pskol(s, t)), self.perm(s, t)), [self.perm(s, t)]),
        ]
        ax += [_fa([s, t], And(self.hint(s, t), self.perm(s, t) == self.perm(t, s)), [self.hint(s, t)]),
               _fa([s, t], Implies(L(t) == 0, self.cat(s, t) == s), [self.cat(s, t)]),
               _fa([s, t], Implies(L(s) == 0, self.cat(s, t) == t), [self.cat(s, t)]),
               _fa([s, k], Implies(And(k == L(s)), self.drop(s, k) == E), [self.drop(s, k)]),
               _fa([s], Implies(L(s) == 0, s == E), [L(s)])]
        if T == INT:
            ax += [_fa([s], self.sum(s, 0) == 0, [L(s)]),
                   _fa([s, k], Implies(And(0 <= k, k < L(s)), self.sum(s, k + 1) == self.sum(s, k) + at(s, k)), [MultiPattern(self.sum(s, k), at(s, k))])]
        if T == F64:
            ax += [_fa([s], self.sum(s, 0) == fin(0), [L(s)]),
                   _fa([s, k], Implies(And(0 <= k, k < L(s)), self.sum(s, k + 1) == f_add(self.sum(s, k), at(s, k))), [MultiPattern(self.sum(s, k), at(s, k))])]
        self.axioms = ax

    def eq(self, a, b):
        """a and b are the same sequence (extensional)."""
        return self.seqeq(a, b)

    def mem(self, s, x):
        return self.cnt(s, x) >= 1


class MapT:
    """Finite maps K -> V (std::map: iterated by increasing key)."""

    def __init__(self, K, V):
        self.K, self.V = K, V
        n = self.name = 'Map_%s_%s' % (_sn(K), _sn(V))
        S = self.S = DeclareSort(n)
        f = lambda x, *a: Function(n + '.' + x, *a)
        self.has = f('has', S, K, BOOL)
        self.get = f('get', S, K, V)
        self.size = f('size', S, INT)
        self.keyat = f('keyat', S, INT, K)
        self.pos = f('pos', S, K, INT)
        self.empty = Const(n + '.empty', S)
        self.put = f('put', S, K, V, S)
        self.dele = f('del', S, K, S)
        self.mapeq = f('eq', S, S, BOOL)
        self.skol = f('diff', S, S, K)
        m, m2 = Consts('m m2', S)
        k, k2 = Consts('k k2', K)
        v = Const('v', V)
        i, j = Ints('i j')
        has, get, size, keyat, pos, put, dele = self.has, self.get, self.size, self.keyat, self.pos, self.put, self.dele
        ax = [
            _fa([m], size(m) >= 0, [size(m)]),
            _fa([m, k], Implies(has(m, k), And(0 <= pos(m, k), pos(m, k) < size(m), keyat(m, pos(m, k)) == k)), [has(m, k)]),
            _fa([m, i], Implies(And(0 <= i, i < size(m)), And(has(m, keyat(m, i)), pos(m, keyat(m, i)) == i)), [keyat(m, i)]),
            _fa([m], Implies(size(m) > 0, has(m, keyat(m, 0))), [size(m)]),
            size(self.empty) == 0,
            _fa([k], Not(has(self.empty, k)), [has(self.empty, k)]),
            _fa([m, k, v, k2], has(put(m, k, v), k2) == Or(k == k2, has(m, k2)), [has(put(m, k, v), k2)]),
            _fa([m, k, v, k2], has(put(m, k, v), k2) == Or(k == k2, has(m, k2)), [MultiPattern(has(m, k2), put(m, k, v))]),
            _fa([m, k, v], And(has(put(m, k, v), k), get(put(m, k, v), k) == v), [put(m, k, v)]),
            _fa([m, k, v, k2], get(put(m, k, v), k2) == If(k == k2, v, get(m, k2)), [get(put(m, k, v), k2)]),
            _fa([m, k, v, k2], get(put(m, k, v), k2) == If(k == k2, v, get(m, k2)), [MultiPattern(get(m, k2), put(m, k, v))]),
            _fa([m, k, v], size(put(m, k, v)) == size(m) + If(has(m, k), 0, 1), [put(m, k, v)]),
            _fa([m, k, v, k2], Implies(And(has(m, k), has(m, k2)), pos(put(m, k, v), k2) == pos(m, k2)), [pos(put(m, k, v), k2)]),
            _fa([m, k, v, i], Implies(And(has(m, k), 0 <= i, i < size(m)), keyat(put(m, k, v), i) == keyat(m, i)), [keyat(put(m, k, v), i)]),
            _fa([m, k, k2], has(dele(m, k), k2) == And(k != k2, has(m, k2)), [has(dele(m, k), k2)]),
            _fa([m, k, k2], has(dele(m, k), k2) == And(k != k2, has(m, k2)), [MultiPattern(has(m, k2), dele(m, k))]),
            _fa([m, k, k2], Implies(k != k2, get(dele(m, k), k2) == get(m, k2)), [get(dele(m, k), k2)]),
            _fa([m, k], size(dele(m, k)) == size(m) - If(has(m, k), 1, 0), [dele(m, k)]),
            _fa([m, m2], self.mapeq(m, m2) == (m == m2), [self.mapeq(m, m2)]),
            _fa([m, m2], Implies(And(has(m, self.skol(m, m2)) == has(m2, self.skol(m, m2)),
                                     Implies(has(m, self.skol(m, m2)), get(m, self.skol(m, m2)) == get(m2, self.skol(m, m2)))),
                                 m == m2), [self.mapeq(m, m2)]),
        ]
        if K == INT:
            ax += [_fa([m, i, j], Implies(And(0 <= i, i < j, j < size(m)), keyat(m, i) < keyat(m, j)), [MultiPattern(keyat(m, i), keyat(m, j))]),
                   _fa([m, k, k2], Implies(And(has(m, k), has(m, k2), k < k2), pos(m, k) < pos(m, k2)), [MultiPattern(has(m, k), has(m, k2))])]
        self.axioms = ax

    def eq(self, a, b):
        return self.mapeq(a, b)


def _sn(s):
    return str(s).replace(' ', '')


def seq(T):
    k = _sn(T)
    if k not in _seq:
        _seq[k] = SeqT(T)
    return _seq[k]


def mapt(K, V):
    k = (_sn(K), _sn(V))
    if k not in _map:
        _map[k] = MapT(K, V)
    return _map[k]


def seq_of(term):
    return seq_by_sort(term.sort())


def seq_by_sort(S):
    for x in _seq.values():
        if x.S == S:
            return x
    return None


def map_by_sort(S):
    for x in _map.values():
        if x.S == S:
            return x
    return None


def all_theories():
    return list(_seq.values()) + list(_map.values())


# ---------------------------------------------------------------- structs
_struct = {}


def struct(name, fields):
    """Immutable value struct (std::pair, registered aggregates)."""
    if name not in _struct:
        d = z3.Datatype(name)
        d.declare('mk', *[(name + '.' + f, s) for f, s in fields])
        T = d.create()
        _struct[name] = (T, fields, {f: getattr(T, name + '.' + f) if hasattr(T, name + '.' + f) else T.accessor(0, i) for i, (f, _) in enumerate(fields)})
    return _struct[name]


def struct_by_sort(S):
    for n, x in _struct.items():
        if x[0] == S:
            return x
    return None


def pair(A, B):
    return struct('Pair_%s_%s' % (_sn(A), _sn(B)), [('first', A), ('second', B)])


# ------------------------------------------------- uninterpreted bit algebra
xor = Function('xor64', INT, INT, INT)
u64 = 2 ** 64


def relevant_axioms(exprs):
    """Axioms of the theories whose symbols occur (transitively by sort)."""
    names = set()
    seen = set()
    stack = list(exprs)
    while stack:
        e = stack.pop()
        h = e.get_id()
        if h in seen:
            continue
        seen.add(h)
        if z3.is_quantifier(e):
            stack.append(e.body())
            for q in range(e.num_vars()):
                names.add(str(e.var_sort(q)))
        elif z3.is_app(e):
            names.add(str(e.sort()))
            d = e.decl().name()
            if '.' in d:
                names.add(d.split('.')[0])
            for c in e.children():
                stack.append(c)
    out = []
    for t in all_theories():
        if t.name in names:
            out += t.axioms
    return out
