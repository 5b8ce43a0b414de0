"""Training parameters in JSON files (C28)."""
from cdv.spec import *
from cdv import theory as T
from cdv.theory import F64
from cdv.engine import STRID, Obj

J = z3.DeclareSort('Json')
SS = seq(Str)
JS = '$json'                                                               # the content of a JSON value
JNUM, JREAL, JBOOL, JNONE = z3.Function('json_number', INT, J), z3.Function('json_real', F64, J), z3.Function('json_bool', BOOL, J), Const('json_null', J)
AS = {'u': z3.Function('as_unsigned', J, INT), 'i': z3.Function('as_int', J, INT), 'd': z3.Function('as_real', J, F64), 'b': z3.Function('as_bool', J, BOOL)}
NAMES, MEMBER, JSIZE, POS = z3.Function('member_names', J, SS.S), z3.Function('member', J, Str, J), z3.Function('json_size', J, INT), z3.Function('position_of_member', J, Str, INT)
FILE = z3.Function('content_of_file', Str, J)
CELL, LVL, ROOTOF = z3.Function('cell', Ref, Str, Ref), z3.Function('level', Ref, INT), z3.Function('root_of_cell', Ref, Ref)
CPAR, CKEY = z3.Function('cell_parent', Ref, Ref), z3.Function('cell_key', Ref, Str)

DONE = '$written'
PREC = z3.Function('decimal_digits', Ref, INT)
LP, MP = 'LearningParameters.', 'LearningParameters.mutation'
TPGP, PRGP = 'MutationParameters.tpg', 'MutationParameters.prog'
TABLE = [('', 'archiveSize', 'u'), ('', 'archivingProbability', 'd'), ('', 'doValidation', 'b'), ('', 'maxNbActionsPerEval', 'u'), ('', 'maxNbEvaluationPerPolicy', 'u'), ('', 'nbGenerations', 'u'), ('', 'nbIterationsPerJob', 'u'),
         ('', 'nbIterationsPerPolicyEvaluation', 'u'), ('', 'nbProgramConstant', 'u'), ('', 'nbRegisters', 'u'), ('', 'nbThreads', 'u'), ('', 'ratioDeletedRoots', 'd')] + \
        [('tpg', x, k) for x, k in (('forceProgramBehaviorChangeOnMutation', 'b'), ('maxInitOutgoingEdges', 'u'), ('maxOutgoingEdges', 'u'), ('nbActions', 'u'), ('nbRoots', 'u'), ('pEdgeAddition', 'd'), ('pEdgeDeletion', 'd'), ('pEdgeDestinationChange', 'd'), ('pEdgeDestinationIsAction', 'd'), ('pProgramMutation', 'd'))] + \
        [('prog', x, k) for x, k in (('maxConstValue', 'i'), ('maxProgramSize', 'u'), ('minConstValue', 'i'), ('pAdd', 'd'), ('pConstantMutation', 'd'), ('pDelete', 'd'), ('pMutate', 'd'), ('pSwap', 'd'))]
KEYOF = {s: {'': 'LearningParameters.', 'tpg': 'TPGParameters.', 'prog': 'ProgramParameters.'}[s] for s in ('', 'tpg', 'prog')}
FIELDS = [KEYOF[s] + x for s, x, k in TABLE]
SORTK = {'u': INT, 'i': INT, 'd': F64, 'b': BOOL}
KINDS = dict([(KEYOF[s] + x, SORTK[k]) for s, x, k in TABLE] + [(x, Ref) for x in (MP, TPGP, PRGP)])
ROUND = z3.Function('rounded_as_written', F64, F64)


def holder(h, s, p):
    """the object that holds the parameters of a section"""
    return p if s == '' else h(TPGP if s == 'tpg' else PRGP, h(MP, p))


def lit(eng, s):
    return eng.strlit('"%s"' % s)


def axioms(eng):
    j, k, r, c, n, b = Const('j', J), Const('k', Str), R('r'), R('c'), Int('n'), z3.Bool('b')
    x = Const('x', F64)
    return [
        ForAll([r, k], And(CPAR(CELL(r, k)) == r, CKEY(CELL(r, k)) == k, LVL(CELL(r, k)) == LVL(r) + 1, CELL(r, k) != null, ROOTOF(CELL(r, k)) == ROOTOF(r)), patterns=[CELL(r, k)]),
        ForAll([n], AS['u'](JNUM(n)) == n, patterns=[JNUM(n)]), ForAll([n], AS['i'](JNUM(n)) == n, patterns=[JNUM(n)]),
        ForAll([x], AS['d'](JREAL(x)) == x, patterns=[JREAL(x)]), ForAll([b], AS['b'](JBOOL(b)) == b, patterns=[JBOOL(b)]),
        # the members of a JSON value, each under its name
        ForAll([j, k], Or(POS(j, k) == -1, And(0 <= POS(j, k), POS(j, k) < SS.len(NAMES(j)), SS.at(NAMES(j), POS(j, k)) == k)), patterns=[POS(j, k)]),
        ForAll([j, n], Implies(And(0 <= n, n < SS.len(NAMES(j))), POS(j, SS.at(NAMES(j), n)) == n), patterns=[SS.at(NAMES(j), n)]),
    ] + [STRID(lit(eng, s)) == eng.strnum(lit(eng, s)) for s in [x[1] for x in TABLE] + ['mutation', 'tpg', 'prog']]


def as_of(k, v):
    return AS[k](v)


def params_ok(c, p):
    h = c.h0
    return ('parameters', And(p != null, *[And(h(x, h(MP, p)) != null) for x in (TPGP, PRGP)], h(MP, p) != null, h(TPGP, h(MP, p)) != h(PRGP, h(MP, p))))


def set_one(c):
    p, key, v = c.a(0), c.a(1), c.h0(JS, c.a(2))
    out = []
    for s, x, k in TABLE:
        o, f = holder(c.h0, s, p), KEYOF[s] + x
        out.append(('[C28] %s is set by its own name only' % x, And(c.h(f, o) == If(key == lit(c.eng, x), as_of(k, v), c.h0(f, o)), only(c, f, o))))
    return out


def conv(name, k, rng=None):
    return Contract('Value::' + name, trusted=True, ensures=lambda c: [('', And(c.ret == AS[k](c.h0(JS, c.this)), *(rng(c.ret) if rng else [])))], note='third party: JsonCpp')


def sections(root, eng):
    m = MEMBER(root, lit(eng, 'mutation'))
    return m, MEMBER(m, lit(eng, 'tpg')), MEMBER(m, lit(eng, 'prog'))


def loaded(eng, h, h0, p, root, k, nt, np):
    """the parameters named by the first k members of the file, nt of its section mutation.tpg, np of mutation.prog"""
    m, mt, mp = sections(root, eng)
    out = []
    for s, x, kd in TABLE:
        key, f = lit(eng, x), KEYOF[s] + x
        o = holder(h0, s, p)
        top, t, g = And(0 <= POS(root, key), POS(root, key) < k, JSIZE(MEMBER(root, key)) == 0), And(0 <= POS(mt, key), POS(mt, key) < nt), And(0 <= POS(mp, key), POS(mp, key) < np)
        out.append(('[C28] %s is loaded when it is named, and only then' % x, Or(And(Not(top), Not(t), Not(g), h(f, o) == h0(f, o)), And(top, h(f, o) == AS[kd](MEMBER(root, key))), And(t, h(f, o) == AS[kd](MEMBER(mt, key))), And(g, h(f, o) == AS[kd](MEMBER(mp, key))))))
        r = R('r')
        out.append(('[C28] %s of other parameter sets' % x, fa([r], Implies(r != o, h(f, r) == h0(f, r)), [h(f, r)])))
    return out


def full(eng, root, k):
    m, mt, mp = sections(root, eng)
    i = POS(root, lit(eng, 'mutation'))
    done = And(0 <= i, i < k)
    return [If(And(done, 0 <= POS(m, lit(eng, z))), SS.len(NAMES(x)), IntVal(0)) for z, x in (('tpg', mt), ('prog', mp))]


def part(eng, m, z, k, x):
    i = POS(m, lit(eng, z))
    return If(And(0 <= i, i < k), SS.len(NAMES(x)), IntVal(0))


def cursor(L):
    return ('cursor', And(0 <= L.k, L.k <= SS.len(L.seq)))


def old_values(L):
    """the JSON values that existed before keep their content"""
    r = R('r')
    return ('the file', fa([r], Implies(L.h0('$alloc', r), L.h(JS, r) == L.h0(JS, r)), [L.h(JS, r)]))


def top_loop(L):
    e, root = L.eng, L.h0(JS, L.arg(0))
    return [cursor(L), old_values(L)] + loaded(e, L.h, L.h0, L.arg(1), root, L.k, *full(e, root, L.k))


def mid_loop(L):
    e, root = L.eng, L.h0(JS, L.arg(0))
    m, mt, mp = sections(root, e)
    return [cursor(L), old_values(L)] + loaded(e, L.h, L.h0, L.arg(1), root, POS(root, L.var('key')), part(e, m, 'tpg', L.k, mt), part(e, m, 'prog', L.k, mp))


def leaf_loop(L):
    e, root = L.eng, L.h0(JS, L.arg(0))
    m, mt, mp = sections(root, e)
    k2 = POS(m, L.var('key2'))
    it = L.var('key2') == lit(e, 'tpg')
    return [cursor(L), old_values(L)] + loaded(e, L.h, L.h0, L.arg(1), root, POS(root, L.var('key')), If(it, L.k, part(e, m, 'tpg', k2, mt)), If(it, part(e, m, 'prog', k2, mp), L.k))


def is_cell(x):
    return x.num_args() == 2 and x.decl().eq(CELL)


def path(x):
    out = []
    while is_cell(x):
        out.insert(0, x.arg(1))
        x = x.arg(0)
    return x, out


def read(eng, arr, r):
    """the content of a cell after a chain of assignments: a value assigned to a cell also replaces what was under it"""
    while arr.decl().kind() == z3.Z3_OP_STORE:
        a, i, v = arr.children()
        if i.eq(r):
            return v
        if is_cell(i) and is_cell(r):
            (x, p), (y, q) = path(i), path(r)
            if not (x.eq(y) and all(any(k.eq(z) for z in eng.strs.values()) for k in p + q)):
                break
            if len(p) < len(q) and all(k.eq(z) for k, z in zip(p, q)):
                return eng.fresh('unknown', J)
        elif not (i.get_id() in eng.news and is_cell(r) or r.get_id() in eng.news and is_cell(i) or i.get_id() in eng.news and r.get_id() in eng.news):
            break
        arr = a
    return Select(arr, r)


def put(eng, r, v):
    eng.wrote('h', JS)
    eng.heap[JS] = Store(eng.heap_get(JS), r, v)


def built(mk):
    return lambda eng, f, this, args: put(eng, this, mk(args[0])) or None


def assigned(eng, f, this, args):
    put(eng, this, read(eng, eng.heap_get(JS), args[0]))
    return Obj(this, 'Value')


def cell(eng, f, this, args):
    r = CELL(this, args[0])
    eng.assume(And(r != null, Select(eng.heap_get('$alloc'), r)))
    return Obj(r, 'Value')


def saved(c):
    """at the write: the parameters of the function under verification"""
    h, e, v = c.h0, c.eng, c.a(0)
    p = e.entry_args[1]
    mk = {'u': JNUM, 'i': JNUM, 'd': JREAL, 'b': JBOOL}
    out = [('[C28] decimal precision', PREC(c.this) >= 6)]
    for s, x, k in TABLE:
        at = v if s == '' else CELL(CELL(v, lit(e, 'mutation')), lit(e, s))
        out.append(('[C28] %s is written under its name' % x, read(e, h.arr(JS), CELL(at, lit(e, x))) == mk[k](h(KEYOF[s] + x, holder(h, s, p)))))
    return out


def member(c):
    return [('', And(c.h(JS, c.ret) == MEMBER(c.h0(JS, c.this), c.a(0)), c.ret != null, c.h('$alloc', c.ret)))]


contracts = [
    conv('asUInt64', 'u', lambda r: [0 <= r, r < 2 ** 64]), conv('asInt', 'i', lambda r: [-2 ** 31 <= r, r < 2 ** 31]), conv('asDouble', 'd'), conv('asBool', 'b'),
    Contract('Value::getMemberNames', trusted=True, ensures=lambda c: [('', c.ret == NAMES(c.h0(JS, c.this)))], note='third party: JsonCpp'),
    Contract('Value::size', trusted=True, ensures=lambda c: [('', And(c.ret == JSIZE(c.h0(JS, c.this)), 0 <= c.ret, c.ret < 2 ** 32))], note='third party: JsonCpp'),
    Contract('Value::operator[]', trusted=True, sel=lambda f: f.const, ensures=member, note='third party: JsonCpp'),
    Contract('Value::<ctor>', trusted=True, sel=lambda f: 'const Value &' in f.qual, modifies=[JS], ensures=lambda c: [('', And(c.h(JS, c.this) == c.h0(JS, c.a(0)), only(c, JS, c.this)))], note='third party: JsonCpp'),
    Contract('setAllParamsFrom', requires=lambda c: [params_ok(c, c.a(1)), ('file', And(c.a(0) != null, c.h0('$alloc', c.a(0))))], modifies=['$new', JS] + FIELDS,
             ensures=lambda c: loaded(c.eng, c.h, c.h0, c.a(1), c.h0(JS, c.a(0)), SS.len(NAMES(c.h0(JS, c.a(0)))), *full(c.eng, c.h0(JS, c.a(0)), SS.len(NAMES(c.h0(JS, c.a(0)))))), loops=[top_loop, mid_loop, leaf_loop, leaf_loop]),
    Contract('Value::operator[]', trusted=True, sel=lambda f: not f.const, modifies=['$new'], model=cell, note='third party: JsonCpp'),
    Contract('Value::<ctor>', trusted=True, sel=lambda f: 'unsigned long' in f.qual or '(Int)' in f.qual or '(int)' in f.qual or '(unsigned int)' in f.qual, modifies=[JS], model=built(JNUM), note='third party: JsonCpp'),
    Contract('Value::<ctor>', trusted=True, sel=lambda f: '(double)' in f.qual, modifies=[JS], model=built(JREAL), note='third party: JsonCpp'),
    Contract('Value::<ctor>', trusted=True, sel=lambda f: '(bool)' in f.qual, modifies=[JS], model=built(JBOOL), note='third party: JsonCpp'),
    Contract('Value::<ctor>', trusted=True, sel=lambda f: 'ValueType' in f.qual, modifies=[JS], model=lambda eng, f, this, args: put(eng, this, JNONE) or None, note='third party: JsonCpp'),
    Contract('Value::operator=', trusted=True, modifies=[JS], model=assigned, note='third party: JsonCpp'),
    Contract('Value::setComment', trusted=True, note='third party: JsonCpp'),
    Contract('StreamWriterBuilder::<ctor>', trusted=True, modifies=[JS], ensures=lambda c: [('', onlyA(c, JS))], note='third party: JsonCpp'),
    Contract('StreamWriterBuilder::newStreamWriter', trusted=True, modifies=['$new'], ensures=lambda c: [('', And(c.ret != null, Not(c.h0('$alloc', c.ret)), c.h('$alloc', c.ret), PREC(c.ret) == AS['u'](read(c.eng, c.h0.arr(JS), CELL(c.h0('StreamWriterBuilder.settings_', c.this), lit(c.eng, 'precision'))))))], note='third party: JsonCpp'),
    Contract('StreamWriter::write', trusted=True, requires=saved, modifies=[DONE], ensures=lambda c: [('', c.h(DONE, null))], note='third party: JsonCpp'),
    Contract('writeParametersToJson', requires=lambda c: [params_ok(c, c.a(1)), ('', Not(c.h0(DONE, null)))], modifies=['$new', JS, DONE], ensures=lambda c: [('[C28] the parameters are written', c.h(DONE, null))]),
    Contract('readConfigFile', trusted=True, may_throw=True, modifies=[JS], ensures=lambda c: [('', And(c.h(JS, c.a(1)) == FILE(c.a(0)), only(c, JS, c.a(1))))], note='reads the file with the third party library: bounded check in the harness'),
    Contract('loadParametersFromJson', requires=lambda c: [params_ok(c, c.a(1))], may_throw=True, modifies=['$new', JS] + FIELDS,
             ensures=lambda c: loaded(c.eng, c.h, c.h0, c.a(1), FILE(c.a(0)), SS.len(NAMES(FILE(c.a(0)))), *full(c.eng, FILE(c.a(0)), SS.len(NAMES(FILE(c.a(0))))))),
    Contract('setParameterFromString', requires=lambda c: [params_ok(c, c.a(0))], modifies=FIELDS, ensures=set_one),
]
def lemmas(eng):
    """a file that holds what was written (its text layer keeps the members, the integers and the truth values, and rounds
    the reals) loads to the parameters written, whatever the parameters before"""
    f, p = Const('file', J), R('params')
    m, mt, mp = sections(f, eng)
    h0, h1, w = (lambda k, r, z=z: z3.Function('%s.%s' % (z, k), Ref, KINDS[k])(r) for z in ('before', 'after', 'written'))
    hyp, goals, x, n, b = [], [], Const('x', F64), Int('n'), z3.Bool('b')
    mk = {'u': lambda v: JNUM(v), 'i': lambda v: JNUM(v), 'd': lambda v: JREAL(ROUND(v)), 'b': lambda v: JBOOL(v)}
    hyp += [POS(f, lit(eng, 'mutation')) >= 0, POS(m, lit(eng, 'tpg')) >= 0, POS(m, lit(eng, 'prog')) >= 0]
    for s, name, k in TABLE:
        for z, src in (('', f), ('tpg', mt), ('prog', mp)):
            hyp.append((POS(src, lit(eng, name)) >= 0) == BoolVal(z == s))
            if z == s:
                v = w(KEYOF[s] + name, holder(w, s, p))
                hyp += [MEMBER(src, lit(eng, name)) == mk[k](v), JSIZE(MEMBER(src, lit(eng, name))) == 0]
                goals.append(h1(KEYOF[s] + name, holder(h0, s, p)) == (ROUND(v) if k == 'd' else v))
    post = [z for n_, z in loaded(eng, h1, h0, p, f, SS.len(NAMES(f)), *full(eng, f, SS.len(NAMES(f)))) if 'other' not in n_]
    return [('[C28] reloading what was written restores every parameter, up to the written precision', hyp + post, And(*goals))]


unit = Unit('params', ['src/file/parametersParser.cpp'], ['File', 'Json', 'Learn', 'Mutator'], contracts, axioms=axioms, ghosts={JS: J, DONE: BOOL}, distinct_strings=True, lemmas=lemmas)
