"""Symbolic executor / VC generator over the clang AST.

Direct-style interpreter: a path is executed with an oracle deciding every
branch; unexplored alternatives are queued and the function is re-executed.
Loops are cut by invariants, calls to functions under contract by their
contract, other calls to functions of the code base are inlined, STL calls use
the models of stl.py."""
import z3, time
from z3 import And, Or, Not, Implies, If, Select, Store, IntVal, BoolVal, ForAll, Const
from .frontend import ExtractionError, CType, parse_type, ctype, qt, Func
from . import theory as T
from .theory import Ref, Str, null, INT, BOOL, F64, seq, mapt


class Unsupported(ExtractionError):
    pass


class PathEnd(Exception):
    pass


class Return(Exception):
    def __init__(self, v):
        self.v = v


class Throw(Exception):
    def __init__(self, typ, v=None):
        self.typ, self.v = typ, v


class Break(Exception):
    pass


class Continue(Exception):
    pass


# ------------------------------------------------------------------ values
class Loc:
    def load(self):
        raise NotImplementedError

    def store(self, v):
        raise NotImplementedError


class VarLoc(Loc):
    def __init__(self, eng, vid, name, ct, val=None):
        self.eng, self.vid, self.name, self.ct, self.val = eng, vid, name, ct, val

    def load(self):
        if self.val is None:
            raise Unsupported('read of uninitialised ' + str(self.name))
        return self.val

    def store(self, v):
        self.eng.wrote('v', self.vid)
        self.val = v


class FieldLoc(Loc):
    def __init__(self, eng, key, ref, ct):
        self.eng, self.key, self.ref, self.ct = eng, key, ref, ct

    def load(self):
        h = self.eng.heap_get(self.key)
        if z3.is_store(h) and h.arg(1).eq(self.ref):
            return h.arg(2)
        return Select(h, self.ref)

    def store(self, v):
        self.eng.wrote('h', self.key)
        h = self.eng.heap_get(self.key)
        self.eng.heap[self.key] = Store(h, self.ref, v)


class ElemLoc(Loc):
    def __init__(self, eng, base, idx, ct=None):
        self.eng, self.base, self.idx, self.ct = eng, base, idx, ct

    def load(self):
        s = self.base.load()
        return T.seq_of(s).at(s, self.idx)

    def store(self, v):
        s = self.base.load()
        self.base.store(T.seq_of(s).upd(s, self.idx, v))


class MapValLoc(Loc):
    def __init__(self, eng, base, key, ct=None):
        self.eng, self.base, self.key, self.ct = eng, base, key, ct

    def load(self):
        m = self.base.load()
        return T.map_by_sort(m.sort()).get(m, self.key)

    def store(self, v):
        m = self.base.load()
        self.base.store(T.map_by_sort(m.sort()).put(m, self.key, v))


class StructLoc(Loc):
    def __init__(self, eng, base, fname, ct=None):
        self.eng, self.base, self.fname, self.ct = eng, base, fname, ct

    def load(self):
        s = self.base.load()
        if isinstance(s, PairV):
            return s.first if self.fname == 'first' else s.second
        d = T.struct_by_sort(s.sort())
        return d[2][self.fname](s)

    def store(self, v):
        s = self.base.load()
        d = T.struct_by_sort(s.sort())
        self.base.store(d[0].mk(*[v if f == self.fname else d[2][f](s) for f, _ in d[1]]))


class TempLoc(Loc):
    def __init__(self, v):
        self.val = v

    def load(self):
        return self.val

    def store(self, v):
        self.val = v


class MapEntryLoc(Loc):
    """*it for a map iterator: .first is the key, .second an lvalue."""

    def __init__(self, eng, base, key):
        self.eng, self.base, self.key = eng, base, key

    def load(self):
        m = self.base.load()
        M = T.map_by_sort(m.sort())
        return T.pair(M.K, M.V)[0].mk(self.key, M.get(m, self.key))


class Obj:
    """glvalue (or prvalue) of a class with identity."""

    def __init__(self, ref, cls):
        self.ref, self.cls = ref, cls


class Iter:
    def __init__(self, loc, idx, rev=False, kind='seq', snap=None, key=None):
        self.loc, self.idx, self.rev, self.kind, self.snap, self.key = loc, idx, rev, kind, snap, key


class PairV:
    def __init__(self, a, b):
        self.first, self.second = a, b


class Closure:
    def __init__(self, node, frame, func):
        self.node, self.frame, self.func = node, frame, func


class FnPtr:
    def __init__(self, funcs):
        self.funcs = funcs


class InitList:
    def __init__(self, vals):
        self.vals = vals


class Void:
    pass


class Calloc:
    def __init__(self, n):
        self.n = n


VOID = Void()


class Frame:
    def __init__(self, func, vars, this):
        self.func, self.vars, self.this = func, vars, this


INT_RANGES = {
    'bool': None, 'int': (-2**31, 2**31 - 1), 'unsigned int': (0, 2**32 - 1), 'long': (-2**63, 2**63 - 1),
    'unsigned long': (0, 2**64 - 1), 'long long': (-2**63, 2**63 - 1), 'unsigned long long': (0, 2**64 - 1),
    'unsigned char': (0, 255), 'char': (-128, 127), 'signed char': (-128, 127), 'short': (-2**15, 2**15 - 1),
    'unsigned short': (0, 2**16 - 1), 'size_t': (0, 2**64 - 1), 'uint64_t': (0, 2**64 - 1), 'uint32_t': (0, 2**32 - 1),
    'int64_t': (-2**63, 2**63 - 1), 'int32_t': (-2**31, 2**31 - 1), 'std::size_t': (0, 2**64 - 1), 'unsigned': (0, 2**32 - 1),
    'long int': (-2**63, 2**63 - 1), 'unsigned long int': (0, 2**64 - 1), 'uint8_t': (0, 255),
    'std::uint64_t': (0, 2**64 - 1), 'size_type': (0, 2**64 - 1), 'difference_type': (-2**63, 2**63 - 1),
    'std::ptrdiff_t': (-2**63, 2**63 - 1), 'unsigned long': (0, 2**64 - 1),
    '__int128': (-2**127, 2**127 - 1),
}
FLOATS = {'double', 'float', 'long double'}
SEQS = {'std::list', 'std::vector', 'std::deque', 'std::queue', 'std::initializer_list', 'std::stack', 'std::multimap', 'std::array'}
MAPS = {'std::map', 'std::unordered_map', 'std::set', 'std::unordered_set'}
SMART = {'std::unique_ptr', 'std::shared_ptr', 'std::reference_wrapper', 'std::__shared_ptr', 'std::weak_ptr'}
IGNORED = {'std::mutex', 'std::recursive_mutex', 'std::lock_guard', 'std::scoped_lock', 'std::unique_lock'}


class Ctx:
    """What a contract sees."""

    def __init__(self, eng, func, this, args, h0, h, ret=None, locals_=None):
        self.eng, self.func, self.this, self.args, self.h0, self.h, self.ret = eng, func, this, args, h0, h, ret
        self.args1 = args
        self.locals = locals_

    def a(self, i):
        """value of argument i at entry"""
        return self.args[i]

    def a1(self, i):
        """value of reference argument i at exit"""
        return self.args1[i]


class Heap:
    """Read access to one heap version."""

    def __init__(self, eng, d):
        self.eng, self.d = eng, d

    def arr(self, key):
        if key not in self.d:
            self.eng.heap_get(key)      # (also states the machine range of the field)
        return self.d.get(key, self.eng.heap0[key])

    def __call__(self, key, ref=None):
        return Select(self.arr(key), null if ref is None else ref)


class LoopCtx(Ctx):
    k = None
    seq = None
    pre = None

    def var(self, name):
        for v in reversed(list(self.vars.values())):
            if v.name == name:
                return self.eng.plain(v.load())
        raise Unsupported('loop contract refers to a local variable that no longer exists: ' + name)

    def obj(self, name):
        for v in reversed(list(self.vars.values())):
            if v.name == name:
                return v.load()
        raise Unsupported('loop contract refers to a local variable that no longer exists: ' + name)

    def prevar(self, name):
        for vid, v in self.vars.items():
            if v.name == name and vid in self.prevals:
                return self.eng.plain(self.prevals[vid])
        raise Unsupported('loop contract refers to a local variable that no longer exists: ' + name)

    def has(self, name):
        return any(v.name == name for v in self.vars.values())

    def arg(self, i):
        """value of argument i of the function under verification, at entry"""
        return self.eng.entry_args[i]

    a = arg


class Contract:
    def __init__(self, fn, requires=None, ensures=None, modifies=(), throws=None, ensures_throw=None, loops=(),
                 modargs=(), trusted=False, sel=None, inline=(), may_throw=False, touches_new=(), note='', nparams=None,
                 ghost=None, terminates=False, hide=(), exc='std::runtime_error', direct=False, model=None):
        self.model = model         # trusted: the effect of a call, computed instead of assumed
        self.direct = direct       # contract of the body itself, used for qualified (non-virtual) calls Base::f()
        self.exc = exc
        self.override = False
        self.fn, self.requires, self.ensures = fn, requires, ensures
        self.modifies, self.throws, self.ensures_throw = list(modifies), throws, ensures_throw
        self.loops, self.modargs, self.trusted, self.sel = list(loops), list(modargs), trusted, sel
        self.may_throw, self.touches_new, self.note, self.nparams = may_throw, list(touches_new), note, nparams
        self.ghost = ghost
        self.hide = set(hide)      # contracts not used while verifying this one (inlined instead)


STRID = z3.Function('string_number', Str, INT)      # different literals are different strings


class Ob:
    __slots__ = ('fn', 'name', 'hyps', 'goal', 'kind', 'status', 'backend', 't', 'out', 'cover', 'first')

    def __init__(self, fn, name, kind, hyps, goal):
        self.fn, self.name, self.kind, self.hyps, self.goal = fn, name, kind, hyps, goal
        self.status = None
        self.backend = ''
        self.t = 0.0
        self.out = ''


def AND(xs):
    xs = list(xs)
    return And(*xs) if len(xs) != 1 else xs[0]


class Engine:
    MAXPATHS = 4000

    def __init__(self, ix, contracts, structs=None, ghosts=None, axioms=None, opaque=None, native=None):
        self.ix = ix
        self.contracts = {}
        for c in contracts:
            self.contracts.setdefault(c.fn, []).append(c)
        self.structs = structs or {}       # class short name -> [(field, CType str)]
        self.ghosts = ghosts or {}         # ghost heap key -> sort
        self.axioms = axioms or (lambda e: [])
        self.cells = {}                    # how the target of a pointer to a scalar is read
        self.values = set()                   # classes modelled as immutable values
        self.native = native or {}         # function key -> python model (trusted)
        self.obs = []
        self.heap0 = {}
        self.sorts = {}
        self.ids = {}
        self.used_contracts = set()
        self.inlined = set()
        self.trusted_used = set()
        self.strs = {}
        self.distinct_strings = False
        self._isa = {}
        self._loopmods = {}
        self.discover_depth = 0

    # -------------------------------------------------------------- sorts
    def sort_of(self, ct):
        if ct.ptr:
            p = ct.ptr
            if ct.name == 'char' and ('[' in p or p.strip() == '*'):
                return Str
            if p.startswith('&') or p.startswith('&&'):
                return self.sort_of(ct.noref())
            if p.startswith('*'):
                if p == '*' and ct.name == 'std::pair':
                    # a pointer to pairs is the buffer it owns (allocated once by calloc, see DESIGN.md)
                    return seq(self.sort_of(CType(ct.name, ct.args))).S
                return Ref
        n = ct.name
        if n == 'bool':
            return BOOL
        if n in INT_RANGES:
            return INT
        if n in FLOATS:
            return F64
        if n in ('std::string', 'std::basic_string', 'std::__cxx11::basic_string', 'string'):
            return Str
        if n in ('std::vector', 'std::list', 'std::deque', 'std::queue', 'std::initializer_list', 'std::stack'):
            return seq(self.sort_of(ct.args[0])).S
        if n in ('std::multimap',):
            return seq(T.pair(self.sort_of(ct.args[0]), self.sort_of(ct.args[1]))[0]).S
        if n in ('std::map', 'std::unordered_map'):
            return mapt(self.sort_of(ct.args[0]), self.sort_of(ct.args[1])).S
        if n in ('std::set', 'std::unordered_set'):
            return mapt(self.sort_of(ct.args[0]), BOOL).S
        if n == 'std::pair':
            return T.pair(self.sort_of(ct.args[0]), self.sort_of(ct.args[1]))[0]
        if n in SMART:
            return Ref
        if n in ('std::atomic', 'std::__atomic_base', 'std::atomic_uint64_t'):
            return INT
        if n == 'std::atomic_uint64_t' or n == 'atomic_uint64_t':
            return INT
        if ct.short in self.structs:
            return self.struct_of(ct.short)[0]
        if (n.split('::')[-1]) in self.enum_names():
            return INT
        return Ref

    def enum_names(self):
        return {k[0] for k in self.ix.enums if isinstance(k, tuple)}

    def struct_of(self, short):
        fs = []
        for f in self.structs[short]:
            fi = self.ix.find_field(short, f)
            if fi is None:
                raise Unsupported('field %s::%s not found' % (short, f))
            fs.append((f, self.sort_of(ctype(fi[1]))))
        return T.struct('Struct_' + short.replace('<', '_').replace('>', '_').replace(' ', ''), fs)

    def fresh(self, base, sort):
        self.nfresh += 1
        return Const('%s!%d' % (base, self.nfresh), sort)

    def range_of(self, ct, v):
        if ct.ptr.replace('&', ''):
            return None
        r = INT_RANGES.get(ct.name)
        if ct.name in ('std::atomic', 'std::__atomic_base'):
            r = (0, 2**64 - 1)
        if r:
            return And(v >= r[0], v <= r[1])
        return None

    def fresh_of(self, base, ct):
        s = self.sort_of(ct)
        v = self.fresh(base, s)
        r = self.range_of(ct, v)
        if r is not None:
            self.assume(r)
        return v

    # --------------------------------------------------------------- heap
    def heap_init(self, key):
        if key in self.heap0:
            return
        if key in self.ghosts:
            s = self.ghosts[key]
        elif key == '$alloc':
            s = BOOL
        else:
            c, f = key.rsplit('.', 1)
            fi = self.ix.find_field(c, f)
            if fi is None:
                raise Unsupported('no field ' + key)
            s = self.sort_of(ctype(fi[1]))
        self.heap0[key] = Const('H0.' + key, z3.ArraySort(Ref, s))

    def heap_get(self, key):
        if key not in self.heap:
            self.heap_init(key)
            self.heap[key] = self.heap0[key]
            rng = self.field_range(key)
            if rng is not None:
                r = Const('r', Ref)
                v = Select(self.heap0[key], r)
                self.assume(ForAll([r], And(v >= rng[0], v <= rng[1]), patterns=[v]))
        return self.heap[key]

    def field_range(self, key):
        if key in self.ghosts or key == '$alloc':
            return None
        c, f = key.rsplit('.', 1)
        fi = self.ix.find_field(c, f)
        ct = ctype(fi[1])
        if ct.ptr:
            return None
        if ct.name in ('std::atomic',):
            return (0, 2**64 - 1)
        return INT_RANGES.get(ct.name)

    def havoc_heap(self, key):
        h = self.heap_get(key)
        n = self.fresh('H.' + key, h.sort())
        self.heap[key] = n
        rng = self.field_range(key)
        if rng is not None:
            r = Const('r', Ref)
            v = Select(n, r)
            self.assume(ForAll([r], And(v >= rng[0], v <= rng[1]), patterns=[v]))
        self.wrote('h', key)

    def wrote(self, kind, k):
        for w in self.writes:
            w.add((kind, k))

    # --------------------------------------------------- class tags, allocation
    def isa(self, cls):
        if cls not in self._isa:
            self._isa[cls] = z3.Function('isa.' + cls, Ref, BOOL)
        return self._isa[cls]

    def is_a(self, ref, cls):
        f = self.isa(cls)
        return f(ref)

    def class_axioms(self):
        out = []
        r = Const('r', Ref)
        if getattr(self, 'uses_dyn', False):
            for nm in list(getattr(self, '_typeids', {})):
                c = nm.split('::')[-1]
                if c in self.ix.classes:
                    for x in self.ix.subs(c):
                        self.isa(x)
        for c, f in list(self._isa.items()):
            for b in self.ix.supers(c)[1:]:
                if b in self._isa:
                    out.append(ForAll([r], Implies(f(r), self._isa[b](r)), patterns=[f(r)]))
            out.append(Not(f(null)))
        cs = list(self._isa)
        for i, a in enumerate(cs):
            for b in cs[i + 1:]:
                sa, sb = self.ix.supers(a), self.ix.supers(b)
                if a in sb or b in sa:
                    continue
                # no known class derives from both: disjoint (closed world over the code base)
                if not any(a in self.ix.supers(c) and b in self.ix.supers(c) for c in self.ix.classes):
                    out.append(ForAll([r], Not(And(self._isa[a](r), self._isa[b](r))), patterns=[self._isa[a](r)]))
        if getattr(self, 'uses_dyn', False):
            # the dynamic type of an object decides its classes (closed world over the code base)
            for c in list(self._isa):
                out.append(ForAll([r], self._isa[c](r) == z3.Function('typeis.' + c, Ref, BOOL)(self.DYN(r)), patterns=[self._isa[c](r)]))
            tid = {nm.split('::')[-1]: c for nm, c in getattr(self, '_typeids', {}).items()}
            for c, t in tid.items():
                if c not in self.ix.classes:
                    continue
                subs = [x for x in self.ix.subs(c) if x != c]
                known = [x for x in subs if x in self._isa]
                out.append(ForAll([r], Implies(self.DYN(r) == t, And(self.isa(c)(r), *[Not(self._isa[x](r)) for x in known])), patterns=[self.DYN(r)]))
                if len(known) == len(subs):
                    out.append(ForAll([r], Implies(And(self.isa(c)(r), *[Not(self._isa[x](r)) for x in known]), self.DYN(r) == t), patterns=[self.DYN(r)]))
        return out

    def extra_axioms(self, seen_names=None):
        return []

    def new_object(self, cls):
        r = self.fresh('new.' + cls, Ref)
        al = self.heap_get('$alloc')
        self.assume(Not(Select(al, r)))
        self.assume(r != null)
        self.wrote('h', '$alloc')
        self.heap['$alloc'] = Store(al, r, BoolVal(True))
        for c in self.ix.supers(cls):
            self.assume(self.is_a(r, c))
        for c in self.ix.subs(cls):
            if c != cls and (c in self._isa or getattr(self, 'uses_dyn', False)):
                self.assume(Not(self.is_a(r, c)))
        self.news.add(r.get_id())
        self.news_keep.append(r)
        return r

    # ---------------------------------------------------------- path control
    def assume(self, f):
        if isinstance(f, bool):
            f = BoolVal(f)
        f = z3.simplify(f) if not z3.is_quantifier(f) else f
        if z3.is_true(f):
            return
        self.hyps.append(f)
        if not has_quant(f):
            self.feas.add(f)
        if z3.is_false(f):
            raise PathEnd()

    def oblige(self, name, goal, kind='post'):
        if self.discover_depth:
            return
        if isinstance(goal, bool):
            goal = BoolVal(goal)
        if self.opos >= len(self.prefix):
            if not z3.is_true(z3.simplify(goal)):
                self.obs.append(Ob(self.fn_label, name, kind, list(self.hyps), goal))
            else:
                o = Ob(self.fn_label, name, kind, [], BoolVal(True))
                o.status = 'proved'; o.backend = 'simplifier'
                self.obs.append(o)

    def safety(self, what, goal):
        self.oblige('safety: ' + what, goal, 'safety')
        self.assume(goal)

    def choose(self, n):
        """n-way choice, all alternatives explored."""
        if self.opos < len(self.prefix):
            c = self.prefix[self.opos]
        else:
            c = 0
            self.prefix.append(0)
            for a in range(1, n):
                self.queue.append(self.prefix[:-1] + [a])
            if len(self.queue) > self.MAXPATHS:
                raise Unsupported('too many paths')
        self.opos += 1
        return c

    def branch(self, cond):
        if isinstance(cond, bool):
            cond = BoolVal(cond)
        cond = z3.simplify(cond)
        if self.discover_depth:
            return self.choose(2) == 0
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.opos < len(self.prefix):
            c = self.prefix[self.opos]
            self.opos += 1
            self.assume(cond if c == 0 else Not(cond))
            return c == 0
        qf = not has_quant(cond)
        st = sf = z3.sat
        if qf:
            st = self.feas.check(cond)
            sf = self.feas.check(Not(cond)) if st != z3.unsat else z3.sat
        if st == z3.unsat:
            self.prefix.append(1); self.opos += 1
            self.assume(Not(cond))
            return False
        if sf == z3.unsat:
            self.prefix.append(0); self.opos += 1
            self.assume(cond)
            return True
        self.queue.append(self.prefix + [1])
        self.prefix.append(0)
        self.opos += 1
        if len(self.queue) > self.MAXPATHS:
            raise Unsupported('too many paths')
        self.assume(cond)
        return True

    # ---------------------------------------------------------------- verify
    def select(self, key, sel=None, nparams=None):
        fs = [f for f in self.ix.funcs_named(key) if f.body is not None]
        if nparams is not None:
            fs = [f for f in fs if len(f.params) == nparams]
        if sel:
            fs = [f for f in fs if sel(f)]
        if len(fs) != 1:
            raise Unsupported('%d definitions with a body found for %s' % (len(fs), key))
        return fs[0]

    def verify(self, con):
        """Generate the obligations of one function against its contract."""
        func = self.select(con.fn, con.sel, con.nparams)
        self.current = con
        self.fn_label = con.fn + (' (called as a base)' if con.direct else '')
        self.loops_of = self.number_loops(func)
        self._loopmods = {}
        self.queue = [[]]
        self.normal_paths = 0
        n = 0
        start = len(self.obs)
        covers = []
        while self.queue:
            pre = self.queue.pop()
            n += 1
            if n > self.MAXPATHS:
                raise Unsupported('too many paths')
            self.run_path(func, con, pre, covers)
        return covers

    def start_empty(self):
        self.hyps = []
        self.feas = z3.Solver()
        self.feas.set('timeout', 150)
        self.heap = {}
        self.nfresh = 0
        self.writes = []
        self.news = set(); self.news_keep = []
        self.depth = 0
        self.discover_depth = 0
        self.retired = {}

    def run_path(self, func, con, prefix, covers):
        self.prefix, self.opos = prefix, 0
        self.start_empty()
        this = None
        if func.cls and not func.static:
            this = Const('this', Ref)
            self.assume(this != null)
            self.assume(Select(self.heap_get('$alloc'), this))
            self.assume(self.is_a(this, func.cls))
            if func.virtual and not con.direct:
                # this body runs only for objects that do not override it
                for sc in self.ix.subs(func.cls):
                    if sc != func.cls and any(len(m.params) == len(func.params) for m in self.ix.classes[sc].methods.get(func.name, [])):
                        self.assume(Not(self.is_a(this, sc)))
        vars_ = {}
        args, raw = [], []
        for i, p in enumerate(func.params):
            ct = ctype(p)
            v = self.param_value('p%d_%s' % (i, p.get('name', '')), ct, p)
            raw.append(v)
            if isinstance(v, (Obj,)):
                vars_[p['id']] = VarLoc(self, p['id'], p.get('name'), ct, v)
                args.append(v.ref)
            elif ct.ptr.endswith('&') and isinstance(v, Loc):
                vars_[p['id']] = VarLoc(self, p['id'], p.get('name'), ct, v)
                args.append(v.load())
            else:
                vars_[p['id']] = VarLoc(self, p['id'], p.get('name'), ct, v)
                args.append(v)
        self.fn_is_ctor = func.name == '<ctor>'
        self.h0d = dict(self.heap)
        h0 = Heap(self, self.h0d)
        ctx = Ctx(self, func, this, args, h0, h0)
        self.entry_args = args
        for a in self.axioms(self):
            self.assume(a)
        if con.requires:
            for nm, f in norm(con.requires(ctx)):
                self.assume(f)
        if prefix == []:
            o = Ob(self.fn_label, 'cover: preconditions satisfiable', 'cover', list(self.hyps), BoolVal(False))
            self.obs.append(o)
        self.frame = Frame(func, vars_, this)
        ret, thrown = None, None
        try:
            try:
                if func.name == '<ctor>':
                    self.run_inits(func, this)
                self.exec_body(func)
                ret = VOID
            except Return as r:
                ret = r.v
            except Throw as t:
                thrown = t
        except PathEnd:
            return
        h = Heap(self, dict(self.heap))
        self.heap_h0_fill()
        ctx2 = Ctx(self, func, this, args, h0, h, None)
        ctx2.args1 = [self.exit_arg(v) for v in raw]
        if thrown is None:
            ctx2.ret = self.ret_plain(ret)
            ctx2.rawret = ret
            if con.throws is not None:
                self.oblige('returns normally only when it should', Not(con.throws(ctx)), 'post')
            if con.ensures:
                for nm, f in norm(con.ensures(ctx2)):
                    self.oblige('post: ' + nm, f)
            self.normal_paths += 1
            if self.opos >= len(self.prefix):
                covers.append(Ob(self.fn_label, 'cover: exit reachable', 'cover', list(self.hyps), BoolVal(False)))
        else:
            if con.throws is None and not con.may_throw:
                self.oblige('no exception escapes (%s)' % thrown.typ, BoolVal(False), 'post')
                return
            if con.throws is not None:
                self.oblige('throws only when it should', con.throws(ctx), 'post')
            if con.ensures_throw:
                for nm, f in norm(con.ensures_throw(ctx2)):
                    self.oblige('post on exception: ' + nm, f)
            covers.append(Ob(self.fn_label, 'cover: exceptional exit reachable', 'cover', list(self.hyps), BoolVal(False)))
        # frame
        r = Const('r', Ref)
        self.heap_get('$alloc')
        al0 = self.heap0['$alloc']
        for key, arr in self.heap.items():
            if key in con.modifies:
                continue
            old = self.heap0[key]
            if arr.eq(old):
                continue
            if key == '$alloc':
                if '$alloc' not in con.modifies and '$new' not in con.modifies:
                    # objects that were allocated stay allocated
                    self.oblige('frame: no existing object is destroyed', ForAll([r], Implies(Select(al0, r), Select(arr, r))), 'frame')
                continue
            self.oblige('frame: %s unchanged' % key, ForAll([r], Implies(Select(al0, r), Select(arr, r) == Select(old, r))), 'frame')
        for i, v in enumerate(raw):
            if isinstance(v, Loc) and i not in con.modargs:
                if not z3.simplify(args[i] == ctx2.args1[i]).eq(BoolVal(True)):
                    self.oblige('frame: argument %d unchanged' % i, args[i] == ctx2.args1[i], 'frame')

    def heap_h0_fill(self):
        pass

    def ret_plain(self, ret):
        if ret is VOID or ret is None:
            return None
        return self.plain(ret)

    def plain(self, v):
        if isinstance(v, Loc):
            v = v.load()
        if isinstance(v, Obj):
            return v.ref
        if isinstance(v, Iter):
            return v.idx
        return v

    def exit_arg(self, v):
        if isinstance(v, Loc):
            return v.load()
        if isinstance(v, Obj):
            return v.ref
        return v

    def param_value(self, name, ct, node=None):
        base = ct.noref()
        if ct.ptr.endswith('&') or True:
            s = self.sort_of(base)
            if s == Ref and not base.ptr and base.name not in SMART and base.short not in self.values and base.name != 'std::function':
                v = Const(name, Ref)
                self.assume(v != null)
                self.assume(Select(self.heap_get('$alloc'), v))
                if base.short in self.ix.classes:
                    self.assume(self.is_a(v, base.short))
                return Obj(v, base.short)
            v = Const(name, s)
            r = self.range_of(base, v)
            if r is not None:
                self.assume(r)
            if s == Ref and base.ptr == '*' or base.name in SMART:
                self.assume(Or(v == null, Select(self.heap_get('$alloc'), v)))
            if ct.ptr.endswith('&'):
                return VarLoc(self, 'arg:' + name, name, base, v)
            return v

    # --------------------------------------------------------- function bodies
    def run_inits(self, func, this):
        done = set()
        for it in func.inits:
            inner = it.get('inner', [])
            if 'anyInit' in it:
                fname = it['anyInit'].get('name')
                fi = self.ix.find_field(func.cls, fname)
                key = '%s.%s' % (fi[0], fname)
                ct = ctype(fi[1])
                done.add(fname)
                if inner and inner[0].get('kind') == 'CXXDefaultInitExpr':
                    self.default_field(fi, key, this)
                    continue
                if ct.name in IGNORED:
                    continue
                if ct.ptr.endswith('&'):
                    v = self.eval(inner[0])
                    if isinstance(v, InitList) and len(v.vals) == 1:
                        v = v.vals[0]
                    self.field_store(key, this, v.ref if isinstance(v, Obj) else self.plain(v))
                    continue
                self.init_into(key, this, ct, inner[0])
            elif 'baseInit' in it:
                if inner:
                    self.construct_on(this, inner[0])
        # fields with neither a written nor a default initialiser keep an arbitrary value

    def default_field(self, fi, key, this):
        node = fi[1]
        ini = [c for c in node.get('inner', []) if 'Comment' not in c.get('kind', '') and 'Attr' not in c.get('kind', '')]
        if not ini:
            raise Unsupported('default member initialiser not visible for ' + key)
        self.init_into(key, this, ctype(node), ini[0])

    def init_into(self, key, ref, ct, node):
        if self.is_object_type(ct):
            # embedded object: gets an identity of its own
            o = self.eval(node)
            if isinstance(o, InitList) and len(o.vals) == 1:
                o = o.vals[0]
            self.field_store(key, ref, o.ref if isinstance(o, Obj) else self.plain(o))
            return
        v = self.rvalue(node)
        if ct.ptr and isinstance(v, InitList) and len(v.vals) == 1:
            v = self.plain(v.vals[0])
        v = self.convert(v, ct)
        self.field_store(key, ref, v)

    def field_store(self, key, ref, v):
        self.wrote('h', key)
        self.heap[key] = Store(self.heap_get(key), ref, v)

    def construct_on(self, ref, node):
        """Run the constructor call `node` on an existing object."""
        n = strip(node)
        if n.get('kind') not in ('CXXConstructExpr', 'CXXTemporaryObjectExpr', 'CXXInheritedCtorInitExpr'):
            raise Unsupported('base initialiser ' + n.get('kind', ''))
        cls = ctype(n).short
        args = n.get('inner', [])
        self.call_ctor(cls, ref, args, n)

    def call_ctor(self, cls, ref, argnodes, node):
        want = node.get('ctorType', {}).get('qualType')
        fs = [f for f in self.ix.find_methods(cls, '<ctor>') if f.cls == cls]
        cand = [f for f in fs if want and f.qual.replace(' noexcept', '') == want.replace(' noexcept', '')]
        if not cand:
            cand = [f for f in fs if len(f.params) == len(argnodes)]
        if not cand:
            raise Unsupported('constructor of %s not found' % cls)
        f = cand[0]
        cons = self.contract_for(f)
        if cons is not None:
            return self.apply_contract(cons, f, ref, self.bind_args(f, argnodes))
        if f.body is None:
            if len(argnodes) == 1 and len(f.params) == 1 and ctype(f.params[0]).noref().nocv().short == cls:
                src = self.eval(argnodes[0])
                return self.copy_fields(cls, self.plain(src), ref)
            if not argnodes and f.default:
                return
            raise Unsupported('constructor of %s has no visible body' % cls)
        self.inlined.add(f.key)
        self.call_body(f, ref, self.bind_args(f, argnodes))

    def copy_fields(self, cls, src, dst):
        for c in self.ix.supers(cls):
            ci = self.ix.classes.get(c)
            if ci is None or not ci.complete:
                raise Unsupported('copy of incomplete class ' + c)
            for fname, node in ci.fields.items():
                key = '%s.%s' % (c, fname)
                ct = ctype(node)
                if ct.name in IGNORED:
                    continue
                v = Select(self.heap_get(key), src)
                if self.is_object_type(ct):
                    o = self.new_object(ct.short)
                    self.copy_fields(ct.short, v, o)
                    v = o
                self.field_store(key, dst, v)

    def is_object_type(self, ct):
        return (not ct.ptr) and self.sort_of(ct) == Ref and ct.name not in SMART and ct.short not in self.values and ct.name != 'std::function' and ct.name != 'std::type_info'

    def exec_body(self, func):
        b = func.body
        if b.get('kind') == 'CXXTryStmt':
            raise Unsupported('function try block')
        self.stmt(b)

    def bind_args(self, f, argnodes):
        out = []
        for i, p in enumerate(f.params):
            pct = ctype(p)
            if i < len(argnodes) and argnodes[i].get('kind') != 'CXXDefaultArgExpr':
                a = argnodes[i]
                if pct.ptr.endswith('&'):
                    v = self.eval(a)
                    if not isinstance(v, (Loc, Obj, Iter, Closure, FnPtr, PairV)):
                        v = TempLoc(v) if isinstance(v, (z3.ExprRef, bool, int)) else v
                    out.append(v)
                else:
                    v = self.rvalue(a)
                    if isinstance(v, Iter):
                        v = Iter(v.loc, v.idx, v.rev, v.kind, v.snap, v.key)
                    out.append(v if isinstance(v, (Closure, Iter, FnPtr, Obj, InitList)) else self.convert(v, pct))
            else:
                ini = [c for c in p.get('inner', []) if 'Comment' not in c.get('kind', '')]
                if not ini:
                    raise Unsupported('default argument not visible in ' + f.key)
                out.append(self.convert(self.rvalue(ini[0]), pct))
        return out

    def call_body(self, f, this, args):
        if self.depth > 12:
            raise Unsupported('inlining too deep at ' + f.key)
        self.depth += 1
        saved = self.frame
        vars_ = {}
        for p, v in zip(f.params, args):
            vars_[p['id']] = VarLoc(self, p['id'], p.get('name'), ctype(p), v)
        self.frame = Frame(f, vars_, this)
        try:
            if f.name == '<ctor>':
                self.run_inits(f, this)
            self.exec_body(f)
            return VOID
        except Return as r:
            return r.v
        finally:
            self.frame = saved
            self.depth -= 1

    # ----------------------------------------------------------- contracts
    def contract_for(self, f, direct=False):
        cs = [c for c in self.contracts.get(f.key, ()) if c.direct == direct]
        if direct:
            return cs[0] if cs else None
        if not cs and f.virtual and f.cls:
            for b in self.ix.supers(f.cls)[1:]:
                cs = [c for c in self.contracts.get(b + '::' + f.name, ()) if not c.direct]
                if cs:
                    break
        if not cs:
            return None
        if f.key in getattr(self.current, 'hide', ()):
            return None
        for c in cs:
            if (c.nparams is None or c.nparams == len(f.params)) and (c.sel is None or c.sel(f)):
                return c
        return None

    def apply_contract(self, con, f, this, args):
        self.used_contracts.add(con.fn)
        if con.trusted:
            self.trusted_used.add(con.fn)
        pv = []
        for a in args:
            pv.append(self.exit_arg(a) if not isinstance(a, (Closure, FnPtr)) else a)
        for k in con.modifies + con.touches_new:
            if k != '$new':
                self.heap_get(k)
        h0d = dict(self.heap)
        h0 = Heap(self, h0d)
        ctx = Ctx(self, f, this, pv, h0, h0)
        if con.requires:
            for nm, g in norm(con.requires(ctx)):
                self.oblige('call %s: requires %s' % (con.fn, nm), g, 'pre')
                self.assume(g)
        if con.model is not None:
            self.trusted_used.add(con.fn + ' (model)')
            return con.model(self, f, this, pv)
        threw = False
        if con.throws is not None:
            threw = self.branch(con.throws(ctx))
        elif con.may_throw:
            threw = self.choose(2) == 1
        for k in con.modifies:
            if k == '$new':
                continue
            self.havoc_heap(k)
        r = Const('r', Ref)
        for k in con.touches_new:
            if k in con.modifies:
                continue
            old = self.heap_get(k)
            self.havoc_heap(k)
            al = h0.arr('$alloc')
            new = self.heap[k]
            self.assume(ForAll([r], Implies(Select(al, r), Select(new, r) == Select(old, r)), patterns=[Select(new, r)]))
        if '$alloc' in con.modifies or '$new' in con.modifies:
            if '$alloc' not in con.modifies:
                old = self.heap_get('$alloc')
                self.havoc_heap('$alloc')
                self.assume(ForAll([r], Implies(Select(old, r), Select(self.heap['$alloc'], r)), patterns=[Select(self.heap['$alloc'], r)]))
        for i in con.modargs:
            if isinstance(args[i], Loc):
                s = args[i].load()
                args[i].store(self.fresh('out%d' % i, s.sort()))
        ctx2 = Ctx(self, f, this, pv, h0, Heap(self, dict(self.heap)))
        ctx2.args1 = [self.exit_arg(a) if not isinstance(a, (Closure, FnPtr)) else a for a in args]
        if threw:
            if con.ensures_throw:
                for nm, g in norm(con.ensures_throw(ctx2)):
                    self.assume(g)
            raise Throw(con.exc)
        rt = f.ret
        ret = VOID
        if f.name == '<ctor>':
            ret = VOID
        elif not (rt.name == 'void' and not rt.ptr):
            ret = self.fresh_ret(con, rt)
            ctx2.ret = self.plain(ret)
        if con.ensures:
            for nm, g in norm(con.ensures(ctx2)):
                self.assume(g)
        if isinstance(ret, z3.ExprRef) and rt.ptr.endswith('&') and self.sort_of(rt.noref()) != Ref:
            return TempLoc(ret)
        return ret

    def fresh_ret(self, con, rt):
        base = rt.noref()
        if 'iterator' in base.name:
            raise Unsupported('contract on a function returning an iterator')
        v = self.fresh_of('ret.' + con.fn, base)
        if self.is_object_type(base):
            self.assume(v != null)
            if base.short in self.ix.classes:
                self.assume(self.is_a(v, base.short))
            return Obj(v, base.short)
        return v

    # ---------------------------------------------------------- calling code
    def call_function(self, f, this, args, direct=False):
        """f: Func; args already bound."""
        if f.key in self.native:
            self.trusted_used.add(f.key + ' (model)')
            return self.native[f.key](self, this, args)
        con = self.contract_for(f, direct)
        if con is not None:
            return self.apply_contract(con, f, this, args)
        if f.body is None:
            raise Unsupported('call to %s: no contract and no visible body' % f.key)
        self.inlined.add(f.key)
        return self.call_body(f, this, args)

    def dispatch(self, cls, f, this, virtual_call=True):
        """Resolve a virtual call to the concrete override."""
        if not f.virtual or not virtual_call:
            return f
        if self.contract_for(f) is not None or f.key in self.native:
            cf = self.contract_for(f)
            return f
        over = []
        for s in self.ix.subs(cls):
            ci = self.ix.classes[s]
            g = [m for m in ci.methods.get(f.name, []) if len(m.params) == len(f.params)] if s != f.cls else []
            if g:
                over.append((s, g[0]))
        # most derived first
        over.sort(key=lambda x: -len(self.ix.supers(x[0])))
        for s, g in over:
            if g is f:
                continue
            if self.branch(self.is_a(this, s)):
                return g
        if f.pure:
            raise Unsupported('pure virtual ' + f.key)
        return f

    # ------------------------------------------------------------- statements
    def stmt(self, n):
        k = n.get('kind')
        m = getattr(self, 's_' + k, None)
        if m is not None:
            return m(n)
        self.eval(n)

    def s_CompoundStmt(self, n):
        for c in n.get('inner', []):
            self.stmt(c)

    def s_NullStmt(self, n):
        pass

    def s_DeclStmt(self, n):
        for d in n.get('inner', []):
            if d.get('kind') == 'VarDecl':
                self.declare(d)
            elif d.get('kind') in ('TypedefDecl', 'TypeAliasDecl', 'UsingDecl', 'StaticAssertDecl', 'UsingDirectiveDecl', 'CXXRecordDecl'):
                pass
            elif d.get('kind') == 'DecompositionDecl':
                raise Unsupported('structured binding')
            else:
                raise Unsupported('declaration ' + d.get('kind', ''))

    def declare(self, d):
        ct = ctype(d)
        ini = [c for c in d.get('inner', []) if 'Comment' not in c.get('kind', '') and 'Attr' not in c.get('kind', '')]
        loc = VarLoc(self, d['id'], d.get('name'), ct)
        self.wrote('v', d['id'])
        if ct.name in IGNORED:
            self.frame.vars[d['id']] = loc
            loc.val = VOID
            return loc
        if ct.ptr.endswith('&'):
            v = self.eval(ini[0])
            if not isinstance(v, (Loc, Obj, Iter, Closure)):
                v = TempLoc(v)
            loc.val = v
        elif ini:
            if ct.ptr.endswith('*') and '[' in d.get('type', {}).get('qualType', ''):
                v = self.rvalue(ini[0])
                loc.val = self.array_init(v, ct)
            else:
                v = self.rvalue(ini[0])
                if isinstance(v, (Closure, FnPtr, PairV)):
                    loc.val = v
                elif isinstance(v, Iter):
                    loc.val = Iter(v.loc, v.idx, v.rev, v.kind, v.snap, v.key)
                else:
                    loc.val = self.convert(v, ct)
        else:
            loc.val = self.default_value(ct, d.get('name'))
        self.frame.vars[d['id']] = loc
        return loc

    def array_init(self, v, ct):
        el = CType(ct.name, ct.args, ct.const, ct.ptr[:-1])
        S = seq(self.sort_of(el))
        s = S.empty
        if not isinstance(v, InitList):
            raise Unsupported('array initialiser')
        for x in v.vals:
            s = S.push(s, self.convert(x, el))
        return TempLoc(s)

    def default_value(self, ct, name='v'):
        s = self.sort_of(ct)
        if not ct.ptr:
            q = T.seq_by_sort(s)
            if q is not None:
                return q.empty
            q = T.map_by_sort(s)
            if q is not None:
                return q.empty
            if ct.name in ('std::shared_ptr', 'std::unique_ptr'):
                return null
            if self.is_object_type(ct):
                o = self.new_object(ct.short)
                return Obj(o, ct.short)
        return self.fresh_of('uninit.' + str(name), ct)

    def s_IfStmt(self, n):
        inner = list(n.get('inner', []))
        if n.get('hasInit'):
            self.stmt(inner.pop(0))
        if n.get('hasVar'):
            self.stmt(inner.pop(0))
        if n.get('isConstexpr'):
            cond = self.rvalue(inner[0])
        cond = self.truth(inner[0])
        if self.branch(cond):
            self.stmt(inner[1])
        elif n.get('hasElse'):
            self.stmt(inner[2])

    def s_ReturnStmt(self, n):
        inner = n.get('inner', [])
        if not inner:
            raise Return(VOID)
        rt = getattr(self.frame, 'ret', None) or (self.frame.func.ret if self.frame.func is not None else None)
        if rt is not None and rt.ptr.endswith('&'):
            v = self.eval(inner[0])
        else:
            v = self.rvalue(inner[0])
            if rt is not None and not isinstance(v, (Closure, Iter, FnPtr, PairV, Obj)):
                v = self.convert(v, rt)
        raise Return(v)

    def s_BreakStmt(self, n):
        raise Break()

    def s_ContinueStmt(self, n):
        raise Continue()

    def s_CXXTryStmt(self, n):
        inner = n['inner']
        try:
            self.stmt(inner[0])
        except Throw as t:
            for c in inner[1:]:
                ci = c.get('inner', [])
                d = ci[0] if ci and ci[0].get('kind') == 'VarDecl' else None
                if d is None or self.catches(ctype(d), t):
                    if d is not None:
                        self.frame.vars[d['id']] = VarLoc(self, d['id'], d.get('name'), ctype(d), TempLoc(t))
                    return self.stmt(ci[-1])
            raise

    HIER = {'std::out_of_range': ['std::logic_error', 'std::exception'], 'std::invalid_argument': ['std::logic_error', 'std::exception'],
            'std::runtime_error': ['std::exception'], 'std::domain_error': ['std::logic_error', 'std::exception'],
            'std::logic_error': ['std::exception']}

    def catches(self, ct, t):
        n = ct.noref().nocv().name
        if n in ('std::exception', 'exception'):
            return True
        if t.typ == 'std::exception':
            raise Unsupported('catch of an exception of unknown type')
        return n == t.typ or n in self.HIER.get(t.typ, [])

    # loops ------------------------------------------------------------------
    def number_loops(self, func):
        """Loops in the order of the source, descending into helpers that are
        inlined (not under contract)."""
        out = {}
        stack = []

        def walk(n):
            if not isinstance(n, dict):
                return
            k = n.get('kind')
            if k in ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt'):
                out.setdefault(n['id'], len(out))
            name = None
            if k == 'CallExpr':
                d = drill(n['inner'][0])
                if d.get('kind') == 'DeclRefExpr':
                    name = d.get('referencedDecl', {}).get('name')
                    if name in ('for_each', 'transform'):
                        out.setdefault(n['id'], len(out))
                    for f in self.ix.free.get(name, []):
                        if f.body is not None and self.contract_for(f) is None and f not in stack and f.key not in self.native and len(f.params) == len(n['inner']) - 1:
                            stack.append(f); 
                            for a in n['inner']:
                                walk(a)
                            walk(f.body); stack.pop()
                            return
            if k == 'CXXMemberCallExpr':
                me = drill(n['inner'][0])
                if me.get('kind') == 'MemberExpr':
                    b = me.get('inner', [{}])[0]
                    cn = ctype(b).noref()
                    cn = CType(cn.name, cn.args).short
                    for f in self.ix.find_methods(cn, me.get('name')):
                        if f.body is not None and self.contract_for(f) is None and f not in stack and f.key not in self.native and len(f.params) >= len(n['inner']) - 1:
                            stack.append(f)
                            for a in n['inner']:
                                walk(a)
                            walk(f.body); stack.pop()
                            return
            for c in n.get('inner', []):
                walk(c)
        for it in func.inits:
            walk(it)
        walk(func.body)
        return out

    def loop_spec(self, node):
        o = self.loops_of.get(node['id'])
        if o is None or o >= len(self.current.loops) or self.current.loops[o] is None:
            raise Unsupported('loop %s of %s has no invariant' % (o, self.fn_label))
        return self.current.loops[o], o

    def all_vars(self):
        return self.frame.vars

    def run_loop(self, node, cond, body, inc, kloc=None, seqv=None, post_test=False):
        """cond/body/inc are python thunks."""
        if self.discover_depth:
            # write discovery: one abstract iteration is enough
            self.discover_iter(cond, body, inc, post_test)
            return
        spec, ordn = self.loop_spec(node)
        frame = self.frame
        pre_heap = Heap(self, dict(self.heap))
        prevals = {vid: self.snapval(v) for vid, v in frame.vars.items()}

        def lctx():
            L = LoopCtx(self, frame.func, frame.this, None, Heap(self, self.h0d), Heap(self, dict(self.heap)))
            L.vars, L.prevals, L.pre = frame.vars, prevals, pre_heap
            L.fn_args = None
            L.kloc = kloc
            if kloc is not None:
                L.k = self.plain(kloc.load())
            L.seq = seqv.load() if isinstance(seqv, Loc) else seqv
            L.entry = self
            return L

        # (an inlined function or lambda is analysed once per set of referenced variables)
        key = (node['id'], tuple(sorted((k, v.val.vid) for k, v in frame.vars.items() if isinstance(v.val, VarLoc))))
        if key not in self._loopmods:
            self._loopmods[key] = self.discover(cond, body, inc, post_test)
        mods = self._loopmods[key]
        mvars = [frame.vars[v] for k, v in mods if k == 'v' and v in frame.vars]
        allv = [(v, k) for k, v in mods]
        if kloc is None:
            # detect the cursor
            its = [v for v in mvars if isinstance(v.val, Iter)]
            ints = [v for v in mvars if isinstance(v.val, z3.ExprRef) and v.val.sort() == INT]
            kl = its[0] if len(its) == 1 else (ints[0] if len(ints) == 1 and not its else None)
            kloc = kl
        user_spec = spec
        top = self.current
        al0 = self.heap0.get('$alloc')

        def spec(L):
            out = list(norm(user_spec(L)))
            r = Const('r', Ref)
            for kd, hk in sorted(mods, key=str):
                if kd != 'h' or hk in top.modifies:
                    continue
                if hk == '$alloc':
                    if '$new' in top.modifies:
                        out.append(('frame: nothing that existed is destroyed', ForAll([r], Implies(Select(al0, r), Select(self.heap[hk], r)), patterns=[Select(self.heap[hk], r)])))
                    continue
                out.append(('frame: %s of objects that existed' % hk, ForAll([r], Implies(Select(al0, r), Select(self.heap_get(hk), r) == Select(self.heap0[hk], r)), patterns=[Select(self.heap_get(hk), r)])))
            return out
        # entry
        for nm, f in norm(spec(lctx())):
            self.oblige('loop %d: invariant holds on entry: %s' % (ordn, nm), f, 'inv')
        # arbitrary iteration
        for k, v in sorted(mods, key=str):
            if k == 'h':
                self.havoc_heap(v)
        done = set()
        for k, v in sorted(mods, key=str):
            if k == 'v' and v not in done:
                loc = self.find_var(v)
                if loc is not None:
                    done.add(v)
                    self.havoc_var(loc)
        if kloc is not None and isinstance(kloc, VarLoc) and kloc.vid not in done and seqv is not None:
            self.havoc_var(kloc)
        for nm, f in norm(spec(lctx())):
            self.assume(f)
        w = set()
        self.writes.append(w)

        def back():
            self.writes.remove(w)
            for k, v in w:
                if (k, v) not in mods and (k == 'h' or self.find_var(v) is not None and v in prevals):
                    raise Unsupported('internal: loop writes not covered: %s' % ((k, v),))
            for nm, f in norm(spec(lctx())):
                self.oblige('loop %d: invariant preserved: %s' % (ordn, nm), f, 'inv')
            raise PathEnd()

        try:
            if post_test:
                try:
                    body()
                except Continue:
                    pass
                if self.branch(cond()):
                    back()
            else:
                if self.branch(cond()):
                    try:
                        body()
                    except Continue:
                        pass
                    inc()
                    back()
        except Break:
            pass
        finally:
            if w in self.writes:
                self.writes.remove(w)

    def snapval(self, v):
        try:
            x = v.val
            if isinstance(x, Iter):
                return Iter(x.loc, x.idx, x.rev, x.kind, x.snap, x.key)
            if isinstance(x, TempLoc):
                return x.val
            if isinstance(x, VarLoc):
                return self.snapval(x)
            if isinstance(x, Loc) and not isinstance(x, Obj):
                return x.load()
            return x
        except Unsupported:
            return None

    def find_var(self, vid):
        if vid in self.frame.vars:
            v = self.frame.vars[vid]
            return v
        return self.retired.get(vid)

    def havoc_var(self, loc):
        v = loc.val
        self.wrote('v', loc.vid)
        if isinstance(v, Iter):
            i = self.fresh(str(loc.name) + '.it', INT)
            loc.val = Iter(v.loc, i, v.rev, v.kind, None, None)
            s = v.loc.load()
            ln = self.clen(s)
            self.assume(And(0 <= i, i <= ln))
        elif isinstance(v, z3.ExprRef):
            loc.val = self.fresh(str(loc.name), v.sort())
            ct = loc.ct
            if ct is not None:
                r = self.range_of(ct, loc.val)
                if r is not None:
                    self.assume(r)
        elif isinstance(v, TempLoc) and isinstance(v.val, z3.ExprRef):
            v.val = self.fresh(str(loc.name), v.val.sort())
        elif isinstance(v, Obj):
            loc.val = Obj(self.fresh(str(loc.name), Ref), v.cls)
        elif isinstance(v, Loc):
            # a reference: its target is havocked through its own location
            pass
        elif v is None or v is VOID:
            pass
        else:
            raise Unsupported('cannot havoc local ' + str(loc.name))

    def clen(self, s):
        q = T.seq_by_sort(s.sort())
        if q is not None:
            return q.len(s)
        q = T.map_by_sort(s.sort())
        return q.size(s)

    def discover(self, cond, body, inc, post_test):
        """Over-approximate what the loop writes by executing its body on all
        paths with recording on (no obligations)."""
        mods = set()
        saved = (self.prefix, self.opos, self.queue, list(self.hyps), self.feas, self.nfresh)
        sheap = dict(self.heap)
        svars = {id(v): (v, v.val) for v in self.live_vars()}
        tl = [(v, v.val) for v in (x.val for x in self.live_vars()) if isinstance(v, TempLoc)]
        sframe_vars = dict(self.frame.vars)
        sframe = self.frame
        sdepth = self.depth
        self.discover_depth += 1
        q = [[]]
        n = 0
        while q and n < 300:
            pre = q.pop()
            n += 1
            self.prefix, self.opos, self.queue = pre, 0, []
            self.hyps = list(saved[3])
            self.feas = z3.Solver()
            w = set()
            self.writes.append(w)
            sw = list(self.writes)
            try:
                self.discover_iter(cond, body, inc, post_test)
            except (PathEnd, Return, Throw, Break, Continue):
                pass
            except Unsupported as e:
                pass
            self.writes = sw
            self.writes.remove(w)
            q += self.queue
            mods |= w
            self.heap = dict(sheap)
            for v, x in svars.values():
                v.val = x
            for v, x in tl:
                v.val = x
            self.frame = sframe
            self.frame.vars = dict(sframe_vars)
            self.depth = sdepth
        self.discover_depth -= 1
        self.prefix, self.opos, self.queue, self.hyps, self.feas, self.nfresh = saved
        for w in self.writes:
            w |= mods
        known = {v.vid for v in self.live_vars()}
        return {(k, v) for k, v in mods if k == 'h' or v in known}

    def live_vars(self):
        out = list(self.frame.vars.values())
        seen = {id(x) for x in out}
        todo = list(out)
        while todo:
            v = todo.pop()
            x = v.val
            if isinstance(x, VarLoc) and id(x) not in seen:
                seen.add(id(x)); out.append(x); todo.append(x)
        for x in out:
            self.retired[x.vid] = x
        return out

    def discover_iter(self, cond, body, inc, post_test):
        if not post_test:
            cond()
        try:
            body()
        except Continue:
            pass
        except Break:
            return
        inc()
        cond()

    def s_ForStmt(self, n):
        init, var, cond, inc, body = (n.get('inner', []) + [{}] * 5)[:5]
        if init:
            self.stmt(init)
        self.run_loop(n, (lambda: self.truth(cond)) if cond else (lambda: BoolVal(True)), lambda: self.stmt(body),
                      (lambda: self.eval(inc)) if inc else (lambda: None))

    def s_WhileStmt(self, n):
        inner = [c for c in n.get('inner', [])]
        cond, body = inner[-2], inner[-1]
        self.run_loop(n, lambda: self.truth(cond), lambda: self.stmt(body), lambda: None)

    def s_DoStmt(self, n):
        body, cond = n['inner'][0], n['inner'][1]
        self.run_loop(n, lambda: self.truth(cond), lambda: self.stmt(body), lambda: None, post_test=True)

    def s_CXXForRangeStmt(self, n):
        inner = n['inner']
        # init?, range decl, begin, end, cond, inc, loop var decl, body
        rng = inner[1]['inner'][0]
        loopvar, body = inner[-2], inner[-1]
        rinit = [c for c in rng.get('inner', [])][0]
        coll = self.eval(rinit)
        if isinstance(coll, InitList):
            raise Unsupported('range-for over an initializer list')
        if not isinstance(coll, Loc):
            coll = TempLoc(coll)
        self.range_loop(n, coll, lambda loc: self.bind_range_var(loopvar, loc, body))

    def bind_range_var(self, loopvar, loc, body):
        d = loopvar['inner'][0]
        if d.get('kind') != 'VarDecl':
            raise Unsupported('structured binding')
        ct = ctype(d)
        v = VarLoc(self, d['id'], d.get('name'), ct)
        if ct.ptr.endswith('&'):
            x = loc
            base = ct.noref()
            if self.is_object_type(base):
                x = Obj(loc.load(), base.short)
            v.val = x
        else:
            x = loc.load()
            if self.is_object_type(ct):
                x = Obj(x, ct.short)
            v.val = x
        self.frame.vars[d['id']] = v
        self.stmt(body)

    def range_loop(self, n, coll, body):
        kid = n['id'] + ':k'
        k = VarLoc(self, kid, '$k', parse_type('unsigned long'), IntVal(0))
        self.frame.vars[kid] = k

        def cond():
            return k.load() < self.clen(coll.load())

        def b():
            s = coll.load()
            before = s
            q = T.seq_by_sort(s.sort())
            if q is not None:
                loc = ElemLoc(self, coll, k.load())
            else:
                M = T.map_by_sort(s.sort())
                self.ordered(coll, s)
                key = M.keyat(s, k.load())
                if M.V == BOOL and getattr(coll, 'isset', True) and self.is_set(coll):
                    loc = TempLoc(key)
                else:
                    loc = MapEntryLoc(self, coll, key)
            body(loc)
            after = coll.load()
            if not after.eq(before) and not self.discover_depth:
                # overwriting elements in place is fine, structural change is not
                self.safety('container not restructured while iterated', self.clen(after) == self.clen(before))

        def inc():
            k.store(k.load() + 1)
        self.run_loop(n, cond, b, inc, kloc=k, seqv=coll)

    def ordered(self, loc, s):
        """the theory of maps with integer keys lists the keys in increasing order"""
        ct = getattr(loc, 'ct', None)
        if T.map_by_sort(s.sort()).K == INT and ct is not None and ct.noref().name.startswith('std::unordered'):
            raise Unsupported('iteration over an unordered container of integers')

    def is_set(self, loc):
        ct = getattr(loc, 'ct', None)
        return ct is not None and ct.name in ('std::set', 'std::unordered_set')

    # ------------------------------------------------------------ expressions
    def rvalue(self, n):
        v = self.eval(n)
        if isinstance(v, Loc):
            if isinstance(v, VarLoc) and isinstance(v.val, (Loc, Obj)):
                v = v.val
                if isinstance(v, Obj):
                    return v
                return v.load()
            return v.load()
        return v

    def truth(self, n):
        v = self.rvalue(n)
        return self.as_bool(v)

    def as_bool(self, v):
        if isinstance(v, bool):
            return BoolVal(v)
        if isinstance(v, Obj):
            v = v.ref
        if not isinstance(v, z3.ExprRef):
            raise Unsupported('condition of kind %s' % type(v).__name__)
        s = v.sort()
        if s == BOOL:
            return v
        if s == INT:
            return v != 0
        if s == Ref:
            return v != null
        if s == F64:
            return Not(T.f_eq(v, T.fin(0)))
        raise Unsupported('condition of sort %s' % s)

    def convert(self, v, ct):
        """value conversion to a declared type"""
        if isinstance(v, Loc):
            v = v.load()
        if isinstance(v, (Closure, Iter, FnPtr, PairV)) or v is VOID:
            return v
        base = ct.noref()
        if isinstance(v, InitList):
            return self.from_initlist(v, base)
        if isinstance(v, Obj):
            if base.ptr.startswith('*') or base.name in SMART:
                return v.ref
            return v
        if not isinstance(v, z3.ExprRef):
            raise Unsupported('conversion of %r' % (v,))
        want = self.sort_of(base)
        if v.sort() == want:
            if want == INT and base.name in INT_RANGES and not base.ptr:
                return self.wrap(v, base)
            if want == Ref and self.is_object_type(base):
                return Obj(v, base.short)
            return v
        if want == BOOL:
            return self.as_bool(v)
        if want == INT and v.sort() == BOOL:
            return If(v, IntVal(1), IntVal(0))
        if want == F64 and v.sort() == INT:
            return F64.fin(z3.ToReal(v))
        if want == F64 and v.sort() == BOOL:
            return F64.fin(If(v, z3.RealVal(1), z3.RealVal(0)))
        if want == INT and v.sort() == F64:
            r = F64.r(v)
            self.safety('float to integer conversion of a finite value', F64.is_fin(v))
            t = If(r >= 0, z3.ToInt(r), -z3.ToInt(-r))
            return self.wrap(t, base)
        raise Unsupported('conversion from %s to %s' % (v.sort(), ct))

    def from_initlist(self, v, ct):
        s = self.sort_of(ct)
        q = T.seq_by_sort(s)
        if q is not None and ct.args:
            r = q.empty
            for x in v.vals:
                r = q.push(r, self.plain(self.convert(x, ct.args[0])))
            return r
        st = T.struct_by_sort(s)
        if st is not None:
            fs = st[1]
            if ct.name == 'std::pair':
                return st[0].mk(*[self.plain(self.convert(x, a)) for x, a in zip(v.vals, ct.args)])
            vals = []
            for (f, fsrt), x in zip(fs, v.vals):
                vals.append(self.plain(self.convert(x, ctype(self.ix.find_field(ct.short, f)[1]))))
            return st[0].mk(*vals)
        if len(v.vals) == 1:
            return self.convert(v.vals[0], ct)
        if len(v.vals) == 0:
            return self.default_term(ct)
        raise Unsupported('initialiser list for %s' % ct)

    def wrap(self, v, ct):
        """reduce a mathematical integer into the range of an integer type"""
        r = INT_RANGES.get(ct.name)
        if not r or ct.ptr.replace('&', ''):
            return v
        lo, hi = r
        if z3.is_int_value(v):
            x = v.as_long()
            if lo <= x <= hi:
                return v
            m = hi - lo + 1
            return IntVal((x - lo) % m + lo)
        return v      # range handled at the operations that can leave it

    def eval(self, n):
        k = n.get('kind')
        m = getattr(self, 'e_' + k, None)
        if m is None:
            raise Unsupported('expression ' + str(k))
        return m(n)

    # -- trivial wrappers
    def sub(self, n):
        return [c for c in n.get('inner', []) if 'Comment' not in c.get('kind', '')]

    def passthru(self, n):
        return self.eval(self.sub(n)[0])

    e_ParenExpr = e_ExprWithCleanups = e_CXXBindTemporaryExpr = e_ConstantExpr = passthru
    e_SubstNonTypeTemplateParmExpr = passthru

    def e_MaterializeTemporaryExpr(self, n):
        v = self.passthru(n)
        return v

    def e_IntegerLiteral(self, n):
        return IntVal(int(n['value']))

    def e_CharacterLiteral(self, n):
        return IntVal(int(n['value']))

    def e_CXXBoolLiteralExpr(self, n):
        return BoolVal(n['value'] in (True, 'true'))

    def e_FloatingLiteral(self, n):
        from fractions import Fraction
        f = Fraction(n['value'])
        return F64.fin(z3.RealVal(str(f)))

    def e_StringLiteral(self, n):
        return self.strlit(n['value'])

    def strlit(self, s):
        if s not in self.strs:
            self.strs[s] = Const('str:' + s, Str)
        if self.distinct_strings:
            self.assume(STRID(self.strs[s]) == list(self.strs).index(s))
        return self.strs[s]

    def entry_alloc(self, r):
        """the object existed when the function under verification was called"""
        return Select(self.h0d['$alloc'] if '$alloc' in self.h0d else self.heap0['$alloc'], r)

    def strnum(self, c):
        return next(i for i, k in enumerate(self.strs) if self.strs[k].eq(c))

    def e_GNUNullExpr(self, n):
        return null

    def e_CXXNullPtrLiteralExpr(self, n):
        return null

    e_GNUNullExpr = e_CXXNullPtrLiteralExpr

    def e_ImplicitValueInitExpr(self, n):
        return self.zero(ctype(n))

    e_CXXScalarValueInitExpr = e_ImplicitValueInitExpr

    def zero(self, ct):
        s = self.sort_of(ct)
        if s == INT:
            return IntVal(0)
        if s == BOOL:
            return BoolVal(False)
        if s == F64:
            return T.fin(0)
        if s == Ref:
            return null
        raise Unsupported('zero of %s' % ct)

    def e_CXXThisExpr(self, n):
        return self.frame.this

    def e_CXXDefaultInitExpr(self, n):
        inner = self.sub(n)
        if inner:
            return self.eval(inner[0])
        raise Unsupported('default member initialiser')

    def e_DeclRefExpr(self, n):
        r = n['referencedDecl']
        k = r['kind']
        if k in ('VarDecl', 'ParmVarDecl', 'BindingDecl'):
            v = self.frame.vars.get(r['id'])
            if v is None:
                return self.global_var(r, n)
            if isinstance(v.val, (Obj,)):
                return v.val
            if isinstance(v.val, Loc):
                return v.val
            return v
        if k == 'EnumConstantDecl':
            if r['name'] in self.ix.enums:
                return IntVal(self.ix.enums[r['name']])
            return z3.Int('enum.' + r['name'])
        if k in ('FunctionDecl', 'CXXMethodDecl'):
            return FnPtr(r['name'])
        raise Unsupported('reference to ' + k)

    def global_var(self, r, n):
        for (c, nm), d in self.ix.gvars.items():
            if nm == r.get('name'):
                ini = [c for c in d.get('inner', []) if 'Comment' not in c.get('kind', '')]
                if ini and ('const' in d['type']['qualType']):
                    return self.eval(ini[0])
        if ctype(r).name in ('std::ostream', 'std::basic_ostream'):
            return VOID
        return TempLoc(Const('glob.' + r.get('name', '?'), self.sort_of(ctype(r))))

    def e_MemberExpr(self, n):
        base = self.sub(n)[0]
        name = n.get('name')
        b = self.eval(base)
        bt = ctype(base)
        if n.get('isArrow'):
            ref = self.plain(b)
            if isinstance(b, Iter):
                return self.member_of_loc(self.iter_deref(b), name)
            if isinstance(b, MapEntryLoc):
                return self.member_of_loc(b, name)
            if isinstance(b, PairV):
                return b.first if name == 'first' else b.second
            if isinstance(b, Loc) and isinstance(ref, z3.ExprRef) and T.struct_by_sort(ref.sort()) is not None:
                return self.member_of_loc(b, name)
            if not (isinstance(ref, z3.ExprRef) and ref.sort() == Ref):
                raise Unsupported('-> on ' + str(bt))
            self.nonnull(ref, name)
            cls = CType(bt.name, bt.args).short
            return self.field(ref, cls, name)
        if isinstance(b, VarLoc) and isinstance(b.val, (Obj, Loc)):
            b = b.val
        if isinstance(b, Obj):
            return self.field(b.ref, b.cls, name)
        if isinstance(b, Loc):
            return self.member_of_loc(b, name)
        if isinstance(b, PairV):
            return b.first if name == 'first' else b.second
        if isinstance(b, z3.ExprRef):
            st = T.struct_by_sort(b.sort())
            if st is not None:
                return st[2][name](b)
            if b.sort() == Ref:
                cls = CType(bt.name, bt.args).short
                return self.field(b, cls, name)
        raise Unsupported('member %s of %s' % (name, bt))

    def member_of_loc(self, loc, name):
        if isinstance(loc, Obj):
            return self.field(loc.ref, loc.cls, name)
        if isinstance(loc, MapEntryLoc):
            if name == 'first':
                return TempLoc(loc.key)
            return MapValLoc(self, loc.base, loc.key)
        v = loc.load()
        if isinstance(v, PairV):
            return v.first if name == 'first' else v.second
        if isinstance(v, z3.ExprRef) and T.struct_by_sort(v.sort()) is not None:
            return StructLoc(self, loc, name)
        if isinstance(v, z3.ExprRef) and v.sort() == Ref:
            ct = getattr(loc, 'ct', None)
            if ct is not None:
                return self.field(v, ct.noref().short, name)
        raise Unsupported('member ' + str(name))

    def nonnull(self, ref, what=''):
        if ref.get_id() in self.news or ref.eq(self.frame.this) if self.frame.this is not None else ref.get_id() in self.news:
            return
        if z3.is_const(ref) and ref.decl().name() == 'this':
            return
        self.safety('dereference of a null pointer (%s)' % what, ref != null)

    def field(self, ref, cls, name):
        fi = self.ix.find_field(cls, name)
        if fi is None:
            raise Unsupported('field %s::%s not found' % (cls, name))
        key = '%s.%s' % (fi[0], name)
        ct = ctype(fi[1])
        if ct.name in IGNORED:
            return VOID
        loc = FieldLoc(self, key, ref, ct)
        self.heap_get(key)
        base = ct.noref()
        if self.sort_of(base) == Ref and not base.ptr and base.name not in SMART and base.short not in self.values and base.name != 'std::function':
            o = loc.load()
            return Obj(o, base.short)
        return loc

    # -- casts
    def e_ImplicitCastExpr(self, n):
        ck = n.get('castKind')
        c = self.sub(n)[0]
        if ck == 'BitCast' and ctype(n).ptr == '*' and ctype(n).name == 'std::pair':
            v = self.eval(c)
            if isinstance(v, Calloc):
                t = ctype(n)
                e = CType(t.name, t.args)
                return seq(self.sort_of(e)).rep(v.n, self.default_term(e))
            return v
        if ck == 'LValueToRValue':
            v = self.eval(c)
            if isinstance(v, Loc):
                v = v.load()
                if isinstance(v, Loc):
                    v = v.load()
            return v
        if ck in ('NoOp', 'UncheckedDerivedToBase', 'DerivedToBase', 'FunctionToPointerDecay', 'ArrayToPointerDecay',
                  'ConstructorConversion', 'BuiltinFnToFnPtr', 'BitCast', 'AtomicToNonAtomic', 'NonAtomicToAtomic'):
            v = self.eval(c)
            return v
        if ck == 'UserDefinedConversion':
            return self.eval(c)
        if ck == 'BaseToDerived':
            v = self.eval(c)
            if isinstance(v, Obj):
                cls = ctype(n).noref().nocv()
                return Obj(v.ref, CType(cls.name, cls.args).short)
            return v
        if ck == 'NullToPointer':
            return null
        if ck in ('IntegralCast', 'IntegralToFloating', 'FloatingToIntegral', 'FloatingCast', 'BooleanToSignedIntegral'):
            v = self.rvalue(c)
            ct = ctype(n)
            if ck == 'IntegralCast':
                if v.sort() == BOOL:
                    return If(v, IntVal(1), IntVal(0))
                return self.int_cast(v, ctype(c), ct)
            if ck == 'FloatingCast':
                return v
            return self.convert(v, ct)
        if ck in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean'):
            return self.as_bool(self.rvalue(c))
        if ck == 'ToVoid':
            self.eval(c)
            return VOID
        if ck == 'Dynamic':
            return self.dyncast(n, c)
        raise Unsupported('cast ' + str(ck))

    e_CStyleCastExpr = e_CXXStaticCastExpr = e_CXXFunctionalCastExpr = e_ImplicitCastExpr

    def e_CXXConstCastExpr(self, n):
        return self.eval(self.sub(n)[0])

    def int_cast(self, v, frm, to):
        a, b = INT_RANGES.get(frm.noref().name), INT_RANGES.get(to.name)
        if to.name in self.enum_names() or b is None or to.ptr:
            return v
        if z3.is_int_value(v):
            return self.wrap(v, to)
        if a and a[0] >= b[0] and a[1] <= b[1]:
            return v
        m = b[1] - b[0] + 1
        if a and a[1] - a[0] + 1 <= m:
            # same width, different signedness
            if b[0] == 0:
                return z3.simplify(If(v < 0, v + m, v))
            return z3.simplify(If(v > b[1], v - m, v))
        return If(And(v >= b[0], v <= b[1]), v, (v - b[0]) % m + b[0])

    def e_CXXDynamicCastExpr(self, n):
        return self.dyncast(n, self.sub(n)[0])

    def dyncast(self, n, c):
        v = self.rvalue(c)
        t = ctype(n)
        cls = CType(t.name, t.args).short
        if t.ptr.startswith('*'):
            v = self.plain(v)
            return If(And(v != null, self.is_a(v, cls)), v, null)
        ref = self.plain(v)
        if not self.branch(self.is_a(ref, cls)):
            raise Throw('std::bad_cast')
        return Obj(ref, cls)

    # -- operators
    def e_UnaryOperator(self, n):
        op = n['opcode']
        c = self.sub(n)[0]
        if op == '*':
            v = self.rvalue(c)
            if isinstance(v, z3.ExprRef) and v.sort() == Ref:
                self.nonnull(v, '*')
                return self.deref_typed(v, ctype(n))
            if isinstance(v, Iter):
                return self.iter_deref(v)
            raise Unsupported('dereference')
        if op == '&':
            v = self.eval(c)
            if isinstance(v, VarLoc) and isinstance(v.val, Obj):
                v = v.val
            if isinstance(v, Obj):
                return v.ref
            if isinstance(v, FnPtr):
                return v
            raise Unsupported('address of a non-object')
        if op in ('++', '--'):
            loc = self.eval(c)
            old = loc.load()
            if isinstance(old, Iter):
                new = self.iter_step(old, 1 if op == '++' else -1)
            elif old.sort() == F64:
                new = T.f_add(old, T.fin(1 if op == '++' else -1))
            else:
                new = self.arith('+' if op == '++' else '-', old, IntVal(1), ctype(n).noref())
            loc.store(new)
            return old if n.get('isPostfix') else loc
        v = self.rvalue(c)
        if op == '!':
            return Not(self.as_bool(v))
        if op == '-':
            if v.sort() == F64:
                return z3.simplify(T.f_neg(v))
            return self.arith('-', IntVal(0), v, ctype(n))
        if op == '+':
            return v
        if op == '~':
            r = INT_RANGES.get(ctype(n).name)
            if r and r[0] == 0:
                return r[1] - v
            return -v - 1
        raise Unsupported('unary ' + op)

    def deref_typed(self, ref, ct):
        base = ct.noref()
        return Obj(ref, CType(base.name, base.args).short)

    def arith(self, op, a, b, ct):
        """integer arithmetic at type ct, exact wrap-around for unsigned"""
        r = INT_RANGES.get(ct.noref().name)
        uns = r is not None and r[0] == 0 and ct.noref().name != 'bool'
        if op == '+':
            x = a + b
        elif op == '-':
            x = a - b
        elif op == '*':
            x = a * b
        elif op == '/':
            self.safety('division by zero', b != 0)
            if uns:
                return a / b
            q = a / b
            return If(Or(And(a >= 0, b > 0)), q, self.tdiv(a, b))
        elif op == '%':
            self.safety('division by zero', b != 0)
            if uns:
                if not z3.is_int_value(b):
                    self.assume(And(0 <= a % b, a % b < b, Implies(And(0 <= a, a < b), a % b == a)))
                return a % b
            return a - b * self.tdiv(a, b)
        elif op == '<<':
            if z3.is_int_value(b):
                x = a * (2 ** b.as_long())
            elif z3.is_int_value(a) and a.as_long() == 1:
                x = self.pow2(b)
            else:
                x = a * self.pow2(b)
        elif op == '>>':
            if z3.is_int_value(b):
                return a / (2 ** b.as_long())
            return a / self.pow2(b)
        elif op in ('&', '|', '^'):
            return self.bitop(op, a, b, ct)
        else:
            raise Unsupported('operator ' + op)
        x = z3.simplify(x)
        if z3.is_int_value(x):
            return self.wrap(x, ct.noref())
        if uns:
            m = r[1] + 1
            if op == '+':
                return If(x >= m, x - m, x)
            if op == '-':
                return If(x < 0, x + m, x)
            return If(And(x >= 0, x < m), x, x % m)
        return x

    def tdiv(self, a, b):
        q = a / b    # z3: floor for b>0, ceil for b<0
        absdiv = If(a >= 0, a, -a) / If(b >= 0, b, -b)
        return If((a >= 0) == (b >= 0), absdiv, -absdiv)

    pow2f = z3.Function('pow2', INT, INT)

    def pow2(self, b):
        return self.pow2f(b)

    def as_bit(self, a):
        """the condition of a boolean promoted to an integer"""
        if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE and all(z3.is_int_value(x) and x.as_long() in (0, 1) for x in a.children()[1:]):
            t, e = (x.as_long() for x in a.children()[1:])
            c = a.arg(0)
            return c if (t, e) == (1, 0) else Not(c) if (t, e) == (0, 1) else BoolVal(t == 1)
        if z3.is_int_value(a) and a.as_long() in (0, 1):
            return BoolVal(a.as_long() == 1)
        return None

    def bitop(self, op, a, b, ct):
        if z3.is_int_value(a) and z3.is_int_value(b):
            x, y = a.as_long(), b.as_long()
            return IntVal({'&': x & y, '|': x | y, '^': x ^ y}[op])
        p, q = self.as_bit(a), self.as_bit(b)
        if p is not None and q is not None:
            return If({'&': And, '|': Or, '^': z3.Xor}[op](p, q), IntVal(1), IntVal(0))
        if op == '^':
            return T.xor(a, b)
        if op == '&' and z3.is_int_value(b):
            y = b.as_long()
            if y >= 0 and (y & (y + 1)) == 0:
                return a % (y + 1)
        f = z3.Function({'&': 'bitand', '|': 'bitor'}[op], INT, INT, INT)
        r = INT_RANGES.get(ct.noref().name)
        if r and r[0] == 0:
            self.assume(And(0 <= f(a, b), f(a, b) <= r[1], f(a, b) <= a if op == '&' else f(a, b) >= a))
        return f(a, b)

    def e_BinaryOperator(self, n):
        op = n['opcode']
        a, b = self.sub(n)
        if op == ',':
            self.eval(a)
            return self.eval(b)
        if op == '=':
            loc = self.eval(a)
            v = self.rvalue(b)
            if isinstance(loc, Obj):
                raise Unsupported('object assignment')
            loc.store(self.convert(v, ctype(a)))
            return loc
        if op in ('&&', '||'):
            x = self.truth(a)
            if impure(b):
                if op == '&&':
                    if not self.branch(x):
                        return BoolVal(False)
                    return self.truth(b)
                if self.branch(x):
                    return BoolVal(True)
                return self.truth(b)
            xs = z3.simplify(x)
            if z3.is_true(xs):
                return self.truth(b) if op == '&&' else BoolVal(True)
            if z3.is_false(xs):
                return BoolVal(False) if op == '&&' else self.truth(b)
            y = self.truth(b)
            return And(x, y) if op == '&&' else Or(x, y)
        x, y = self.rvalue(a), self.rvalue(b)
        if op in ('+', '-', '*', '/', '%', '<<', '>>', '&', '|', '^'):
            if isinstance(x, z3.ExprRef) and x.sort() == BOOL:
                x = If(x, IntVal(1), IntVal(0))
            if isinstance(y, z3.ExprRef) and y.sort() == BOOL:
                y = If(y, IntVal(1), IntVal(0))
            if not isinstance(x, z3.ExprRef) or not isinstance(y, z3.ExprRef):
                raise Unsupported('arithmetic on non-scalars')
            if x.sort() == F64 or y.sort() == F64:
                x, y = self.tof(x), self.tof(y)
                return z3.simplify({'+': T.f_add, '-': T.f_sub, '*': T.f_mul, '/': T.f_div}[op](x, y))
            if x.sort() != INT or y.sort() != INT:
                raise Unsupported('pointer arithmetic')
            return self.arith(op, x, y, ctype(n))
        return self.compare(op, x, y)

    def tof(self, x):
        return F64.fin(z3.ToReal(x)) if x.sort() == INT else x

    def compare(self, op, x, y):
        if isinstance(x, Obj):
            x = x.ref
        if isinstance(y, Obj):
            y = y.ref
        if isinstance(x, Iter) or isinstance(y, Iter):
            return self.iter_cmp(op, x, y)
        if x.sort() == BOOL and y.sort() == INT:
            x = If(x, IntVal(1), IntVal(0))
        if y.sort() == BOOL and x.sort() == INT:
            y = If(y, IntVal(1), IntVal(0))
        if x.sort() == F64 or y.sort() == F64:
            x, y = self.tof(x), self.tof(y)
            return {'<': lambda: T.f_lt(x, y), '>': lambda: T.f_lt(y, x), '<=': lambda: T.f_le(x, y), '>=': lambda: T.f_le(y, x),
                    '==': lambda: T.f_eq(x, y), '!=': lambda: Not(T.f_eq(x, y))}[op]()
        if x.sort() != y.sort() and op in ('==', '!=') and (x.eq(null) or y.eq(null)) and (T.seq_by_sort(x.sort()) or T.seq_by_sort(y.sort())):
            return BoolVal(op == '!=')      # an allocated buffer (allocation succeeds)
        if op == '==':
            return x == y
        if op == '!=':
            return x != y
        if x.sort() != INT:
            raise Unsupported('ordering comparison on %s' % x.sort())
        return {'<': lambda: x < y, '>': lambda: x > y, '<=': lambda: x <= y, '>=': lambda: x >= y}[op]()

    def e_CompoundAssignOperator(self, n):
        op = n['opcode'][:-1]
        a, b = self.sub(n)
        loc = self.eval(a)
        y = self.rvalue(b)
        x = loc.load()
        if isinstance(x, Loc):
            loc = x
            x = x.load()
        lt = ctype(a).noref()
        if x.sort() == F64 or y.sort() == F64:
            r = {'+': T.f_add, '-': T.f_sub, '*': T.f_mul, '/': T.f_div}[op](self.tof(x), self.tof(y))
            r = z3.simplify(r)
            loc.store(self.convert(r, lt))
            return loc
        crt = parse_type(n.get('computeResultType', {}).get('qualType', repr(lt)))
        if y.sort() == BOOL:
            y = If(y, IntVal(1), IntVal(0))
        if x.sort() == BOOL:
            x = If(x, IntVal(1), IntVal(0))
        loc.store(self.convert(self.arith(op, x, y, lt if INT_RANGES.get(lt.name) else crt), lt))
        return loc

    def e_ConditionalOperator(self, n):
        c, a, b = self.sub(n)
        cond = self.truth(c)
        if not impure(a) and not impure(b):
            x, y = self.eval(a), self.eval(b)
            if isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef) and x.sort() == y.sort():
                return If(cond, x, y)
        if self.branch(cond):
            return self.eval(a)
        return self.eval(b)

    def e_ArraySubscriptExpr(self, n):
        a, b = self.sub(n)
        t = ctype(a)
        if a.get('castKind') == 'LValueToRValue' and t.ptr == '*' and t.name == 'std::pair':
            a = self.sub(a)[0]
        base = self.eval(a)
        i = self.rvalue(b)
        if isinstance(base, VarLoc) and isinstance(base.val, TempLoc):
            base = base.val
        if isinstance(base, Loc):
            s = base.load()
            if isinstance(s, TempLoc):
                base = s; s = s.load()
            q = T.seq_by_sort(s.sort()) if isinstance(s, z3.ExprRef) else None
            if q is not None:
                self.safety('array index in bounds', And(0 <= i, i < q.len(s)))
                return ElemLoc(self, base, i)
        raise Unsupported('array subscript')

    def e_InitListExpr(self, n):
        ct = ctype(n)
        if not ct.ptr and ct.short in self.values and ct.short in self.ix.classes:
            return self.value_object(ct.short, self.sub(n))
        return InitList([self.rv_keep(c) for c in self.sub(n)])

    def value_object(self, cls, inits):
        """a value of an immutable class with the given members"""
        r = z3.FreshConst(Ref, 'value.' + cls)
        self.assume(r != null)
        fields = list(self.ix.classes[cls].fields.items()) if isinstance(self.ix.classes[cls].fields, dict) else [(f.get('name'), f) for f in self.ix.classes[cls].fields]
        if self.ix.classes[cls].bases or len(fields) != len(inits):
            raise Unsupported('aggregate initialisation of ' + cls)
        for (name, d), c in zip(fields, inits):
            ct = ctype(d)
            self.assume(Select(self.heap_get('%s.%s' % (cls, name)), r) == self.plain(self.convert(self.rvalue(c), ct)))
        return r

    def rv_keep(self, c):
        v = self.rvalue(c)
        return v

    def e_CXXStdInitializerListExpr(self, n):
        return self.eval(self.sub(n)[0])

    def e_LambdaExpr(self, n):
        rec = n['inner'][0]
        op = next(c for c in rec['inner'] if c.get('kind') == 'CXXMethodDecl' and c.get('name') == 'operator()')
        f = Func('operator()', '$lambda', op)
        return Closure(n, self.frame, f)

    def call_closure(self, cl, args):
        saved = self.frame
        vars_ = dict(cl.frame.vars)
        for p, v in zip(cl.func.params, args):
            ct = ctype(p)
            if not ct.ptr.endswith('&'):
                if isinstance(v, Loc):
                    v = v.load()
                base = ct
                if self.is_object_type(base) and isinstance(v, z3.ExprRef):
                    v = Obj(v, base.short)
            else:
                base = ct.noref()
                if isinstance(v, Loc) and self.is_object_type(base):
                    v = Obj(v.load(), base.short)
                if isinstance(v, z3.ExprRef):
                    v = TempLoc(v)
            vars_[p['id']] = VarLoc(self, p['id'], p.get('name'), ct, v)
        fr = Frame(cl.func, vars_, cl.frame.this)
        fr.ret = cl.func.ret
        self.frame = fr
        try:
            self.exec_body(cl.func)
            return VOID
        except Return as r:
            return r.v
        finally:
            self.frame = saved

    def pure_pred(self, cl, args):
        """Evaluate a lambda on symbolic arguments as a pure term (all paths
        merged with if-then-else)."""
        saved = (self.prefix, self.opos, self.queue, self.hyps, self.feas, self.writes, dict(self.heap))
        fresh0 = self.nfresh
        results = []
        q = [[]]
        base = list(self.hyps)
        n = 0
        sobs = len(self.obs)
        while q:
            n += 1
            if n > 64:
                raise Unsupported('lambda with too many paths')
            self.prefix, self.opos, self.queue = q.pop(), 0, []
            self.hyps = list(base)
            self.feas = z3.Solver(); self.feas.set('timeout', 100)
            for h in base:
                if not has_quant(h):
                    self.feas.add(h)
            w = set()
            self.writes = [w]
            pd = self.discover_depth
            self.discover_depth = 0
            try:
                v = self.call_closure(cl, list(args))
                v = self.plain(v)
            except PathEnd:
                q += self.queue
                continue
            except Throw as e:
                # a predicate that throws: ruled out as an obligation
                self.discover_depth = pd
                q += self.queue
                try:
                    self.safety('the predicate does not throw %s' % (e.typ,), BoolVal(False))
                except PathEnd:
                    pass
                continue
            except BaseException:
                self.prefix, self.opos, self.queue, self.hyps, self.feas, self.writes, self.heap = saved
                raise
            finally:
                self.discover_depth = pd
            if any(k == 'h' for k, _ in w):
                raise Unsupported('predicate with side effects')
            results.append((list(self.hyps[len(base):]), v))
            q += self.queue
        self.prefix, self.opos, self.queue, self.hyps, self.feas, self.writes, self.heap = saved
        if not results:
            raise PathEnd()
        results = [self.elim_fresh(h, v, fresh0) for h, v in results]
        r = results[-1][1]
        for h, v in reversed(results[:-1]):
            r = If(AND(h) if h else BoolVal(True), v, r)
        return r

    def elim_fresh(self, hyps, v, n0):
        """constants introduced while evaluating a predicate are replaced by
        their definitions (a predicate must be a function of its argument)"""
        def is_fresh(c):
            nm = c.decl().name()
            if z3.is_const(c) and c.decl().kind() == z3.Z3_OP_UNINTERPRETED and '!' in nm:
                try:
                    return int(nm.rsplit('!', 1)[1]) > n0
                except ValueError:
                    return False
            return False
        defs = []
        todo = list(hyps)
        flat = []
        while todo:
            h = todo.pop(0)
            if z3.is_and(h):
                todo = list(h.children()) + todo
            else:
                flat.append(h)
        changed = True
        while changed:
            changed = False
            for h in flat:
                if z3.is_eq(h):
                    a, b = h.children()
                    if z3.is_const(b) and is_fresh(b) and not (z3.is_const(a) and is_fresh(a)):
                        a, b = b, a
                    if z3.is_const(a) and is_fresh(a) and not occurs(a, b):
                        flat = [z3.substitute(x, (a, b)) for x in flat if not x.eq(h)]
                        v = z3.substitute(v, (a, b))
                        changed = True
                        break
                if z3.is_const(h) and h.sort() == BOOL and is_fresh(h):
                    flat = [z3.substitute(x, (h, BoolVal(True))) for x in flat if not x.eq(h)]
                    v = z3.substitute(v, (h, BoolVal(True)))
                    changed = True
                    break
        def any_fresh(e):
            st, seen = [e], set()
            while st:
                x = st.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if z3.is_quantifier(x):
                    st.append(x.body())
                elif z3.is_app(x):
                    if x.num_args() == 0 and is_fresh(x):
                        return True
                    st.extend(x.children())
            return False
        if any_fresh(v):
            raise Unsupported('predicate whose value is not a function of its argument')
        flat = [z3.simplify(x) for x in flat if not any_fresh(x)]
        return [x for x in flat if not z3.is_true(x)], v

    def e_CXXThrowExpr(self, n):
        inner = self.sub(n)
        if not inner:
            raise Throw('std::exception')
        t = ctype(inner[0]).noref().nocv().name
        if not t.startswith('std::'):
            t = 'std::' + t if t in ('runtime_error', 'out_of_range', 'invalid_argument', 'domain_error') else t
        raise Throw(t)

    def e_CXXTypeidExpr(self, n):
        ta = n.get('typeArg')
        if ta:
            t = parse_type(ta.get('desugaredQualType') or ta['qualType']).nocv()
            return Obj(self.typeid(repr(t)), 'type_info')
        x = self.sub(n)[0]
        v = self.eval(x)
        v = v.load() if isinstance(v, Loc) else v
        if not isinstance(v, Obj):
            raise Unsupported('typeid of an expression')
        self.nonnull(v.ref, 'typeid')
        if not self.polymorphic(v.cls):
            return Obj(self.typeid(v.cls), 'type_info')
        return Obj(self.dyntype(v.ref), 'type_info')

    def polymorphic(self, cls):
        return any(m.virtual for c in self.ix.supers(cls) if c in self.ix.classes for ms in self.ix.classes[c].methods.values() for m in ms)

    DYN = z3.Function('dyntype', Ref, Ref)

    def dyntype(self, ref):
        self.uses_dyn = True
        return self.DYN(ref)

    def typeid(self, name):
        name = name.replace('uint64_t', 'unsigned long')
        self.ids.setdefault(name, Const('typeid:' + name, Ref))
        self._typeids = getattr(self, '_typeids', {})
        c = self.ids[name]
        self._typeids[name] = c
        return c

    def e_CXXNewExpr(self, n):
        if n.get('isArray'):
            raise Unsupported('array new')
        inner = self.sub(n)
        ct = ctype(n).deref()
        cls = ct.short
        if cls not in self.ix.classes:
            raise Unsupported('new of ' + repr(ct))
        args = inner[0] if inner else None
        if args is None:
            raise Unsupported('new without constructor')
        r = self.new_object(cls)
        c = strip(args)
        self.call_ctor(cls, r, c.get('inner', []), c)
        return r

    def e_CXXDeleteExpr(self, n):
        v = self.plain(self.rvalue(self.sub(n)[0]))
        self.delete(v)
        return VOID

    def delete(self, v):
        if z3.simplify(v == null).eq(BoolVal(True)):
            return
        al = self.heap_get('$alloc')
        self.safety('delete of a live object', Or(v == null, Select(al, v)))
        self.wrote('h', '$alloc')
        self.heap['$alloc'] = Store(al, v, BoolVal(False))

    # -- calls: implemented in stl.py mixin
    def e_CXXDefaultArgExpr(self, n):
        raise Unsupported('default argument')

    def e_UnaryExprOrTypeTraitExpr(self, n):
        if n.get('name') == 'sizeof':
            t = n.get('argType')
            nm = parse_type(t.get('desugaredQualType') or t['qualType']).name if t else ctype(self.sub(n)[0]).name
            sz = {'double': 8, 'float': 4, 'unsigned long': 8, 'int': 4, 'long': 8, 'uint64_t': 8, 'unsigned int': 4, 'char': 1, 'unsigned char': 1}.get(nm)
            if sz:
                return IntVal(sz)
        raise Unsupported('sizeof')


def norm(x):
    """contract clauses: list of formulas or (name, formula)"""
    if x is None:
        return []
    out = []
    for i, c in enumerate(x):
        if isinstance(c, tuple):
            out.append(c)
        else:
            out.append(('clause %d' % i, c))
    return out


def strip(n):
    while n.get('kind') in ('ImplicitCastExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ParenExpr', 'CXXFunctionalCastExpr', 'ConstantExpr'):
        n = n['inner'][0]
    return n


drill = strip
_qc = {}


def occurs(c, e):
    st, seen = [e], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(c):
            return True
        if z3.is_quantifier(x):
            st.append(x.body())
        elif z3.is_app(x):
            st.extend(x.children())
    return False


def has_quant(f):
    h = f.get_id()
    stack, seen = [f], set()
    while stack:
        e = stack.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            return True
        stack.extend(e.children())
    return False


PURE_CALLS = {'size', 'empty', 'get', 'begin', 'end', 'cbegin', 'cend', 'first', 'second', 'count', 'find', 'rbegin', 'rend'}


def impure(n):
    """may evaluating n branch, throw or have an effect?"""
    k = n.get('kind')
    if k in ('CXXMemberCallExpr',):
        me = strip(n['inner'][0])
        if me.get('kind') == 'MemberExpr' and me.get('name') in ('size', 'empty', 'get', 'begin', 'end', 'cend', 'cbegin'):
            return any(impure(c) for c in me.get('inner', []))
        return True
    if k == 'CXXOperatorCallExpr':
        f = strip(n['inner'][0]).get('referencedDecl', {}).get('name')
        if f in ('operator!=', 'operator=='):
            return any(impure(c) for c in n['inner'][1:])
        return True
    if k in ('CallExpr', 'CXXNewExpr', 'CXXThrowExpr', 'CXXConstructExpr', 'LambdaExpr', 'CompoundAssignOperator', 'CXXDynamicCastExpr', 'ArraySubscriptExpr'):
        return True
    if k == 'UnaryOperator' and n.get('opcode') in ('++', '--', '*'):
        return True
    if k == 'MemberExpr' and n.get('isArrow') and strip(n['inner'][0]).get('kind') != 'CXXThisExpr':
        return True
    if k == 'BinaryOperator' and n.get('opcode') in ('=', '/', '%'):
        return True
    if k == 'ConditionalOperator':
        return True
    return any(impure(c) for c in n.get('inner', []) if isinstance(c, dict))
