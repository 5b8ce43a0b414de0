"""Calls: dispatch to the code base's own functions and the trusted contracts
of the C++ standard library used by it (containers, iterators, algorithms,
smart pointers, numerics)."""
import z3
from z3 import And, Or, Not, Implies, If, Select, Store, IntVal, BoolVal, ForAll, Const
from .frontend import CType, parse_type, ctype, qt, Func
from . import theory as T
from .theory import Ref, Str, null, INT, BOOL, F64, seq, mapt
from .engine import *
from .engine import strip, impure, has_quant, AND

ITERS = ('__normal_iterator', '_List_iterator', '_List_const_iterator', '_Rb_tree_iterator', '_Rb_tree_const_iterator',
         '_Deque_iterator', 'reverse_iterator')
SEQN = {'std::vector', 'std::list', 'std::deque', 'std::queue', 'std::initializer_list', 'std::stack', 'std::multimap', 'std::array'}
MAPN = {'std::map', 'std::unordered_map', 'std::set', 'std::unordered_set'}
STREAMS = ('ostream', 'basic_ostream', 'basic_ofstream', 'basic_stringstream', 'basic_ostringstream', 'basic_istream', 'basic_ifstream')
strcat = z3.Function('strcat', Str, Str, Str)
str_of_int = z3.Function('to_string', INT, Str)
typename = z3.Function('type_name', Ref, Str)


def same_loc(a, b):
    """the two locations are syntactically the same"""
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    da, db = dict(vars(a)), dict(vars(b))
    for k in set(da) | set(db):
        x, y = da.get(k), db.get(k)
        if k in ('eng', 'ct') or x is y:
            continue
        if isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef) and x.eq(y) or isinstance(x, str) and x == y or hasattr(x, 'load') and hasattr(y, 'load') and same_loc(x, y):
            continue
        return False
    return True


class Stl(Engine):
    # ------------------------------------------------------------ resolution
    def static_class(self, node, arrow=False):
        t = ctype(node).noref()
        c = CType(t.name, t.args).short
        if c in self.ix.classes:
            return c
        n = strip(node)
        if n.get('kind') == 'CXXOperatorCallExpr':
            a = n['inner'][1]
            at = ctype(a).noref()
            if at.args:
                u = at.args[0]
                return CType(u.name, u.args).short
        if n.get('kind') == 'CXXMemberCallExpr':
            me = strip(n['inner'][0])
            at = ctype(me['inner'][0]).noref()
            if me.get('name') in ('get',) and at.args:
                u = at.args[0]
                return CType(u.name, u.args).short
        return c

    def pick(self, fs, argnodes, const_obj=None, want=None):
        fs = [f for f in fs if not f.node.get('explicitlyDeleted')]
        na = len(argnodes)
        c = [f for f in fs if len(f.params) == na]
        if not c:
            c = [f for f in fs if len(f.params) > na]
        if want:
            w = [f for f in c if f.qual.replace(' noexcept', '') == want.replace(' noexcept', '')]
            if len(w) >= 1:
                c = w
        if len(c) > 1:
            def score(f):
                s = 0
                for p, a in zip(f.params, argnodes):
                    pt, at = ctype(p).noref().nocv(), ctype(a).noref().nocv()
                    if repr(pt) == repr(at) or pt.short == at.short and pt.ptr == at.ptr:
                        s += 1
                    if ctype(p).ptr.endswith('&&') == (a.get('valueCategory') != 'lvalue'):
                        s += 0.1
                if const_obj is not None and f.const == const_obj:
                    s += 0.5
                return s
            c.sort(key=score, reverse=True)
        if not c:
            return None
        return c[0]

    # ------------------------------------------------------------ call kinds
    def e_CXXMemberCallExpr(self, n):
        inner = n['inner']
        me = strip(inner[0])
        if me.get('kind') != 'MemberExpr':
            raise Unsupported('member call through ' + str(me.get('kind')))
        argnodes = inner[1:]
        name = me.get('name')
        basen = me['inner'][0]
        bt = ctype(basen).noref()
        cls = self.static_class(basen)
        if cls in self.ix.classes and bt.name not in SEQN and cls not in self.structs:
            base = self.eval(basen)
            this = self.plain(base)
            if isinstance(base, Iter):
                this = self.plain(self.iter_deref(base))
            if not (isinstance(this, z3.ExprRef) and this.sort() == Ref):
                raise Unsupported('method %s on a value' % name)
            dyn = base.cls if isinstance(base, Obj) and cls in self.ix.supers(base.cls) else cls
            if me.get('isArrow') and strip(basen).get('kind') != 'CXXThisExpr':
                self.nonnull(this, '->' + name)
            return self.call_method(cls, name, this, argnodes, const_obj=bt.const, n=n, via_this=strip(basen).get('kind') == 'CXXThisExpr')
        base = self.eval(basen)
        if isinstance(base, VarLoc) and isinstance(base.val, (Loc, Obj)):
            base = base.val
        if cls in self.structs:
            fs = self.ix.find_methods(cls, name)
            f = self.pick(fs, argnodes, bt.const)
            if f is not None and (f.key in self.native):
                return self.native[f.key](self, base, self.bind_args(f, argnodes))
            if f is not None and f.body is not None:
                return self.call_struct_method(f, base, argnodes)
        return self.std_method(n, base, bt, name, argnodes)

    def call_struct_method(self, f, base, argnodes):
        # conversion operators and the like on value structs
        raise Unsupported('method of the value struct ' + f.key)

    def call_method(self, cls, name, this, argnodes, const_obj=None, n=None, via_this=False):
        if name.startswith('~'):
            return VOID
        if name == 'operator=' :
            fs = self.ix.find_methods(cls, name)
        fs = self.ix.find_methods(cls, name)
        f = self.pick(fs, argnodes, const_obj)
        if f is None:
            # a new helper with a name the filters did not cover
            raise Unsupported('method %s::%s not found' % (cls, name))
        virt = True
        cur = self.frame.func
        if f.virtual and via_this and cur is not None and cur.name == f.name and cur.cls != f.cls and f.cls in self.ix.supers(cur.cls or ''):
            virt = False                       # Base::method() called from an override
        args = self.bind_args(f, argnodes)
        if f.virtual and virt:
            f = self.dispatch(cls, f, this)
        return self.call_function(f, this, args, direct=f.virtual and not virt)

    def e_CallExpr(self, n):
        inner = n['inner']
        d = strip(inner[0])
        argnodes = inner[1:]
        if d.get('kind') != 'DeclRefExpr':
            if d.get('kind') == 'MemberExpr':     # static member
                name = d.get('name')
                cls = self.static_class(d['inner'][0])
                return self.call_method(cls, name, None, argnodes)
            raise Unsupported('indirect call')
        rd = d['referencedDecl']
        name = rd.get('name')
        q = rd.get('type', {}).get('qualType')
        fs = [f for f in self.ix.free.get(name, [])]
        c = [f for f in fs if f.qual == q and f.body is not None]
        if not c:
            c = [f for f in fs if len(f.params) == len(argnodes) and (f.body is not None or f.key in self.contracts or f.key in self.native)]
        if not c and rd.get('kind') == 'CXXMethodDecl':
            # static member function called without an object
            for cl, ci in self.ix.classes.items():
                for f in ci.methods.get(name, []):
                    if f.static and f.qual == q:
                        c.append(f)
            if len(c) > 1 and self.frame.func is not None and self.frame.func.cls:
                own = [f for f in c if f.cls in self.ix.supers(self.frame.func.cls)]
                c = own or c
        if not c and name not in ALGO:
            m = getattr(self, 'c_' + str(name), None)
            if m is None and self.ix.tu is not None:
                self.ix.tu.demand(name)
                c = [f for f in self.ix.free.get(name, []) if f.qual == q and f.body is not None]
        if c:
            f = self.pick(c, argnodes)
            return self.call_function(f, None, self.bind_args(f, argnodes))
        m = getattr(self, 'c_' + str(name), None)
        if m is None:
            raise Unsupported('call to ' + str(name))
        return m(n, argnodes)

    def e_CXXOperatorCallExpr(self, n):
        inner = n['inner']
        d = strip(inner[0])
        rd = d.get('referencedDecl', {})
        op = rd.get('name', '')[8:]
        args = inner[1:]
        t0 = ctype(args[0]).noref()
        c0 = CType(t0.name, t0.args).short
        # a message streamed into a logger of the library: the messages are a ghost sequence
        if op == '<<' and c0 in self.ix.classes and 'Logger' in self.ix.supers(c0) and '$messages' in self.ghosts:
            v = self.rvalue(args[1])
            if not (isinstance(v, z3.ExprRef) and v.sort() == Str):
                raise Unsupported('a message that is not a literal')
            self.trusted_used.add('Logger::operator<<')
            o = self.eval(args[0])
            lg = self.plain(o)
            self.heap['$messages'] = z3.Store(self.heap_get('$messages'), lg, seq(Str).push(z3.Select(self.heap_get('$messages'), lg), v))
            return o
        # immutable values: assignment replaces the value
        if op == '=' and c0 in self.values and len(args) == 2:
            loc = self.eval(args[0])
            if not isinstance(loc, Loc):
                raise Unsupported('assignment to a value of class ' + c0)
            loc.store(self.plain(self.convert(self.rvalue(args[1]), t0)))
            return loc
        # operators of the code base
        if c0 in self.ix.classes and rd.get('kind') in ('CXXMethodDecl', 'CXXConversionDecl') and c0 not in self.structs:
            fs = self.ix.find_methods(c0, 'operator' + op)
            if fs:
                f = self.pick(fs, args[1:], t0.const, rd.get('type', {}).get('qualType'))
                if f is not None:
                    this = self.plain(self.eval(args[0]))
                    if f.body is None and f.key not in self.native and self.contract_for(f) is None and op == '=':
                        src = self.plain(self.eval(args[1]))
                        self.copy_fields(c0, src, this)
                        return Obj(this, c0)
                    bound = self.bind_args(f, args[1:])
                    if f.virtual:
                        f = self.dispatch(c0, f, this)
                    return self.call_function(f, this, bound)
        if rd.get('kind') == 'FunctionDecl' and op not in ('<<', '>>'):
            fs = [f for f in self.ix.free.get('operator' + op, []) if len(f.params) == len(args) and f.qual == rd.get('type', {}).get('qualType')]
            if fs and (fs[0].body is not None or self.contract_for(fs[0]) is not None):
                return self.call_function(fs[0], None, self.bind_args(fs[0], args))
        if op in ('<<', '>>') and any(t0.name.endswith(s) for s in STREAMS) or t0.short in ('Logger', 'LALogger'):
            a = self.eval(args[0])
            strip_k = strip(args[1]).get('kind')
            self.eval(args[1])
            return a
        v = self.eval(args[0])
        if isinstance(v, VarLoc) and isinstance(v.val, (Loc, Obj)):
            v = v.val
        if op == '*' and len(args) == 1:
            x = v.load() if isinstance(v, Loc) else v
            if isinstance(x, Iter):
                return self.typed(self.iter_deref(x), ctype(n))
            return self.smart_deref(x, n)
        if op == '->':
            x = v.load() if isinstance(v, Loc) else v
            if isinstance(x, Iter):
                return self.typed(self.iter_deref(x), self.arrow_type(n))
            x = self.plain(x)
            self.nonnull(x, 'smart pointer')
            return x
        if op in ('++', '--'):
            old = v.load() if isinstance(v, Loc) else v
            if isinstance(old, Iter):
                new = self.iter_step(old, 1 if op == '++' else -1)
            else:
                new = self.arith('+' if op == '++' else '-', old, IntVal(1), parse_type('unsigned long'))
            if not isinstance(v, Loc):
                return old if len(args) == 2 else new
            v.store(new)
            return old if len(args) == 2 else v
        if op == '()':
            f = v.load() if isinstance(v, Loc) else v
            if isinstance(f, Closure):
                bound = []
                for p, a in zip(f.func.params, args[1:]):
                    pct = ctype(p)
                    if pct.ptr.endswith('&'):
                        bound.append(self.eval(a))
                    else:
                        x = self.rvalue(a)
                        bound.append(x if isinstance(x, (Closure, Iter, FnPtr, Obj)) else self.convert(x, pct))
                return self.call_closure(f, bound)
            return self.functor(n, f, t0, args[1:])
        if op == '[]':
            return self.subscript(n, v, t0, args[1])
        if op == '=':
            return self.assign(n, v, args[1], t0)
        if op in ('==', '!=', '<', '>', '<=', '>='):
            x = v.load() if isinstance(v, Loc) and not isinstance(v, MapEntryLoc) else v
            y = self.rvalue(args[1])
            if isinstance(x, Iter) or isinstance(y, Iter):
                return self.iter_cmp(op, x, y)
            if isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef) and op in ('==', '!='):
                if T.struct_by_sort(x.sort()) is not None:
                    e = self.struct_eq(x, y)
                    return e if op == '==' else Not(e)
                q = T.seq_by_sort(x.sort())
                if q is not None:
                    return q.eq(x, y) if op == '==' else Not(q.eq(x, y))
                q = T.map_by_sort(x.sort())
                if q is not None:
                    return q.eq(x, y) if op == '==' else Not(q.eq(x, y))
            return self.compare(op, x, y)
        if op in ('+', '-'):
            x = v.load() if isinstance(v, Loc) else v
            y = self.rvalue(args[1])
            if isinstance(x, Iter) and isinstance(y, z3.ExprRef):
                return self.iter_step(x, y if op == '+' else -y)
            if isinstance(x, Iter) and isinstance(y, Iter):
                return x.idx - y.idx
            if isinstance(x, z3.ExprRef) and x.sort() == Str or isinstance(y, z3.ExprRef) and y.sort() == Str:
                return strcat(self.tostr(x), self.tostr(y))
        if op in ('+=', '-='):
            x = v.load() if isinstance(v, Loc) else v
            y = self.rvalue(args[1])
            if isinstance(x, Iter):
                v.store(self.iter_step(x, y if op == '+=' else -y))
                return v
            if isinstance(x, z3.ExprRef) and x.sort() == Str:
                v.store(strcat(x, self.tostr(y)))
                return v
        raise Unsupported('operator%s on %s' % (op, t0))

    def tostr(self, x):
        if x.sort() == Str:
            return x
        return z3.Function('char_str', INT, Str)(x)

    def struct_eq(self, x, y):
        d = T.struct_by_sort(x.sort())
        return And(*[(T.f_eq(d[2][f](x), d[2][f](y)) if s == F64 else d[2][f](x) == d[2][f](y)) for f, s in d[1]])

    def functor(self, n, f, t, args):
        if t.short in ('Hash', '_Conditionally_enabled_hash') or t.name.endswith('hash'):
            x = self.rvalue(args[0])
            x = self.plain(x)
            hf = z3.Function('hash.' + str(x.sort()), x.sort(), INT)
            r = hf(x)
            self.assume(And(r >= 0, r < 2 ** 64))
            return r
        if t.name == 'std::mersenne_twister_engine' and t.args and t.args[0].name == 'unsigned long':
            self.eval(f) if isinstance(f, dict) else None
            r = self.fresh('random', INT)           # any value of the range of the engine
            self.assume(And(0 <= r, r < 2 ** 64))
            return r
        raise Unsupported('call of a function object ' + repr(t))

    # ------------------------------------------------------------- iterators
    def arrow_type(self, n):
        t = ctype(n)
        if t.ptr.endswith('*'):
            return t.deref()
        return t

    def typed(self, loc, ct):
        """attach the class of the element"""
        base = ct.noref()
        if isinstance(loc, MapEntryLoc):
            return loc
        if isinstance(loc, Loc):
            loc.ct = base
            if base.short in self.ix.classes and self.is_object_type(base):
                return Obj(loc.load(), base.short)
        return loc

    def deref_typed(self, v, ct):
        base = ct.noref()
        if self.is_object_type(base):
            return Obj(v, base.short)
        raise Unsupported('dereference of a pointer to %s' % base)

    def smart_deref(self, x, n):
        r = self.plain(x)
        self.nonnull(r, '* of a smart pointer')
        t = ctype(n).noref()
        if t.name in self.cells and not t.ptr:
            return TempLoc(self.cells[t.name](r))
        c = CType(t.name, t.args).short
        if c not in self.ix.classes:
            at = ctype(n['inner'][1]).noref()
            if at.args:
                c = CType(at.args[0].name, at.args[0].args).short
        return Obj(r, c)

    def cur_ok(self, it):
        """the iterator still designates a position of the container"""
        cur = it.loc.load()
        snap = it.snap
        if snap is None or cur.eq(snap):
            return
        c = cur
        q = T.seq_by_sort(c.sort())
        M = T.map_by_sort(c.sort())
        while True:
            if c.eq(snap):
                return
            if q is not None and z3.is_app(c) and c.decl().name() == q.name + '.upd':
                c = c.arg(0)
            elif M is not None and z3.is_app(c) and c.decl().name() == M.name + '.put':
                # a node-based container keeps its iterators; only the position is re-derived
                if it.key is not None:
                    return
                self.safety('iterator not disturbed by an insertion', M.has(c.arg(0), c.arg(1)))
                c = c.arg(0)
            else:
                break
        self.safety('iterator still valid', cur == snap)

    def iter_deref(self, it):
        self.cur_ok(it)
        c = it.loc.load()
        q = T.seq_by_sort(c.sort())
        n = self.clen(c)
        if it.kind == 'map' and it.key is not None:
            M = T.map_by_sort(c.sort())
            self.safety('iterator dereferenced inside its container', And(it.idx < self.clen(it.snap) if it.snap is not None else it.idx < n, M.has(c, it.key)))
            return TempLoc(it.key) if self.iter_is_set(it) else MapEntryLoc(self, it.loc, it.key)
        self.safety('iterator dereferenced inside its container', And(0 <= it.idx, it.idx < n))
        i = n - 1 - it.idx if it.rev else it.idx
        i = z3.simplify(i)
        if q is not None:
            return ElemLoc(self, it.loc, i)
        self.ordered(it.loc, c)
        M = T.map_by_sort(c.sort())
        key = M.keyat(c, i)
        self.assume(M.has(c, key))
        return TempLoc(key) if self.iter_is_set(it) else MapEntryLoc(self, it.loc, key)

    def iter_is_set(self, it):
        return getattr(it.loc, 'ct', None) is not None and it.loc.ct.noref().name in ('std::set', 'std::unordered_set')

    def iter_step(self, it, d):
        i = z3.simplify(it.idx + d)
        if it.kind == 'map' and it.key is not None:
            # re-anchor on the current container
            M = T.map_by_sort(it.loc.load().sort())
            i = z3.simplify(If(M.has(it.loc.load(), it.key), M.pos(it.loc.load(), it.key), self.clen(it.loc.load())) + d)
        n = self.clen(it.loc.load())
        self.safety('iterator moved within its container', And(0 <= i, i <= n))
        return Iter(it.loc, i, it.rev, it.kind, it.snap if it.key is None else it.loc.load(), None)

    def iter_cmp(self, op, x, y):
        if not isinstance(x, Iter) or not isinstance(y, Iter):
            raise Unsupported('comparison of an iterator with something else')
        if op in ('==', '!='):
            e = x.idx == y.idx
            return e if op == '==' else Not(e)
        return {'<': x.idx < y.idx, '>': x.idx > y.idx, '<=': x.idx <= y.idx, '>=': x.idx >= y.idx}[op]

    # ----------------------------------------------------------- containers
    def as_loc(self, base, bt):
        if isinstance(base, Obj):
            raise Unsupported('container method on an object')
        if isinstance(base, Loc):
            if isinstance(base, VarLoc) and isinstance(base.val, Loc):
                base = base.val
            if getattr(base, 'ct', None) is None:
                base.ct = bt
            return base
        if isinstance(base, z3.ExprRef):
            t = TempLoc(base); t.ct = bt
            return t
        raise Unsupported('container expected')

    def elem_type(self, bt):
        return bt.args[0] if bt.args else None

    def elem_val(self, v, ct=None):
        """value stored in a container"""
        if isinstance(v, Loc):
            v = v.load()
        if isinstance(v, PairV):
            a, b = self.elem_val(v.first), self.elem_val(v.second)
            return T.pair(a.sort(), b.sort())[0].mk(a, b)
        if isinstance(v, InitList) and ct is not None:
            return self.plain(self.from_initlist(v, ct))
        v = self.plain(v)
        if ct is not None and isinstance(v, z3.ExprRef):
            v = self.plain(self.convert(v, ct))
        return v

    def owns(self, bt):
        e = self.elem_type(bt)
        return e is not None and e.name == 'std::unique_ptr'

    def std_method(self, n, base, bt, name, args):
        nm = bt.name
        short = nm.split('::')[-1]
        if any(nm.endswith(s) for s in STREAMS) or short in ('basic_ios',):
            for a in args:
                self.eval(a)
            if name == 'str':
                return Const('stream.str', Str)
            return base
        if nm in SMART or short in ('__shared_ptr', '__shared_ptr_access', 'unique_ptr', 'shared_ptr', 'reference_wrapper'):
            return self.smart_method(n, base, bt, name, args)
        if short in ('atomic', '__atomic_base', 'atomic_uint64_t'):
            if name in ('operator unsigned long', 'load') or name.startswith('operator '):
                return base.load()
            if name in ('store',):
                base.store(self.rvalue(args[0])); return VOID
            if name in ('fetch_add',):
                old = base.load(); base.store(self.arith('+', old, self.rvalue(args[0]), parse_type('unsigned long'))); return old
        if short in ('type_info', 'type_index'):
            if name == 'name':
                return typename(self.plain(base))
            if name == 'hash_code':
                return z3.Function('type_hash', Ref, INT)(self.plain(base))
        if short in ('basic_string', 'string'):
            s = base.load() if isinstance(base, Loc) else base
            if name in ('c_str', 'data'):
                return s
            if name == 'append':
                base.store(strcat(s, self.tostr(self.rvalue(args[0])))); return base
            if name in ('size', 'length'):
                f = z3.Function('strlen', Str, INT)(s); self.assume(f >= 0); return f
            if name == 'empty':
                f = z3.Function('strlen', Str, INT)(s); self.assume(f >= 0); return f == 0
            raise Unsupported('string method ' + str(name))
        if short in ('mutex', 'recursive_mutex', 'lock_guard', 'unique_lock', 'scoped_lock'):
            return VOID
        if nm in SEQN:
            return self.seq_method(n, self.as_loc(base, bt), bt, name, args)
        if nm in MAPN:
            return self.map_method(n, self.as_loc(base, bt), bt, name, args)
        raise Unsupported('method %s of %s' % (name, bt))

    def smart_method(self, n, base, bt, name, args):
        if isinstance(base, VarLoc) and isinstance(base.val, Obj):
            base = base.val
        if name == 'get' or name.startswith('operator '):
            r = self.plain(base)
            if name == 'operator bool':
                return r != null
            if bt.name.endswith('reference_wrapper') or name.startswith('operator '):
                t = bt.args[0]
                return Obj(r, CType(t.name, t.args).short)
            return r
        if name == 'use_count':
            # any value: nothing proved depends on how often an object is shared
            self.plain(base)
            r = self.fresh('use_count', INT); self.assume(And(r >= 0, r < 2 ** 31))
            return r
        if name == 'reset' and isinstance(base, Loc):
            v = null if not args else self.plain(self.rvalue(args[0]))
            if bt.name.endswith('unique_ptr'):
                self.delete(base.load())
            base.store(v)
            return VOID
        if name == 'release' and isinstance(base, Loc):
            v = base.load(); base.store(null); return v
        raise Unsupported('method %s of %s' % (name, bt))

    def begin(self, loc, bt, rev=False):
        return Iter(loc, IntVal(0), rev, 'map' if bt.name in MAPN else 'seq', loc.load())

    def end(self, loc, bt, rev=False):
        return Iter(loc, self.clen(loc.load()), rev, 'map' if bt.name in MAPN else 'seq', loc.load())

    def seq_method(self, n, loc, bt, name, args):
        s = loc.load()
        q = T.seq_of(s)
        et = self.elem_type(bt)
        ln = q.len(s)
        if name in ('begin', 'cbegin'):
            return self.begin(loc, bt)
        if name in ('end', 'cend'):
            return self.end(loc, bt)
        if name in ('rbegin', 'crbegin'):
            return self.begin(loc, bt, True)
        if name in ('rend', 'crend'):
            return self.end(loc, bt, True)
        if name == 'size':
            self.assume(And(ln >= 0, ln < 2 ** 62))
            return ln
        if name == 'empty':
            return ln == 0
        if name in ('reserve', 'shrink_to_fit'):
            for a in args:
                self.rvalue(a)
            return VOID
        if name in ('push_back', 'emplace_back', 'push', 'emplace') and bt.name != 'std::multimap':
            v = self.new_elem(args, et)
            loc.store(q.push(s, v))
            if name == 'emplace_back':
                l = ElemLoc(self, loc, ln); return self.typed(l, et)
            return VOID
        if name in ('push_front', 'emplace_front'):
            v = self.new_elem(args, et)
            loc.store(q.ins(s, IntVal(0), v)); return VOID
        if name in ('front', 'back'):
            self.safety('%s() of a non-empty container' % name, ln > 0)
            i = IntVal(0) if name == 'front' else z3.simplify(ln - 1)
            if bt.name == 'std::stack':
                i = ln - 1
            return self.typed(ElemLoc(self, loc, i), et)
        if name == 'top':
            self.safety('top() of a non-empty container', ln > 0)
            return self.typed(ElemLoc(self, loc, ln - 1), et)
        if name in ('pop_back', 'pop_front', 'pop'):
            self.safety('%s() of a non-empty container' % name, ln > 0)
            i = IntVal(0) if name == 'pop_front' or (name == 'pop' and bt.name == 'std::queue') else ln - 1
            if self.owns(bt):
                self.delete(q.at(s, i))
            loc.store(q.erase(s, i))
            return VOID
        if name in ('at',):
            i = self.rvalue(args[0])
            if not self.branch(And(0 <= i, i < ln)):
                raise Throw('std::out_of_range')
            return self.typed(ElemLoc(self, loc, i), et)
        if name == 'clear':
            if self.owns(bt):
                raise Unsupported('clear() of an owning container')
            loc.store(q.empty); return VOID
        if name == 'remove':
            if self.owns(bt):
                raise Unsupported('remove() of an owning container')
            v = self.elem_val(self.rvalue(args[0]), et)
            loc.store(q.remove(s, v)); return VOID
        if name == 'resize':
            k = self.rvalue(args[0])
            if z3.simplify(ln).eq(IntVal(0)) or s.eq(q.empty):
                v = self.elem_val(self.rvalue(args[1]), et) if len(args) > 1 and args[1].get('kind') != 'CXXDefaultArgExpr' else self.zero(et)
                loc.store(q.rep(k, v)); return VOID
            raise Unsupported('resize')
        if name == 'erase':
            a = self.rvalue(args[0])
            if bt.name == 'std::multimap' and not isinstance(a, Iter):
                raise Unsupported('multimap::erase(key)')
            self.cur_ok(a)
            if len(args) == 2:
                b = self.rvalue(args[1])
                r = self.erase_range(loc, q, s, a.idx, b.idx)
                if self.owns(bt):
                    raise Unsupported('erase of a range of owned elements')
                loc.store(r)
                return Iter(loc, a.idx, False, 'seq', r)
            self.safety('erase of a valid position', And(0 <= a.idx, a.idx < ln))
            if self.owns(bt):
                self.delete(q.at(s, a.idx))
            r = q.erase(s, a.idx)
            loc.store(r)
            return Iter(loc, a.idx, False, 'seq', r)
        if name == 'insert' and bt.name != 'std::multimap':
            a = self.rvalue(args[0])
            self.cur_ok(a)
            if len(args) == 2:
                v = self.new_elem(args[1:], et)
                self.safety('insert at a valid position', And(0 <= a.idx, a.idx <= ln))
                r = q.ins(s, a.idx, v)
                loc.store(r)
                return Iter(loc, a.idx, False, 'seq', r)
            if len(args) == 3:
                b, c = self.rvalue(args[1]), self.rvalue(args[2])
                if isinstance(b, Iter):
                    src = self.subrange(b, c)
                    if not z3.simplify(a.idx == ln).eq(BoolVal(True)):
                        if not z3.simplify(a.idx == 0).eq(BoolVal(True)):
                            raise Unsupported('insert of a range in the middle')
                        r = q.cat(src, s)
                    else:
                        r = q.cat(s, src)
                    loc.store(r)
                    return Iter(loc, a.idx, False, 'seq', r)
        if name in ('emplace', 'insert') and bt.name == 'std::multimap':
            if name == 'insert' and len(args) == 1 and len(ctype(args[0]).noref().args) != 2:
                raise Unsupported('multimap::insert')
            if name == 'insert' and len(args) == 2:
                b, e = self.rvalue(args[0]), self.rvalue(args[1])
                if not (isinstance(b, Iter) and isinstance(e, Iter)):
                    raise Unsupported('multimap::insert')
                src = self.subrange(b, e)
                # a merge: the elements of both, in some order (nothing is said about the order)
                r = self.fresh('merged', q.S)
                x = z3.Const('x', q.T)
                self.assume(q.len(r) == ln + q.len(src))
                self.assume(ForAll([x], q.cnt(r, x) == q.cnt(s, x) + q.cnt(src, x), patterns=[q.cnt(r, x)]))
                loc.store(r)
                return VOID
            if len(args) == 2 and name == 'emplace':
                k, v = self.elem_val(self.rvalue(args[0])), self.elem_val(self.rvalue(args[1]))
            else:
                p = self.rvalue(args[0])
                if not isinstance(p, z3.ExprRef) and not isinstance(p, PairV):
                    raise Unsupported('multimap::insert')
                p = self.elem_val(p)
                d = T.struct_by_sort(p.sort()); k, v = d[2]['first'](p), d[2]['second'](p)
            less = self.key_less(bt.args[0])
            pos = self.fresh('mmpos', INT)
            i = z3.Int('i')
            P = T.pair(k.sort(), v.sort())
            self.assume(And(0 <= pos, pos <= ln))
            self.assume(ForAll([i], Implies(And(0 <= i, i < pos), Not(less(k, P[2]['first'](q.at(s, i))))), patterns=[q.at(s, i)]))
            self.assume(ForAll([i], Implies(And(pos <= i, i < ln), less(k, P[2]['first'](q.at(s, i)))), patterns=[q.at(s, i)]))
            loc.store(q.ins(s, pos, P[0].mk(k, v)))
            return Iter(loc, pos, False, 'seq', loc.load())
        if name == 'swap':
            o = self.eval(args[0]); a, b = loc.load(), o.load(); loc.store(b); o.store(a); return VOID
        if name == 'assign' and len(args) == 2:
            a, b = self.rvalue(args[0]), self.rvalue(args[1])
            if isinstance(a, Iter):
                loc.store(self.subrange(a, b)); return VOID
            loc.store(q.rep(a, self.elem_val(b, et))); return VOID
        if name == 'data':
            return loc
        raise Unsupported('method %s of %s' % (name, bt.name))

    def key_less(self, kt):
        h = getattr(self, 'less_model', None)
        if h is not None:
            f = h(self, kt)
            if f is not None:
                return f
        s = self.sort_of(kt)
        if s == INT:
            return lambda a, b: a < b
        if s == F64:
            return T.f_lt
        return z3.Function('less.' + repr(kt), s, s, BOOL)

    def erase_range(self, loc, q, s, a, b):
        ln = q.len(s)
        self.safety('erase of a valid range', And(0 <= a, a <= b, b <= ln))
        if z3.simplify(b == ln).eq(BoolVal(True)):
            return q.take(s, a)
        if z3.simplify(a == 0).eq(BoolVal(True)):
            return q.drop(s, b)
        return q.cat(q.take(s, a), q.drop(s, b))

    def subrange(self, a, b):
        s = a.loc.load()
        q = T.seq_by_sort(s.sort())
        if a.rev or q is None:
            raise Unsupported('reverse or map range')
        ln = q.len(s)
        self.safety('valid range', And(0 <= a.idx, a.idx <= b.idx, b.idx <= ln))
        if z3.simplify(a.idx == 0).eq(BoolVal(True)):
            if z3.simplify(b.idx == ln).eq(BoolVal(True)):
                return s
            return q.take(s, b.idx)
        if z3.simplify(b.idx == ln).eq(BoolVal(True)):
            return q.drop(s, a.idx)
        return q.take(q.drop(s, a.idx), z3.simplify(b.idx - a.idx))

    def new_elem(self, args, et):
        if len(args) == 1:
            v = self.rvalue(args[0])
            src = strip(args[0])
            if et.name == 'std::unique_ptr' and isinstance(v, z3.ExprRef):
                l = self.moved_from(args[0])
                if l is not None:
                    l.store(null)
            return self.elem_val(v, et)
        vals = [self.elem_val(self.rvalue(a)) for a in args]
        if et.name == 'std::pair' and len(vals) == 2:
            vals = [self.plain(self.convert(v, t)) for v, t in zip(vals, et.args)]
            return T.pair(vals[0].sort(), vals[1].sort())[0].mk(*vals)
        raise Unsupported('emplace of ' + repr(et))

    def moved_from(self, node):
        n = strip(node)
        if n.get('kind') == 'CallExpr' and strip(n['inner'][0]).get('referencedDecl', {}).get('name') == 'move':
            l = self.eval(n['inner'][1])
            if isinstance(l, Loc):
                return l
        if n.get('kind') in ('CXXConstructExpr',) and len(n.get('inner', [])) == 1:
            return self.moved_from(n['inner'][0])
        return None

    def map_method(self, n, loc, bt, name, args):
        m = loc.load()
        M = T.map_by_sort(m.sort())
        isset = bt.name in ('std::set', 'std::unordered_set')
        kt = bt.args[0]
        key = lambda: self.elem_val(self.rvalue(args[0]), kt)
        if name in ('begin', 'cbegin'):
            return self.begin(loc, bt)
        if name in ('end', 'cend'):
            return self.end(loc, bt)
        if name in ('rbegin',):
            return self.begin(loc, bt, True)
        if name in ('rend',):
            return self.end(loc, bt, True)
        if name == 'size':
            self.assume(And(M.size(m) >= 0, M.size(m) < 2 ** 62))
            return M.size(m)
        if name == 'empty':
            return M.size(m) == 0
        if name == 'clear':
            loc.store(M.empty); return VOID
        if name == 'count':
            return If(M.has(m, key()), IntVal(1), IntVal(0))
        if name == 'contains':
            return M.has(m, key())
        if name == 'find':
            k = key()
            return Iter(loc, If(M.has(m, k), M.pos(m, k), M.size(m)), False, 'map', m, k)
        if name == 'at':
            k = key()
            if not self.branch(M.has(m, k)):
                raise Throw('std::out_of_range')
            return self.typed(MapValLoc(self, loc, k), bt.args[1])
        if name in ('insert', 'emplace', 'try_emplace'):
            if isset:
                k = key()
                had = M.has(m, k)
                loc.store(M.put(m, k, BoolVal(True)))
                return PairV(Iter(loc, M.pos(loc.load(), k), False, 'map', loc.load(), k), Not(had))
            if name == 'insert':
                a0 = self.rvalue(args[0])
                if isinstance(a0, PairV):
                    k, v = self.elem_val(a0.first, kt), self.elem_val(a0.second, bt.args[1])
                elif isinstance(a0, InitList) and len(a0.vals) == 2:
                    k, v = self.elem_val(a0.vals[0], kt), self.elem_val(a0.vals[1], bt.args[1])
                elif isinstance(a0, Iter):
                    raise Unsupported('map::insert of a range')
                else:
                    a0 = self.plain(a0)
                    d = T.struct_by_sort(a0.sort())
                    if d is None:
                        raise Unsupported('map::insert')
                    k, v = self.elem_val(d[2]['first'](a0), kt), self.elem_val(d[2]['second'](a0), bt.args[1])
            else:
                if len(args) != 2:
                    raise Unsupported('map::emplace')
                k = key()
                v = self.elem_val(self.rvalue(args[1]), bt.args[1])
            had = M.has(m, k)
            if not self.branch(had):
                loc.store(M.put(m, k, v))
                return PairV(Iter(loc, M.pos(loc.load(), k), False, 'map', loc.load(), k), BoolVal(True))
            return PairV(Iter(loc, M.pos(m, k), False, 'map', m, k), BoolVal(False))
        if name == 'insert_or_assign':
            k = key(); v = self.elem_val(self.rvalue(args[1]), bt.args[1])
            had = M.has(m, k)
            loc.store(M.put(m, k, v))
            return PairV(Iter(loc, M.pos(loc.load(), k), False, 'map', loc.load(), k), Not(had))
        if name == 'erase' and len(args) == 1:
            a = self.rvalue(args[0])
            if isinstance(a, Iter):
                self.cur_ok(a)
                i = a.idx
                k = a.key if a.key is not None else M.keyat(m, i)
                self.safety('erase of a valid position', And(0 <= i, i < M.size(m)) if a.key is None else M.has(m, k))
                loc.store(M.dele(m, k))
                return Iter(loc, i, False, 'map', loc.load())
            k = self.elem_val(a, kt)
            had = M.has(m, k)
            loc.store(M.dele(m, k))
            return If(had, IntVal(1), IntVal(0))
        raise Unsupported('method %s of %s' % (name, bt.name))

    def subscript(self, n, v, t0, inode):
        nm = t0.name
        if nm in SEQN:
            loc = self.as_loc(v, t0)
            i = self.rvalue(inode)
            s = loc.load()
            self.safety('index in bounds', And(0 <= i, i < self.clen(s)))
            return self.typed(ElemLoc(self, loc, i), t0.args[0])
        if nm in MAPN:
            loc = self.as_loc(v, t0)
            k = self.elem_val(self.rvalue(inode), t0.args[0])
            m = loc.load()
            M = T.map_by_sort(m.sort())
            if not self.branch(M.has(m, k)):
                loc.store(M.put(m, k, self.default_term(t0.args[1])))
            return self.typed(MapValLoc(self, loc, k), t0.args[1])
        if t0.short in ('unique_ptr', 'shared_ptr', '__shared_ptr_access'):
            raise Unsupported('array smart pointer')
        raise Unsupported('operator[] on %s' % t0)

    def default_term(self, ct):
        s = self.sort_of(ct)
        q = T.seq_by_sort(s)
        if q is not None:
            return q.empty
        q = T.map_by_sort(s)
        if q is not None:
            return q.empty
        d = T.struct_by_sort(s)
        if d is not None and ct.name == 'std::pair':
            return d[0].mk(*[self.default_term(a) for a in ct.args])
        if s == Str:
            return self.strlit('""')
        return self.zero(ct)

    def assign(self, n, loc, rhs, t0):
        if isinstance(loc, Obj):
            src = self.plain(self.rvalue(rhs))
            if loc.cls in self.ix.classes:
                self.copy_fields(loc.cls, src, loc.ref)
                return loc
            raise Unsupported('assignment to an object of class ' + str(loc.cls))
        if t0.name in IGNORED:
            return VOID
        v = self.rvalue(rhs)
        mv = self.moved_from(rhs) if t0.name.endswith('unique_ptr') else None
        if isinstance(v, Iter):
            v = Iter(v.loc, v.idx, v.rev, v.kind, v.snap, v.key)
            loc.store(v)
            return loc
        if isinstance(v, PairV):
            a, b = (self.plain(self.convert(x, c)) for x, c in zip((v.first, v.second), t0.args))
            v = T.pair(a.sort(), b.sort())[0].mk(a, b)
        v = self.plain(self.convert(v, t0)) if not isinstance(v, Closure) else v
        if t0.name.endswith('unique_ptr') and isinstance(loc, Loc):
            self.delete(loc.load())
        loc.store(v)
        if mv is not None:
            mv.store(null)
        return loc

    # --------------------------------------------------------- construction
    def e_CXXConstructExpr(self, n):
        ct = ctype(n).nocv()
        args = [a for a in n.get('inner', [])]
        nm = ct.name
        short = CType(ct.name, ct.args).short
        last = nm.split('::')[-1]
        if last in ITERS or nm in IGNORED or last in ('lock_guard', 'unique_lock', 'scoped_lock', 'mutex'):
            if nm in IGNORED or last in ('lock_guard', 'unique_lock', 'scoped_lock', 'mutex'):
                return VOID
            return self.rvalue(args[0])
        if last in ('runtime_error', 'out_of_range', 'range_error', 'invalid_argument', 'domain_error', 'logic_error', 'exception'):
            return VOID
        if nm in ('std::type_index',):
            return self.plain(self.eval(args[0]))
        if nm in SMART:
            args = [a for a in args if a.get('kind') != 'CXXDefaultArgExpr']
            if not args:
                return null
            l = self.moved_from(args[0]) if nm.endswith('unique_ptr') else None
            v = self.rvalue(args[0])
            if nm.endswith('reference_wrapper'):
                v = self.eval(args[0]) if not isinstance(v, (Obj, z3.ExprRef)) else v
            v = self.plain(v)
            if l is not None:
                l.store(null)
            return v
        if nm in SEQN or nm in MAPN:
            return self.construct_container(n, ct, args)
        if nm in ('std::basic_string', 'std::string', 'std::__cxx11::basic_string'):
            args = [a for a in args if a.get('kind') != 'CXXDefaultArgExpr']
            if not args:
                return self.strlit('""')
            return self.plain(self.rvalue(args[0]))
        if nm == 'std::pair':
            if len(args) == 2:
                a, b = (self.plain(self.convert(self.rvalue(x), c)) for x, c in zip(args, ct.args))
                return T.pair(a.sort(), b.sort())[0].mk(a, b)
            if len(args) == 1:
                v = self.rvalue(args[0])
                if isinstance(v, PairV):
                    return self.elem_val(v)
                return v
            return self.default_term(ct)
        if nm in ('std::atomic',):
            return self.rvalue(args[0]) if args else IntVal(0)
        if nm == 'std::function':
            return self.rvalue(args[0]) if args else null
        if short in self.structs:
            return self.construct_struct(short, ct, args, n)
        if nm.startswith('(lambda'):
            return self.rvalue(args[0])
        if short in self.values and not args and short in self.ix.classes:
            r = z3.FreshConst(Ref, 'uninit.' + short)
            self.assume(r != null)
            return r
        if short in self.values and len(args) == 1 and ctype(args[0]).noref().nocv().short == short:
            return self.plain(self.rvalue(args[0]))
        if short in self.ix.classes:
            if len(args) == 1:
                at = ctype(args[0]).noref().nocv()
                if CType(at.name, at.args).short == short and (n.get('elidable') or strip(args[0]).get('kind') in ('CXXTemporaryObjectExpr', 'CallExpr', 'CXXMemberCallExpr') and args[0].get('valueCategory') == 'prvalue'):
                    return self.eval(args[0])
            r = self.new_object(short)
            self.call_ctor(short, r, args, n)
            return Obj(r, short)
        if nm == 'std::integral_constant':        # a tag that selects an overload
            return VOID
        if 'hash' in last.lower() or last in ('default_delete', 'less', 'plus', '_Setw', '_Setprecision', 'basic_stringstream', 'basic_ostringstream', 'allocator'):
            return VOID
        if last in ('basic_ofstream', 'basic_ifstream'):
            for a in args:
                if a.get('kind') != 'CXXDefaultArgExpr':
                    self.eval(a)
            return self.fresh('stream', Ref)
        raise Unsupported('construction of %s' % ct)

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def construct_struct(self, short, ct, args, n):
        if len(args) == 1:
            at = ctype(args[0]).noref().nocv()
            if CType(at.name, at.args).short == short:
                return self.plain(self.rvalue(args[0]))
        if not args:
            raise Unsupported('default construction of ' + short)
        st = self.struct_of(short)
        if len(args) == len(st[1]):
            vals = [self.plain(self.convert(self.rvalue(a), ctype(self.ix.find_field(short, f)[1]))) for a, (f, _) in zip(args, st[1])]
            return st[0].mk(*vals)
        raise Unsupported('construction of ' + short)

    def construct_container(self, n, ct, args):
        args = [a for a in args if a.get('kind') != 'CXXDefaultArgExpr']
        s = self.sort_of(ct)
        q = T.seq_by_sort(s) or T.map_by_sort(s)
        if not args:
            return q.empty
        v = self.rvalue(args[0])
        if isinstance(v, InitList):
            if ct.name in MAPN:
                r = q.empty
                for x in v.vals:
                    if ct.name.endswith('set'):
                        r = q.put(r, self.elem_val(x, ct.args[0]), BoolVal(True))
                    elif isinstance(x, InitList):
                        r = q.put(r, self.elem_val(x.vals[0], ct.args[0]), self.elem_val(x.vals[1], ct.args[1]))
                    else:
                        raise Unsupported('map initialiser list')
                return r
            return self.from_initlist(v, ct)
        if isinstance(v, Iter):
            w = self.rvalue(args[1])
            if ct.name in SEQN:
                return self.subrange(v, w)
            raise Unsupported('map from a range')
        if isinstance(v, z3.ExprRef) and v.sort() == s:
            l = self.moved_from(args[0])
            if l is not None:
                l.store(q.empty)
            return v
        if isinstance(v, z3.ExprRef) and v.sort() == INT and ct.name in ('std::vector', 'std::deque', 'std::list'):
            et = ct.args[0]
            if len(args) > 1:
                x = self.elem_val(self.rvalue(args[1]), et)
            else:
                x = self.elem_default(et)
            return q.rep(v, x)
        raise Unsupported('construction of ' + repr(ct))

    def elem_default(self, et):
        if et.short in self.structs:
            st = self.struct_of(et.short)
            vals = []
            for f, srt in st[1]:
                vals.append(self.zero(ctype(self.ix.find_field(et.short, f)[1])))
            return st[0].mk(*vals)
        return self.default_term(et)

    # ----------------------------------------------------------- algorithms
    def elem_at(self, q, s, i, et):
        return q.at(s, i)

    def lam(self, node):
        v = self.rvalue(node)
        if isinstance(v, Closure):
            return v
        if isinstance(v, FnPtr):
            fs = [f for f in self.ix.free.get(v.funcs, []) if f.body is not None]
            if len(fs) == 1:
                f = fs[0]
                return Closure(None, Frame(f, {}, None), f)
        raise Unsupported('function object expected')

    def pred_fn(self, cl, it, var, lo, hi):
        """pred(element at var) as a term in the integer constant var"""
        c = it.loc.load()
        q = T.seq_by_sort(c.sort())
        if q is None:
            raise Unsupported('algorithm over a map')
        i = it.loc
        pt = ctype(cl.func.params[0])
        hyp = And(lo <= var, var < hi)
        n = len(self.hyps)
        self.hyps.append(hyp)
        self.feas.push(); self.feas.add(hyp)
        try:
            el = ElemLoc(self, it.loc, var)
            return self.pure_pred(cl, [el if pt.ptr.endswith('&') else el.load()])
        finally:
            del self.hyps[n:]
            self.feas.pop()

    def find_like(self, n, args, mk):
        a, b = self.rvalue(args[0]), self.rvalue(args[1])
        if a.rev:
            raise Unsupported('search in reverse')
        s = a.loc.load()
        q = T.seq_by_sort(s.sort())
        if q is None:
            raise Unsupported('search in a map')
        r = self.fresh('found', INT)
        j = self.fresh('j', INT)
        p = mk(q, s, a, j, a.idx, b.idx)
        self.assume(And(a.idx <= r, r <= b.idx))
        jj = z3.Int('jj')
        self.assume(ForAll([jj], Implies(And(a.idx <= jj, jj < r), Not(z3.substitute(p, (j, jj)))), patterns=[q.at(s, jj)]))
        self.assume(Implies(r < b.idx, z3.substitute(p, (j, r))))
        return Iter(a.loc, r, False, 'seq', a.loc.load()), p, j, q, s

    def c_find(self, n, args):
        x = None

        def mk(q, s, a, j, lo, hi):
            nonlocal x
            x = self.elem_val(self.rvalue(args[2]))
            if q.T == F64:
                return T.f_eq(q.at(s, j), x)
            return q.at(s, j) == x
        it, p, j, q, s = self.find_like(n, args, mk)
        if z3.simplify(self.rvalue(args[0]).idx == 0).eq(BoolVal(True)) and q.T != F64 and it is not None:
            e = self.rvalue(args[1])
            if z3.simplify(e.idx == q.len(s)).eq(BoolVal(True)):
                self.assume(If(q.cnt(s, x) >= 1, it.idx == q.idx(s, x), it.idx == q.len(s)))
        return it

    def c_find_if(self, n, args):
        cl = self.lam(args[2])
        return self.find_like(n, args, lambda q, s, a, j, lo, hi: self.pred_fn(cl, a, j, lo, hi))[0]

    def c_find_if_not(self, n, args):
        cl = self.lam(args[2])
        return self.find_like(n, args, lambda q, s, a, j, lo, hi: Not(self.pred_fn(cl, a, j, lo, hi)))[0]

    def c_any_of(self, n, args):
        it = self.c_find_if(n, args)
        return it.idx != self.rvalue(args[1]).idx

    def c_none_of(self, n, args):
        return Not(self.c_any_of(n, args))

    def c_all_of(self, n, args):
        it = self.c_find_if_not(n, args)
        return it.idx == self.rvalue(args[1]).idx

    def filtered(self, args, cl):
        """the subsequence selected by the predicate (order-preserving)"""
        a, b = self.rvalue(args[0]), self.rvalue(args[1])
        s = self.subrange(a, b)
        q = T.seq_by_sort(s.sort())
        x = self.fresh('x', q.T)
        pt = ctype(cl.func.params[0])
        self.hyps.append(q.cnt(s, x) >= 1)
        self.feas.push()
        try:
            p = self.pure_pred(cl, [TempLoc(x) if pt.ptr.endswith('&') else x])
        finally:
            self.hyps.pop(); self.feas.pop()
        r = self.fresh('filtered', q.S)
        xx = Const('xx', q.T)
        pp = z3.substitute(p, (x, xx))
        self.assume(ForAll([xx], q.cnt(r, xx) == If(pp, q.cnt(s, xx), 0), patterns=[q.cnt(r, xx)]))
        self.assume(q.len(r) <= q.len(s))
        self.assume(ForAll([xx], Implies(And(q.cnt(s, xx) >= 1, pp), q.cnt(r, xx) >= 1), patterns=[q.cnt(s, xx)]))
        self.filtered_log = getattr(self, 'filtered_log', []) + [r]
        # order and position of the selected elements
        src = z3.Function('src!%d' % self.nfresh, INT, INT)
        i, j = z3.Ints('i j')
        self.assume(ForAll([i], Implies(And(0 <= i, i < q.len(r)), And(0 <= src(i), src(i) < q.len(s), q.at(s, src(i)) == q.at(r, i))), patterns=[q.at(r, i)]))
        self.assume(ForAll([i, j], Implies(And(0 <= i, i < j, j < q.len(r)), src(i) < src(j)), patterns=[z3.MultiPattern(src(i), src(j))]))
        return r, q

    def c_copy_if(self, n, args):
        cl = self.lam(args[3])
        r, q = self.filtered(args, cl)
        return self.append_to(args[2], r, q)

    def append_to(self, node, r, q):
        dst = self.rvalue(node)
        if isinstance(dst, Iter) and not dst.rev:
            d = dst.loc.load()
            if d.sort() != r.sort() or not z3.simplify(dst.idx == 0).eq(BoolVal(True)):
                raise Unsupported('copy destination')
            self.safety('copy stays inside the destination', q.len(r) <= q.len(d))
            dst.loc.store(q.cat(r, q.drop(d, q.len(r))))
            return Iter(dst.loc, q.len(r), False, 'seq', dst.loc.load())
        if not (isinstance(dst, tuple) and dst[0] == 'inserter'):
            raise Unsupported('output iterator')
        loc = dst[1]
        d = loc.load()
        if d.sort() != r.sort():
            raise Unsupported('copy between different element types')
        loc.store(r if d.eq(q.empty) else q.cat(d, r))
        return dst

    def c_copy(self, n, args):
        a, b = self.rvalue(args[0]), self.rvalue(args[1])
        s = self.subrange(a, b)
        return self.append_to(args[2], s, T.seq_by_sort(s.sort()))

    def c_back_inserter(self, n, args):
        loc = self.eval(args[0])
        if isinstance(loc, VarLoc) and isinstance(loc.val, Loc):
            loc = loc.val
        return ('inserter', loc)

    c_inserter = c_back_inserter

    def c_count_if(self, n, args):
        r, q = self.filtered(args, self.lam(args[2]))
        return q.len(r)

    def c_count(self, n, args):
        a, b = self.rvalue(args[0]), self.rvalue(args[1])
        s = self.subrange(a, b)
        return T.seq_by_sort(s.sort()).cnt(s, self.elem_val(self.rvalue(args[2])))

    def c_remove_if(self, n, args):
        """keeps the elements that do not satisfy the predicate, in front"""
        cl = self.lam(args[2])
        a, b = self.rvalue(args[0]), self.rvalue(args[1])
        if not (z3.simplify(a.idx == 0).eq(BoolVal(True)) and z3.simplify(b.idx == self.clen(a.loc.load())).eq(BoolVal(True))):
            raise Unsupported('remove_if on a sub-range')
        s = a.loc.load()
        q = T.seq_by_sort(s.sort())
        neg = Closure(cl.node, cl.frame, cl.func)
        x = self.fresh('x', q.T)
        pt = ctype(cl.func.params[0])
        self.hyps.append(q.cnt(s, x) >= 1)
        self.feas.push()
        try:
            p = self.pure_pred(cl, [TempLoc(x) if pt.ptr.endswith('&') else x])
        finally:
            self.hyps.pop(); self.feas.pop()
        kept = self.fresh('kept', q.S)
        xx = Const('xx', q.T)
        pp = z3.substitute(p, (x, xx))
        self.assume(ForAll([xx], q.cnt(kept, xx) == If(pp, 0, q.cnt(s, xx)), patterns=[q.cnt(kept, xx)]))
        self.assume(ForAll([xx], Implies(And(q.cnt(s, xx) >= 1, Not(pp)), q.cnt(kept, xx) >= 1), patterns=[q.cnt(s, xx)]))
        self.assume(q.len(kept) <= q.len(s))
        out = self.fresh('removed', q.S)
        self.assume(And(q.len(out) == q.len(s), q.take(out, q.len(kept)) == kept))
        a.loc.store(out)
        return Iter(a.loc, q.len(kept), False, 'seq', out)

    def c_for_each(self, n, args):
        a, b = self.rvalue(args[0]), self.rvalue(args[1])
        cl = self.lam(args[2])
        c0 = a.loc.load()
        if T.seq_by_sort(c0.sort()) is None:
            # all the keys of a set (or the entries of a map), in order
            whole = z3.simplify(a.idx == 0).eq(BoolVal(True)) and z3.simplify(b.idx == self.clen(c0)).eq(BoolVal(True))
            if a.rev or b.rev or not whole or a.key is not None or not same_loc(a.loc, b.loc):
                raise Unsupported('part of a map range')
            coll = a.loc
        else:
            s = self.subrange(a, b)
            coll = a.loc if s.eq(c0) else TempLoc(s)
        pt = ctype(cl.func.params[0])

        def body(loc):
            self.call_closure(cl, [loc if pt.ptr.endswith('&') else loc.load()])
        self.range_loop(n, coll, body)
        return VOID

    def c_transform(self, n, args):
        """each element is replaced by its image, in order (same container and range)"""
        if len(args) != 4:
            raise Unsupported('transform of two ranges')
        a, b, o = self.rvalue(args[0]), self.rvalue(args[1]), self.rvalue(args[2])
        cl = self.lam(args[3])
        s = a.loc.load()
        whole = lambda i: z3.simplify(i.idx == 0).eq(BoolVal(True))
        if not (isinstance(o, Iter) and whole(a) and whole(o) and same_loc(a.loc, o.loc) and z3.simplify(b.idx == self.clen(s)).eq(BoolVal(True))):
            raise Unsupported('transform into another range')
        pt = ctype(cl.func.params[0])

        def body(loc):
            v = self.call_closure(cl, [loc if pt.ptr.endswith('&') else loc.load()])
            if isinstance(v, Loc):
                v = v.load()
            loc.store(self.elem_val(v, a.loc.ct.args[0]))
        self.range_loop(n, a.loc, body)
        return o

    def c_accumulate(self, n, args):
        a, b = self.rvalue(args[0]), self.rvalue(args[1])
        if len(args) != 3:
            raise Unsupported('accumulate with an operation')
        s = self.subrange(a, b)
        q = T.seq_by_sort(s.sort())
        init = self.rvalue(args[2])
        if q.T == F64 and init.sort() == F64:
            return T.f_add(init, q.sum(s, q.len(s))) if not z3.simplify(init == T.fin(0)).eq(BoolVal(True)) else q.sum(s, q.len(s))
        if q.T == INT and init.sort() == INT:
            r = INT_RANGES.get(ctype(n).name)
            x = init + q.sum(s, q.len(s))
            return x % (r[1] + 1) if r and r[0] == 0 else x
        raise Unsupported('accumulate')

    def c_iota(self, n, args):
        a, b = self.rvalue(args[0]), self.rvalue(args[1])
        s = a.loc.load()
        q = T.seq_by_sort(s.sort())
        v = self.rvalue(args[2])
        if not (z3.simplify(a.idx == 0).eq(BoolVal(True)) and z3.simplify(b.idx == q.len(s)).eq(BoolVal(True))):
            raise Unsupported('iota on a sub-range')
        r = self.fresh('iota', q.S)
        i = z3.Int('i')
        self.assume(q.len(r) == q.len(s))
        self.assume(ForAll([i], Implies(And(0 <= i, i < q.len(r)), q.at(r, i) == v + i), patterns=[q.at(r, i)]))
        a.loc.store(r)
        return VOID

    def c_calloc(self, n, args):
        from .engine import Calloc
        return Calloc(self.rvalue(args[0]))

    def c_free(self, n, args):
        self.eval(args[0])
        return VOID

    def c_iter_swap(self, n, args):
        a, b = self.rvalue(args[0]), self.rvalue(args[1])
        x, y = self.iter_deref(a), self.iter_deref(b)
        if isinstance(x, Obj) or isinstance(y, Obj):
            raise Unsupported('iter_swap of objects')
        vx, vy = x.load(), y.load()
        x.store(vy); y.store(vx)
        return VOID

    def c_swap(self, n, args):
        x, y = self.eval(args[0]), self.eval(args[1])
        if isinstance(x, Obj) or isinstance(y, Obj) or not isinstance(x, Loc):
            raise Unsupported('swap of objects')
        vx, vy = x.load(), y.load()
        x.store(vy); y.store(vx)
        return VOID

    def c_advance(self, n, args):
        l = self.eval(args[0])
        l.store(self.iter_step(l.load(), self.rvalue(args[1])))
        return VOID

    def c_next(self, n, args):
        d = self.rvalue(args[1]) if len(args) > 1 and args[1].get('kind') != 'CXXDefaultArgExpr' else IntVal(1)
        return self.iter_step(self.rvalue(args[0]), d)

    def c_prev(self, n, args):
        d = self.rvalue(args[1]) if len(args) > 1 and args[1].get('kind') != 'CXXDefaultArgExpr' else IntVal(1)
        return self.iter_step(self.rvalue(args[0]), -d)

    def c_distance(self, n, args):
        return self.rvalue(args[1]).idx - self.rvalue(args[0]).idx

    def cont_of(self, args):
        v = self.eval(args[0])
        if isinstance(v, VarLoc) and isinstance(v.val, Loc):
            v = v.val
        return self.as_loc(v, ctype(args[0]).noref())

    def c_begin(self, n, args):
        return self.begin(self.cont_of(args), ctype(args[0]).noref())

    def c_end(self, n, args):
        return self.end(self.cont_of(args), ctype(args[0]).noref())

    c_cbegin, c_cend = c_begin, c_end

    def c_max(self, n, args):
        if not args:
            r = INT_RANGES.get(ctype(n).name)
            if r is None:
                raise Unsupported('numeric_limits::max')
            return IntVal(r[1])
        x, y = self.rvalue(args[0]), self.rvalue(args[1])
        if x.sort() == F64:
            return If(T.f_lt(x, y), y, x)
        return If(x < y, y, x)

    def c_min(self, n, args):
        if not args:
            r = INT_RANGES.get(ctype(n).name)
            if r is None:
                raise Unsupported('numeric_limits::min')
            return IntVal(r[0])
        x, y = self.rvalue(args[0]), self.rvalue(args[1])
        if x.sort() == F64:
            return If(T.f_lt(y, x), y, x)
        return If(y < x, y, x)

    def c_infinity(self, n, args):
        return F64.pinf

    def c_quiet_NaN(self, n, args):
        return F64.nan

    def c_isnan(self, n, args):
        return T.f_isnan(self.tof(self.rvalue(args[0])))

    def c_isinf(self, n, args):
        x = self.rvalue(args[0])
        return Or(F64.is_pinf(x), F64.is_ninf(x))

    def c_isfinite(self, n, args):
        return F64.is_fin(self.rvalue(args[0]))

    def c_abs(self, n, args):
        x = self.rvalue(args[0])
        if x.sort() == INT:
            return If(x < 0, -x, x)
        return If(F64.is_fin(x), F64.fin(If(F64.r(x) < 0, -F64.r(x), F64.r(x))), If(F64.is_nan(x), x, F64.pinf))

    c_fabs = c_abs

    def c_floor(self, n, args):
        x = self.tof(self.rvalue(args[0]))
        return If(F64.is_fin(x), F64.fin(z3.ToReal(z3.ToInt(F64.r(x)))), x)

    def c_ceil(self, n, args):
        x = self.tof(self.rvalue(args[0]))
        return If(F64.is_fin(x), F64.fin(-z3.ToReal(z3.ToInt(-F64.r(x)))), x)

    c_ceill, c_floorl = c_ceil, c_floor

    def c_log2l(self, n, args):
        x = self.tof(self.rvalue(args[0]))
        return If(And(F64.is_fin(x), F64.r(x) > 0), F64.fin(z3.Function('log2', z3.RealSort(), z3.RealSort())(F64.r(x))),
                  If(And(F64.is_fin(x), F64.r(x) == 0), F64.ninf, If(F64.is_pinf(x), x, F64.nan)))

    c_log2 = c_log2l

    def c_move(self, n, args):
        return self.eval(args[0])

    c_forward = c_move

    def c_ref(self, n, args):
        return self.plain(self.eval(args[0]))

    c_cref = c_ref

    def c_make_pair(self, n, args):
        vals = [self.rvalue(a) for a in args]
        ct = ctype(n)
        if ct.name == 'std::pair' and len(ct.args) == 2 and not any(isinstance(v, (Iter, Closure)) for v in vals):
            vals = [self.plain(self.convert(v, c)) for v, c in zip(vals, ct.args)]
            return T.pair(vals[0].sort(), vals[1].sort())[0].mk(*vals)
        return PairV(vals[0], vals[1])

    def make_ptr(self, n, args):
        ct = ctype(n)
        t = ct.args[0]
        cls = CType(t.name, t.args).short
        if cls not in self.ix.classes:
            raise Unsupported('make pointer of ' + repr(t))
        fs = [f for f in self.ix.find_methods(cls, '<ctor>') if f.cls == cls]
        f = self.pick(fs, args)
        if f is None and args:
            raise Unsupported('constructor of ' + cls)
        r = self.new_object(cls)
        if f is not None and (f.body is not None or self.contract_for(f) is not None or f.key in self.native):
            bound = self.bind_args(f, args)
            if f.key in self.native:
                self.trusted_used.add(f.key + ' (model)')
                self.native[f.key](self, r, bound)
            else:
                con = self.contract_for(f)
                if con is not None:
                    self.apply_contract(con, f, r, bound)
                else:
                    self.inlined.add(f.key)
                    self.call_body(f, r, bound)
        elif args:
            self.copy_fields(cls, self.plain(self.eval(args[0])), r)
        return r

    def c_make_unique(self, n, args):
        return self.make_ptr(n, args)

    c_make_shared = c_make_unique

    def c_hardware_concurrency(self, n, args):
        return self.fresh_of('cores', parse_type('unsigned int'))

    def c_dynamic_pointer_cast(self, n, args):
        v = self.plain(self.rvalue(args[0]))
        t = ctype(n).args[0]
        return If(And(v != null, self.is_a(v, CType(t.name, t.args).short)), v, null)

    def c_static_pointer_cast(self, n, args):
        return self.plain(self.rvalue(args[0]))

    c_const_pointer_cast = c_static_pointer_cast

    def c_to_string(self, n, args):
        x = self.rvalue(args[0])
        return str_of_int(x) if x.sort() == INT else z3.Function('to_string_f', F64, Str)(x)

    def c_setw(self, n, args):
        return VOID

    c_setprecision = c_setw

    def c_printf(self, n, args):
        return IntVal(0)

    def c_endl(self, n, args):
        return VOID

    def c_sort(self, n, args):
        raise Unsupported('sort')


ALGO = {a[2:] for a in dir(Stl) if a.startswith('c_')}


def make_engine(ix, u):
    T.OPAQUE[0] = u.opaque
    e = Stl(ix, u.contracts, u.structs, u.ghosts, u.axioms, native=u.native)
    e.less_model = u.less_model
    e.values, e.cells = u.values, u.cells
    e.distinct_strings = u.distinct_strings
    return e


def unit_lemmas(e, u):
    """lemmas over the contracts: proved from the definitions and the hypotheses they state"""
    if u.lemmas is None:
        return []
    from .engine import Ob
    e.fn_label = 'lemma'
    e.start_empty()
    out = []
    hy0 = list(e.axioms(e))
    derived = [a.sexpr() for a in u.derived(e)] if u.derived else []
    for nm, hyps, goal in u.lemmas(e):
        # (hypotheses None or a tuple: a lemma that justifies the derived axioms, proved without them)
        hy = hy0 if isinstance(hyps, list) else [a for a in hy0 if a.sexpr() not in derived]
        hyps = list(hyps or [])
        out.append(Ob('lemma', nm, 'lemma', hy + e.hyps + list(hyps), goal))
        out.append(Ob('lemma', 'cover: ' + nm, 'cover', hy + e.hyps + list(hyps), z3.BoolVal(False)))
    return out
