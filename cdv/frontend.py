"""Front end of cdv: runs clang on the real sources of /repo on every run and
indexes the JSON AST (classes, fields, functions with bodies, template
instantiations).  Nothing of the code is written by hand: what is verified is
the AST clang builds from /repo's current tree."""
import json, os, re, subprocess, hashlib, tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('CDV_REPO', '/repo')
LIB = REPO + '/gegelatilib'
CLANG = ['clang++', '-std=c++17', '-DNDEBUG', '-DCODE_GENERATION', '-DGEGELATI_VERSION="0"',
         '-I', LIB + '/include', '-I', REPO + '/lib/JsonCpp', '-fsyntax-only', '-w']


class ExtractionError(Exception):
    """The code could not be brought within the verifier's reach (no verdict)."""


# ----------------------------------------------------------------- C++ types
class CType:
    __slots__ = ('name', 'args', 'const', 'ptr')

    def __init__(self, name, args=(), const=False, ptr=''):
        self.name, self.args, self.const, self.ptr = name, tuple(args), const, ptr

    def __repr__(self):
        return ('const ' if self.const else '') + self.name + (
            '<' + ','.join(map(repr, self.args)) + '>' if self.args else '') + self.ptr

    @property
    def short(self):
        n = self.name.split('::')[-1]
        if self.args and not self.name.startswith('std::'):
            n += '<' + ', '.join(a.strip() for a in (repr(x) for x in self.args)) + '>'
        elif self.name.endswith('>::' + n) and not self.name.startswith(('std::', '__gnu_cxx::')):
            n = parse_type(self.name[:-len(n) - 2]).short + '::' + n
        return n

    def noref(self):
        p = self.ptr
        while p.endswith('&'):
            p = p[:-1]
        return CType(self.name, self.args, self.const, p)

    def nocv(self):
        return CType(self.name, self.args, False, self.ptr)

    def deref(self):
        return CType(self.name, self.args, self.const, self.ptr[:-1])


_tok = re.compile(r'\s*(::|[A-Za-z_][A-Za-z_0-9]*|\(lambda at [^)]*\)|\(anonymous[^)]*\)|\d+[UL]*|[<>,*&()\[\]]|\.\.\.|-\d+)')
_INTW = {'unsigned', 'signed', 'long', 'short', 'int', 'char', 'double', 'float', 'bool', 'void'}
_tcache = {}


def parse_type(s):
    if s in _tcache:
        return _tcache[s]
    toks = []
    i = 0
    while i < len(s):
        m = _tok.match(s, i)
        if not m:
            if s[i:].strip() == '':
                break
            toks.append(s[i]); i += 1
            continue
        toks.append(m.group(1)); i = m.end()
    pos = [0]

    def peek():
        return toks[pos[0]] if pos[0] < len(toks) else None

    def nxt():
        pos[0] += 1
        return toks[pos[0] - 1]

    def typ():
        const = False
        words = []
        args = ()
        while True:
            t = peek()
            if t == 'const':
                nxt(); const = True
            elif t in ('volatile', 'struct', 'class', 'enum', 'typename', 'mutable'):
                nxt()
            elif t in _INTW:
                words.append(nxt())
            else:
                break
        if words:
            name = ' '.join(words)
        else:
            name = ''
            while True:
                t = peek()
                if t is None:
                    break
                if t == '::':
                    name += nxt()
                elif re.match(r'[A-Za-z_\d(\-]', t) and t not in ('const',) and (t[0] != '(' or len(t) > 1):
                    if name and not name.endswith('::'):
                        break
                    name += nxt()
                    args = ()
                    if peek() == '<':
                        nxt(); a = []
                        while peek() not in ('>', None):
                            a.append(typ())
                            if peek() == ',':
                                nxt()
                        if peek() == '>':
                            nxt()
                        args = tuple(a)
                        if peek() == '::':
                            # member of a template instance: keep as qualified name
                            name += '<' + ','.join(map(repr, args)) + '>'
                            args = ()
                else:
                    break
        ptr = ''
        while peek() in ('*', '&', 'const', '(', '[', 'volatile'):
            t = nxt()
            if t == 'const':
                if not ptr:
                    const = True
            elif t in '*&':
                ptr += t
            elif t == '(':
                # function type: skip the balanced rest
                d = 1
                inner = ''
                while d and peek() is not None:
                    u = nxt(); inner += u
                    d += (u == '(') - (u == ')')
                ptr += '()'
            elif t == '[':
                while peek() not in (']', None):
                    nxt()
                if peek():
                    nxt()
                ptr += '*'
        return CType(name, args, const, ptr)

    r = typ()
    _tcache[s] = r
    return r


_TDEFAULT = {}          # class template with one parameter -> its default argument


def qt(n):
    t = n.get('type', {})
    d = t.get('desugaredQualType') or t.get('qualType', '')
    if '<>' in d:
        # clang leaves out arguments that equal the defaults
        d = re.sub(r'(\w+)<>', lambda m: '%s<%s>' % (m.group(1), _TDEFAULT.get(m.group(1), '')), d)
    return d


def ctype(n):
    return parse_type(qt(n))


# ------------------------------------------------------------------- index
class Func:
    def __init__(self, name, cls, node):
        self.name, self.cls, self.node = name, cls, node
        inner = node.get('inner', [])
        self.params = [c for c in inner if c.get('kind') == 'ParmVarDecl']
        self.body = next((c for c in inner if c.get('kind') in ('CompoundStmt', 'CXXTryStmt')), None)
        self.inits = [c for c in inner if c.get('kind') == 'CXXCtorInitializer']
        self.virtual = node.get('virtual', False) or any(c.get('kind') == 'OverrideAttr' for c in inner)
        self.pure = node.get('pure', False)
        self.static = node.get('storageClass') == 'static'
        q = node.get('type', {}).get('qualType', '')
        self.qual = q
        self.const = bool(re.search(r'\)\s*const\b', q))
        self.ret = self._ret(q)
        self.default = node.get('explicitlyDefaulted') == 'default' or node.get('isImplicit')

    def _ret(self, q):
        d = 0
        # the return type is everything before the parameter list's '(' (or after the arrow)
        if re.match(r'auto ?\(', q) and re.search(r'\)( const| noexcept| mutable)* -> ', q):
            return parse_type(q[q.rindex(' -> ') + 4:].strip())
        for i, ch in enumerate(q):
            if ch == '<':
                d += 1
            elif ch == '>':
                d -= 1
            elif ch == '(' and d == 0:
                return parse_type(q[:i].strip())
        return parse_type('void')

    @property
    def key(self):
        return (self.cls + '::' if self.cls else '') + self.name

    def ptypes(self):
        return [ctype(p) for p in self.params]

    def __repr__(self):
        return self.key + '(' + ', '.join(qt(p) for p in self.params) + ')'


class Cls:
    def __init__(self, name):
        self.name = name
        self.bases = []
        self.fields = {}      # name -> FieldDecl node
        self.methods = {}     # name -> [Func]
        self.aliases = {}     # member types
        self.complete = False
        self.node = None


class Index:
    def __init__(self):
        self.classes = {}
        self.free = {}
        self.enums = {}
        self.files = {}
        self.gvars = {}
        self.tu = None
        self.parse_s = 0.0

    # ---- class helpers
    def cls(self, short):
        return self.classes.get(short)

    def supers(self, name):
        out, todo = [], [name]
        while todo:
            c = todo.pop(0)
            if c in out:
                continue
            out.append(c)
            ci = self.classes.get(c)
            if ci:
                todo += ci.bases
        return out

    def subs(self, name):
        return [c for c in self.classes if name in self.supers(c)]

    def find_field(self, cname, fname):
        for c in self.supers(cname):
            ci = self.classes.get(c)
            if ci and fname in ci.fields:
                return c, ci.fields[fname]
        return None

    def find_methods(self, cname, mname):
        for c in self.supers(cname):
            ci = self.classes.get(c)
            if ci and ci.methods.get(mname):
                return ci.methods[mname]
        return []

    def funcs_named(self, key):
        if '::' in key:
            c, m = key.rsplit('::', 1)
            ci = self.classes.get(c)
            return ci.methods.get(m, []) if ci else []
        return self.free.get(key, [])


def _run_clang(tu, filt):
    cmd = CLANG + ['-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=' + filt, tu]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode != 0:
        raise ExtractionError('clang failed on the current tree: ' + p.stderr.decode()[:2000])
    return p.stdout.decode()


def _docs(s):
    dec = json.JSONDecoder()
    i, n = 0, len(s)
    while i < n:
        while i < n and s[i] in ' \n\r\t':
            i += 1
        if i >= n:
            break
        if s[i] != '{':
            # clang prints e.g. "Dumping X:" lines in some versions
            j = s.find('\n', i)
            i = n if j < 0 else j + 1
            continue
        o, i = dec.raw_decode(s, i)
        yield o


class Loader:
    def __init__(self, cpps, filters, extra=''):
        self.ix = Index()
        self.idmap = {}
        src = extra_top = ''
        for c in cpps:
            src += '#include "%s/%s"\n' % (LIB, c)
        src += extra
        d = tempfile.mkdtemp(prefix='cdv')
        self.tu = os.path.join(d, 'tu.cpp')
        with open(self.tu, 'w') as f:
            f.write(src)
        self.ix.tu = self
        self.extra_done = set()
        try:
            with ThreadPoolExecutor(8) as ex:
                outs = list(ex.map(lambda f: _run_clang(self.tu, f), filters))
        except Exception:
            self.cleanup(); raise
        for f, s in zip(filters, outs):
            self.load(f, s)

    def cleanup(self):
        try:
            os.unlink(self.tu); os.rmdir(os.path.dirname(self.tu))
        except OSError:
            pass

    def demand(self, name):
        """Load the definition of a function outside the namespaces dumped so
        far (for instance a new static helper)."""
        if name in self.extra_done:
            return
        self.extra_done.add(name)
        try:
            self.load(name, _run_clang(self.tu, name))
        except ExtractionError:
            pass

    def load(self, filt, s):
        docs = list(_docs(s))
        ids = {}
        for d in docs:
            self._class(d, None, ids)
        for d in docs:
            self._func(d, ids)

    def _cname(self, d):
        n = d.get('name', '')
        if d.get('kind') == 'ClassTemplateSpecializationDecl':
            args = [c for c in d.get('inner', []) if c.get('kind') == 'TemplateArgument']
            n += '<' + ', '.join(repr(parse_type(a.get('type', {}).get('qualType', str({-1: 'true'}.get(a.get('value'), a.get('value', '?')))))) for a in args) + '>'
        return n

    def _class(self, d, outer, ids):
        k = d.get('kind')
        if k in ('NamespaceDecl', 'LinkageSpecDecl'):
            for c in d.get('inner', []):
                self._class(c, outer, ids)
            return
        if k == 'ClassTemplateDecl':
            ps = [c for c in d.get('inner', []) if c.get('kind') == 'TemplateTypeParmDecl']
            if len(ps) == 1:
                for a in ps[0].get('inner', []):
                    if a.get('kind') == 'TemplateArgument' and a.get('type'):
                        _TDEFAULT[d.get('name')] = a['type']['qualType']
            for c in d.get('inner', []):
                if c.get('kind') == 'ClassTemplateSpecializationDecl':
                    self._class(c, outer, ids)
            return
        if k == 'EnumDecl':
            v = 0
            for c in d.get('inner', []):
                if c.get('kind') == 'EnumConstantDecl':
                    self.ix.enums[(d.get('name'), c['name'])] = v
                    self.ix.enums[c['name']] = v
                    v += 1
            return
        if k not in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl'):
            return
        n = self._cname(d)
        if not n:
            return
        if outer and '<' in outer:
            n = outer + '::' + n           # a member class of an instance of a template
        ids[d['id']] = n
        ci = self.ix.classes.get(n)
        if ci is None:
            ci = self.ix.classes[n] = Cls(n)
        if not d.get('completeDefinition'):
            return
        ci.node = d
        ci.complete = True
        ci.bases = [parse_type(b['type'].get('desugaredQualType') or b['type']['qualType']).short for b in d.get('bases', [])]
        for c in d.get('inner', []):
            if c.get('kind') in ('TypeAliasDecl', 'TypedefDecl') and c.get('type'):
                ci.aliases[c.get('name')] = ctype(c)
        for c in d.get('inner', []):
            ck = c.get('kind')
            if ck == 'FieldDecl':
                ci.fields[c.get('name', '')] = c
            elif ck == 'VarDecl':
                self.ix.gvars[(n, c.get('name'))] = c
            elif ck in ('CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl'):
                self._method(n, c, ids)
            elif ck == 'FunctionTemplateDecl':
                for f in c.get('inner', []):
                    if f.get('kind') in ('CXXMethodDecl', 'CXXConstructorDecl'):
                        if any(a.get('kind') == 'TemplateArgument' for a in f.get('inner', [])):
                            self._method(n, f, ids)
            elif ck in ('CXXRecordDecl', 'ClassTemplateDecl', 'EnumDecl'):
                self._class(c, n, ids)

    def _method(self, cname, c, ids):
        name = c.get('name', '')
        if c['kind'] == 'CXXConstructorDecl':
            name = '<ctor>'
        elif c['kind'] == 'CXXDestructorDecl':
            name = '<dtor>'
        f = Func(name, cname, c)
        al = self.ix.classes[cname].aliases.get(f.ret.name)
        if al is not None and not f.ret.ptr:
            f.ret = al
        ids[c['id']] = f
        lst = self.ix.classes[cname].methods.setdefault(name, [])
        for o in lst:
            if o.qual == f.qual:
                if f.body is not None and o.body is None:
                    lst.remove(o)
                    break
                return
        lst.append(f)

    def _func(self, d, ids):
        k = d.get('kind')
        if k in ('NamespaceDecl', 'LinkageSpecDecl'):
            for c in d.get('inner', []):
                self._func(c, ids)
            return
        if k == 'FunctionTemplateDecl':
            for f in d.get('inner', []):
                if f.get('kind') == 'FunctionDecl' and any(a.get('kind') == 'TemplateArgument' for a in f.get('inner', [])):
                    self._func(f, ids)
                elif f.get('kind') in ('CXXMethodDecl',) and any(a.get('kind') == 'TemplateArgument' for a in f.get('inner', [])):
                    self._func(f, ids)
            return
        if k == 'FunctionDecl':
            f = Func(d.get('name'), None, d)
            lst = self.ix.free.setdefault(f.name, [])
            for o in list(lst):
                if o.qual == f.qual:
                    if f.body is not None:
                        lst.remove(o)
                    elif o.body is not None:
                        return
                    else:
                        lst.remove(o)
            # keep default arguments of an earlier declaration
            lst.append(f)
            return
        if k == 'VarDecl':
            self.ix.gvars[(None, d.get('name'))] = d
            return
        if k in ('CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl'):
            prev = ids.get(d.get('previousDecl'))
            cname = prev.cls if isinstance(prev, Func) else ids.get(d.get('parentDeclContextId'))
            if cname is None or isinstance(cname, Func):
                cname = _cls_from_mangled(d.get('mangledName', ''))
            if cname is None:
                return
            self.ix.classes.setdefault(cname, Cls(cname))
            name = {'CXXConstructorDecl': '<ctor>', 'CXXDestructorDecl': '<dtor>'}.get(k, d.get('name'))
            f = Func(name, cname, d)
            lst = self.ix.classes[cname].methods.setdefault(name, [])
            if isinstance(prev, Func):
                f.virtual = f.virtual or prev.virtual
                f.static = f.static or prev.static
                for a, b in zip(f.params, prev.params):
                    if not a.get('inner') and b.get('inner'):
                        a['inner'] = [x for x in b['inner'] if 'Comment' not in x.get('kind', '')]
                if prev in lst:
                    lst[lst.index(prev)] = f
                    return
            for o in list(lst):
                if o.qual == f.qual:
                    f.virtual = f.virtual or o.virtual
                    f.static = f.static or o.static
                    lst.remove(o)
            lst.append(f)


def _cls_from_mangled(m):
    if not m.startswith('_ZN'):
        return None
    s = m[3:].lstrip('KVr')
    parts = []
    while s and s[0].isdigit():
        k = re.match(r'\d+', s).group(0)
        n = int(k)
        parts.append(s[len(k):len(k) + n])
        s = s[len(k) + n:]
    if s[:1] in ('C', 'D'):
        return parts[-1] if parts else None
    return parts[-2] if len(parts) > 1 else None


def source_hash(cpps):
    h = hashlib.sha256()
    for root, _, fs in sorted(os.walk(LIB)):
        for f in sorted(fs):
            with open(os.path.join(root, f), 'rb') as fh:
                h.update(f.encode()); h.update(fh.read())
    return h.hexdigest()
