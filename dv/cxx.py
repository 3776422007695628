"""C++ front end: clang's AST of /repo's own source, turned into the tree the interpreter of pyfront runs.

The translation is mechanical and happens on every run.  All .cpp files of the extension are read as one translation unit
(clang 18, -ast-dump=json), so templates are seen as instantiated and every implicit conversion, constructor call and
overload is the compiler's own choice.  What is dropped: reference counting (Py_INCREF and the like), destructors and
delete, the arguments of thrown exceptions.  Pointers, references and smart pointers are references; nullptr is 0; struct values
are objects of their own, copied where clang's AST copies them.  Integers and doubles are mathematical.
"""
import ast, glob, json, os, re, subprocess, tempfile
from .core import *
from .pyfront import Repo, Module, ClassVal, FuncVal

PY = '/opt/venv/bin/python'

# --------------------------------------------------------------------------- types

RENAME = {'R4Py_DiscretePoint': 'D', 'R4Py_ContinuousPoint': 'C', 'MultiOccupancyAccessor': 'MO', 'SingleOccupancyAccessor': 'SO',
          'StickyBorders': 'Sticky', 'PeriodicBorders': 'Periodic', 'R4Py_Agent': 'Agent', 'R4Py_AgentID': 'AgentID',
          'DistributedCartesianSpace': 'DCS'}
INTS = {'int', 'long', 'unsigned int', 'unsigned long', 'size_t', 'long long', 'unsigned long long', 'short', 'unsigned', 'char', 'signed char',
        'unsigned char', 'std::size_t', 'size_type', 'Py_ssize_t', 'long_t', 'ssize_t', 'uint32_t', 'int64_t'}
SMART = {'shared_ptr', 'unique_ptr', '__shared_ptr', '__shared_ptr_access'}


class CT:
    """a parsed C++ type"""
    def __init__(self, name, args=(), ptr=0, ref=False):
        self.name, self.args, self.ptr, self.ref = name, tuple(args), ptr, ref

    def s(self):
        a = ''
        if self.args:
            args = self.args
            if self.name in ('MO', 'SO'):
                args = args[1:]
            if self.name in ('map', 'set', 'list', 'vector'):
                args = args[:{'map': 2}.get(self.name, 1)]
            if self.name == 'unique_ptr':
                args = args[:1]
            a = '<' + ','.join(x.full() for x in args) + '>'
        return self.name + a

    def full(self):
        return self.s() + '*' * self.ptr + ('&' if self.ref else '')


def parse_type(t):
    toks = re.findall(r'[A-Za-z_0-9:~]+|[<>,*&()\[\]]|\.\.\.', t)
    toks = [x for x in toks if x not in ('const', 'struct', 'class', 'volatile', 'typename', 'enum')]
    pos = [0]

    def one():
        words = []
        args = ()
        while pos[0] < len(toks) and re.match(r'[A-Za-z_0-9:~]', toks[pos[0]]):
            words.append(toks[pos[0]])
            pos[0] += 1
            if pos[0] < len(toks) and toks[pos[0]] == '<':
                pos[0] += 1
                args = []
                while pos[0] < len(toks) and toks[pos[0]] != '>':
                    args.append(one())
                    if pos[0] < len(toks) and toks[pos[0]] == ',':
                        pos[0] += 1
                pos[0] += 1
        name = ' '.join(words)
        name = re.sub(r'\b(repast4py|std|__cxx11|__gnu_cxx|__detail)::', '', name)
        name = RENAME.get(name, name)
        c = CT(name, args)
        if ' ::' in name and args:
            # an alias declared inside an instantiated class
            b, a = name.split(' ::', 1)
            t = ALIASES.get((CT(RENAME.get(b, b), args).s(), a))
            if t:
                t = parse_type(t)
                c = CT(t.name, t.args, t.ptr, t.ref)
        elif not args and '::' in name and tuple(name.rsplit('::', 1)) in ALIASES:
            t = parse_type(ALIASES[tuple(name.rsplit('::', 1))])
            c = CT(t.name, t.args, t.ptr, t.ref)
        elif not args and (CUR[0], name) in ALIASES and ALIASES[(CUR[0], name)] != name:
            t = parse_type(ALIASES[(CUR[0], name)])
            c = CT(t.name, t.args, t.ptr, t.ref)
        while pos[0] < len(toks) and toks[pos[0]] in ('*', '&', '(', ')', '[', ']'):
            x = toks[pos[0]]
            if x == '*':
                c.ptr += 1
            elif x == '&':
                c.ref = True
            elif x == '(':
                # a function type: everything up to the end is opaque
                pos[0] = len(toks)
                return CT('function', (), 1)
            elif x == '[':
                c.ptr += 1
                while toks[pos[0]] != ']':
                    pos[0] += 1
            elif x == ')':
                break
            pos[0] += 1
        return c
    return one()


def qt(n):
    t = n.get('type') or {}
    return t.get('desugaredQualType') or t.get('qualType') or ''


def ctype(n):
    return parse_type(qt(n))


ALIASES = {}
CUR = [None]
KEYS = {'AgentID': TUP(INT, INT, INT), 'Point<D>': TUP(INT, INT, INT), 'Point<C>': TUP(REAL, REAL, REAL)}


def ty_of_ct(c, distinct=()):
    """C++ type -> type of the verifier"""
    if c.name in SMART and c.args:
        return ty_of_ct(CT(c.args[0].name, c.args[0].args, c.args[0].ptr + 1))
    if c.name == 'function':
        return REF('Callable')
    if c.ptr and c.name in INTS:
        return LIST(INT)
    if c.ptr and c.name == 'double':
        return LIST(REAL)
    if c.name in INTS:
        return INT
    if c.name in ('double', 'float'):
        return REAL
    if c.name == 'bool':
        return BOOL
    if c.name in ('basic_string', 'string'):
        return STR
    if c.name in ('PyObject', '_object', 'PyTypeObject', '_typeobject', 'void'):
        return ANY
    if c.name == 'map':
        k = c.args[0]
        kt = KEYS.get(k.s()) or ty_of_ct(k)
        if k.s() in KEYS:
            # the keys are told apart by the comparator of the map: only those under contract (I01) are taken as equality of components
            comp = c.args[2].s() if len(c.args) > 2 else 'less'
            if comp not in ('agent_id_comp', 'PointComp<D>', 'PointComp<C>'):
                return REF('map ordered by ' + comp)
        return DICT(kt, ty_of_ct(c.args[1]))
    if c.name == 'set':
        if len(c.args) > 1 and not c.args[1].s().startswith('less'):
            return REF('set ordered by ' + c.args[1].s())
        return SET(ty_of_ct(c.args[0]))
    if c.name in ('list', 'vector') and c.args[0].full() == 'Agent*':
        return DLIST(ty_of_ct(c.args[0]))
    if c.name in ('list', 'vector', 'initializer_list'):
        return LIST(ty_of_ct(c.args[0]))
    return REF(c.s())


# --------------------------------------------------------------------------- loading

def clang_ast(src):
    code = 'import numpy, mpi4py, sysconfig; print(numpy.get_include()); print(mpi4py.get_include()); print(sysconfig.get_paths()["include"])'
    inc = subprocess.check_output([PY, '-c', code], text=True).split()
    mpi = subprocess.run(['mpicxx.openmpi', '--showme:compile'], capture_output=True, text=True, env=dict(os.environ, OMPI_ALLOW_RUN_AS_ROOT='1')).stdout.split()
    files = ['spacemodule.cpp'] + sorted(os.path.basename(f) for f in glob.glob(src + '/*.cpp') if os.path.basename(f) not in ('spacemodule.cpp', 'coremodule.cpp'))
    with tempfile.TemporaryDirectory() as d:
        with open(d + '/all.cpp', 'w') as f:
            f.write(''.join('#include "%s/%s"\n' % (src, x) for x in files))
        p = subprocess.run(['clang++', '-std=c++11', '-w', '-fsyntax-only', '-DNDEBUG', *['-I' + x for x in inc], *mpi, '-I' + src, '-Xclang', '-ast-dump=json',
                            '-Xclang', '-ast-dump-filter=repast4py', d + '/all.cpp'], capture_output=True, text=True)
        if p.returncode:
            raise Unsupported('clang does not accept the source: ' + p.stderr[-400:])
    s, i, docs, dec = p.stdout, 0, [], json.JSONDecoder()
    while True:
        while i < len(s) and s[i] in ' \r\n\t':
            i += 1
        if i >= len(s):
            return docs
        if s[i] != '{':
            i = s.index('\n', i)
            continue
        d, i = dec.raw_decode(s, i)
        docs.append(d)


PASS = {'ExprWithCleanups', 'MaterializeTemporaryExpr', 'ParenExpr', 'CXXBindTemporaryExpr', 'ConstantExpr', 'SubstNonTypeTemplateParmExpr', 'CXXStdInitializerListExpr', 'CXXConstCastExpr'}
DROPCALLS = {'Py_INCREF', 'Py_DECREF', 'Py_XDECREF', 'Py_XINCREF', '_Py_DECREF', '_Py_INCREF', 'printf', 'Py_CLEAR'}


def nm(x):
    return ast.Name(x, ast.Load())


def call(f, *args):
    return ast.Call(nm(f) if isinstance(f, str) else f, list(args), [])


def const(x):
    return ast.Constant(x)


def kids(n):
    return [c for c in n.get('inner', []) if c.get('kind')]


class CxxRepo(Repo):
    MOD = 'cxx'

    def __init__(self, src):
        Repo.__init__(self, src)
        self.decl = {}        # clang id -> (kind, key, node, class)
        self.field_decl = {}  # id -> (class, name)
        self.schema = {}
        self.embedded = {}    # (class, field) -> struct held by value
        self.funcs = {}
        self.taken = []       # functions whose address is taken
        self.m = Module(self.MOD, src, None)
        self.mods[self.MOD] = self.m
        docs = clang_ast(src)
        self.bodies = []
        for d in docs:
            self.scan(d, None)
        # overloaded free functions get their parameter types in the name
        cnt = {}
        for key, n in {(k, sig(nd)) for k, nd, c, i in self.bodies if c is None}:
            cnt[key] = cnt.get(key, 0) + 1
        mcnt = {}
        for key, n, c in {(k, sig(nd), c) for k, nd, c, i in self.bodies if c is not None}:
            mcnt[(c, key)] = mcnt.get((c, key), 0) + 1
        over = {k for (c, k), x in mcnt.items() if x > 1}
        quals = {}
        for k, nd, c, i in self.bodies:
            quals.setdefault((c, k, sig(nd)), set()).add(nd['type']['qualType'].rstrip().endswith('const'))
        twin = {k for k, x in quals.items() if len(x) == 2}
        over |= {k[1] for k in twin if k[0] is not None}
        for k, nd, c, i in self.bodies:
            ov = cnt[k] > 1 if c is None else k in over
            key = k + '(' + sig(nd) + ')' if ov else k
            if ov and c is not None and (nd['type']['qualType'].rstrip().endswith('const')) != (k == 'operator()') and (c, k, sig(nd)) in twin:
                key += ' 2'
            self.decl[i] = (c, key, nd)
        for c, t in (('D', INT), ('C', REAL)):
            self.schema[c].update({a: t for a in ('x', 'y', 'z')})
        # declarations without a body refer to the definition
        self.byid = dict(self.decl)
        for i, (c, key, nd) in list(self.decl.items()):
            p = nd.get('previousDecl')
            if p:
                self.byid.setdefault(p, (c, key, nd))
        for i, (c, name, s) in self.undef.items():
            if i in self.byid:
                continue
            ov = (name in over) if c is not None else cnt.get(name, 0) > 1
            self.byid[i] = (c, name + '(' + s + ')' if ov else name, None)
        self.statics = {}
        for i, (c, key, nd) in self.decl.items():
            f = self.m.env.get(key) if c is None else self.cv(c).members.get(key)
            if f is not None and body_of(nd) is None:
                continue
            if body_of(nd) is None and nd['kind'] != 'CXXConstructorDecl':
                continue
            self.add_func(c, key, nd)

    undef = None

    def cv(self, name):
        c = self.m.env.get(name)
        if c is None:
            c = ClassVal(self.m, None, self.MOD + '.' + name, name, [])
            c.members = {}
            self.m.env[name] = c
            self.classes[name] = c
        return c

    def scan(self, n, cls):
        if self.undef is None:
            self.undef = {}
        for c in kids(n):
            k = c['kind']
            if k in ('NamespaceDecl', 'LinkageSpecDecl'):
                self.scan(c, cls)
            elif k in ('ClassTemplateDecl',):
                for s in kids(c):
                    if s['kind'] == 'ClassTemplateSpecializationDecl':
                        self.scan_class(s)
            elif k in ('ClassTemplateSpecializationDecl', 'CXXRecordDecl'):
                self.scan_class(c)
            elif k == 'FunctionTemplateDecl':
                for s in kids(c):
                    if s['kind'] == 'FunctionDecl':
                        ta = [x for x in kids(s) if x['kind'] == 'TemplateArgument']
                        if ta:
                            self.bodies.append((c['name'] + '<' + ','.join(ctype(x).full() for x in ta) + '>', s, None, s['id']))
            elif k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl'):
                par = c.get('parentDeclContextId')
                if k == 'FunctionDecl':
                    if body_of(c) is not None:
                        self.bodies.append((c['name'], c, None, c['id']))
                    else:
                        self.undef[c['id']] = (None, c['name'], sig(c))
                elif par in self.clsid and body_of(c) is not None:
                    self.bodies.append(('__init__' if k == 'CXXConstructorDecl' else c['name'], c, self.clsid[par], c['id']))
            elif k == 'VarDecl':
                self.undef[c['id']] = ('var', c.get('name'), c)
                ini = [x for x in kids(c)]
                self.staticvar(c, cls)

    clsid = None

    def staticvar(self, c, cls):
        self.svars = getattr(self, 'svars', {})
        par = c.get('parentDeclContextId')
        name = (cls or (self.clsid or {}).get(par) or '') + '::' + c.get('name', '')
        self.svars[c['id']] = (name, c)
        if c.get('previousDecl'):
            self.svars[c['previousDecl']] = (name, c)

    def scan_class(self, c):
        if self.clsid is None:
            self.clsid = {}
        if 'name' not in c or not c.get('completeDefinition', True) and not kids(c):
            return
        ta = [x for x in kids(c) if x['kind'] == 'TemplateArgument']
        ct = CT(RENAME.get(c['name'], c['name']), [parse_type(x.get('type', {}).get('qualType', '')) for x in ta])
        name = ct.s()
        self.clsid[c['id']] = name
        if not c.get('definitionData') and not any(x['kind'] in ('FieldDecl', 'CXXMethodDecl') for x in kids(c)):
            return
        if name in self.schema:
            return
        cv = self.cv(name)
        sc = self.schema.setdefault(name, {})
        for b in c.get('bases', []):
            bt = parse_type(b['type'].get('desugaredQualType') or b['type']['qualType'])
            cv.bases.append(nm(bt.s()))
        cv.virtual = set()
        outer, CUR[0] = CUR[0], name
        try:
            self.scan_members(c, name, cv, sc)
        finally:
            CUR[0] = outer

    def scan_members(self, c, name, cv, sc):
        for x in kids(c):
            if x['kind'] in ('TypeAliasDecl', 'TypedefDecl') and 'name' in x:
                ALIASES[(name, x['name'])] = qt(x)
        for x in kids(c):
            if x['kind'] == 'FieldDecl' and 'name' in x:
                t = ctype(x)
                ft = ty_of_ct(t)
                sc[x['name']] = ft
                self.field_decl[x['id']] = (name, x['name'])
                if not t.ptr and not t.ref and t.name not in SMART and ft.name == 'Ref':
                    self.embedded[(name, x['name'])] = ft.args[0]
            elif x['kind'] in ('CXXMethodDecl', 'CXXConstructorDecl'):
                key = '__init__' if x['kind'] == 'CXXConstructorDecl' else x['name']
                if x.get('isImplicit') and x['kind'] == 'CXXConstructorDecl':
                    continue
                if body_of(x) is not None or x['kind'] == 'CXXConstructorDecl' and x.get('explicitlyDefaulted') is None and body_of(x):
                    self.bodies.append((key, x, name, x['id']))
                else:
                    self.undef[x['id']] = (name, key, sig(x))
            elif x['kind'] == 'VarDecl':
                self.staticvar(x, name)
            elif x['kind'] in ('ClassTemplateSpecializationDecl', 'CXXRecordDecl') and not x.get('isImplicit'):
                self.scan_class(x)

    # ---------------------------------------------------------------- functions
    def add_func(self, c, key, nd):
        tr = Tr(self, c, nd)
        fd = LazyDef(key, tr)
        if c is None:
            f = FuncVal(self.m, fd, self.MOD + '.' + key)
            self.m.env[key] = f
        else:
            cv = self.cv(c)
            f = FuncVal(self.m, fd, cv.qual + '.' + key, cv)
            f.kind = 'static' if nd.get('storageClass') == 'static' else 'method'
            cv.members[key] = f
            alias = ident(key)
            if alias != key:
                cv.members[alias] = f

    def find(self, qual):
        m, rest = qual.split('.', 1)
        if m != self.MOD:
            return None
        if rest in self.m.env and isinstance(self.m.env[rest], FuncVal):
            return self.m.env[rest]
        if '.' not in rest:
            return None
        cls, meth = rest.split('.', 1)
        c = self.m.env.get(cls)
        if not isinstance(c, ClassVal):
            return None
        f, k = self.lookup(c, meth)
        return f if isinstance(f, FuncVal) else None


class LazyDef(ast.FunctionDef):
    """translated when it is first looked at"""
    def __init__(self, key, tr):
        self.__dict__['key'], self.__dict__['tr'] = key, tr
        self.__dict__['done'] = False

    def __getattr__(self, a):
        if a.startswith('__'):
            raise AttributeError(a)
        if a in ('body', 'args', 'name', 'decorator_list', 'lineno', 'col_offset', 'returns', 'type_comment', 'end_lineno', 'end_col_offset', 'type_params') and not self.__dict__['done']:
            self.__dict__['done'] = True
            f = self.__dict__['tr'].function(self.__dict__['key'])
            for k in ('body', 'args', 'name'):
                self.__dict__[k] = getattr(f, k)
            self.__dict__['decorator_list'] = []
            self.__dict__['lineno'] = 0
            self.__dict__['col_offset'] = 0
            if a in self.__dict__:
                return self.__dict__[a]
        raise AttributeError(a)


def ident(key):
    """the name by which a lemma calls a function whose key is no identifier"""
    return re.sub(r'[^A-Za-z0-9_]', '_', key.replace('*', 'P').replace('&', 'R').replace('operator()', 'op'))


def body_of(nd):
    for x in kids(nd):
        if x['kind'] == 'CompoundStmt':
            return x
    return None


def sig(nd):
    return ','.join(ctype(x).full() for x in kids(nd) if x['kind'] == 'ParmVarDecl')


CMP = {'==': ast.Eq, '!=': ast.NotEq, '<': ast.Lt, '<=': ast.LtE, '>': ast.Gt, '>=': ast.GtE}
ARI = {'+': ast.Add, '-': ast.Sub, '*': ast.Mult}
CONTAINERS = {'map', 'set', 'list', 'vector'}


class Tr:
    """one function"""

    def __init__(self, repo, cls, nd):
        self.r, self.cls, self.nd = repo, cls, nd
        self.names = {}
        self.used = set()
        self.boxed = set()
        self.fresh = 0

    def unsup(self, what, n=None):
        return call('@unsupported', const(what + (' in ' + str(self.nd.get('name'))))) 

    def local(self, d):
        i = d['id']
        if i not in self.names:
            base = d.get('name') or 'anon'
            if base == 'self':
                base = 'self_'
            n, k = base, 1
            while n in self.used:
                k += 1
                n = '%s_%d' % (base, k)
            self.used.add(n)
            self.names[i] = n
        return self.names[i]

    def function(self, key):
        outer, CUR[0] = CUR[0], self.cls
        try:
            return self.function_(key)
        finally:
            CUR[0] = outer

    def function_(self, key):
        nd = self.nd
        params = [x for x in kids(nd) if x['kind'] == 'ParmVarDecl']
        args, defaults = [], []
        if self.cls is not None and nd.get('storageClass') != 'static':
            args.append(ast.arg('self'))
            self.used.add('self')
        self.find_boxed(nd)
        pre = []
        for p in params:
            a = ast.arg(self.local(p))
            ct = ctype(p)
            a.ctype = ct
            args.append(a)
            dv = kids(p)
            if dv:
                defaults.append(self.E(dv[0]))
            if p['id'] in self.boxed and not ct.ptr:
                pre.append(ast.Assign([ast.Name(self.local(p), ast.Store())], ast.List([nm(self.local(p))], ast.Load())))
        body = list(pre)
        for x in kids(nd):
            if x['kind'] == 'CXXCtorInitializer':
                body += self.ctor_init(x)
        b = body_of(nd)
        if b is not None:
            body += self.S(b)
        if not body:
            body = [ast.Pass()]
        f = ast.FunctionDef(name=key, args=ast.arguments(posonlyargs=[], args=args, vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=defaults), body=body, decorator_list=[])
        ast.fix_missing_locations(f)
        return f

    def find_boxed(self, n):
        """locals of scalar type whose address is taken live in a cell of their own"""
        if n.get('kind') == 'UnaryOperator' and n.get('opcode') == '&':
            x = strip(kids(n)[0])
            if x.get('kind') == 'DeclRefExpr' and x.get('referencedDecl', {}).get('kind') in ('VarDecl', 'ParmVarDecl'):
                t = parse_type(x['type'].get('desugaredQualType') or x['type']['qualType'])
                if not t.ptr and (t.name in INTS or t.name in ('double', 'bool')):
                    self.boxed.add(x['referencedDecl']['id'])
        for c in kids(n):
            self.find_boxed(c)

    def ctor_init(self, x):
        inner = kids(x)
        if 'anyInit' in x:
            f = x['anyInit']['name']
            t = parse_type(x['anyInit'].get('type', {}).get('desugaredQualType') or x['anyInit'].get('type', {}).get('qualType', ''))
            v = self.E(inner[0]) if inner else const(None)
            if inner and strip(inner[0])['kind'] == 'InitListExpr' and not t.ptr and len(kids(strip(inner[0]))) == 1 and ty_of_ct(t).name in ('Int', 'Real', 'Bool'):
                v = self.E(kids(strip(inner[0]))[0])
            return [ast.Assign([ast.Attribute(nm('self'), f, ast.Store())], v)]
        if 'baseInit' in x:
            b = parse_type(x['baseInit'].get('desugaredQualType') or x['baseInit']['qualType']).s()
            e = strip(inner[0])
            key = self.ctor_key(e, b)
            if key is None:
                return []
            return [ast.Expr(call(ast.Attribute(nm(b), key, ast.Load()), nm('self'), *[self.E(a) for a in kids(e)]))]
        return []

    def ctor_key(self, e, cls):
        """which constructor of cls a CXXConstructExpr calls; None: a trivial one"""
        c = self.r.m.env.get(cls)
        if not isinstance(c, ClassVal):
            return None
        t = (e.get('ctorType') or {}).get('qualType', 'void ()')
        ps = parse_params(t)
        for k, f in c.members.items():
            if k == '__init__' or k.startswith('__init__('):
                if sig(f.node.__dict__['tr'].nd) == ','.join(ps):
                    return k
        # desugared types may be spelled differently: by number of parameters
        cand = [k for k, f in c.members.items() if (k == '__init__' or k.startswith('__init__(')) and len([x for x in kids(f.node.__dict__['tr'].nd) if x['kind'] == 'ParmVarDecl']) == len(ps)]
        if len(cand) == 1:
            return cand[0]
        return None

    # ---------------------------------------------------------------- statements
    def S(self, n):
        k = n['kind']
        f = getattr(self, 'S_' + k, None)
        if f:
            r = f(n)
            return r
        return [self.estmt(n)] if True else []

    def estmt(self, n):
        n = strip(n)
        k = n['kind']
        if k == 'BinaryOperator' and n['opcode'] == '=':
            l, r = kids(n)
            return self.assign(l, self.E(r))
        if k == 'CompoundAssignOperator':
            l, r = kids(n)
            op = n['opcode'][:-1]
            return self.assign(l, self.arith(op, self.E(l), self.E(r), n))
        if k == 'UnaryOperator' and n['opcode'] in ('++', '--'):
            l = kids(n)[0]
            return self.assign(l, ast.BinOp(self.E(l), ast.Add() if n['opcode'] == '++' else ast.Sub(), const(1)))
        if k == 'CXXOperatorCallExpr':
            op = self.opname(n)
            a = kids(n)[1:]
            if op == 'operator=':
                t = ctype(a[0])
                cls = t.s()
                if not t.ptr and cls in self.r.schema:
                    return ast.Expr(call('@assign', self.E(a[0]), self.E(a[1])))
                return self.assign(a[0], self.E(a[1]))
            if op in ('operator++', 'operator--'):
                l = a[0]
                return self.assign(l, call('@advance', self.E(l), const(1 if op == 'operator++' else -1)))
        if k == 'CXXThrowExpr':
            t = ctype(kids(n)[0]).s() if kids(n) else 'rethrow'
            return ast.Raise(exc=call('@exc', const(t)), cause=None)
        if k == 'CallExpr' and self.callee_name(n) in DROPCALLS:
            return ast.Pass()
        if k == 'CXXDeleteExpr':
            return ast.Pass()
        return ast.Expr(self.E(n))

    def assign(self, l, v):
        l = strip(l)
        k = l['kind']
        if k == 'DeclRefExpr':
            d = l['referencedDecl']
            if d['id'] in self.boxed:
                return ast.Assign([ast.Subscript(nm(self.local(d)), const(0), ast.Store())], v)
            if d['kind'] in ('VarDecl', 'ParmVarDecl') and d['id'] not in getattr(self.r, 'svars', {}):
                if d['id'] in self.refs:
                    return self.assign(self.refs[d['id']], v)
                pt = parse_type(d['type'].get('desugaredQualType') or d['type']['qualType'])
                if pt.ref and ty_of_ct(CT(pt.name, pt.args, pt.ptr)).name in ('Int', 'Real', 'Bool'):
                    return ast.Expr(call('@unsupported', const('assignment through a scalar reference')))
                return ast.Assign([ast.Name(self.local(d), ast.Store())], v)
        if k == 'MemberExpr':
            return ast.Assign([ast.Attribute(self.E(kids(l)[0]), l['name'], ast.Store())], v)
        if k == 'ArraySubscriptExpr':
            b, i = kids(l)
            return ast.Assign([ast.Subscript(self.E(b), self.E(i), ast.Store())], v)
        if k == 'UnaryOperator' and l['opcode'] == '*':
            return ast.Assign([ast.Subscript(self.E(kids(l)[0]), const(0), ast.Store())], v)
        if k == 'CXXOperatorCallExpr' and self.opname(l) == 'operator[]':
            a = kids(l)[1:]
            if ctype(a[0]).name == 'map':
                return ast.Expr(call('@map.set', self.E(a[0]), self.E(a[1]), v))
            return ast.Assign([ast.Subscript(self.E(a[0]), self.E(a[1]), ast.Store())], v)
        if k == 'CXXOperatorCallExpr' and self.opname(l) == 'operator*':
            return ast.Expr(call('@store', self.E(kids(l)[1]), v))
        return ast.Expr(self.unsup('assignment to ' + k))

    refs = {}

    def S_CompoundStmt(self, n):
        out = []
        for c in kids(n):
            out += self.S(c)
        return out or [ast.Pass()]

    def S_DeclStmt(self, n):
        out = []
        for d in kids(n):
            if d['kind'] != 'VarDecl':
                continue
            ini = kids(d)
            t = ctype(d)
            if ini:
                i = strip(ini[0])
                if i['kind'] == 'CXXConstructExpr' and not kids(i) and not t.ptr and t.s() in self.r.schema:
                    v = self.construct(t, i)
                else:
                    v = self.E(ini[0])
                    if i['kind'] == 'InitListExpr' and not t.ptr and ty_of_ct(t).name in ('Int', 'Real', 'Bool'):
                        v = self.E(kids(i)[0])
            elif t.ptr and '[' in qt(d):
                m = re.search(r'\[(\d+)\]', qt(d))
                v = call('@newarr', const(int(m.group(1))), const('INT' if t.name in INTS else 'REAL'))
            elif t.s() in self.r.schema and not t.ptr:
                v = call('@agg', const(t.s()))
            else:
                v = call('@undef', const(ty_name(t)))
            if d['id'] in self.boxed:
                v = call('@cell', v, const(ty_name(t)))
            out.append(ast.Assign([ast.Name(self.local(d), ast.Store())], v))
        return out

    def S_IfStmt(self, n):
        ks = kids(n)
        pre = []
        if ks[0]['kind'] == 'DeclStmt':
            pre = self.S(ks[0])
            ks = ks[1:]
        cond = self.E(ks[0])
        body = self.S(ks[1])
        els = self.S(ks[2]) if len(ks) > 2 else []
        return pre + [ast.If(cond, body or [ast.Pass()], els)]

    def S_ReturnStmt(self, n):
        ks = kids(n)
        if not ks:
            return [ast.Return(None)]
        x = strip(ks[0])
        if x['kind'] == 'CXXThrowExpr' or (ctype(x).name == 'void' and not ctype(x).ptr):
            return self.S(ks[0]) + [ast.Return(None)]
        return [ast.Return(self.E(ks[0]))]

    def S_BreakStmt(self, n):
        return [ast.Break()]

    def S_ContinueStmt(self, n):
        return [ast.Continue()]

    def S_NullStmt(self, n):
        return [ast.Pass()]

    def S_WhileStmt(self, n):
        ks = kids(n)
        return [ast.While(self.E(ks[0]), self.S(ks[1]), [])]

    def S_DoStmt(self, n):
        ks = kids(n)
        if has_loop_jump(ks[0]):
            return [ast.Expr(self.unsup('continue or break in a do loop'))]
        b = self.S(ks[0])
        return b + [ast.While(self.E(ks[1]), self.S(ks[0]), [])]

    def S_ForStmt(self, n):
        raw = n.get('inner', [])
        init, cv, cond, inc, body = raw[0], raw[1], raw[2], raw[3], raw[4]
        out = self.S(init) if init.get('kind') else []
        incs = []
        if inc.get('kind'):
            incs = [self.estmt(inc)] if strip(inc)['kind'] != 'BinaryOperator' or strip(inc)['opcode'] != ',' else [self.estmt(x) for x in kids(strip(inc))]
        b = self.S(body)
        b = add_inc(b, incs)
        return out + [ast.While(self.E(cond) if cond.get('kind') else const(True), b + incs, [])]

    def S_CXXForRangeStmt(self, n):
        raw = [c for c in n.get('inner', []) if c.get('kind')]
        decls = [c for c in raw if c['kind'] == 'DeclStmt']
        rng = kids(kids(decls[0])[0])[0]
        var = kids(decls[-1])[0]
        body = raw[-1]
        t = ctype(rng)
        it = self.E(rng)
        if t.name == 'map' and not t.ptr:
            it = call('@items', it)
        vt = ctype(var)
        tgt = ast.Name(self.local(var), ast.Store())
        b = self.S(body)
        ini = kids(var)
        # a loop variable that is a copy of a struct
        if ini and not vt.ref and not vt.ptr and vt.s() in self.r.schema:
            b = [ast.Assign([ast.Name(self.local(var), ast.Store())], call('@copy', nm(self.local(var))))] + b
        return [ast.For(tgt, it, b, [])]

    # ---------------------------------------------------------------- expressions
    def opname(self, n):
        r = strip(kids(n)[0])
        return (r.get('referencedDecl') or {}).get('name') or ''

    def callee_name(self, n):
        c = strip(kids(n)[0])
        return (c.get('referencedDecl') or {}).get('name') or c.get('name') or ''

    def E(self, n):
        k = n['kind']
        if k in PASS:
            return self.E(kids(n)[0])
        f = getattr(self, 'E_' + k, None)
        if f is None:
            return self.unsup('expression ' + k)
        return f(n)

    def E_ImplicitCastExpr(self, n):
        x = kids(n)[0]
        c = n.get('castKind')
        if c == 'IntegralToFloating':
            return call('@toreal', self.E(x))
        if c == 'FloatingToIntegral':
            return call('@trunc', self.E(x))
        if c in ('PointerToBoolean', 'IntegralToBoolean', 'FloatingToBoolean'):
            return call('@bool', self.E(x))
        if c == 'NullToPointer':
            return const(None)
        if c == 'BitCast':
            t = ctype(n)
            if t.ptr == 1 and t.s() in self.r.schema:
                return call('@cast', self.E(x), const(t.s()))
        return self.E(x)

    E_CStyleCastExpr = E_ImplicitCastExpr
    E_CXXStaticCastExpr = E_ImplicitCastExpr
    E_CXXReinterpretCastExpr = E_ImplicitCastExpr

    def E_CXXFunctionalCastExpr(self, n):
        return self.E_ImplicitCastExpr(n)

    def E_IntegerLiteral(self, n):
        return const(int(n['value']))

    def E_FloatingLiteral(self, n):
        return call('@float', const(str(n['value'])))

    def E_CXXBoolLiteralExpr(self, n):
        return const(bool(n['value']))

    def E_CXXNullPtrLiteralExpr(self, n):
        return const(None)

    def E_GNUNullExpr(self, n):
        return const(None)

    def E_StringLiteral(self, n):
        try:
            return const(json.loads(n['value']))
        except ValueError:
            return const(n['value'])

    def E_CXXThisExpr(self, n):
        return nm('self')

    def E_UnaryExprOrTypeTraitExpr(self, n):
        return self.unsup('sizeof')

    def E_DeclRefExpr(self, n):
        d = n['referencedDecl']
        if d['id'] in self.boxed:
            return ast.Subscript(nm(self.local(d)), const(0), ast.Load())
        if d['id'] in getattr(self.r, 'svars', {}):
            name, node = self.r.svars[d['id']]
            return call('@static', const(name), const(d['id']))
        if d['kind'] in ('VarDecl', 'ParmVarDecl'):
            if d['id'] in self.names or d['id'] in self.boxed:
                return nm(self.local(d))
            if d['name'].startswith('__range') or True:
                return nm(self.local(d))
        if d['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
            e = self.r.byid.get(d['id'])
            if e and e[0] is None:
                return nm(e[1])
            if e and e[0] not in (None, 'var'):
                return ast.Attribute(nm(e[0]), e[1], ast.Load())
            return nm('@' + d['name'])
        if d['kind'] == 'EnumConstantDecl':
            return call('@enum', const(d['name']))
        return self.unsup('reference to ' + d['kind'])

    def E_MemberExpr(self, n):
        ks = kids(n)
        i = n.get('referencedMemberDecl')
        if i in getattr(self.r, 'svars', {}):
            return call('@static', const(self.r.svars[i][0]), const(i))
        return ast.Attribute(self.E(ks[0]), n['name'], ast.Load())

    def E_ArraySubscriptExpr(self, n):
        b, i = kids(n)
        return ast.Subscript(self.E(b), self.E(i), ast.Load())

    def E_UnaryOperator(self, n):
        op = n['opcode']
        x = kids(n)[0]
        if op == '!':
            return ast.UnaryOp(ast.Not(), self.E(x))
        if op == '-':
            return ast.UnaryOp(ast.USub(), self.E(x))
        if op == '+':
            return self.E(x)
        if op == '*':
            t = ctype(n)
            if ty_of_ct(CT(t.name, t.args, t.ptr)).name in ('Int', 'Real', 'Bool'):
                return ast.Subscript(self.E(x), const(0), ast.Load())
            return call('@deref', self.E(x))
        if op == '&':
            y = strip(x)
            if y['kind'] == 'DeclRefExpr':
                d = y['referencedDecl']
                if d['id'] in self.boxed:
                    return nm(self.local(d))
                if d['kind'] == 'FunctionDecl':
                    e = self.E(y)
                    if isinstance(e, ast.Name) and e.id not in self.r.taken:
                        self.r.taken.append(e.id)
                    return e
            if y['kind'] == 'CXXOperatorCallExpr' and self.opname(y) == 'operator[]':
                a = kids(y)[1:]
                j = strip(a[1])
                if j['kind'] == 'IntegerLiteral' and j['value'] == '0':
                    return self.E(a[0])
            t = ctype(y)
            if ty_of_ct(t).isref:
                return self.E(x)
        return self.unsup('unary ' + op)

    def arith(self, op, a, b, n):
        if op in ARI:
            return ast.BinOp(a, ARI[op](), b)
        t = ctype(n)
        fl = t.name in ('double', 'float')
        if op == '/':
            return ast.BinOp(a, ast.Div(), b) if fl else call('@idiv', a, b)
        if op == '%':
            return call('@imod', a, b)
        return self.unsup('operator ' + op)

    def E_BinaryOperator(self, n):
        op = n['opcode']
        l, r = kids(n)
        if op in CMP:
            return ast.Compare(self.E(l), [CMP[op]()], [self.E(r)])
        if op == '&&':
            return ast.BoolOp(ast.And(), [self.E(l), self.E(r)])
        if op == '||':
            return ast.BoolOp(ast.Or(), [self.E(l), self.E(r)])
        if op in ('=', ','):
            return self.unsup('operator %s inside an expression' % op)
        return self.arith(op, self.E(l), self.E(r), n)

    def E_CompoundAssignOperator(self, n):
        return self.unsup('assignment inside an expression')

    def E_ConditionalOperator(self, n):
        c, a, b = kids(n)
        return ast.IfExp(self.E(c), self.E(a), self.E(b))

    def E_InitListExpr(self, n):
        t = ctype(n)
        items = [self.E(x) for x in kids(n)]
        if t.s() in self.r.schema and not t.ptr:
            return call('@agg', const(t.s()), *items)
        if t.name in CONTAINERS and not t.ptr and not items:
            return call('@new', const(ty_name(t)))
        if len(items) == 1 and (t.ptr and qt(n).rstrip().endswith('*') or not t.ptr and ty_of_ct(t).name in ('Int', 'Real', 'Bool')):
            return items[0]
        if not items and t.ptr and qt(n).rstrip().endswith('*'):
            return const(None)
        return ast.List(items, ast.Load())

    def E_ImplicitValueInitExpr(self, n):
        t = ctype(n)
        y = ty_of_ct(t)
        return const({'Int': 0, 'Bool': False}.get(y.name, 0.0 if y.name == 'Real' else None))

    def E_CXXScalarValueInitExpr(self, n):
        return self.E_ImplicitValueInitExpr(n)

    def E_CXXThrowExpr(self, n):
        return self.unsup('throw inside an expression')

    def E_CXXNewExpr(self, n):
        t = ctype(n)
        if n.get('isArray'):
            return call('@newarr', self.E(kids(n)[0]), const('INT' if t.name in INTS or ty_of_ct(CT(t.name, t.args, 0)).name == 'Int' else 'REAL'))
        for c in kids(n):
            if c['kind'] in ('CXXConstructExpr',):
                return self.E_CXXConstructExpr(c)
            if c['kind'] == 'ExprWithCleanups' or c['kind'] in PASS:
                return self.E(c)
        return self.unsup('new')

    def construct(self, t, e):
        key = self.ctor_key(e, t.s())
        if key is None:
            return call('@agg', const(t.s()))
        return call('@construct', const(t.s()), const(key), *[self.E(a) for a in kids(e) if a['kind'] != 'CXXDefaultArgExpr'])

    def E_CXXConstructExpr(self, n):
        t = ctype(n)
        a = [x for x in kids(n)]
        ct = (n.get('ctorType') or {}).get('qualType', '')
        if t.s() in self.r.schema and not t.ptr:
            if len(a) == 1:
                at = ctype(a[0])
                if at.s() == t.s() and not at.ptr and parse_params(ct) and parse_params(ct)[0].rstrip('&*') == t.s():
                    if self.ctor_key(n, t.s()):
                        return call('@construct', const(t.s()), const(self.ctor_key(n, t.s())), self.E(a[0]))
                    return call('@copy', self.E(a[0]))
            return self.construct(t, n)
        if t.name in SMART or t.name.endswith('iterator') or t.name in ('function',):
            a = [x for x in a if x['kind'] != 'CXXDefaultArgExpr']
            return self.E(a[0]) if a else const(None)
        if t.name in CONTAINERS:
            a = [x for x in a if x['kind'] != 'CXXDefaultArgExpr']
            if not a:
                return call('@new', const(ty_name(t)))
            if len(a) == 1 and ctype(a[0]).name == t.name:
                return call('@copyc', self.E(a[0]))
            if len(a) == 1 and strip(a[0])['kind'] == 'InitListExpr' or len(a) == 1 and ctype(a[0]).name == 'initializer_list':
                return call('@newfrom', const(ty_name(t)), self.E(a[0]))
            return self.unsup('constructor of ' + t.name)
        if t.name in ('basic_string', 'string'):
            a = [x for x in a if x['kind'] != 'CXXDefaultArgExpr']
            return self.E(a[0]) if a else const('')
        if t.name == 'pair':
            return call('@pair', *[self.E(x) for x in a])
        if len(a) == 1:
            return self.E(a[0])
        return self.unsup('constructor of ' + t.s())

    E_CXXTemporaryObjectExpr = E_CXXConstructExpr

    def args(self, xs):
        return [self.E(x) for x in xs if x['kind'] != 'CXXDefaultArgExpr']

    def E_CallExpr(self, n):
        ks = kids(n)
        c = strip(ks[0])
        name = self.callee_name(n)
        if name in DROPCALLS:
            return const(None)
        if c['kind'] == 'DeclRefExpr':
            d = c['referencedDecl']
            e = self.r.byid.get(d['id'])
            if d['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
                if e and e[0] is None:
                    return call(e[1], *self.args(ks[1:]))
                if e and e[0] != 'var':
                    return call(ast.Attribute(nm(e[0]), e[1], ast.Load()), *self.args(ks[1:]))
                if name in ('make_shared', 'make_unique'):
                    t = ctype(n).args[0]
                    if t.name in CONTAINERS:
                        a = self.args(ks[1:])
                        if not a:
                            return call('@new', const(ty_name(t)))
                        return call('@newfrom', const(ty_name(t)), *a)
                    return call('@make', const(t.s()), *self.args(ks[1:]))
                if name == 'Py_BuildValue':
                    return call('@Py_BuildValue', *self.args(ks[1:]))
                return call('@' + name, *self.args(ks[1:]))
        if c['kind'] == 'MemberExpr' and c['name'] == 'tp_new':
            return call('@tp_new', self.E(kids(c)[0]))
        return call('@callptr', self.E(ks[0]), *self.args(ks[1:]))

    def E_CXXMemberCallExpr(self, n):
        ks = kids(n)
        m = strip(ks[0])
        if m['kind'] != 'MemberExpr':
            return self.unsup('call through ' + m['kind'])
        base = kids(m)[0]
        i = m.get('referencedMemberDecl')
        e = self.r.byid.get(i)
        a = self.args(ks[1:])
        if e and e[0] not in (None, 'var'):
            dcls, key = e[0], e[1]
            # a qualified call of a base class's function: the static class has an override of its own
            bt = ctype(strip(base))
            if bt.name in SMART:
                bt = bt.args[0]
            st = self.r.m.env.get(bt.s())
            if strip(base)['kind'] == 'CXXThisExpr' and isinstance(st, ClassVal) and bt.s() != dcls and key in st.members:
                return call(ast.Attribute(nm(dcls), key, ast.Load()), self.E(base), *a)
            return call(ast.Attribute(self.E(base), key, ast.Load()), *a)
        bt = ctype(base)
        name = m['name']
        sb = strip(base)
        if bt.name == 'element_type' and sb['kind'] == 'CXXOperatorCallExpr':
            # p->f() through a smart pointer: the type is that of what it points at
            pt = ctype(kids(sb)[1])
            if pt.name in SMART and pt.args:
                bt = pt.args[0]
        if bt.name in SMART and not m.get('isArrow'):
            if name == 'get':
                return self.E(base)
            if name.startswith('operator bool'):
                return call('@bool', self.E(base))
            return call('@smart.' + name, self.E(base), *a)
        if bt.name in CONTAINERS or bt.name == 'initializer_list':
            return call('@%s.%s' % (bt.name, name), self.E(base), *a)
        if name.startswith('operator bool'):
            return call('@bool', self.E(base))
        return call('@%s.%s' % (bt.name, name), self.E(base), *a)

    def E_CXXOperatorCallExpr(self, n):
        op = self.opname(n)
        a = kids(n)[1:]
        e = self.r.byid.get((strip(kids(n)[0]).get('referencedDecl') or {}).get('id'))
        if e and e[0] not in (None, 'var'):
            return call(ast.Attribute(self.E(a[0]), e[1], ast.Load()), *self.args(a[1:]))
        if op == 'operator->':
            return self.E(a[0])
        if op == 'operator*' and len(a) == 1:
            return call('@deref', self.E(a[0]))
        if op in ('operator==', 'operator!='):
            return ast.Compare(self.E(a[0]), [ast.Eq() if op == 'operator==' else ast.NotEq()], [self.E(a[1])])
        if op == 'operator[]':
            if ctype(a[0]).name == 'map':
                return call('@map.at', self.E(a[0]), self.E(a[1]))
            return ast.Subscript(self.E(a[0]), self.E(a[1]), ast.Load())
        if op == 'operator+':
            return ast.BinOp(self.E(a[0]), ast.Add(), self.E(a[1]))
        return self.unsup('operator call ' + op)

    def E_CXXDefaultInitExpr(self, n):
        return self.unsup('default member initialiser')

    def E_LambdaExpr(self, n):
        return self.unsup('lambda')


def ty_name(t):
    """the type as text: models get it back with TYPES"""
    y = ty_of_ct(CT(t.name, t.args, t.ptr))
    TYPES[str(y)] = y
    return str(y)


TYPES = {}


def parse_params(t):
    """parameter types of a function type 'R (A, B) const'"""
    i = t.find('(')
    depth, j = 0, i
    while j < len(t):
        if t[j] == '(':
            depth += 1
        elif t[j] == ')':
            depth -= 1
            if depth == 0:
                break
        j += 1
    inner, out, cur, d = t[i + 1:j], [], '', 0
    for ch in inner:
        if ch in '<(':
            d += 1
        elif ch in '>)':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    if cur.strip() and cur.strip() != 'void':
        out.append(cur)
    return [parse_type(x).full() for x in out]


def strip(n):
    while n.get('kind') in PASS or (n.get('kind') in ('ImplicitCastExpr',) and n.get('castKind') in (
            'NoOp', 'LValueToRValue', 'FunctionToPointerDecay', 'ArrayToPointerDecay', 'UncheckedDerivedToBase', 'DerivedToBase', 'IntegralCast')):
        n = kids(n)[0]
    return n


def has_loop_jump(n):
    if n.get('kind') in ('BreakStmt', 'ContinueStmt'):
        return True
    if n.get('kind') in ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt'):
        return False
    return any(has_loop_jump(c) for c in kids(n))


def add_inc(stmts, incs):
    """the increment of a for loop also runs before every continue of that loop"""
    out = []
    for s in stmts:
        if isinstance(s, ast.Continue):
            out += incs + [s]
            continue
        if isinstance(s, ast.If):
            s = ast.If(s.test, add_inc(s.body, incs), add_inc(s.orelse, incs))
        out.append(s)
    return out
