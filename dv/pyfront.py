"""Python front end: interprets the ast of /repo's own source symbolically (no copy of the code is kept here)."""
import ast, os, re, fractions
import z3
from .core import *
from .core import isv

# --------------------------------------------------------------------------- program model

class FuncVal:
    def __init__(self, mod, node, qual, cls=None, closure=None):
        self.mod, self.node, self.qual, self.cls, self.closure = mod, node, qual, cls, closure
        self.defaults = None

class ClassVal:
    def __init__(self, mod, node, qual, name, bases):
        self.mod, self.node, self.qual, self.name, self.bases = mod, node, qual, name, bases
        self.members = {}
        self.is_enum = False
        self.is_dataclass = False
        self.fields = []

class BoundMethod:
    def __init__(self, obj, func):
        self.obj, self.func = obj, func

class BoundModel:
    def __init__(self, obj, fn, name):
        self.obj, self.fn, self.name = obj, fn, name

class Builtin:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

class Ext:
    """an external dotted name"""
    def __init__(self, name):
        self.name = name
    def __repr__(self):
        return 'Ext(%s)' % self.name

class Conc:
    """a container whose structure is concrete on the current path (payload in st.conc)"""
    __slots__ = ('kind', 'id')
    def __init__(self, kind, id):
        self.kind, self.id = kind, id

class Fwd:
    def __init__(self, v):
        self.v = v

class ObjVal:
    """a value with operations of its own (arrays, foreign objects); subclasses override what they support"""
    pyname = 'object'

    def binop(self, I, op, other, swapped):
        raise Unsupported('operator %s on %s' % (type(op).__name__, self.pyname))

    def compare(self, I, op, other, swapped):
        raise Unsupported('comparison of %s' % self.pyname)

    def unary(self, I, op):
        raise Unsupported('unary operator on %s' % self.pyname)

    def getitem(self, I, i):
        raise Unsupported('subscript of %s' % self.pyname)

    def setitem(self, I, i, v):
        raise Unsupported('item assignment on %s' % self.pyname)

    def getattr(self, I, name):
        raise Unsupported('attribute %s of %s' % (name, self.pyname))

    def setattr(self, I, name, v):
        raise Unsupported('attribute assignment on %s' % self.pyname)

    def length(self, I):
        raise Unsupported('len of %s' % self.pyname)

    def iteration(self, I):
        raise Unsupported('iteration over %s' % self.pyname)

    def truth(self, I):
        raise Unsupported('truth of %s' % self.pyname)

    def call(self, I, args, kw):
        raise Unsupported('call of %s' % self.pyname)


class Iter:
    def __init__(self, kind, *a):
        self.kind, self.a = kind, a

class Slice:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step

class PyExc(Exception):
    def __init__(self, cls, args=()):
        self.cls, self.eargs = cls, args

class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v

class BreakEx(Exception):
    pass

class ContinueEx(Exception):
    pass

class Undef:
    pass

UNDEF = Undef()


class Module:
    def __init__(self, name, path, tree):
        self.name, self.path, self.tree = name, path, tree
        self.env = {}
        self.lazy = {}


class Repo:
    """The package source, parsed afresh on every run."""

    def __init__(self, src):
        self.src = src
        self.mods = {}
        self.classes = {}

    def module(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        path = os.path.join(self.src, *name.split('.')) + '.py'
        with open(path) as f:
            tree = ast.parse(f.read(), path)
        m = Module(name, path, tree)
        self.mods[name] = m
        self._load(m, tree.body)
        return m

    def _load(self, m, body):
        for n in body:
            if isinstance(n, ast.FunctionDef):
                m.env[n.name] = FuncVal(m, n, m.name + '.' + n.name)
            elif isinstance(n, ast.ClassDef):
                m.env[n.name] = self._cls(m, n)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                self._imp(m, n)
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                m.lazy[n.targets[0].id] = n.value
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                m.lazy[n.target.id] = n.value
            elif isinstance(n, ast.If):
                self._load(m, n.body)
            elif isinstance(n, ast.Try):
                self._load(m, n.body)

    def _imp(self, m, n):
        if isinstance(n, ast.Import):
            for a in n.names:
                nm = a.name
                if nm.startswith('repast4py.') and a.asname:
                    m.env[a.asname] = ('mod', nm[len('repast4py.'):])
                else:
                    m.env[a.asname or nm.split('.')[0]] = Ext(a.name if a.asname else nm.split('.')[0])
        else:
            base = n.module or ''
            inpkg = n.level > 0 or base == 'repast4py' or base.startswith('repast4py.')
            if base.startswith('repast4py'):
                base = base[len('repast4py'):].lstrip('.')
            for a in n.names:
                tgt = a.asname or a.name
                if inpkg:
                    if base == '':
                        m.env[tgt] = ('mod', a.name)
                    else:
                        m.env[tgt] = ('from', base, a.name)
                else:
                    m.env[tgt] = Ext(base + '.' + a.name)

    def _cls(self, m, n):
        c = ClassVal(m, n, m.name + '.' + n.name, n.name, [b for b in n.bases])
        for b in n.bases:
            bn = b.id if isinstance(b, ast.Name) else b.attr if isinstance(b, ast.Attribute) else ''
            if bn in ('IntEnum', 'Enum'):
                c.is_enum = True
        for d in n.decorator_list:
            dn = d.id if isinstance(d, ast.Name) else d.func.id if isinstance(d, ast.Call) and isinstance(d.func, ast.Name) else ''
            if dn == 'dataclass':
                c.is_dataclass = True
        for s in n.body:
            if isinstance(s, ast.FunctionDef):
                f = FuncVal(m, s, c.qual + '.' + s.name, c)
                f.kind = 'method'
                for d in s.decorator_list:
                    dn = d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else ''
                    if dn == 'property':
                        f.kind = 'property'
                    elif dn == 'setter':
                        f.kind = 'setter'
                    elif dn == 'staticmethod':
                        f.kind = 'static'
                    elif dn == 'classmethod':
                        f.kind = 'class'
                if f.kind == 'setter':
                    c.members['=' + s.name] = f
                else:
                    c.members[s.name] = f
            elif isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name):
                c.members[s.targets[0].id] = ('expr', s.value)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                c.fields.append((s.target.id, s.value))
        self.classes[n.name] = c
        return c

    def resolve_base(self, c, b):
        nm = b.id if isinstance(b, ast.Name) else None
        if nm is None:
            return None
        v = c.mod.env.get(nm)
        if isinstance(v, tuple) and v[0] == 'from':
            try:
                v = self.module(v[1]).env.get(v[2])
            except FileNotFoundError:
                return None
        return v if isinstance(v, ClassVal) else None

    def mro(self, c):
        out = [c]
        for b in c.bases:
            bc = self.resolve_base(c, b)
            if bc:
                out += [x for x in self.mro(bc) if x not in out]
        return out

    def cls(self, name):
        return self.classes.get(name)

    def lookup(self, c, attr):
        for k in self.mro(c):
            if attr in k.members:
                return k.members[attr], k
        return None, None

    def find(self, qual):
        """'schedule.ScheduleGroup.sort' -> FuncVal (following the MRO), or None"""
        parts = qual.split('.')
        m = self.module(parts[0])
        v = m.env.get(parts[1])
        if len(parts) == 2:
            return v if isinstance(v, FuncVal) else None
        if not isinstance(v, ClassVal):
            return None
        f, k = self.lookup(v, parts[2])
        return f if isinstance(f, FuncVal) else None


def loops_of(node):
    """ordinal of every loop of a function, in source order (nested functions excluded)"""
    out = {}
    def walk(n):
        for ch in ast.iter_child_nodes(n):
            if isinstance(ch, (ast.FunctionDef, ast.Lambda)):
                continue
            if isinstance(ch, (ast.For, ast.While)):
                out[ch] = len(out)
            walk(ch)
    walk(node)
    return out


def assigned_names(stmts):
    names = set()
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                names.add(n.id)
    return names

# --------------------------------------------------------------------------- spec views

TRUTHY = z3.Function('truthy', z3.IntSort(), z3.BoolSort())


def entry_ref(t):
    """is t, by its form, a reference read from the heap on entry (so not one allocated since)"""
    if not z3.is_app(t):
        return False
    if t.num_args() == 0:
        n = t.decl().name()
        return n.startswith('arg_') and '!' not in n and z3.is_int(t)
    if t.decl().kind() != z3.Z3_OP_SELECT:
        return False
    a, r = t.arg(0), t.arg(1)
    if z3.is_app(a) and a.num_args() == 0:
        n = a.decl().name()
        return n.startswith('H_') and '!' not in n and entry_ref(r)
    if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_SELECT:      # an element of a list or dictionary
        b = a.arg(0)
        return z3.is_app(b) and b.num_args() == 0 and b.decl().name().startswith('H_') and '!' not in b.decl().name() and entry_ref(a.arg(1))
    return False


def has_bound(t, _pat=re.compile(r'.*![a-zA-Z]')):
    """does the term mention a variable that a contract quantifies over (they are named x!abc, fresh constants x!12)"""
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        if x.num_args() == 0:
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and _pat.match(x.decl().name()):
                return True
        else:
            todo += x.children()
    return False


class View:
    """Read access to a heap snapshot for contracts."""

    def __init__(self, I, heap, v):
        object.__setattr__(self, '_I', I)
        object.__setattr__(self, '_h', heap)
        object.__setattr__(self, '_v', v)

    @property
    def ref(self):
        return self._v.t

    @property
    def ty(self):
        return self._v.ty

    def _get(self, key, rng, ref=None):
        a = self._h.get(key)
        if a is None:
            a = z3.Const('H_' + key, z3.ArraySort(z3.IntSort(), rng))
            Eng.heap_sorts[key] = rng
        return self._I.eng.resolve(a, self._v.t if ref is None else ref)

    def _wrap(self, ty, t):
        if ty.isref:
            return View(self._I, self._h, V(ty, t))
        return t

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        ty = self._v.ty
        if ty.name == 'Ref':
            k, ft = self._I.field(ty.args[0], name)
            if ft is None:
                raise Unsupported('contract reads unknown field %s.%s' % (ty.args[0], name))
            return self._wrap(ft, self._get(k, ft.sort()))
        if ty.name == 'List' and name in ('len', 'el', 'ix', 'mem'):
            ln = self._get(lk(ty, 'len'), z3.IntSort())
            if not ty.opt:
                return ln if name == 'len' else self._get(lk(ty, 'el'), z3.ArraySort(z3.IntSort(), ty.args[0].sort()))
            I = self._I
            ix = I.named(self._get(lk(ty, 'ix'), z3.ArraySort(ty.args[0].sort(), z3.IntSort())), 'ix')
            mem = self._get(lk(ty, 'mem'), z3.ArraySort(ty.args[0].sort(), z3.BoolSort()))
            if not z3.is_K(mem):
                mem = I.named(mem, 'mem')
            I.list_wf(ty, ln, None, ix, mem)
            return {'len': ln, 'ix': ix, 'mem': mem}[name]
        if name == 'hp':
            return self._get(lk(ty, 'hp'), z3.BoolSort())
        if name == 'dom':
            return self._get(dk(ty, 'dom'), z3.ArraySort(ty.args[0].sort(), z3.BoolSort()))
        if name == 'val':
            return self._get(dk(ty, 'val'), z3.ArraySort(ty.args[0].sort(), ty.args[1].sort()))
        if name == 'n':
            return self._get(dk(ty, 'n'), z3.IntSort())
        raise Unsupported('contract reads .%s of %s' % (name, ty))

    def has(self, x):
        x = x.ref if isinstance(x, View) else x
        if self._v.ty.name == 'List':
            return z3.Select(self.mem, x)
        return z3.Select(self.dom, x)

    def pos(self, x):
        return z3.Select(self.ix, x)

    def __getitem__(self, i):
        ty = self._v.ty
        i = i.ref if isinstance(i, View) else i
        if ty.name == 'List':
            return self._wrap(ty.args[0], z3.Select(self.el, i))
        return self._wrap(ty.args[1], z3.Select(self.val, i))


def lk(ty, part):
    return 'L%s.%s' % (safe(str(ty)), part)

def dk(ty, part):
    return 'D%s.%s' % (safe(str(ty)), part)


class Ctx:
    """What a contract clause sees."""

    def __init__(self, I, heap, old=None, args=None, result=None, exc=None, ghost=None, oldghost=None):
        self.I, self.heap, self.oldheap = I, heap, old if old is not None else heap
        self.args, self.result, self.exc = args or {}, result, exc
        self.ghost = ghost if ghost is not None else I.eng.st.ghost
        self.oldghost = oldghost if oldghost is not None else self.ghost
        self.oldtop = I.entry_top

    def v(self, val, old=False):
        if isinstance(val, Conc):
            val = self.I.deref(val)
            if isinstance(val, Conc):
                raise Unsupported('contract over a concrete container')
        if isinstance(val, V):
            if val.ty.isref:
                return View(self.I, self.oldheap if old else self.heap, val)
            return val.t
        return val

    def arg(self, name):
        return self.v(self.args[name])

    def old(self, name):
        return self.v(self.args[name], old=True)

    @property
    def self(self):
        return self.arg('self')

    @property
    def oself(self):
        return self.old('self')

    @property
    def res(self):
        return self.v(self.result)

    def view(self, ty, t, old=False):
        return View(self.I, self.oldheap if old else self.heap, V(ty, t))

    def arr(self, cls, field, old=False):
        k, ft = self.I.field(cls, field)
        h = self.oldheap if old else self.heap
        a = h.get(k)
        if a is None:
            a = z3.Const('H_' + k, z3.ArraySort(z3.IntSort(), ft.sort()))
            Eng.heap_sorts[k] = ft.sort()
        return a


class Contract:
    def __init__(self, qual, args=None, requires=None, ensures=None, modifies=None, result=None, raises=None,
                 setup=None, apply=True, hooks=None, ghost=None, exc_ok=(), note='', code=None):
        self.qual, self.args, self.requires, self.ensures = qual, args or {}, requires, ensures
        self.modifies, self.result, self.raises = modifies, result, raises or {}
        self.setup, self.apply, self.hooks, self.ghost = setup, apply, hooks or {}, ghost
        self.exc_ok, self.note, self.code = exc_ok, note, code
        self.after = None     # ghost updates that mention the result of a call


def qall(vs, body, pats=None):
    if not isinstance(vs, (list, tuple)):
        vs = [vs]
    if pats:
        return z3.ForAll(vs, body, patterns=pats)
    return z3.ForAll(vs, body)

# --------------------------------------------------------------------------- interpreter

MAXDEPTH = 25


class Interp:
    def __init__(self, eng, repo, schema, contracts=None, loops=None, models=None, top=None, inline=()):
        self.eng, self.repo, self.schema = eng, repo, schema
        self.contracts, self.loops = contracts or {}, loops or {}
        self.models = models or {}
        self.top = top
        self.inline_only = set(inline)
        self.depth = 0
        self.called = set()
        self.inlined = set()
        self.used_models = set()
        self.dynfields = {}
        self.entry_heap = {}
        self.entry_args = {}
        self.entry_top = z3.Int('alloc0')
        self.concn = 0

    # ---- schema
    def field(self, cls, name):
        c = cls
        seen = set()
        while c and c not in seen:
            seen.add(c)
            sc = self.schema.get(c)
            if sc and name in sc:
                return c + '.' + name, sc[name]
            k = self.repo.cls(c)
            nxt = None
            if sc and '__base__' in sc:
                nxt = sc['__base__']
            elif k:
                for b in k.bases:
                    if isinstance(b, ast.Name):
                        nxt = b.id
                        break
            c = nxt
        d = self.dynfields.get((cls, name))
        if d:
            return cls + '.' + name, d
        return None, None

    # ---- typing / lifting
    def ty_of(self, v):
        v = self.deref(v)
        if isinstance(v, V):
            return v.ty
        if isinstance(v, bool):
            return BOOL
        if isinstance(v, int):
            return INT
        if isinstance(v, float):
            return REAL
        if isinstance(v, str):
            return STR
        if v is None:
            return ANY
        if isinstance(v, tuple):
            return TUP(*[self.ty_of(x) for x in v])
        if isinstance(v, Conc):
            p = self.eng.st.conc[v.id]
            if v.kind == 'list':
                return LIST(self.ty_of(p[0])) if p else LIST(ANY)
            if v.kind == 'set':
                return SET(self.ty_of(p[0])) if p else SET(ANY)
            if v.kind == 'dict':
                return DICT(self.ty_of(p[0][0]), self.ty_of(p[0][1])) if p else DICT(ANY, ANY)
        if isinstance(v, (FuncVal, BoundMethod, Builtin, ClassVal, Ext, BoundModel)):
            return REF('Callable')
        raise Unsupported('type of %r' % (v,))

    def lift(self, v, ty):
        """value -> z3 term of type ty"""
        v = self.deref(v)
        if isinstance(v, V):
            if v.ty is ty or (v.ty.isref and ty.isref):
                if v.ty.name in ('List', 'Dict', 'Set') and ty.name == v.ty.name and v.ty is not ty:
                    raise Unsupported('container type mismatch %s vs %s' % (v.ty, ty))
                return v.t
            if v.ty is INT and ty is REAL:
                return z3.ToReal(v.t)
            if v.ty is BOOL and ty is INT:
                return z3.If(v.t, 1, 0)
            if v.ty is BOOL and ty is REAL:
                return z3.If(v.t, z3.RealVal(1), z3.RealVal(0))
            if v.ty is REAL and ty is INT:
                raise Unsupported('real stored where an int is declared')
            if v.ty.name == 'Tup' and ty.name == 'Tup' and len(v.ty.args) == len(ty.args):
                return self.lift(self.untup(v), ty)
            if ty is ANY:
                return self.box(v)
            raise Unsupported('cannot use %s as %s' % (v.ty, ty))
        if ty is ANY and not (v is None):
            if isinstance(v, Conc):
                return self.materialize(v, self.ty_of(v)).t
            return self.box(v)
        if isinstance(v, bool):
            if ty is BOOL:
                return z3.BoolVal(v)
            v = int(v)
        if isinstance(v, int):
            if ty is INT:
                return z3.IntVal(v)
            if ty is REAL:
                return z3.RealVal(v)
            if ty is BOOL:
                return z3.BoolVal(bool(v))
        if isinstance(v, float):
            if ty is REAL:
                if v != v:
                    return NAN
                if v in (float('inf'), float('-inf')):
                    return z3.Real('INF') if v > 0 else -z3.Real('INF')
                f = fractions.Fraction(v)
                return z3.RealVal(str(f))
            if ty is INT and v == int(v):
                return z3.IntVal(int(v))
        if isinstance(v, str) and ty is STR:
            return z3.StringVal(v)
        if v is None and ty.isref:
            return z3.IntVal(0)
        if isinstance(v, tuple) and ty.name == 'Tup':
            if len(v) != len(ty.args):
                raise Unsupported('tuple arity')
            return ty.sort().mk(*[self.lift(x, t) for x, t in zip(v, ty.args)])
        if isinstance(v, Conc):
            return self.materialize(v, ty).t
        if isinstance(v, (FuncVal, BoundMethod, Builtin, ClassVal, Ext, BoundModel)) and ty.isref:
            # an opaque callable identity
            nm = v.func.qual if isinstance(v, BoundMethod) else getattr(v, 'qual', getattr(v, 'name', 'fn'))
            if isinstance(v, FuncVal) and v.closure is None:
                o = z3.Int('fn_' + safe(nm))
            else:
                o = self.eng.fresh('fn_' + safe(nm), z3.IntSort())
            self.eng.st.pc.append(o > 0)
            self.eng.st.ghost.setdefault('callables', {})
            d = dict(self.eng.st.ghost['callables'])
            d[str(o)] = v
            self.eng.st.ghost['callables'] = d
            return o
        raise Unsupported('cannot lift %r to %s' % (v, ty))

    def box(self, v):
        ty = self.ty_of(v)
        if ty.isref:
            return self.lift(v, ty)
        f = z3.Function('box_' + safe(str(ty)), ty.sort(), z3.IntSort())
        g = z3.Function('unbox_' + safe(str(ty)), z3.IntSort(), ty.sort())
        t = self.lift(v, ty)
        self.eng.st.pc.append(g(f(t)) == t)
        self.eng.st.pc.append(f(t) > 0)
        return f(t)

    def untup(self, v):
        if isinstance(v, V) and v.ty.name == 'Tup':
            s = v.ty.sort()
            return tuple(V(t, z3.simplify(getattr(s, 'f%d' % i)(v.t))) for i, t in enumerate(v.ty.args))
        return v

    def norm(self, v):
        """literal z3 values -> Python values"""
        if isinstance(v, V):
            t = z3.simplify(v.t)
            if v.ty is INT and z3.is_int_value(t):
                return t.as_long()
            if v.ty is BOOL:
                if z3.is_true(t):
                    return True
                if z3.is_false(t):
                    return False
            if v.ty is STR and z3.is_string_value(t):
                return t.as_string()
            return V(v.ty, t)
        return v

    # ---- concrete containers
    def newconc(self, kind, payload):
        self.concn += 1
        c = Conc(kind, (self.eng.paths, self.concn))
        self.eng.st.conc[c.id] = payload
        return c

    def deref(self, v):
        if isinstance(v, Conc):
            p = self.eng.st.conc[v.id]
            if isinstance(p, Fwd):
                return p.v
        return v

    def payload(self, v):
        return self.eng.st.conc[v.id]

    def materialize(self, v, ty):
        v = self.deref(v)
        if isinstance(v, V):
            return v
        e = self.eng
        p = e.st.conc[v.id]
        if v.kind == 'list' and ty.name == 'List':
            r = V(ty, e.alloc())
            self.list_init(r)
            items = list(p)
            e.st.conc[v.id] = Fwd(r)
            for x in items:
                self.list_append(r, x)
            return r
        if v.kind == 'dict' and ty.name == 'Dict':
            r = V(ty, e.alloc())
            self.dict_init(r)
            items = list(p)
            e.st.conc[v.id] = Fwd(r)
            for k, x in items:
                self.dict_set(r, k, x)
            return r
        if v.kind == 'set' and ty.name == 'Set':
            r = V(ty, e.alloc())
            self.dict_init(r)
            items = list(p)
            e.st.conc[v.id] = Fwd(r)
            for x in items:
                self.set_add(r, x)
            return r
        raise Unsupported('materialize %s as %s' % (v.kind, ty))

    # ---- lists
    # An ordinary list is (len, el).  A list known to hold no duplicates also has its members as a set (mem) and the position
    # of every member (ix, meaningful for members only).
    def named(self, t, hint):
        """a constant equal to t (quantifier patterns need plain array terms)"""
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            return t
        if z3.is_select(t) and z3.is_const(t.arg(0)):
            return t
        tab = self.eng.st.ghost.get('__named', {})
        h = tab.get(t.get_id())
        if h is not None:
            return h[1]
        if has_bound(t):
            # a term under a quantifier of a contract has no single value to name
            return t
        c = self.eng.fresh(hint, t.sort())
        self.eng.st.pc.append(c == t)
        tab = dict(tab)
        tab[t.get_id()] = (t, c)
        self.eng.st.ghost['__named'] = tab
        return c

    def L(self, r):
        e, ty = self.eng, r.ty
        ln = e.hget(lk(ty, 'len'), z3.IntSort(), r.t)
        el = ix = mem = None
        if not ty.opt:
            el = self.named(e.hget(lk(ty, 'el'), z3.ArraySort(z3.IntSort(), ty.args[0].sort()), r.t), 'el')
        if ty.opt:
            ix = self.named(e.hget(lk(ty, 'ix'), z3.ArraySort(ty.args[0].sort(), z3.IntSort()), r.t), 'ix')
            mem = e.hget(lk(ty, 'mem'), z3.ArraySort(ty.args[0].sort(), z3.BoolSort()), r.t)
            if not (z3.is_K(mem)):
                mem = self.named(mem, 'mem')
        self.list_wf(ty, ln, el, ix, mem)
        return ln, el, ix

    def M(self, r):
        ty = r.ty
        mem = self.eng.hget(lk(ty, 'mem'), z3.ArraySort(ty.args[0].sort(), z3.BoolSort()), r.t)
        return mem if z3.is_K(mem) else self.named(mem, 'mem')

    def list_wf(self, ty, ln, el, ix, mem):
        key = ('wf', ln.get_id(), ix.get_id() if ix is not None else 0, mem.get_id() if mem is not None else 0)
        wf = self.eng.st.ghost.get('__wf', frozenset())
        if key in wf:
            return
        self.eng.st.ghost['__wf'] = wf | {key}
        pc = self.eng.st.pc
        # keep the terms alive so that ids stay unique
        self.eng.st.ghost['__wfk'] = self.eng.st.ghost.get('__wfk', ()) + (ln, ix, mem)
        if not z3.is_int_value(ln):
            pc.append(ln >= 0)
        elif ln.as_long() == 0:
            return
        if ix is not None and not z3.is_K(mem):
            x = z3.Const('x!wf', ty.args[0].sort())
            y = z3.Const('y!wf', ty.args[0].sort())
            pc.append(z3.ForAll([x], z3.Implies(mem[x], z3.And(ix[x] >= 0, ix[x] < ln)), patterns=[ix[x]]))
            pc.append(z3.ForAll([x, y], z3.Implies(z3.And(mem[x], mem[y], ix[x] == ix[y]), x == y), patterns=[z3.MultiPattern(ix[x], ix[y])]))
            # an empty set of members and a zero length go together
            pc.append((ln == 0) == (mem == z3.K(ty.args[0].sort(), z3.BoolVal(False))))

    def elem(self, r, pos):
        """the element at a position within the bounds"""
        ln, el, ix = self.L(r)
        if el is not None:
            return z3.simplify(z3.Select(el, pos))
        x = self.eng.fresh('elem', r.ty.args[0].sort())
        self.eng.st.pc.append(z3.Implies(z3.And(0 <= pos, pos < ln), z3.And(self.M(r)[x], ix[x] == pos)))
        h = self.models.get('elem')
        if h:
            h(self, r, pos, x)
        return x

    def list_put(self, r, ln=None, el=None, ix=None, mem=None):
        e, ty = self.eng, r.ty
        if ln is not None:
            e.hset(lk(ty, 'len'), z3.IntSort(), r.t, ln)
        if el is not None and not ty.opt:
            e.hset(lk(ty, 'el'), z3.ArraySort(z3.IntSort(), ty.args[0].sort()), r.t, el)
        if ix is not None and ty.opt:
            e.hset(lk(ty, 'ix'), z3.ArraySort(ty.args[0].sort(), z3.IntSort()), r.t, ix)
        if mem is not None and ty.opt:
            e.hset(lk(ty, 'mem'), z3.ArraySort(ty.args[0].sort(), z3.BoolSort()), r.t, mem)
        e.hset(lk(ty, 'hp'), z3.BoolSort(), r.t, z3.BoolVal(False))

    def emptymem(self, ty):
        return z3.K(ty.args[0].sort(), z3.BoolVal(False)) if ty.opt else None

    def list_init(self, r):
        ty = r.ty
        el, ix = self.list_fresh(ty)
        self.list_put(r, z3.IntVal(0), el, ix, self.emptymem(ty))
        self.eng.hset(lk(ty, 'hp'), z3.BoolSort(), r.t, z3.BoolVal(True))

    def list_append(self, r, x):
        ty = r.ty
        t = self.lift(x, ty.args[0])
        ln, el, ix = self.L(r)
        if ty.opt:
            mem = self.M(r)
            self.eng.prove('list element stays unique (append)', z3.Not(mem[t]), 'distinct')
            self.list_put(r, z3.simplify(ln + 1), None, z3.Store(ix, t, ln), z3.Store(mem, t, True))
        else:
            self.list_put(r, z3.simplify(ln + 1), z3.Store(el, ln, t))

    def list_fresh(self, ty, tag='el'):
        e = self.eng
        el = e.fresh(tag, z3.ArraySort(z3.IntSort(), ty.args[0].sort())) if not ty.opt else None
        ix = e.fresh('ix', z3.ArraySort(ty.args[0].sort(), z3.IntSort())) if ty.opt else None
        return el, ix

    def mem_fresh(self, ty):
        return self.eng.fresh('mem', z3.ArraySort(ty.args[0].sort(), z3.BoolSort()))

    def list_extend(self, r, other):
        ty = r.ty
        other = self.deref(other)
        if isinstance(other, (tuple,)) or isinstance(other, Conc):
            for x in (other if isinstance(other, tuple) else list(self.payload(other))):
                self.list_append(r, x)
            return
        if isinstance(other, Iter):
            other = self.iter_to_list(other)
            if not isv(other):
                return self.list_extend(r, other)
        if not (isv(other) and other.ty.name == 'List'):
            raise Unsupported('extend with %r' % (other,))
        ln, el, ix = self.L(r)
        ln2, el2, ix2 = self.L(other)
        el3, ix3 = self.list_fresh(ty)
        i = z3.Int('i!x')
        x = z3.Const('x!x', ty.args[0].sort())
        pc = self.eng.st.pc
        if not ty.opt:
            if el2 is None:
                raise Unsupported('extend of an ordinary list by a duplicate-free list')
            pc.append(qall(i, z3.Implies(z3.And(0 <= i, i < ln), el3[i] == el[i]), [el3[i]]))
            pc.append(qall(i, z3.Implies(z3.And(ln <= i, i < ln + ln2), el3[i] == el2[i - ln]), [el3[i]]))
        mem3 = None
        if ty.opt:
            if ix2 is None:
                raise Unsupported('extend of a duplicate-free list by an ordinary list')
            mem, mem2 = self.M(r), self.M(other)
            w = self.eng.fresh('dup', ty.args[0].sort())
            self.eng.prove('list elements stay unique (extend)', z3.Not(z3.And(mem[w], mem2[w])), 'distinct')
            b = ix3[x] == z3.If(mem2[x], ln + ix2[x], ix[x])
            pc.append(qall(x, b, [ix3[x], ix[x], ix2[x]]))
            mem3 = z3.SetUnion(mem, mem2)
        self.list_put(r, z3.simplify(ln + ln2), el3, ix3, mem3)

    def list_insert(self, r, idx, x):
        ty = r.ty
        t = self.lift(x, ty.args[0])
        it = self.lift(idx, INT)
        ln, el, ix = self.L(r)
        p = z3.If(it < 0, z3.If(ln + it < 0, 0, ln + it), z3.If(it > ln, ln, it))
        pv = self.eng.fresh('p', z3.IntSort())
        self.eng.st.pc.append(pv == p)
        p = pv
        el3, ix3 = self.list_fresh(ty)
        i = z3.Int('i!x')
        e = z3.Const('x!x', ty.args[0].sort())
        pc = self.eng.st.pc
        if not ty.opt:
            pc.append(el3[p] == t)
            pc.append(qall(i, z3.And(z3.Implies(z3.And(0 <= i, i < p), el3[i] == el[i]),
                                     z3.Implies(z3.And(p < i, i <= ln), el3[i] == el[i - 1])), [el3[i]]))
        mem3 = None
        if ty.opt:
            mem = self.M(r)
            self.eng.prove('list element stays unique (insert)', z3.Not(mem[t]), 'distinct')
            b = ix3[e] == z3.If(e == t, p, z3.If(ix[e] >= p, ix[e] + 1, ix[e]))
            pc.append(qall(e, b, [ix3[e], ix[e]]))
            mem3 = z3.Store(mem, t, True)
        self.list_put(r, z3.simplify(ln + 1), el3, ix3, mem3)

    def list_clear(self, r):
        el, ix = self.list_fresh(r.ty)
        self.list_put(r, z3.IntVal(0), el, ix, self.emptymem(r.ty))
        self.eng.hset(lk(r.ty, 'hp'), z3.BoolSort(), r.t, z3.BoolVal(True))

    def list_cut(self, r, lo, hi):
        """remove the positions lo <= i < hi (already clamped)"""
        ty = r.ty
        ln, el, ix = self.L(r)
        el3, ix3 = self.list_fresh(ty)
        i = z3.Int('i!x')
        e = z3.Const('x!x', ty.args[0].sort())
        pc = self.eng.st.pc
        w = hi - lo
        if not ty.opt:
            pc.append(qall(i, z3.And(z3.Implies(z3.And(0 <= i, i < lo), el3[i] == el[i]),
                                     z3.Implies(z3.And(lo <= i, i < ln - w), el3[i] == el[i + w])), [el3[i]]))
        mem3 = None
        if ty.opt:
            mem, mem3 = self.M(r), self.mem_fresh(ty)
            b = ix3[e] == z3.If(ix[e] < lo, ix[e], ix[e] - w)
            pc.append(qall(e, b, [ix3[e], ix[e]]))
            b = mem3[e] == z3.And(mem[e], z3.Or(ix[e] < lo, ix[e] >= hi))
            pc.append(qall(e, b, [mem3[e], mem[e]] if not z3.is_K(mem) else [mem3[e]]))
        self.list_put(r, z3.simplify(ln - w), el3, ix3, mem3)

    def list_perm(self, r, keyfn=None, reverse=False):
        """sort (keyfn given) or shuffle"""
        ty = r.ty
        if not ty.opt:
            raise Unsupported('sort/shuffle of a list that may hold duplicates')
        ln, el, ix = self.L(r)
        el3, ix3 = self.list_fresh(ty)
        a = z3.Const('a!s', ty.args[0].sort())
        b = z3.Const('b!s', ty.args[0].sort())
        pc = self.eng.st.pc
        mem = self.M(r)
        if keyfn is not None:
            probe = V(ty.args[0], self.eng.fresh('key', ty.args[0].sort()))
            n0, d0 = len(pc), len(self.eng.taken)
            kv = keyfn(probe)
            if len(self.eng.taken) != d0:
                raise Unsupported('sort key with branches')
            kty = self.ty_of(kv)
            kt = self.lift(kv, kty)
            extra = pc[n0:]
            def K(t):
                return z3.substitute(kt, (probe.t, t))
            if kty is REAL or kty is INT:
                lt = lambda p, q: (p > q) if reverse else (p < q)
                order = qall([a, b], z3.Implies(z3.And(mem[a], mem[b], ix3[a] < ix3[b]),
                             z3.And(z3.Not(lt(K(b), K(a))), z3.Implies(K(a) == K(b), ix[a] < ix[b]))),
                             [z3.MultiPattern(ix3[a], ix3[b])])
            elif kty.name == 'Tup' and all(x in (INT, REAL) for x in kty.args) and not reverse:
                fs = [getattr(kty.sort(), 'f%d' % i) for i in range(len(kty.args))]
                def lexlt(p, q):
                    r_ = z3.BoolVal(False)
                    for f in reversed(fs):
                        r_ = z3.Or(f(p) < f(q), z3.And(f(p) == f(q), r_))
                    return r_
                order = qall([a, b], z3.Implies(z3.And(mem[a], mem[b], ix3[a] < ix3[b]),
                             z3.And(z3.Not(lexlt(K(b), K(a))), z3.Implies(K(a) == K(b), ix[a] < ix[b]))),
                             [z3.MultiPattern(ix3[a], ix3[b])])
            else:
                raise Unsupported('sort key of type %s' % kty)
            def nan_in(t):
                if kty is REAL:
                    return t == NAN
                if kty.name == 'Tup':
                    cs = [getattr(kty.sort(), 'f%d' % i)(t) == NAN for i, x in enumerate(kty.args) if x is REAL]
                    return z3.Or(*cs) if cs else z3.BoolVal(False)
                return z3.BoolVal(False)
            w = self.eng.fresh('nanw', ty.args[0].sort())
            nn = nan_in(K(w))
            if z3.is_false(nn):
                pc.append(order)
            else:
                # an unordered key (NaN) among the members voids the ordering guarantee
                pc.append(z3.Or(z3.And(mem[w], nn), order))
        self.list_put(r, None, el3, ix3)

    def list_index(self, r, i):
        """clamped check + element"""
        ln, el, ix = self.L(r)
        it = self.lift(i, INT)
        if not z3.is_int_value(it):
            ok = z3.And(it >= -ln, it < ln)
        else:
            ok = (it < ln) if it.as_long() >= 0 else (-it <= ln)
        if not self.eng.branch(ok):
            raise PyExc('IndexError')
        pos = it
        if z3.is_int_value(it):
            if it.as_long() < 0:
                pos = ln + it
        else:
            neg = self.eng.branch(it < 0)
            if neg:
                pos = ln + it
        return z3.simplify(pos), ln, el, ix

    # ---- dicts and sets
    def D(self, r):
        e, ty = self.eng, r.ty
        ks = ty.args[0].sort()
        dom = e.hget(dk(ty, 'dom'), z3.ArraySort(ks, z3.BoolSort()), r.t)
        n = e.hget(dk(ty, 'n'), z3.IntSort(), r.t)
        val = None
        if ty.name == 'Dict':
            val = e.hget(dk(ty, 'val'), z3.ArraySort(ks, ty.args[1].sort()), r.t)
        return dom, val, n

    def dict_put(self, r, dom=None, val=None, n=None):
        e, ty = self.eng, r.ty
        ks = ty.args[0].sort()
        if dom is not None:
            e.hset(dk(ty, 'dom'), z3.ArraySort(ks, z3.BoolSort()), r.t, dom)
        if val is not None:
            e.hset(dk(ty, 'val'), z3.ArraySort(ks, ty.args[1].sort()), r.t, val)
        if n is not None:
            e.hset(dk(ty, 'n'), z3.IntSort(), r.t, n)

    def dict_init(self, r):
        ty = r.ty
        self.dict_put(r, z3.K(ty.args[0].sort(), z3.BoolVal(False)), None, z3.IntVal(0))

    def dict_len(self, r):
        dom, val, n = self.D(r)
        pc = self.eng.st.pc
        x = z3.Const('k!l', r.ty.args[0].sort())
        w = self.eng.fresh('kw', r.ty.args[0].sort())
        pc.append(n >= 0)
        pc.append(z3.Implies(n > 0, dom[w]))
        if not z3.is_const_array(dom):
            pc.append(qall(x, z3.Implies(dom[x], n > 0)))
        return n

    def dict_set(self, r, k, x):
        ty = r.ty
        kt, xt = self.lift(k, ty.args[0]), self.lift(x, ty.args[1])
        dom, val, n = self.D(r)
        was = z3.simplify(z3.Select(dom, kt))
        self.dict_put(r, z3.Store(dom, kt, True), z3.Store(val, kt, xt), z3.simplify(n + z3.If(was, 0, 1)))

    def dict_has(self, r, k):
        dom, val, n = self.D(r)
        return V(BOOL, z3.simplify(z3.Select(dom, self.lift(k, r.ty.args[0]))))

    def dict_get(self, r, k):
        dom, val, n = self.D(r)
        return self.wrapv(r.ty.args[1], z3.simplify(z3.Select(val, self.lift(k, r.ty.args[0]))))

    def dict_del(self, r, k):
        ty = r.ty
        kt = self.lift(k, ty.args[0])
        dom, val, n = self.D(r)
        self.dict_put(r, z3.Store(dom, kt, False), None, z3.simplify(n - z3.If(z3.Select(dom, kt), 1, 0)))

    def set_add(self, r, x):
        xt = self.lift(x, r.ty.args[0])
        dom, val, n = self.D(r)
        was = z3.simplify(z3.Select(dom, xt))
        self.dict_put(r, z3.Store(dom, xt, True), None, z3.simplify(n + z3.If(was, 0, 1)))

    def wrapv(self, ty, t):
        v = self.norm(V(ty, t))
        if ty.isref and not z3.is_int_value(v.t):
            # every reference found in the heap is null or allocated
            top = z3.Int('alloc0') if entry_ref(v.t) else self.eng.alloc_top()
            key = (v.t.get_id(), z3.simplify(top).get_id())
            seen = self.eng.st.ghost.get('__al', frozenset())
            if key not in seen:
                self.eng.st.ghost['__al'] = seen | {key}
                self.eng.st.ghost['__wfk'] = self.eng.st.ghost.get('__wfk', ()) + (v.t, z3.simplify(top))
                self.eng.st.pc.append(z3.And(v.t >= 0, v.t <= top))
        return v

    # ---- fields
    def mutating(self):
        """objects kept outside the heap may not change in a loop that is cut by an invariant"""
        if self.eng.wlog:
            raise Unsupported('an object of the interpreter changes in a loop')

    def pyclass(self, cls):
        """classes whose attributes are kept per (syntactic) reference, holding any value of the interpreter"""
        return (self.schema.get(cls) or {}).get('__py__')

    def getov(self, obj, name):
        return self.eng.st.ghost.get('__ov', {}).get((z3.simplify(obj.t).sexpr(), name), UNDEF)

    def setov(self, obj, name, val):
        self.mutating()
        d = dict(self.eng.st.ghost.get('__ov', {}))
        d[(z3.simplify(obj.t).sexpr(), name)] = val
        self.eng.st.ghost['__ov'] = d

    def getfield(self, obj, cls, name):
        k, ft = self.field(cls, name)
        if ft is None:
            return None
        t = self.eng.hget(k, ft.sort(), obj.t)
        return self.wrapv(ft, t)

    def setfield(self, obj, name, val):
        cls = obj.ty.args[0]
        if self.pyclass(cls):
            return self.setov(obj, name, val)
        k, ft = self.field(cls, name)
        if ft is None:
            ft = self.ty_of(val)
            self.dynfields[(cls, name)] = ft
            k = cls + '.' + name
        t = self.lift(val, ft)
        h = self.models.get(('onset', k))
        if h:
            h(self, obj, V(ft, t))
        self.eng.hset(k, ft.sort(), obj.t, t)

    def getattr(self, obj, name):
        obj = self.deref(obj)
        if isinstance(obj, ObjVal):
            return obj.getattr(self, name)
        if isinstance(obj, V) and obj.ty.name == 'Ref':
            cls = obj.ty.args[0]
            if self.pyclass(cls):
                v = self.getov(obj, name)
                if v is not UNDEF:
                    return v
            k, ft = self.field(cls, name)
            if ft is not None:
                return self.getfield(obj, cls, name)
            c = self.repo.cls(cls)
            if c is not None:
                m, owner = self.repo.lookup(c, name)
                if isinstance(m, FuncVal):
                    ik, it = self.field(cls, '__inst_' + name)
                    if it is not None and not (m.qual in self.contracts and m.qual not in self.inline_only):
                        # the attribute may be overridden on the instance
                        ov = self.getfield(obj, cls, '__inst_' + name)
                        if self.eng.branch(self.lift(ov, it) != 0):
                            return ov
                    if m.kind == 'property':
                        return self.call_func(m, [obj], {})
                    if m.kind == 'static':
                        return m
                    return BoundMethod(obj, m)
                if isinstance(m, tuple):
                    return self.eval_const(owner.mod, m[1])
            key = cls
            seen = 0
            while key and seen < 10:
                fn = self.models.get(key + '.' + name)
                if fn:
                    self.used_models.add(key + '.' + name)
                    if getattr(fn, 'is_attr', False):
                        return fn(self, obj)
                    return BoundModel(obj, fn, key + '.' + name)
                sc = self.schema.get(key) or {}
                key = sc.get('__base__')
                seen += 1
            raise Unsupported('attribute %s of %s' % (name, cls))
        if isinstance(obj, V) or isinstance(obj, (Conc, tuple, str, int, float, Iter)):
            kind = self.kindname(obj)
            fn = self.models.get(kind + '.' + name)
            if fn is not None and getattr(fn, 'is_attr', False):
                return fn(self, obj)
            fn = fn or METHODS.get((kind, name))
            if fn:
                return BoundModel(obj, fn, kind + '.' + name)
            raise Unsupported('attribute %s of %s' % (name, kind))
        if isinstance(obj, ClassVal):
            m, owner = self.repo.lookup(obj, name)
            if isinstance(m, tuple):
                return self.eval_const(owner.mod, m[1])
            if isinstance(m, FuncVal):
                return m
            raise Unsupported('class attribute %s.%s' % (obj.qual, name))
        if isinstance(obj, Module):
            return self.modattr(obj, name)
        if isinstance(obj, Ext):
            full = obj.name + '.' + name
            v = self.models.get(full)
            if v is not None and not callable(v):
                return v
            return Ext(full)
        if isinstance(obj, SuperVal):
            for k in self.repo.mro(obj.cls)[1:]:
                if name in k.members and isinstance(k.members[name], FuncVal):
                    return BoundMethod(obj.obj, k.members[name])
            return Builtin('object.' + name, lambda I, a, kw: None)
        if obj is None:
            raise PyExc('AttributeError')
        raise Unsupported('attribute %s of %r' % (name, obj))

    def kindname(self, obj):
        if isinstance(obj, V):
            return obj.ty.name
        if isinstance(obj, Conc):
            return {'list': 'List', 'dict': 'Dict', 'set': 'Set'}[obj.kind]
        if isinstance(obj, tuple):
            return 'Tup'
        if isinstance(obj, str):
            return 'Str'
        if isinstance(obj, Iter):
            return 'Iter'
        if isinstance(obj, (int, float)):
            return 'Num'
        return type(obj).__name__

    # ---- names
    def modattr(self, mod, name):
        g = self.eng.st.ghost.get(('glob', mod.name, name))
        if g is not None:
            return g
        if name in mod.env:
            v = mod.env[name]
            if isinstance(v, tuple) and v[0] == 'mod':
                return self.pkgmod(v[1])
            if isinstance(v, tuple) and v[0] == 'from':
                return self.from_import(v[1], v[2])
            return v
        fn = self.models.get(mod.name + '.' + name)
        if fn is not None:
            if getattr(fn, 'is_attr', False):
                return fn(self, None)
            return Builtin(mod.name + '.' + name, fn)
        if name in mod.lazy:
            return self.eval_const(mod, mod.lazy[name])
        if name in BUILTINS:
            return Builtin(name, BUILTINS[name])
        if name in EXC_NAMES:
            return Ext(name)
        raise Unsupported('name %s in module %s' % (name, mod.name))

    def pkgmod(self, name):
        fn = self.models.get('module:' + name)
        if fn is not None:
            return Ext(name)
        try:
            return self.repo.module(name)
        except FileNotFoundError:
            return Ext(name)

    def from_import(self, mod, name):
        try:
            m = self.repo.module(mod)
        except FileNotFoundError:
            return Ext(mod + '.' + name)
        return self.modattr(m, name)

    def eval_const(self, mod, node):
        return self.eval(node, Frame(self, mod, None, {}))

    # ---- truth / operators
    def truth(self, v):
        v = self.deref(v)
        if isinstance(v, ObjVal):
            return v.truth(self)
        if isinstance(v, V):
            n = v.ty.name
            if n == 'Bool':
                return v.t
            if n == 'Int' or n == 'Real':
                return v.t != 0
            if n == 'Str':
                return z3.Length(v.t) > 0
            if n == 'List':
                return z3.And(v.t != 0, self.L(v)[0] > 0)
            if n in ('Dict', 'Set'):
                return z3.And(v.t != 0, self.dict_len(v) > 0)
            if n == 'Ref':
                c = v.ty.args[0]
                fn = self.models.get(c + '.__bool__')
                if fn:
                    return fn(self, v)
                if c == 'Any':
                    return z3.And(v.t != 0, TRUTHY(v.t))
                return v.t != 0
            if n == 'Tup':
                return True
            raise Unsupported('truth of %s' % v.ty)
        if isinstance(v, Conc):
            return len(self.payload(v)) > 0
        if v is None:
            return False
        if isinstance(v, (bool, int, float, str, tuple)):
            return bool(v)
        return True

    def test(self, v):
        return self.eng.branch(self.truth(v))

    def num(self, v):
        """-> (type, term)"""
        v = self.deref(v)
        if isinstance(v, V):
            if v.ty is BOOL:
                return INT, z3.If(v.t, 1, 0)
            if v.ty in (INT, REAL):
                return v.ty, v.t
        elif isinstance(v, bool):
            return INT, z3.IntVal(int(v))
        elif isinstance(v, int):
            return INT, z3.IntVal(v)
        elif isinstance(v, float):
            return REAL, self.lift(v, REAL)
        raise Unsupported('number expected, got %r' % (v,))

    def binop(self, op, a, b):
        a, b = self.deref(a), self.deref(b)
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            try:
                return pyop(op, a, b)
            except ZeroDivisionError:
                raise PyExc('ZeroDivisionError')
        if isinstance(a, ObjVal):
            return a.binop(self, op, b, False)
        if isinstance(b, ObjVal):
            return b.binop(self, op, a, True)
        if isinstance(a, str) and isinstance(b, str) and isinstance(op, ast.Add):
            return a + b
        if isinstance(a, tuple) and isinstance(b, tuple) and isinstance(op, ast.Add):
            return a + b
        ka, kb = self.kindname(a), self.kindname(b)
        if isinstance(op, ast.Add) and (ka == 'Str' or kb == 'Str') and ka == kb:
            return V(STR, z3.Concat(self.lift(a, STR), self.lift(b, STR)))
        if isinstance(op, ast.Add) and ka == 'List' and kb == 'List':
            return self.list_concat(a, b)
        if isinstance(op, ast.Mult) and ka == 'List' and isinstance(a, Conc) and isinstance(b, int):
            return self.newconc('list', list(self.payload(a)) * b)
        if ka == 'Dict' and kb == 'Dict' and isinstance(op, ast.BitOr):
            r = self.newconc('dict', [])
            METHODS[('Dict', 'update')](self, r, [a], {})
            METHODS[('Dict', 'update')](self, r, [b], {})
            return r
        if ka == 'Set' and isinstance(op, (ast.BitOr, ast.Sub, ast.BitAnd)) and isv(a) and isv(b):
            return self.set_op(op, a, b)
        h = self.models.get('binop:' + type(op).__name__)
        if h:
            r = h(self, a, b)
            if r is not NotImplemented:
                return r
        ta, xa = self.num(a)
        tb, xb = self.num(b)
        if isinstance(op, (ast.Add, ast.Sub, ast.Mult)):
            ty = REAL if REAL in (ta, tb) else INT
            if ty is REAL:
                xa, xb = toreal(ta, xa), toreal(tb, xb)
            r = xa + xb if isinstance(op, ast.Add) else xa - xb if isinstance(op, ast.Sub) else xa * xb
            return self.norm(V(ty, r))
        if isinstance(op, (ast.Div, ast.FloorDiv, ast.Mod)):
            if not self.eng.branch(xb != 0):
                raise PyExc('ZeroDivisionError')
            if isinstance(op, ast.Div):
                return V(REAL, toreal(ta, xa) / toreal(tb, xb))
            if ta is INT and tb is INT:
                q = pyfloordiv(xa, xb)
                if isinstance(op, ast.FloorDiv):
                    return self.norm(V(INT, q))
                return self.norm(V(INT, pymod(xa, xb)))
            xa, xb = toreal(ta, xa), toreal(tb, xb)
            q = z3.ToInt(xa / xb)
            if isinstance(op, ast.FloorDiv):
                return V(REAL, z3.ToReal(q))
            return V(REAL, xa - xb * z3.ToReal(q))
        if isinstance(op, ast.Pow) and isinstance(b, int) and 0 <= b <= 4:
            r = xa if b else z3.IntVal(1)
            for _ in range(b - 1):
                r = r * xa
            return self.norm(V(ta, r))
        raise Unsupported('operator %s' % type(op).__name__)

    def set_op(self, op, a, b):
        e = self.eng
        da, db = self.D(a)[0], self.D(b)[0]
        r = V(SET(a.ty.args[0]), e.alloc())
        x = z3.Const('x!so', a.ty.args[0].sort())
        f = z3.Or if isinstance(op, ast.BitOr) else z3.And
        dom = e.fresh('dom', da.sort())
        nb = db[x] if not isinstance(op, ast.Sub) else z3.Not(db[x])
        e.st.pc.append(qall(x, dom[x] == f(da[x], nb)))
        n = e.fresh('n', z3.IntSort())
        self.dict_put(r, dom, None, n)
        return r

    def list_concat(self, a, b):
        if isinstance(a, Conc) and isinstance(b, Conc):
            return self.newconc('list', list(self.payload(a)) + list(self.payload(b)))
        ty = a.ty if isv(a) else b.ty
        # two duplicate-free lists make one if they are disjoint (an obligation of list_extend)
        r = V(ty if all(isv(x) and x.ty.name == 'List' and x.ty.opt for x in (a, b)) else LIST(ty.args[0]), self.eng.alloc())
        self.list_init(r)
        self.list_extend(r, a)
        self.list_extend(r, b)
        return r

    def eq(self, a, b):
        a, b = self.deref(a), self.deref(b)
        if a is None or b is None:
            o = b if a is None else a
            if o is None:
                return True
            if isinstance(o, V) and o.ty.isref:
                return o.t == 0
            return False
        raw = (bool, int, float, str)
        if isinstance(a, raw) and isinstance(b, raw):
            return a == b
        if isinstance(a, V) and a.ty.name == 'Tup':
            a2 = self.untup(a)
            if isinstance(b, V) and b.ty is a.ty:
                return a.t == b.t
            a = a2
        if isinstance(b, V) and b.ty.name == 'Tup':
            b = self.untup(b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            cs = [self.eq(x, y) for x, y in zip(a, b)]
            return mkand(cs)
        if isinstance(a, tuple) or isinstance(b, tuple):
            return False
        if isinstance(a, (ClassVal, FuncVal, Ext)) or isinstance(b, (ClassVal, FuncVal, Ext)):
            if isinstance(a, Ext) and isinstance(b, Ext):
                return a.name == b.name
            return a is b
        ka, kb = self.kindname(a), self.kindname(b)
        if ka == 'Str' and kb == 'Str':
            return self.lift(a, STR) == self.lift(b, STR)
        if (ka == 'Str') != (kb == 'Str') and 'Ref' not in (ka, kb):
            return False
        if isinstance(a, Conc) and isinstance(b, Conc):
            if a.kind == 'list' and b.kind == 'list':
                pa, pb = self.payload(a), self.payload(b)
                return mkand([self.eq(x, y) for x, y in zip(pa, pb)]) if len(pa) == len(pb) else False
            raise Unsupported('container equality')
        if ka in ('List', 'Dict', 'Set') or kb in ('List', 'Dict', 'Set'):
            if isv(a) and isv(b) and a.ty.name == 'Ref':
                return a.t == b.t
            raise Unsupported('container equality')
        if ka == 'Ref' or kb == 'Ref':
            ra, rb = a, b
            if ka == 'Ref' and kb == 'Ref':
                fn = self.models.get(a.ty.args[0] + '.__eq__')
                if fn:
                    return fn(self, a, b)
                return a.t == b.t
            if (ka == 'Ref' and a.ty is ANY) or (kb == 'Ref' and b.ty is ANY):
                return self.lift(a, ANY) == self.lift(b, ANY)
            raise Unsupported('equality %s / %s' % (ka, kb))
        if isinstance(a, BoundMethod) and isinstance(b, raw) or isinstance(b, BoundMethod) and isinstance(a, raw):
            return False
        ta, xa = self.num(a)
        tb, xb = self.num(b)
        if ta is not tb:
            xa, xb = toreal(ta, xa), toreal(tb, xb)
        return xa == xb

    def is_(self, a, b):
        a, b = self.deref(a), self.deref(b)
        if a is None or b is None:
            return self.eq(a, b)
        if isinstance(a, V) and isinstance(b, V) and a.ty.isref and b.ty.isref:
            return a.t == b.t
        if isinstance(a, Conc) and isinstance(b, Conc):
            return a.id == b.id
        if isinstance(a, bool) or isinstance(b, bool):
            return self.eq(a, b)
        if isinstance(a, (ClassVal, FuncVal, Ext)) or isinstance(b, (ClassVal, FuncVal, Ext)):
            return self.eq(a, b)
        raise Unsupported('is')

    def lt(self, a, b, strict=True):
        a, b = self.deref(a), self.deref(b)
        raw = (bool, int, float)
        if isinstance(a, raw) and isinstance(b, raw) or isinstance(a, str) and isinstance(b, str):
            return a < b if strict else a <= b
        if isinstance(a, tuple) or isinstance(b, tuple) or (isv(a) and a.ty.name == 'Tup'):
            a, b = self.untup(a), self.untup(b)
            if len(a) != len(b):
                raise Unsupported('tuple comparison')
            r = not strict
            for x, y in zip(reversed(a), reversed(b)):
                r = mkor([self.lt(x, y), mkand([self.eq(x, y), r])])
            return r
        ta, xa = self.num(a)
        tb, xb = self.num(b)
        if ta is not tb:
            xa, xb = toreal(ta, xa), toreal(tb, xb)
        return xa < xb if strict else xa <= xb

    def contains(self, c, x):
        c = self.deref(c)
        if isinstance(c, V):
            n = c.ty.name
            if n in ('Dict', 'Set'):
                return self.dict_has(c, x).t
            if n == 'List':
                ln, el, ix = self.L(c)
                t = self.lift(x, c.ty.args[0])
                if ix is not None:
                    return z3.Select(self.M(c), t)
                i = z3.Int('i!in')
                return z3.Exists([i], z3.And(0 <= i, i < ln, el[i] == t))
            if n == 'Ref':
                f = self.getattr(c, '__contains__')
                return self.truth(self.call(f, [x], {}))
            if n == 'Str':
                return z3.Contains(c.t, self.lift(x, STR))
            if n == 'Tup':
                return mkor([self.eq(V(c.ty.args[i], c.ty.sort().accessor(0, i)(c.t)), x) for i in range(len(c.ty.args))])
        if isinstance(c, Conc):
            p = self.payload(c)
            if c.kind == 'dict':
                return mkor([self.eq(k, x) for k, _ in p])
            return mkor([self.eq(k, x) for k in p])
        if isinstance(c, tuple):
            return mkor([self.eq(k, x) for k in c])
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        if isinstance(c, Iter) and c.kind == 'keys':
            return self.contains(c.a[0], x)
        raise Unsupported('in %r' % (c,))

    # ---- calls
    def call(self, f, args, kw):
        f = self.deref(f)
        if isinstance(f, ObjVal):
            return f.call(self, args, kw)
        if isinstance(f, BoundMethod):
            return self.call_func(f.func, [f.obj] + args, kw)
        if isinstance(f, FuncVal):
            return self.call_func(f, args, kw)
        if isinstance(f, BoundModel):
            self.used_models.add(f.name)
            return f.fn(self, f.obj, args, kw)
        if isinstance(f, Builtin):
            self.used_models.add(f.name)
            return f.fn(self, args, kw)
        if isinstance(f, ClassVal):
            return self.construct(f, args, kw)
        if isinstance(f, Ext):
            fn = self.models.get(f.name)
            if fn is None:
                if f.name in EXC_NAMES:
                    return ExcVal(f.name, args)
                raise Unsupported('external call %s' % f.name)
            self.used_models.add(f.name)
            return fn(self, args, kw)
        if isinstance(f, V) and f.ty.name == 'Ref':
            cl = self.eng.st.ghost.get('callables', {}).get(str(f.t))
            if cl is not None:
                return self.call(cl, args, kw)
            m = self.models.get(f.ty.args[0] + '.__call__')
            c = self.contracts.get(f.ty.args[0] + '.__call__')
            if m:
                self.used_models.add(f.ty.args[0] + '.__call__')
                return m(self, f, args, kw)
            k = self.repo.cls(f.ty.args[0])
            if k:
                mm, _ = self.repo.lookup(k, '__call__')
                if mm:
                    return self.call_func(mm, [f] + args, kw)
            raise Unsupported('call of %s' % f.ty)
        raise Unsupported('call of %r' % (f,))

    def bind(self, f, args, kw):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        if len(args) > len(names) and not a.vararg:
            raise Unsupported('too many arguments for %s' % f.qual)
        for n, v in zip(names, args):
            env[n] = v
        if a.vararg:
            env[a.vararg.arg] = tuple(args[len(names):])
        kwnames = names + [x.arg for x in a.kwonlyargs]
        extra = {}
        more = None
        for k, v in kw.items():
            if k == '**' and a.kwarg:
                more = v
            elif k in kwnames:
                env[k] = v
            else:
                extra[k] = v
        if a.kwarg and more is not None:
            if extra:
                raise Unsupported('keywords beside a ** argument')
            d = V(more.ty, self.eng.alloc())          # a dictionary of its own
            self.dict_put(d, *self.D(more))
            env[a.kwarg.arg] = d
        elif a.kwarg:
            env[a.kwarg.arg] = self.newconc('dict', list(extra.items()))
        elif extra:
            raise Unsupported('unexpected keyword for %s' % f.qual)
        dn = names[len(names) - len(a.defaults):]
        for n, d in zip(dn, a.defaults):
            if n not in env:
                env[n] = self.eval_const(f.mod, d) if f.closure is None else self.eval(d, Frame(self, f.mod, f, dict(f.closure)))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in env and d is not None:
                env[x.arg] = self.eval_const(f.mod, d)
        for n in kwnames:
            if n not in env:
                raise Unsupported('missing argument %s of %s' % (n, f.qual))
        return env

    def call_func(self, f, args, kw):
        q = f.qual
        m = self.models.get(q)
        if m is not None:
            self.used_models.add(q)
            return m(self, args, kw)
        env = self.bind(f, args, kw)
        con = self.contracts.get(q)
        if con is not None and con.apply and q not in self.inline_only:
            return self.apply_contract(con, f, env)
        return self.run_func(f, env)

    def run_func(self, f, env):
        if self.depth > MAXDEPTH:
            raise Unsupported('inlining depth exceeded at %s' % f.qual)
        self.inlined.add(f.qual)
        if isinstance(f.node, ast.FunctionDef) and any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(f.node)):
            raise Unsupported('generator %s' % f.qual)
        self.depth += 1
        fr = Frame(self, f.mod, f, env)
        if f.closure is not None:
            fr.closure = f.closure
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, fr)
            self.block(f.node.body, fr)
            return None
        except ReturnEx as r:
            return r.v
        finally:
            self.depth -= 1

    def callee_allocates(self, con):
        """may references unknown to the caller exist after the call?"""
        return con.modifies is None or callable(con.modifies) or bool(con.modifies) or con.result is not None and con.result.isref

    def apply_contract(self, con, f, env):
        e = self.eng
        self.called.add(con.qual)
        args = {}
        for k, v in env.items():
            ty = con.args.get(k)
            v = self.deref(v)
            opt = isinstance(ty, tuple) and ty and ty[0] == 'opt'
            if opt:
                ty = ty[1]
            if ty is not None and not callable(ty):
                args[k] = V(ty, self.lift(v, ty))
            else:
                args[k] = v
        old = dict(e.st.heap)
        oldg = dict(e.st.ghost)
        top0 = e.alloc_top()
        c = Ctx(self, old, old, args, ghost=oldg)
        if con.requires:
            for n, g in con.requires(c):
                e.prove('%s requires %s' % (con.qual, n), g, 'pre')
        self.havoc(con.modifies(c) if callable(con.modifies) else (con.modifies or []))
        if self.callee_allocates(con):
            nb = e.fresh('allocC', z3.IntSort())
            e.st.pc.append(nb >= top0)
            e.newtop(nb)
        if con.ghost:
            con.ghost(self, Ctx(self, e.st.heap, old, args, ghost=e.st.ghost, oldghost=oldg))
        for exc, cond in con.raises.items():
            g = cond(c)
            if e.branch(g):
                raise PyExc(exc)
        res = None
        if con.result is not None:
            res = e.freshv('res', con.result)
            if con.result.isref:
                e.assume(z3.And(res.t >= 0, res.t <= e.alloc_top()))
        c2 = Ctx(self, e.st.heap, old, args, res, ghost=e.st.ghost, oldghost=oldg)
        c2.oldtop = top0
        if con.after:
            con.after(self, Ctx(self, e.st.heap, old, args, res, ghost=e.st.ghost, oldghost=oldg))
            c2.ghost = e.st.ghost
        for n, g in con.ensures(c2) if con.ensures else []:
            e.assume(g)
        return self.norm(res) if isinstance(res, V) else res

    def havoc(self, items):
        """items: heap keys 'Class.field', ('key', ref) pairs, or (View) containers"""
        e = self.eng
        for it in items:
            if isinstance(it, View):
                ty = it.ty
                keys = [lk(ty, p) for p in ('len', 'el', 'ix', 'mem', 'hp')] if ty.name == 'List' else [dk(ty, p) for p in ('dom', 'val', 'n')]
                for k in keys:
                    rng = self.key_rng(ty, k)
                    if rng is None:
                        continue
                    e.hset(k, rng, it.ref, e.fresh('hv', rng))
            elif isinstance(it, tuple):
                k, ref = it
                cls, fld = k.split('.')
                kk, ft = self.field(cls, fld)
                e.hset(kk, ft.sort(), ref, e.fresh('hv', ft.sort()))
            elif isinstance(it, Ty):
                for p in (('len', 'el', 'ix', 'mem', 'hp') if it.name == 'List' else ('dom', 'val', 'n')):
                    k = lk(it, p) if it.name == 'List' else dk(it, p)
                    rng = self.key_rng(it, k)
                    if rng is None:
                        continue
                    self.havoc_all(k, rng)
            else:
                cls, fld = it.split('.')
                kk, ft = self.field(cls, fld)
                self.havoc_all(kk, ft.sort())

    def havoc_all(self, k, rng):
        e = self.eng
        e.harr(k, rng)
        e.st.heap[k] = e.fresh('H_' + k, z3.ArraySort(z3.IntSort(), rng))
        for log in e.wlog:
            log.add((k, None))

    def key_rng(self, ty, k):
        p = k.rsplit('.', 1)[1]
        a = ty.args
        if p in ('len', 'n'):
            return z3.IntSort()
        if p == 'hp':
            return z3.BoolSort()
        if p == 'el':
            return z3.ArraySort(z3.IntSort(), a[0].sort())
        if p == 'mem':
            return z3.ArraySort(a[0].sort(), z3.BoolSort()) if ty.opt else None
        if p == 'ix':
            return z3.ArraySort(a[0].sort(), z3.IntSort()) if ty.opt else None
        if p == 'dom':
            return z3.ArraySort(a[0].sort(), z3.BoolSort())
        if p == 'val':
            return z3.ArraySort(a[0].sort(), a[1].sort()) if ty.name == 'Dict' else None

    def construct(self, c, args, kw):
        if c.is_enum:
            return args[0]
        if any(isinstance(b, ast.Name) and b.id in ('Exception', 'RuntimeError', 'ValueError') for b in c.bases):
            return ExcVal(c.name, args)
        m = self.models.get('new:' + c.name)
        if m:
            return m(self, args, kw)
        con = self.contracts.get(c.qual + '.__new__')
        obj = V(REF(c.name), self.eng.alloc())
        m = self.models.get('alloc:' + c.name)
        if m:
            m(self, obj)
        init, owner = self.repo.lookup(c, '__init__')
        if init is not None:
            self.call_func(init, [obj] + args, kw)
        elif c.is_dataclass:
            names = [n for n, _ in c.fields]
            vals = dict(zip(names, args))
            vals.update(kw)
            for n, d in c.fields:
                if n not in vals:
                    if d is None:
                        raise Unsupported('dataclass argument')
                    vals[n] = self.eval_const(c.mod, d)
                self.setfield(obj, n, vals[n])
        elif args or kw:
            raise Unsupported('constructor of %s' % c.qual)
        return obj

    # ---- statements
    def block(self, stmts, fr):
        for s in stmts:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        self.eng.cur = (fr.func.qual if fr.func else fr.mod.name, getattr(s, 'lineno', 0))
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(s).__name__)
        m(s, fr)

    def s_Pass(self, s, fr):
        pass

    def s_Import(self, s, fr):
        for a in s.names:
            fr.env[a.asname or a.name.split('.')[0]] = Ext(a.name)

    def s_ImportFrom(self, s, fr):
        m = Module('tmp', '', None)
        self.repo._imp(m, s)
        for k, v in m.env.items():
            if isinstance(v, tuple):
                v = self.pkgmod(v[1]) if v[0] == 'mod' else self.from_import(v[1], v[2])
            fr.env[k] = v

    def s_Global(self, s, fr):
        fr.globals_.update(s.names)

    def s_Nonlocal(self, s, fr):
        raise Unsupported('nonlocal')

    def s_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, fr)

    def s_Assign(self, s, fr):
        v = self.eval(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            cur = fr.get(t.id)
            setter = lambda v: fr.set(t.id, v)
        elif isinstance(t, ast.Attribute):
            obj = self.eval(t.value, fr)
            cur = self.getattr(obj, t.attr)
            setter = lambda v: self.setattr(obj, t.attr, v)
        elif isinstance(t, ast.Subscript):
            obj = self.eval(t.value, fr)
            idx = self.evalslice(t.slice, fr)
            cur = self.getitem(obj, idx)
            setter = lambda v: self.setitem(obj, idx, v)
        else:
            raise Unsupported('augmented assignment')
        rhs = self.eval(s.value, fr)
        cur = self.deref(cur)
        if isinstance(s.op, ast.Add) and self.kindname(cur) == 'List':
            METHODS[('List', 'extend')](self, cur, [rhs], {})
            setter(cur)
            return
        h = self.models.get('iadd:' + (cur.ty.args[0] if isv(cur) and cur.ty.name == 'Ref' else '?'))
        if h:
            return h(self, s.op, cur, rhs)
        setter(self.binop(s.op, cur, rhs))

    def setattr(self, obj, name, v):
        obj = self.deref(obj)
        if isinstance(obj, ObjVal):
            return obj.setattr(self, name, v)
        if isinstance(obj, V) and obj.ty.name == 'Ref':
            c = self.repo.cls(obj.ty.args[0])
            if c:
                m, _ = self.repo.lookup(c, '=' + name)
                if m:
                    self.call_func(m, [obj, v], {})
                    return
                if self.field(obj.ty.args[0], '__inst_' + name)[1] is not None:
                    return self.setfield(obj, '__inst_' + name, v)
            self.setfield(obj, name, v)
            return
        raise Unsupported('attribute assignment on %r' % (obj,))

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            fr.set(t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, fr), self.evalslice(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(v, len(t.elts), t.elts)
            for tt, x in zip(t.elts, items):
                self.assign(tt, x, fr)
        else:
            raise Unsupported('assignment target')

    def unpack(self, v, n, elts=()):
        v = self.untup(self.deref(v))
        if any(isinstance(x, ast.Starred) for x in elts):
            raise Unsupported('starred assignment')
        if isinstance(v, Conc) and v.kind == 'list':
            v = tuple(self.payload(v))
        if isinstance(v, V) and v.ty.name == 'List':
            ln, el, ix = self.L(v)
            if not self.eng.branch(ln == n):
                raise PyExc('ValueError')
            return tuple(self.wrapv(v.ty.args[0], self.elem(v, z3.IntVal(i))) for i in range(n))
        if isinstance(v, tuple):
            if len(v) != n:
                raise PyExc('ValueError')
            return v
        raise Unsupported('unpack %r' % (v,))

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                self.delitem(self.eval(t.value, fr), self.evalslice(t.slice, fr))
            else:
                raise Unsupported('del')

    def s_Return(self, s, fr):
        raise ReturnEx(self.eval(s.value, fr) if s.value else None)

    def s_Break(self, s, fr):
        raise BreakEx()

    def s_Continue(self, s, fr):
        raise ContinueEx()

    def s_If(self, s, fr):
        if self.test(self.eval(s.test, fr)):
            self.block(s.body, fr)
        else:
            self.block(s.orelse, fr)

    def s_Assert(self, s, fr):
        if not self.test(self.eval(s.test, fr)):
            raise PyExc('AssertionError')

    def s_Raise(self, s, fr):
        if s.exc is None:
            raise fr.handling or Unsupported('re-raise')
        v = self.eval(s.exc, fr)
        if isinstance(v, ExcVal):
            raise PyExc(v.name, v.args)
        if isinstance(v, Ext):
            raise PyExc(v.name)
        if isinstance(v, ClassVal):
            raise PyExc(v.name)
        raise Unsupported('raise %r' % (v,))

    def s_Try(self, s, fr):
        try:
            try:
                self.block(s.body, fr)
            except PyExc as ex:
                for h in s.handlers:
                    if self.exc_match(ex, h.type, fr):
                        if h.name:
                            fr.env[h.name] = ExcVal(ex.cls, ex.eargs)
                        old, fr.handling = fr.handling, ex
                        self.block(h.body, fr)
                        fr.handling = old
                        break
                else:
                    raise
            else:
                self.block(s.orelse, fr)
        except (PyExc, ReturnEx, BreakEx, ContinueEx):
            self.block(s.finalbody, fr)
            raise
        self.block(s.finalbody, fr)

    def exc_match(self, ex, t, fr):
        if t is None:
            return True
        names = [n.id if isinstance(n, ast.Name) else n.attr for n in (t.elts if isinstance(t, ast.Tuple) else [t])]
        up = {'KeyError': ('LookupError',), 'IndexError': ('LookupError',), 'FileNotFoundError': ('OSError',),
              'ZeroDivisionError': ('ArithmeticError',)}
        for n in names:
            if n in (ex.cls, 'Exception', 'BaseException') or n in up.get(ex.cls, ()):
                return True
        return False

    def s_With(self, s, fr):
        h = self.models.get('with')
        if not h:
            raise Unsupported('with')
        h(self, s, fr)

    def s_FunctionDef(self, s, fr):
        f = FuncVal(fr.mod, s, (fr.func.qual if fr.func else fr.mod.name) + '.<locals>.' + s.name, None, fr.env)
        fr.env[s.name] = f

    # ---- loops
    def iteration(self, it):
        """-> ('conc', [items]) or ('sym', lengthfn, itemfn) or ('set', ...)"""
        it = self.untup(self.deref(it))
        if isinstance(it, ObjVal):
            return it.iteration(self)
        if isinstance(it, tuple):
            return ('conc', list(it))
        if isinstance(it, Conc):
            p = self.payload(it)
            return ('conc', [k for k, _ in p] if it.kind == 'dict' else list(p))
        if isinstance(it, str):
            return ('conc', list(it))
        if isinstance(it, Iter):
            k, a = it.kind, it.a
            if k == 'range':
                lo, hi, st = a
                if all(isinstance(x, int) for x in a):
                    return ('conc', list(range(lo, hi, st)))
                if st != 1:
                    raise Unsupported('range step')
                lo_t, hi_t = self.lift(lo, INT), self.lift(hi, INT)
                return ('sym', lambda: z3.If(hi_t > lo_t, hi_t - lo_t, 0), lambda i: self.norm(V(INT, lo_t + i)))
            if k == 'enumerate':
                sub = self.iteration(a[0])
                if sub[0] == 'conc':
                    return ('conc', [(i + a[1], x) for i, x in enumerate(sub[1])])
                if sub[0] == 'sym':
                    return ('sym', sub[1], lambda i: (self.norm(V(INT, i + a[1])), sub[2](i)))
            if k == 'zip':
                subs = [self.iteration(x) for x in a]
                if all(x[0] == 'conc' for x in subs):
                    return ('conc', list(zip(*[x[1] for x in subs])))
            if k in ('keys', 'values', 'items'):
                d = self.deref(a[0])
                pick = {'keys': lambda kv: kv[0], 'values': lambda kv: kv[1], 'items': lambda kv: kv}[k]
                if isinstance(d, Conc):
                    return ('conc', [pick(kv) for kv in self.payload(d)])
                return ('set', d, pick)
            if k == 'iter':
                return self.iteration(a[0])
            if k == 'chain':
                subs = [self.iteration(x) for x in a]
                if all(x[0] == 'conc' for x in subs):
                    return ('conc', [y for x in subs for y in x[1]])
            if k == 'reversed':
                sub = self.iteration(a[0])
                if sub[0] == 'conc':
                    return ('conc', list(reversed(sub[1])))
                if sub[0] == 'sym':
                    n0 = sub[1]()
                    return ('sym', lambda: n0, lambda i: sub[2](n0 - 1 - i))
            raise Unsupported('iteration over %s' % k)
        if isinstance(it, V):
            if it.ty.name == 'List':
                def item(i):
                    return self.wrapv(it.ty.args[0], self.elem(it, i))
                return ('sym', lambda: self.L(it)[0], item, it)
            if it.ty.name in ('Dict', 'Set'):
                return ('set', it, lambda kv: kv[0])
            if it.ty.name == 'Ref':
                h = self.models.get('iter:' + it.ty.args[0])
                if h:
                    return self.iteration(h(self, it))
        raise Unsupported('iteration over %r' % (it,))

    def s_For(self, s, fr):
        it = self.eval(s.iter, fr)
        kind = self.iteration(it)
        if kind[0] == 'conc':
            if s in fr.loopids and (fr.qual, fr.loopids[s]) in self.loops and getattr(self.loops[(fr.qual, fr.loopids[s])], 'force', False):
                pass
            broke = False
            for x in kind[1]:
                self.assign(s.target, x, fr)
                try:
                    self.block(s.body, fr)
                except BreakEx:
                    broke = True
                    break
                except ContinueEx:
                    continue
            if not broke:
                self.block(s.orelse, fr)
            return
        self.loop(s, fr, kind)

    def view_of(self, v):
        return View(self, self.eng.st.heap, v)

    def s_While(self, s, fr):
        self.loop(s, fr, ('while',))

    def loop(self, s, fr, kind):
        e = self.eng
        key = (fr.qual, fr.loopids.get(s, -1))
        spec = self.loops.get(key)
        if e.bound is not None:
            return self.loop_bounded(s, fr, kind, key)
        st = e.st
        # locals assigned in the body, with the types seen so far
        names = assigned_names(s.body + ([s.target] if isinstance(s, ast.For) else []) )
        locty = e.locty.setdefault(key, {})
        mod = e.modsets.setdefault(key, [])
        mat = e.matty.setdefault(key, {})
        for nm, ty in mat.items():
            v = fr.env.get(nm)
            if isinstance(self.deref(v), Conc):
                fr.env[nm] = self.materialize(v, ty)
        entry_env = dict(fr.env)
        entry_heap = dict(st.heap)
        entry_ghost = dict(st.ghost)
        entry_alloc = e.alloc_top()
        entry_consts = None
        i0 = z3.IntVal(0)
        lc = LoopCtx(self, fr, entry_heap, entry_env, entry_ghost)
        domain = None
        if kind[0] == 'set':
            domain = self.D(kind[1])[0]
            ks = kind[1].ty.args[0].sort()
            lc.dom = domain
            lc.seen = z3.K(ks, z3.BoolVal(False))
        lc.i = i0
        if kind[0] == 'sym':
            lc.length = kind[1]()
            lc.it = self.view_of(kind[3]) if len(kind) > 3 else None
        cands = self.auto_cands(fr, entry_env, names, locty, lc)
        for n, g in self.inv(spec, lc):
            e.prove('loop %s#%s invariant on entry: %s' % (key[0], key[1], n), g, 'inv-entry')
        for cid, f in cands:
            g = f(lc)
            if g is not None:
                e.prove('candidate %s' % cid, g, 'cand', cand=(key, cid))
        # arbitrary iteration: havoc what the body may change
        nb = e.fresh('allocL', z3.IntSort())
        nbn = e.fresh_n
        st.pc.append(nb >= entry_alloc)
        for hk in sorted({z[0] for z in mod}):
            rng = Eng.heap_sorts[hk]
            olda = e.harr(hk, rng)
            cells = [z[1] for z in mod if z[0] == hk]
            whole = any(c is None for c in cells)
            if whole or any(isinstance(c, str) for c in cells):
                newa = e.fresh('H_' + hk, z3.ArraySort(z3.IntSort(), rng))
                st.heap[hk] = newa
                if not whole:
                    # only these cells and cells allocated in the loop change
                    r = z3.Int('r!fr')
                    fixed = sorted([c for c in cells if not isinstance(c, str)], key=str)
                    st.pc.append(qall(r, z3.Implies(z3.And(r <= entry_alloc, *[r != c for c in fixed]),
                                                    newa[r] == olda[r]), [newa[r]]))
                    for log in e.wlog:
                        for c in fixed:
                            log.add((hk, c))
                        log.add((hk, nb + 1))
                else:
                    for log in e.wlog:
                        log.add((hk, None))
            else:
                for rk in sorted(cells, key=str):
                    st.heap[hk] = z3.Store(st.heap[hk], rk, e.fresh('hv', rng))
                    for log in e.wlog:
                        log.add((hk, rk))
        e.newtop(nb)
        for nm in sorted(names):
            ty = locty.get(nm)
            if ty is None:
                if nm not in entry_env:
                    fr.env.pop(nm, None)
                    continue
                ty = self.ty_of(entry_env[nm])
            if isinstance(ty, str):      # not representable: unknown after an iteration
                fr.env[nm] = UNDEF
                continue
            fr.env[nm] = e.freshv(nm, ty)
            if ty.isref:
                st.pc.append(z3.And(fr.env[nm].t >= 0, fr.env[nm].t <= nb))
        for g in (spec.ghosts(self) if spec and hasattr(spec, 'ghosts') else []):
            st.ghost[g] = e.fresh('gh_' + str(g), entry_ghost[g].sort())
        i = e.fresh('it', z3.IntSort())
        lc.i = i
        if kind[0] != 'while':
            st.pc.append(i >= 0)
        if kind[0] == 'set':
            lc.seen = e.fresh('seen', z3.ArraySort(ks, z3.BoolSort()))
            x = z3.Const('k!sn', ks)
            st.pc.append(qall(x, z3.Implies(lc.seen[x], domain[x]), [lc.seen[x]]))
        lc.havocked = True
        conc0 = {k: (v if isinstance(v, Fwd) else list(v)) for k, v in st.conc.items()}
        for n, g in self.inv(spec, lc):
            e.assume(g)
        for cid, f in cands:
            if (key, cid) in e.cands_off:
                continue
            g = f(lc)
            if g is not None:
                e.assume(g)
        # loop condition
        if kind[0] == 'while':
            log = set()
            e.wlog.append(log)
            go = self.test(self.eval(s.test, fr))
            e.wlog.pop()
        elif kind[0] == 'sym':
            lc.length = kind[1]()
            st.pc.append(i <= lc.length) if True else None
            go = e.branch(i < lc.length)
        else:
            k = e.fresh('key', ks)
            more = e.choose(2) == 0
            if more:
                st.pc.append(z3.And(domain[k], z3.Not(lc.seen[k])))
                go = True
            else:
                x = z3.Const('k!sn', ks)
                st.pc.append(qall(x, z3.Implies(domain[x], lc.seen[x])))
                go = False
        if not go:
            self.block(s.orelse, fr)
            return
        if kind[0] == 'sym':
            self.assign(s.target, kind[2](i), fr)
        elif kind[0] == 'set':
            kv = self.norm(V(kind[1].ty.args[0], k))
            vv = self.wrapv(kind[1].ty.args[1], z3.Select(self.D(kind[1])[1], k)) if kind[1].ty.name == 'Dict' else None
            self.assign(s.target, kind[2]((kv, vv)), fr)
        body_env0 = dict(fr.env)
        log = set()
        e.wlog.append(log)
        brk = False
        ended = True
        try:
            self.block(s.body, fr)
        except ContinueEx:
            pass
        except BreakEx:
            brk = True
        except (ReturnEx, PyExc):
            self.note_mods(key, log, nbn, mod, e, entry_alloc)
            e.wlog.remove(log)
            raise
        e.wlog.remove(log)
        self.note_mods(key, log, nbn, mod, e, entry_alloc)
        # a concrete container that the body changes is symbolic from the start of the loop on
        for cid_, p0 in conc0.items():
            p1 = st.conc[cid_]
            if isinstance(p0, Fwd) or (not isinstance(p1, Fwd) and len(p0) == len(p1) and all(x is y for x, y in zip(p0, p1))):
                continue
            nms = [nm for nm, v in entry_env.items() if isinstance(v, Conc) and v.id == cid_]
            if not nms:
                raise Unsupported('a concrete container that is not a local changes in a loop')
            mat[nms[0]] = p1.v.ty if isinstance(p1, Fwd) else self.ty_of(fr.env[nms[0]] if isinstance(fr.env.get(nms[0]), Conc) else entry_env[nms[0]])
            raise Restart()
        # types of locals at the end of the body
        for nm in names:
            if nm in fr.env and fr.env[nm] is not UNDEF:
                v = self.deref(fr.env[nm])
                try:
                    ty = self.ty_of(v)
                except Unsupported:
                    ty = '?'
                if isinstance(v, Conc):
                    ty = '?'
                if isinstance(v, V) and not isinstance(ty, str) and nm in entry_env:
                    t0 = None
                    try:
                        t0 = self.ty_of(entry_env[nm])
                    except Unsupported:
                        pass
                    if t0 is not None and t0 is not ty:
                        if entry_env[nm] is None and ty.isref:
                            pass
                        elif {t0, ty} == {INT, REAL}:
                            ty = REAL
                        elif v is None or not (t0.isref and ty.isref):
                            ty = '?'
                if v is None and nm in locty:
                    continue
                if v is None and nm in entry_env and isinstance(entry_env[nm], V):
                    ty = entry_env[nm].ty
                if nm not in locty:
                    locty[nm] = ty
                    raise Restart()
                elif locty[nm] is not ty and locty[nm] != '?':
                    o = locty[nm]
                    if not isinstance(ty, str) and o.isref and ty.isref:
                        if o is ANY:
                            locty[nm] = ty
                            raise Restart()
                        continue
                    locty[nm] = REAL if {o, ty} == {INT, REAL} else '?'
                    raise Restart()
        if brk:
            return
        lc2 = LoopCtx(self, fr, entry_heap, entry_env, entry_ghost)
        lc2.top0 = lc.top0
        lc2.i = i + 1
        lc2.havocked = True
        if kind[0] == 'set':
            lc2.dom = domain
            lc2.seen = z3.Store(lc.seen, k, True)
        if kind[0] == 'sym':
            lc2.length = kind[1]()
            lc2.it = self.view_of(kind[3]) if len(kind) > 3 else None
        lc2.prev = lc
        for n, g in self.inv(spec, lc2):
            e.prove('loop %s#%s invariant preserved: %s' % (key[0], key[1], n), g, 'inv-preserve')
        for cid, f in cands:
            g = f(lc2)
            if g is not None and (key, cid) not in e.cands_off:
                e.prove('candidate %s' % cid, g, 'cand', cand=(key, cid))
        raise PathEnd()

    def inv(self, spec, lc):
        if spec is None:
            return []
        try:
            return list(spec(lc))
        except KeyError as ex:
            self.eng.notes.append('loop annotation refers to a local that is no longer there: %s' % ex)
            return []

    def note_mods(self, key, log, nbn, mod, e, entry_alloc):
        grew = False
        def same(a, b):
            if a is None or b is None or isinstance(a, str) or isinstance(b, str):
                return a is b or (isinstance(a, str) and isinstance(b, str))
            return z3.eq(a, b)
        for hk, rk in log:
            if rk is None:
                it = (hk, None)
            else:
                # a reference term made only of symbols that exist before the loop names one fixed cell
                if loopfresh(rk, nbn):
                    it = (hk, 'fresh')
                elif loopfree(rk, nbn):
                    it = (hk, rk)
                else:
                    it = (hk, None)
            here = [z for z in mod if z[0] == hk]
            if any(z[1] is None for z in here):
                continue
            if not any(same(z[1], it[1]) for z in here):
                if it[1] is None:
                    mod[:] = [z for z in mod if z[0] != hk]
                mod.append(it)
                grew = True
        if grew:
            raise Restart()

    def auto_cands(self, fr, env0, names, locty, lc):
        """simple arithmetic relations tried automatically (Houdini): x == x0 + i, x >= x0"""
        out = []
        for nm in sorted(names):
            if nm in env0 and isinstance(env0[nm], (int, V)) and not isinstance(env0[nm], bool):
                if isinstance(env0[nm], V) and env0[nm].ty is not INT:
                    continue
                def mk(nm):
                    def eqi(c):
                        v = c.fr.env.get(nm)
                        if isinstance(v, (int, V)) and not (isinstance(v, V) and v.ty is not INT):
                            return self.lift(v, INT) == self.lift(env0[nm], INT) + c.i
                        return None
                    def ge(c):
                        v = c.fr.env.get(nm)
                        if isinstance(v, (int, V)) and not (isinstance(v, V) and v.ty is not INT):
                            return self.lift(v, INT) >= self.lift(env0[nm], INT)
                        return None
                    return eqi, ge
                a, b = mk(nm)
                out.append((nm + '==i', a))
                out.append((nm + '>=', b))
            elif nm in env0 and isinstance(env0[nm], (bool,)) or (nm in env0 and isinstance(env0[nm], V) and env0[nm].ty is BOOL):
                def mk2(nm):
                    def same(c):
                        v = c.fr.env.get(nm)
                        if isinstance(v, (bool, V)):
                            return self.lift(v, BOOL) == self.lift(env0[nm], BOOL)
                        return None
                    return same
                out.append((nm + '==entry', mk2(nm)))
        # an integer or boolean field of an object reachable from a local that the body changes by one per iteration
        return [(cid, f) for cid, f in out]

    def loop_bounded(self, s, fr, kind, key):
        e = self.eng
        e.boundedloops = getattr(e, 'boundedloops', set()) | {key}
        K = e.bound
        n = 0
        seen = None
        while True:
            if kind[0] == 'while':
                go = self.test(self.eval(s.test, fr))
            elif kind[0] == 'sym':
                go = e.branch(z3.IntVal(n) < kind[1]())
            else:
                ks = kind[1].ty.args[0].sort()
                if seen is None:
                    seen = z3.K(ks, z3.BoolVal(False))
                    domain = self.D(kind[1])[0]
                x = z3.Const('k!sn', ks)
                go = e.choose(2) == 0
                if go:
                    k = e.fresh('key', ks)
                    e.st.pc.append(z3.And(domain[k], z3.Not(seen[k])))
                    if not e.feasible(z3.BoolVal(True)):
                        raise PathEnd()
                else:
                    e.st.pc.append(qall(x, z3.Implies(domain[x], seen[x])))
                    if not e.feasible(z3.BoolVal(True)):
                        raise PathEnd()
            if not go:
                self.block(s.orelse, fr)
                return
            if n >= K:
                e.cut = True
                raise PathEnd()
            if kind[0] == 'sym':
                self.assign(s.target, kind[2](z3.IntVal(n)), fr)
            elif kind[0] == 'set':
                kv = V(kind[1].ty.args[0], k)
                vv = self.wrapv(kind[1].ty.args[1], z3.Select(self.D(kind[1])[1], k)) if kind[1].ty.name == 'Dict' else None
                seen = z3.Store(seen, k, True)
                self.assign(s.target, kind[2]((kv, vv)), fr)
            try:
                self.block(s.body, fr)
            except ContinueEx:
                pass
            except BreakEx:
                return
            n += 1

    # ---- expressions
    def eval(self, n, fr):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(n).__name__)
        return m(n, fr)

    def e_Constant(self, n, fr):
        if isinstance(n.value, (bool, int, float, str)) or n.value is None:
            return n.value
        if n.value is Ellipsis:
            return Ext('...')
        raise Unsupported('constant %r' % (n.value,))

    def e_Name(self, n, fr):
        return fr.get(n.id)

    def e_Attribute(self, n, fr):
        return self.getattr(self.eval(n.value, fr), n.attr)

    def e_Tuple(self, n, fr):
        return tuple(self.elts(n.elts, fr))

    def elts(self, es, fr):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                k = self.iteration(self.eval(x.value, fr))
                if k[0] != 'conc':
                    raise Unsupported('starred symbolic sequence')
                out += k[1]
            else:
                out.append(self.eval(x, fr))
        return out

    def e_List(self, n, fr):
        return self.newconc('list', self.elts(n.elts, fr))

    def e_Set(self, n, fr):
        return self.newconc('set', self.elts(n.elts, fr))

    def e_Dict(self, n, fr):
        out = []
        for k, v in zip(n.keys, n.values):
            out.append((None if k is None else self.eval(k, fr), self.eval(v, fr), k is None))
        d = self.newconc('dict', [])
        for k, v, star in out:
            if star:
                METHODS[('Dict', 'update')](self, d, [v], {})
            else:
                self.setitem(d, k, v)
        return d

    def e_BoolOp(self, n, fr):
        isand = isinstance(n.op, ast.And)
        v = None
        for i, x in enumerate(n.values):
            v = self.eval(x, fr)
            if i == len(n.values) - 1:
                return v
            t = self.test(v)
            if isand and not t:
                return v
            if not isand and t:
                return v
        return v

    def e_UnaryOp(self, n, fr):
        v = self.eval(n.operand, fr)
        if isinstance(n.op, ast.Not):
            t = self.truth(v)
            return (not t) if isinstance(t, bool) else self.norm(V(BOOL, z3.Not(t)))
        v = self.deref(v)
        if isinstance(v, ObjVal):
            return v.unary(self, n.op)
        if isinstance(n.op, ast.USub):
            if isinstance(v, (int, float)):
                return -v
            ty, t = self.num(v)
            return self.norm(V(ty, -t))
        if isinstance(n.op, ast.UAdd):
            return v
        raise Unsupported('unary operator')

    def e_BinOp(self, n, fr):
        a = self.eval(n.left, fr)
        b = self.eval(n.right, fr)
        if isinstance(n.op, ast.Mod) and isinstance(self.deref(a), str):
            return V(STR, self.eng.fresh('fmt', z3.StringSort()))
        return self.binop(n.op, a, b)

    def e_Compare(self, n, fr):
        left = self.eval(n.left, fr)
        res = []
        for op, r in zip(n.ops, n.comparators):
            right = self.eval(r, fr)
            if not isinstance(op, (ast.Is, ast.IsNot, ast.In, ast.NotIn)):
                l_, r_ = self.deref(left), self.deref(right)
                if isinstance(l_, ObjVal) or isinstance(r_, ObjVal):
                    x = l_.compare(self, op, r_, False) if isinstance(l_, ObjVal) else r_.compare(self, op, l_, True)
                    if isinstance(x, ObjVal):
                        if len(n.ops) > 1:
                            raise Unsupported('chained comparison of arrays')
                        return x
                    res.append(x)
                    left = right
                    continue
            res.append(self.compare(op, left, right))
            left = right
        t = mkand(res)
        return t if isinstance(t, bool) else self.norm(V(BOOL, t))

    def compare(self, op, a, b):
        if isinstance(op, ast.Eq):
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            return mknot(self.eq(a, b))
        if isinstance(op, ast.Is):
            return self.is_(a, b)
        if isinstance(op, ast.IsNot):
            return mknot(self.is_(a, b))
        if isinstance(op, ast.In):
            return self.contains(b, a)
        if isinstance(op, ast.NotIn):
            return mknot(self.contains(b, a))
        h = self.models.get('compare')
        if h:
            r = h(self, op, a, b)
            if r is not NotImplemented:
                return r
        if isinstance(op, ast.Lt):
            return self.lt(a, b)
        if isinstance(op, ast.LtE):
            return self.lt(a, b, False)
        if isinstance(op, ast.Gt):
            return self.lt(b, a)
        if isinstance(op, ast.GtE):
            return self.lt(b, a, False)
        raise Unsupported('comparison')

    def e_IfExp(self, n, fr):
        if self.test(self.eval(n.test, fr)):
            return self.eval(n.body, fr)
        return self.eval(n.orelse, fr)

    def e_Lambda(self, n, fr):
        return FuncVal(fr.mod, n, (fr.func.qual if fr.func else fr.mod.name) + '.<lambda>', None, fr.env)

    def e_NamedExpr(self, n, fr):
        v = self.eval(n.value, fr)
        fr.set(n.target.id, v)
        return v

    def e_JoinedStr(self, n, fr):
        parts = []
        for x in n.values:
            if isinstance(x, ast.Constant):
                parts.append(x.value)
            else:
                v = self.eval(x.value, fr)
                v = self.deref(v)
                if isinstance(v, str):
                    parts.append(v)
                elif isinstance(v, V) and v.ty is STR:
                    parts.append(v)
                elif isinstance(v, int) and not isinstance(v, bool) and not x.format_spec:
                    parts.append(str(v))
                elif isinstance(v, V) and v.ty is INT and not x.format_spec:
                    parts.append(V(STR, z3.If(v.t >= 0, z3.IntToStr(v.t), z3.Concat(z3.StringVal('-'), z3.IntToStr(-v.t)))))
                else:
                    parts.append(V(STR, self.eng.fresh('fmt', z3.StringSort())))
        if all(isinstance(p, str) for p in parts):
            return ''.join(parts)
        ts = [self.lift(p, STR) for p in parts if not (isinstance(p, str) and p == '')]
        return V(STR, z3.Concat(*ts) if len(ts) > 1 else ts[0])

    def e_Starred(self, n, fr):
        raise Unsupported('starred expression')

    def e_Call(self, n, fr):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
            return SuperVal(fr.func.cls, fr.env['self'])
        f = self.eval(n.func, fr)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.deref(self.eval(a.value, fr))
                if isv(v) and v.ty.name == 'List':
                    args.append(Star(v))
                    continue
                k = self.iteration(v)
                if k[0] != 'conc':
                    raise Unsupported('call with a symbolic argument list')
                args += k[1]
            else:
                args.append(self.eval(a, fr))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                v = self.deref(self.eval(k.value, fr))
                if isinstance(v, Conc) and v.kind == 'dict':
                    for kk, vv in self.payload(v):
                        kw[kk] = vv
                    continue
                if isinstance(v, V) and v.ty.name == 'Dict' and '**' not in kw:
                    kw['**'] = v          # a symbolic dictionary: understood by models and by functions that take ** themselves
                    continue
                raise Unsupported('** argument')
            kw[k.arg] = self.eval(k.value, fr)
        fr.callnode = n
        return self.call(f, args, kw)

    def evalslice(self, s, fr):
        if isinstance(s, ast.Slice):
            return Slice(self.eval(s.lower, fr) if s.lower else None, self.eval(s.upper, fr) if s.upper else None,
                         self.eval(s.step, fr) if s.step else None)
        if isinstance(s, ast.Tuple):
            return tuple(self.evalslice(x, fr) for x in s.elts)
        return self.eval(s, fr)

    def e_Slice(self, n, fr):
        return self.evalslice(n, fr)

    def e_Subscript(self, n, fr):
        o = self.eval(n.value, fr)
        return self.getitem(o, self.evalslice(n.slice, fr))

    def getitem(self, o, i):
        if isinstance(self.deref(o), ObjVal):
            return self.deref(o).getitem(self, i)
        o = self.deref(o)
        if isinstance(o, V) and o.ty.name == 'Tup':
            o = self.untup(o)
        i = self.norm(self.deref(i))
        if isinstance(o, tuple):
            if isinstance(i, Slice):
                return o[slice(i.lo, i.hi, i.step)]
            if isinstance(i, int):
                try:
                    return o[i]
                except IndexError:
                    raise PyExc('IndexError')
            return self.sym_index(list(o), i)
        if isinstance(o, Conc):
            p = self.payload(o)
            if o.kind == 'dict':
                for k, v in p:
                    if self.eng.branch(self.eq(k, i)):
                        return v
                raise PyExc('KeyError')
            if isinstance(i, Slice):
                if all(x is None or isinstance(x, int) for x in (i.lo, i.hi, i.step)):
                    return self.newconc('list', p[slice(i.lo, i.hi, i.step)])
                return self.list_slice(o, i)
            if isinstance(i, int):
                try:
                    return p[i]
                except IndexError:
                    raise PyExc('IndexError')
            return self.sym_index(p, i)
        if isinstance(o, V):
            if o.ty.name == 'List':
                if isinstance(i, Slice):
                    return self.list_slice(o, i)
                pos, ln, el, ix = self.list_index(o, i)
                return self.wrapv(o.ty.args[0], self.elem(o, pos))
            if o.ty.name == 'Dict':
                if not self.eng.branch(self.dict_has(o, i).t):
                    raise PyExc('KeyError')
                return self.dict_get(o, i)
            if o.ty.name == 'Ref':
                fn = self.models.get(o.ty.args[0] + '.__getitem__')
                if fn:
                    return fn(self, o, [i], {})
                return self.call(self.getattr(o, '__getitem__'), [i], {})
        if isinstance(o, str) and isinstance(i, int):
            return o[i]
        if isinstance(o, str) and isinstance(i, Slice):
            return o[slice(i.lo, i.hi, i.step)]
        raise Unsupported('subscript of %r' % (o,))

    def sym_index(self, items, i):
        it = self.lift(i, INT)
        n = len(items)
        if not self.eng.branch(z3.And(it >= -n, it < n)):
            raise PyExc('IndexError')
        for k in range(n):
            if self.eng.branch(z3.Or(it == k, it == k - n)):
                return items[k]
        raise PathEnd()

    def list_slice(self, o, i):
        if i.step is not None:
            raise Unsupported('slice step')
        if isinstance(o, Conc):
            if len(self.payload(o)) == 0:
                return self.newconc('list', [])
            o = self.materialize(o, self.ty_of(o))
        ln, el, ix = self.L(o)
        lo, hi = self.slice_bounds(i, ln)
        r = V(o.ty, self.eng.alloc())
        n = z3.If(hi > lo, hi - lo, 0)
        nv = self.eng.fresh('n', z3.IntSort())
        self.eng.st.pc.append(nv == n)
        el3, ix3 = self.list_fresh(o.ty)
        k = z3.Int('i!x')
        x = z3.Const('x!x', o.ty.args[0].sort())
        pc = self.eng.st.pc
        if not o.ty.opt:
            pc.append(qall(k, z3.Implies(z3.And(0 <= k, k < nv), el3[k] == el[k + lo]), [el3[k]]))
        if o.ty.opt:
            mem, mem3 = self.M(o), self.mem_fresh(o.ty)
            pc.append(qall(x, z3.And(ix3[x] == ix[x] - lo, mem3[x] == z3.And(mem[x], ix[x] >= lo, ix[x] < hi)), [ix3[x], mem3[x]]))
            return self.list_put(r, nv, el3, ix3, mem3) or r
        self.list_put(r, nv, el3, ix3)
        return r

    def slice_bounds(self, i, ln):
        def cl(x, d):
            if x is None:
                return d
            t = self.lift(x, INT)
            return z3.simplify(z3.If(t < 0, z3.If(ln + t < 0, 0, ln + t), z3.If(t > ln, ln, t)))
        return cl(i.lo, z3.IntVal(0)), cl(i.hi, ln)

    def setitem(self, o, i, v):
        o = self.deref(o)
        if isinstance(o, ObjVal):
            return o.setitem(self, i, v)
        i = self.norm(self.deref(i)) if not isinstance(i, (tuple, Slice)) else i
        if isinstance(o, Conc):
            p = self.payload(o)
            if o.kind == 'dict':
                p = self.payload(o)
                for j, (k, _) in enumerate(p):
                    if self.eng.branch(self.eq(k, i)):
                        p2 = list(p)
                        p2[j] = (k, v)
                        self.eng.st.conc[o.id] = p2
                        return
                self.eng.st.conc[o.id] = p + [(i, v)]
                return
            if o.kind == 'list':
                if isinstance(i, int):
                    if not -len(p) <= i < len(p):
                        raise PyExc('IndexError')
                    p2 = list(p)
                    p2[i] = v
                    self.eng.st.conc[o.id] = p2
                    return
                if isv(i) and i.ty is INT:
                    n = len(p)
                    if not self.eng.branch(z3.And(i.t >= -n, i.t < n)):
                        raise PyExc('IndexError')
                    for k in range(n):
                        if self.eng.branch(z3.Or(i.t == k, i.t == k - n)):
                            p2 = list(p)
                            p2[k] = v
                            self.eng.st.conc[o.id] = p2
                            return
                    raise PathEnd()
        if isinstance(i, Slice) and i.lo is None and i.hi is None and i.step is None:
            v = self.deref(v)
            if isinstance(o, Conc) and isinstance(v, (Conc, tuple)):
                self.eng.st.conc[o.id] = list(v) if isinstance(v, tuple) else list(self.payload(v))
                return
            if isinstance(o, V) and o.ty.name == 'List':
                if isinstance(v, Conc):
                    items = list(self.payload(v))
                    self.list_clear(o)
                    for x in items:
                        self.list_append(o, x)
                    return
                if isinstance(v, V) and v.ty is o.ty:
                    self.list_put(o, *self.L(v), self.M(v) if o.ty.opt else None)
                    return
            raise Unsupported('slice assignment')
        if isinstance(o, V):
            if o.ty.name == 'Dict':
                return self.dict_set(o, i, v)
            if o.ty.name == 'List' and not isinstance(i, Slice):
                pos, ln, el, ix = self.list_index(o, i)
                t = self.lift(v, o.ty.args[0])
                if o.ty.opt:
                    oldx = self.elem(o, pos)
                    mem = self.M(o)
                    self.eng.prove('list element stays unique (assignment)', z3.Or(z3.Not(mem[t]), t == oldx), 'distinct')
                    self.list_put(r=o, ix=z3.Store(ix, t, pos), mem=z3.Store(z3.Store(mem, oldx, False), t, True))
                else:
                    self.list_put(o, el=z3.Store(el, pos, t))
                return
            if o.ty.name == 'Ref':
                fn = self.models.get(o.ty.args[0] + '.__setitem__')
                if fn:
                    return fn(self, o, [i, v], {})
                self.call(self.getattr(o, '__setitem__'), [i, v], {})
                return
        raise Unsupported('item assignment')

    def delitem(self, o, i):
        o = self.deref(o)
        i = self.norm(self.deref(i)) if not isinstance(i, Slice) else i
        if isinstance(o, V):
            if o.ty.name == 'Dict':
                if not self.eng.branch(self.dict_has(o, i).t):
                    raise PyExc('KeyError')
                return self.dict_del(o, i)
            if o.ty.name == 'List':
                if isinstance(i, Slice):
                    ln, el, ix = self.L(o)
                    lo, hi = self.slice_bounds(i, ln)
                    hi2 = z3.If(hi < lo, lo, hi)
                    h = self.eng.fresh('hi', z3.IntSort())
                    self.eng.st.pc.append(h == hi2)
                    return self.list_cut(o, lo, h)
                pos, ln, el, ix = self.list_index(o, i)
                return self.list_cut(o, pos, pos + 1)
        if isinstance(o, Conc):
            p = list(self.payload(o))
            if o.kind == 'dict':
                for j, (k, _) in enumerate(p):
                    if self.eng.branch(self.eq(k, i)):
                        del p[j]
                        self.eng.st.conc[o.id] = p
                        return
                raise PyExc('KeyError')
            if isinstance(i, int):
                del p[i]
            elif isinstance(i, Slice) and all(x is None or isinstance(x, int) for x in (i.lo, i.hi, i.step)):
                del p[slice(i.lo, i.hi, i.step)]
            else:
                raise Unsupported('del')
            self.eng.st.conc[o.id] = p
            return
        raise Unsupported('del item')

    # comprehensions
    def e_ListComp(self, n, fr):
        return self.comp(n, fr, 'list')

    def e_SetComp(self, n, fr):
        return self.comp(n, fr, 'set')

    def e_GeneratorExp(self, n, fr):
        return self.comp(n, fr, 'list')

    def e_DictComp(self, n, fr):
        return self.comp(n, fr, 'dict')

    def comp(self, n, fr, kind):
        gens = n.generators
        sub = Frame(self, fr.mod, fr.func, dict(fr.env))
        sub.closure = fr.closure
        out = []
        def item():
            if kind == 'dict':
                out.append((self.eval(n.key, sub), self.eval(n.value, sub)))
            else:
                out.append(self.eval(n.elt, sub))
        first = self.iteration(self.eval(gens[0].iter, sub))
        if first[0] != 'conc' and kind == 'list' and len(gens) == 1 and self.eng.bound is None and fr.func is not None:
            cs = [x for x in ast.walk(fr.func.node) if isinstance(x, ast.ListComp)]
            key = (fr.qual, 'comp%d' % cs.index(n)) if n in cs else None
            if key in self.loops:
                return self.comp_loop(n, fr, key)
        if first[0] != 'conc':
            return self.symcomp(n, sub, kind, first)
        def rec(gi, pre=None):
            if gi == len(gens):
                item()
                return
            k = pre or self.iteration(self.eval(gens[gi].iter, sub))
            if k[0] != 'conc':
                raise Unsupported('nested symbolic comprehension')
            for x in k[1]:
                self.assign(gens[gi].target, x, sub)
                if all(self.test(self.eval(c, sub)) for c in gens[gi].ifs):
                    rec(gi + 1)
        rec(0, first)
        if kind == 'dict':
            d = self.newconc('dict', [])
            for k, v in out:
                self.setitem(d, k, v)
            return d
        return self.newconc(kind, out)

    def comp_loop(self, n, fr, key):
        """a list comprehension whose element has effects, as the loop it abbreviates, under a loop specification of its own"""
        g = n.generators[0]
        nm = '__' + key[1]
        body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(nm, ast.Load()), 'append', ast.Load()), [n.elt], []))]
        if g.ifs:
            body = [ast.If(ast.BoolOp(ast.And(), list(g.ifs)) if len(g.ifs) > 1 else g.ifs[0], body, [])]
        memo = self.__dict__.setdefault('comploops', {})
        loop = memo.get(n)
        if loop is None:
            loop = memo[n] = ast.fix_missing_locations(ast.copy_location(ast.For(g.target, g.iter, body, []), n))
        sub = Frame(self, fr.mod, fr.func, dict(fr.env))
        sub.closure = fr.closure
        sub.loopids = dict(sub.loopids)
        sub.loopids[loop] = key[1]
        ety = getattr(self.loops[key], 'elem_type', None)
        lty = getattr(self.loops[key], 'list_type', LIST(ety) if ety is not None else None)
        sub.env[nm] = self.newconc('list', []) if lty is None else self.materialize(self.newconc('list', []), lty)
        self.stmt(loop, sub)
        return sub.env[nm]

    def symcomp(self, n, sub, kind, it):
        e = self.eng
        h = self.models.get('symcomp')
        if h:
            r = h(self, n, sub, kind, it)
            if r is not NotImplemented:
                return r
        g = n.generators
        if (kind == 'list' and len(g) == 1 and it[0] == 'set' and isinstance(it[1], V) and isinstance(g[0].target, ast.Name) and isinstance(n.elt, ast.Name)
                and n.elt.id == g[0].target.id and it[1].ty.name in ('Dict', 'Set')):
            return self.keys_filter(it[1], g[0], sub)
        if e.bound is not None:
            # unrolled
            out = []
            if len(g) != 1 or kind == 'dict' or it[0] != 'sym':
                raise Unsupported('symbolic comprehension')
            k = 0
            while e.branch(z3.IntVal(k) < it[1]()):
                if k >= e.bound:
                    e.cut = True
                    raise PathEnd()
                self.assign(g[0].target, it[2](z3.IntVal(k)), sub)
                if all(self.test(self.eval(c, sub)) for c in g[0].ifs):
                    out.append(self.eval(n.elt, sub))
                k += 1
            return self.newconc(kind, out)
        src = it[3] if len(it) > 3 else None
        if (kind == 'list' and len(g) == 1 and g[0].ifs and src is not None and src.ty.opt and isinstance(g[0].target, ast.Name)
                and isinstance(n.elt, ast.Name) and n.elt.id == g[0].target.id):
            return self.list_filter(src, g[0], sub)
        if kind != 'list' or len(g) != 1 or g[0].ifs or it[0] != 'sym':
            raise Unsupported('symbolic comprehension')
        ln = it[1]()
        # element expression evaluated once for an arbitrary index; fresh empty lists get consecutive references
        i = e.fresh('ci', z3.IntSort())
        if isinstance(n.elt, (ast.List, ast.Dict)) and not getattr(n.elt, 'elts', getattr(n.elt, 'keys', None)):
            base = e.alloc_block(ln)
            return SymFresh(self, 'list' if isinstance(n.elt, ast.List) else 'dict', base, ln)
        if isinstance(n.elt, ast.Constant) and n.elt.value is None:
            return SymNone(self, ln)
        d0, p0, h0 = len(e.taken), len(e.st.pc), dict(e.st.heap)
        e.temp += 1
        e.st.pc.append(z3.And(0 <= i, i < ln))
        self.assign(g[0].target, it[2](i), sub)
        v = self.deref(self.eval(n.elt, sub))
        if len(e.taken) != d0 or any(e.st.heap.get(k) is not a for k, a in h0.items()):
            raise Unsupported('comprehension element with branches or effects')
        ty = self.ty_of(v)
        t = self.lift(v, ty)
        facts = e.st.pc[p0 + 1:]
        del e.st.pc[p0:], e.pcidx[p0:]
        e.temp -= 1
        r = V(LIST(ty), e.alloc())
        el = e.fresh('el', z3.ArraySort(z3.IntSort(), ty.sort()))
        j = z3.Int('j!c')
        e.st.pc.append(qall(j, z3.Implies(z3.And(0 <= j, j < ln), z3.substitute(z3.And(el[i] == t, *facts), (i, j))), [el[j]]))
        self.list_put(r, ln, el)
        return r


    def keys_filter(self, src, g, sub):
        """[k for k in src if cond(k)] of the keys of a map or the elements of a set, in some order"""
        e = self.eng
        kt = src.ty.args[0]
        ty = DLIST(kt)
        dom = self.D(src)[0]
        p = e.fresh('flt', kt.sort())
        d0, p0, h0 = len(e.taken), len(e.st.pc), dict(e.st.heap)
        e.temp += 1
        e.st.pc.append(dom[p])
        self.assign(g.target, self.wrapv(kt, p), sub)
        conds = []
        for c in g.ifs:
            t = self.truth(self.eval(c, sub))
            conds.append(t if not isinstance(t, bool) else z3.BoolVal(t))
        if len(e.taken) != d0 or any(e.st.heap.get(k) is not a for k, a in h0.items()):
            raise Unsupported('comprehension condition with branches or effects')
        del e.st.pc[p0:], e.pcidx[p0:]
        e.temp -= 1
        cond = z3.And(*conds)
        r = V(ty, e.alloc())
        el, ix = self.list_fresh(ty)
        n, mem = e.fresh('n', z3.IntSort()), self.mem_fresh(ty)
        x = z3.Const('x!f', kt.sort())
        e.assume(n >= 0)
        e.assume(qall(x, mem[x] == z3.And(dom[x], z3.substitute(cond, (p, x))), [mem[x]]))
        e.assume(qall(x, mem[x] == z3.And(dom[x], z3.substitute(cond, (p, x))), [dom[x]]) if z3.is_app(dom) and dom.num_args() == 0 else z3.BoolVal(True))
        self.list_put(r, n, el, ix, mem)
        return r

    def list_filter(self, src, g, sub):
        """[x for x in src if cond(x)] of a duplicate-free list"""
        e = self.eng
        ty = src.ty
        ln, el, ix = self.L(src)
        p = e.fresh('flt', ty.args[0].sort())
        d0, p0, h0 = len(e.taken), len(e.st.pc), dict(e.st.heap)
        mem = self.M(src)
        e.temp += 1
        e.st.pc.append(mem[p])
        self.assign(g.target, self.wrapv(ty.args[0], p), sub)
        conds = []
        for c in g.ifs:
            t = self.truth(self.eval(c, sub))
            conds.append(t if not isinstance(t, bool) else z3.BoolVal(t))
        if len(e.taken) != d0 or any(e.st.heap.get(k) is not a for k, a in h0.items()):
            raise Unsupported('comprehension condition with branches or effects')
        del e.st.pc[p0:], e.pcidx[p0:]
        e.temp -= 1
        cond = z3.And(*conds)
        C = lambda x: z3.substitute(cond, (p, x))
        r = V(ty, e.alloc())
        el3, ix3 = self.list_fresh(ty)
        n3 = e.fresh('n', z3.IntSort())
        x, y = z3.Const('x!f', ty.args[0].sort()), z3.Const('y!f', ty.args[0].sort())
        pc = e.st.pc
        pc.append(z3.And(n3 >= 0, n3 <= ln))
        mem3 = self.mem_fresh(ty)
        b = mem3[x] == z3.And(mem[x], C(x))
        pc.append(qall(x, b, [mem3[x], mem[x]] if not z3.is_K(mem) else [mem3[x]]))
        pc.append(qall([x, y], z3.Implies(z3.And(mem3[x], mem3[y]), (ix3[x] < ix3[y]) == (ix[x] < ix[y])),
                       [z3.MultiPattern(ix3[x], ix3[y])]))
        # lengths of complementary filters of one list add up
        reg = e.st.ghost.get('__filters', ())
        for (ix_, p_, cond_, n_) in reg:
            if z3.eq(ix_, ix):
                s = z3.Solver()
                s.set('timeout', 500)
                s.add(z3.substitute(cond_, (p_, p)) == cond)
                if s.check() == z3.unsat:
                    pc.append(n_ + n3 == ln)
        e.st.ghost['__filters'] = reg + ((ix, p, cond, n3),)
        self.list_put(r, n3, el3, ix3, mem3)
        return r


class SymFresh:
    """[ [] for _ in range(n) ]: typed on first use"""
    def __init__(self, I, kind, base, ln):
        self.kind, self.base, self.ln = kind, base, ln

class SymNone:
    def __init__(self, I, ln):
        self.ln = ln


class Star:
    def __init__(self, v):
        self.v = v


class SuperVal:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class ExcVal:
    def __init__(self, name, args):
        self.name, self.args = name, args


class LoopCtx(Ctx):
    def __init__(self, I, fr, entry_heap, entry_env, entry_ghost):
        super().__init__(I, I.eng.st.heap, I.entry_heap, I.entry_args, ghost=I.eng.st.ghost)
        self.top0 = I.eng.alloc_top()
        self.fr, self.h0, self.env0, self.g0 = fr, entry_heap, entry_env, entry_ghost
        self.i = self.seen = self.dom = self.length = self.it = None
        self.havocked = False
        self.heap_ = None

    @property
    def heap(self):
        return self.I.eng.st.heap

    @heap.setter
    def heap(self, v):
        pass

    def loc(self, name):
        v = self.fr.env[name]
        return self.v(v)

    def loc0(self, name):
        v = self.env0[name]
        v = self.I.deref(v)
        if isinstance(v, V):
            if v.ty.isref:
                return View(self.I, self.h0, v)
            return v.t
        return v

    def at0(self, view):
        """the same reference, viewed in the heap at loop entry"""
        return View(self.I, self.h0, view._v)

    def now(self, view):
        return View(self.I, self.I.eng.st.heap, view._v)


def symno(c):
    p = c.rsplit('!', 1)
    return int(p[1]) if len(p) == 2 and p[1].isdigit() else -1


def loopfree(ref, nbn):
    """the reference term uses only symbols that exist before the loop: it names one fixed cell"""
    return all(symno(c) < nbn for c in consts(ref))


def loopfresh(ref, nbn):
    """the reference was allocated inside the loop"""
    cs = consts(ref)
    return bool(cs) and all(c.startswith('alloc') and symno(c) >= nbn for c in cs)


class Frame:
    def __init__(self, I, mod, func, env):
        self.I, self.mod, self.func, self.env = I, mod, func, env
        self.closure = None
        self.globals_ = set()
        self.handling = None
        self.qual = func.qual if func is not None else mod.name
        self.loopids = loops_of(func.node) if func is not None else {}

    def get(self, name):
        if name not in self.globals_:
            v = self.env.get(name, UNDEF)
            if v is not UNDEF:
                return v
            if name in self.env:
                raise Unsupported('local %s is not tracked through a loop' % name)
            if self.closure is not None and name in self.closure:
                return self.closure[name]
        return self.I.modattr(self.mod, name)

    def set(self, name, v):
        if name in self.globals_:
            g = dict(self.I.eng.st.ghost)
            g[('glob', self.mod.name, name)] = v
            self.I.eng.st.ghost = g
        else:
            self.env[name] = v


def mkand(cs):
    out = []
    for c in cs:
        if isinstance(c, bool):
            if not c:
                return False
        else:
            out.append(c)
    if not out:
        return True
    return z3.And(*out) if len(out) > 1 else out[0]


def mkor(cs):
    out = []
    for c in cs:
        if isinstance(c, bool):
            if c:
                return True
        else:
            out.append(c)
    if not out:
        return False
    return z3.Or(*out) if len(out) > 1 else out[0]


def mknot(c):
    return (not c) if isinstance(c, bool) else z3.Not(c)


def toreal(ty, t):
    return z3.ToReal(t) if ty is INT else t


def pyfloordiv(a, b):
    if z3.is_int_value(b) and b.as_long() > 0:
        return a / b
    return z3.If(b > 0, a / b, (-a) / (-b))


def pymod(a, b):
    if z3.is_int_value(b) and b.as_long() > 0:
        return a % b
    return z3.If(b > 0, a % b, -((-a) % (-b)))


def pyop(op, a, b):
    import operator as o
    return {ast.Add: o.add, ast.Sub: o.sub, ast.Mult: o.mul, ast.Div: o.truediv, ast.FloorDiv: o.floordiv,
            ast.Mod: o.mod, ast.Pow: o.pow, ast.BitAnd: o.and_, ast.BitOr: o.or_, ast.LShift: o.lshift,
            ast.RShift: o.rshift, ast.BitXor: o.xor}[type(op)](a, b)


EXC_NAMES = {'Exception', 'ValueError', 'KeyError', 'RuntimeError', 'IndexError', 'TypeError', 'AttributeError',
             'NotImplementedError', 'StopIteration', 'FileNotFoundError', 'OSError', 'AssertionError', 'ZeroDivisionError'}
BUILTINS = {}
METHODS = {}

from . import pybuiltins  # noqa: E402,F401
