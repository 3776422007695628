"""Interpreter for the translated C++ functions: pyfront's, plus what C++ adds.

Safety obligations are generated for every null dereference, use of an end or erased iterator, and out-of-range array access.
"""
import ast
import z3
from .core import *
from .pyfront import *
from . import pyfront
from .pybuiltins import METHODS
from .cxx import TYPES, Tr, LazyDef, kids, ty_of_ct, ctype
from .verify import PyUnit

POINT = {INT: TUP(INT, INT, INT), REAL: TUP(REAL, REAL, REAL)}
DATA = {'D': INT, 'C': REAL}
AXES = ('x', 'y', 'z')
SP = {}


def sp(name):
    def d(f):
        SP['@' + name] = f
        return f
    return d


def as_ref(I, v, what='pointer'):
    v = I.deref(v)
    if isinstance(v, V) and v.ty.isref:
        return v
    raise Unsupported('%s expected, got %r' % (what, v))


class Data(ObjVal):
    """the coordinates of a point object (three longs or doubles of its own)"""
    pyname = 'coordinate data'

    def __init__(self, pt):
        self.pt = pt

    def _f(self, I, i):
        i = I.norm(i) if isv(i) else i
        if not isinstance(i, int) or not 0 <= i < 3:
            raise Unsupported('coordinate index %r' % (i,))
        return AXES[i]

    def getitem(self, I, i):
        return I.getattr(self.pt, self._f(I, i))

    def setitem(self, I, i, v):
        I.setattr(self.pt, self._f(I, i), v)


class MapIter(ObjVal):
    pyname = 'map iterator'

    def __init__(self, m, kt, found):
        self.m, self.kt, self.found = m, kt, found
        self.adv = 0

    def compare(self, I, op, other, swapped):
        if isinstance(other, MapEnd) or isinstance(other, MapIter):
            if isinstance(other, MapIter):
                r = mkand([mknot(mkor([mknot(self.found), mknot(other.found)])), self.kt == other.kt])
            else:
                r = mknot(self.found)
            return r if isinstance(op, ast.Eq) else mknot(r)
        raise Unsupported('iterator comparison')

    def getattr(self, I, name):
        I.eng.prove('the map iterator is valid', mkand([self.found, I.dict_has(self.m, V(self.m.ty.args[0], self.kt)).t]), 'safety')
        if name == 'first':
            return V(self.m.ty.args[0], self.kt)
        if name == 'second':
            return I.dict_get(self.m, V(self.m.ty.args[0], self.kt))
        raise Unsupported('iterator.' + name)

    def setattr(self, I, name, v):
        if name != 'second':
            raise Unsupported('iterator.' + name)
        I.eng.prove('the map iterator is valid', mkand([self.found, I.dict_has(self.m, V(self.m.ty.args[0], self.kt)).t]), 'safety')
        I.dict_set(self.m, V(self.m.ty.args[0], self.kt), v)


class MapEnd(ObjVal):
    pyname = 'map end'

    def __init__(self, m):
        self.m = m

    def compare(self, I, op, other, swapped):
        if isinstance(other, MapEnd):
            return isinstance(op, ast.Eq)
        return other.compare(I, op, self, not swapped)


class ListIter(ObjVal):
    """position of an element found in a list, or the beginning/end"""
    pyname = 'list iterator'

    def __init__(self, l, x=None, found=None, at=None):
        self.l, self.x, self.found, self.at = l, x, found, at

    def compare(self, I, op, other, swapped):
        a, b = (self, other) if self.at is None else (other, self)
        if not isinstance(other, ListIter):
            raise Unsupported('iterator comparison')
        if a.at is None and b.at == 'end':
            r = mknot(a.found)
            return r if isinstance(op, ast.Eq) else mknot(r)
        if {a.at, b.at} == {'begin', 'end'}:
            r = I.L(self.l)[0] == 0
            return r if isinstance(op, ast.Eq) else mknot(r)
        raise Unsupported('iterator comparison')


class Pair(ObjVal):
    pyname = 'pair'

    def __init__(self, a, b):
        self.a, self.b = a, b

    def getattr(self, I, name):
        if name in ('first', 'second'):
            return self.a if name == 'first' else self.b
        raise Unsupported('pair.' + name)


class Items(ObjVal):
    pyname = 'map items'

    def __init__(self, m):
        self.m = m

    def iteration(self, I):
        return ('set', self.m, lambda kv: Pair(kv[0], kv[1]))


class NewObj(ObjVal):
    pyname = 'new Python object'


class NoMerge(Exception):
    pass


class CInterp(Interp):
    def __init__(self, eng, repo, schema, contracts=None, loops=None, models=None, top=None, inline=()):
        Interp.__init__(self, eng, repo, schema, contracts, loops, models, top, inline)
        self.nonnull = set()

    # ---- integer conditionals without side effects are values, not paths
    def pe(self, n, fr, upd):
        """-> z3 term of an integer or boolean expression without calls"""
        P = lambda x: self.pe(x, fr, upd)
        if isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                return z3.BoolVal(n.value)
            if isinstance(n.value, int):
                return z3.IntVal(n.value)
            raise NoMerge
        key = self.pkey(n, fr)
        if key is not None:
            if key in upd:
                return upd[key][1]
            v = fr.env.get(n.id) if isinstance(n, ast.Name) else self.payload(self.deref(fr.env[n.value.id]))[n.slice.value]
            return self.pterm(v)
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name):
            o = self.deref(fr.env.get(n.value.id))
            if isinstance(o, V) and o.ty.name == 'Ref' and any(isv(a) and a.t.eq(o.t) for a in self.entry_args.values()):
                return self.pterm(self.getattr(o, n.attr))
            raise NoMerge
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub, ast.Mult)):
            a, b = P(n.left), P(n.right)
            if not (z3.is_int(a) and z3.is_int(b)):
                raise NoMerge
            return a + b if isinstance(n.op, ast.Add) else a - b if isinstance(n.op, ast.Sub) else a * b
        if isinstance(n, ast.UnaryOp):
            a = P(n.operand)
            if isinstance(n.op, ast.USub) and z3.is_int(a):
                return -a
            if isinstance(n.op, ast.Not):
                return z3.Not(self.pbool(a))
            raise NoMerge
        if isinstance(n, ast.BoolOp):
            f = z3.And if isinstance(n.op, ast.And) else z3.Or
            return f(*[self.pbool(P(x)) for x in n.values])
        if isinstance(n, ast.Compare):
            out, l = [], P(n.left)
            for op, r in zip(n.ops, n.comparators):
                r = P(r)
                if not (z3.is_int(l) and z3.is_int(r)):
                    raise NoMerge
                k = type(op).__name__
                if k not in ('Lt', 'LtE', 'Gt', 'GtE', 'Eq', 'NotEq'):
                    raise NoMerge
                out.append({'Lt': l < r, 'LtE': l <= r, 'Gt': l > r, 'GtE': l >= r, 'Eq': l == r, 'NotEq': l != r}[k])
                l = r
            return out[0] if len(out) == 1 else z3.And(*out)
        if isinstance(n, ast.IfExp):
            t, a, b = self.pbool(P(n.test)), P(n.body), P(n.orelse)
            if a.sort() != b.sort():
                raise NoMerge
            return z3.If(t, a, b)
        raise NoMerge

    def pbool(self, t):
        return t if z3.is_bool(t) else t != 0

    def pterm(self, v):
        v = self.deref(v)
        if isinstance(v, bool):
            return z3.BoolVal(v)
        if isinstance(v, int):
            return z3.IntVal(v)
        if isinstance(v, V) and v.ty in (INT, BOOL):
            return v.t
        raise NoMerge

    def pkey(self, n, fr):
        if isinstance(n, ast.Name) and n.id in fr.env:
            return ('n', n.id)
        if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, int):
            o = self.deref(fr.env.get(n.value.id))
            if isinstance(o, Conc) and o.kind == 'list' and 0 <= n.slice.value < len(self.payload(o)):
                return ('c', o.id, n.slice.value)
        return None

    def pblock(self, body, fr, upd):
        for s in body:
            if isinstance(s, ast.Pass):
                continue
            if isinstance(s, ast.If):
                t = self.pbool(self.pe(s.test, fr, upd))
                a, b = dict(upd), dict(upd)
                self.pblock(s.body, fr, a)
                self.pblock(s.orelse, fr, b)
                for k in set(a) | set(b):
                    x, y = a.get(k), b.get(k)
                    n = (x or y)[0]
                    x = x[1] if x else self.pe(n, fr, upd)
                    y = y[1] if y else self.pe(n, fr, upd)
                    if x.sort() != y.sort():
                        raise NoMerge
                    upd[k] = (n, x if x.eq(y) else z3.If(t, x, y))
                continue
            if isinstance(s, ast.Assign) and len(s.targets) == 1:
                tgt, val = s.targets[0], self.pe(s.value, fr, upd)
            elif isinstance(s, ast.AugAssign) and isinstance(s.op, (ast.Add, ast.Sub)):
                ld = ast.parse(ast.unparse(s.target), mode='eval').body
                a, b = self.pe(ld, fr, upd), self.pe(s.value, fr, upd)
                tgt, val = s.target, a + b if isinstance(s.op, ast.Add) else a - b
            else:
                raise NoMerge
            k = self.pkey(tgt, fr)
            if k is None or (k not in upd and self.pe(ast.parse(ast.unparse(tgt), mode='eval').body, fr, upd).sort() != val.sort()):
                raise NoMerge
            upd[k] = (ast.parse(ast.unparse(tgt), mode='eval').body, val)

    def s_If(self, s, fr):
        upd = {}
        try:
            self.pblock([s], fr, upd)
        except NoMerge:
            return Interp.s_If(self, s, fr)
        for k, (n, t) in upd.items():
            v = self.norm(V(BOOL if z3.is_bool(t) else INT, z3.simplify(t)))
            if k[0] == 'n':
                fr.set(k[1], v)
            else:
                self.setitem(fr.env[n.value.id], k[2], v)

    def e_IfExp(self, n, fr):
        try:
            t = self.pe(n, fr, {})
        except NoMerge:
            return Interp.e_IfExp(self, n, fr)
        return self.norm(V(BOOL if z3.is_bool(t) else INT, z3.simplify(t)))

    # ---- calls of the translator's own operations
    def e_Call(self, n, fr):
        if isinstance(n.func, ast.Name) and n.func.id.startswith('@'):
            f = self.models.get(n.func.id) or SP.get(n.func.id)
            if n.func.id == '@unsupported':
                raise Unsupported(n.args[0].value)
            if f is None:
                raise Unsupported('external function ' + n.func.id[1:])
            if n.func.id not in INTERNAL:
                self.used_models.add(n.func.id[1:])
            return f(self, *[self.eval(a, fr) for a in n.args])
        return Interp.e_Call(self, n, fr)

    def e_Name(self, n, fr):
        if n.id.startswith('@'):
            return Ext(n.id)
        return Interp.e_Name(self, n, fr)

    def check_nonnull(self, obj):
        t = z3.simplify(obj.t)
        key = (t.get_id(), self.eng.paths)
        if key in self.nonnull or any(t.eq(a.t) for a in self.entry_args.values() if isv(a) and a.ty.isref and not getattr(a, 'opt', False)):
            return
        self.nonnull.add(key)
        self.keep = getattr(self, 'keep', [])
        self.keep.append(t)
        if str(t).startswith('alloc') and z3.is_app(t) and z3.is_add(t):
            return
        self.eng.prove('no null dereference (%s)' % obj.ty.args[0], t != 0, 'safety', where=getattr(self.eng, 'cur', None))

    def getattr(self, obj, name):
        obj = self.deref(obj)
        if isinstance(obj, V) and obj.ty.name == 'Tup':
            ix = {'x': 0, 'y': 1, 'z': 2, 'id': 0, 'type': 1, 'rank': 2, 'first': 0, 'second': 1}.get(name)
            if ix is None or (obj.ty.args[0] is REAL and name in ('id', 'type', 'rank')):
                raise Unsupported('attribute %s of a key' % name)
            return self.norm(self.untup(obj)[ix])
        if isinstance(obj, V) and obj.ty.name == 'Ref':
            cls = obj.ty.args[0]
            if cls in DATA and name == 'coords':
                self.check_nonnull(obj)
                return Data(obj)
            k, ft = self.field(cls, name)
            if ft is not None:
                self.check_nonnull(obj)
                v = self.getfield(obj, cls, name)
                emb = self.repo.embedded.get(tuple(k.split('.')))
                cont = ft.name in ('Dict', 'Set', 'List')
                if (emb or cont) and not (z3.is_int_value(v.t) if isv(v) else True):
                    fact = ('emb', k, obj.t.get_id(), v.t.get_id())
                    if fact not in self.eng.st.ghost.get('__emb', frozenset()):
                        self.eng.st.ghost['__emb'] = self.eng.st.ghost.get('__emb', frozenset()) | {fact}
                        self.eng.st.ghost['__embk'] = self.eng.st.ghost.get('__embk', ()) + (v.t, obj.t)
                        own, slot = z3.Function('emb_owner', z3.IntSort(), z3.IntSort()), z3.Function('emb_slot', z3.IntSort(), z3.IntSort())
                        if emb or (ft.name in ('Dict', 'Set')):
                            self.eng.st.pc += [v.t > 0, own(v.t) == obj.t, slot(v.t) == slot_no(k)]
                            self.nonnull.add((z3.simplify(v.t).get_id(), self.eng.paths))
                return v
            h = self.models.get('virtual:' + cls + '.' + name)
            if h:
                self.check_nonnull(obj)
                return BoundModel(obj, h, cls + '.' + name)
            c = self.repo.cls(cls)
            if c is not None:
                m, owner = self.repo.lookup(c, name)
                if isinstance(m, FuncVal):
                    self.check_nonnull(obj)
                    return m if m.kind == 'static' else BoundMethod(obj, m)
            h = self.models.get(cls + '.' + name)
            if h:
                self.check_nonnull(obj)
                return BoundModel(obj, h, cls + '.' + name)
            raise Unsupported('member %s of %s' % (name, cls))
        return Interp.getattr(self, obj, name)

    def setattr(self, obj, name, v):
        obj = self.deref(obj)
        if isinstance(obj, V) and obj.ty.name == 'Ref':
            self.check_nonnull(obj)
            return self.setfield(obj, name, v)
        return Interp.setattr(self, obj, name, v)

    def lift(self, v, ty):
        v = self.deref(v)
        if isinstance(v, V) and v.ty.name == 'Tup' and ty.name == 'Ref':
            return self.struct_of(v).t
        if isinstance(v, FuncVal) and ty.isref and v.node.name in fnptrs(self.repo):
            return fnid(self.repo, v.node.name)
        if isinstance(v, V) and v.ty.name == 'Ref' and ty.name == 'Tup':
            return self.key(v, ty)
        return Interp.lift(self, v, ty)

    def struct_of(self, tup):
        cls = 'Point<D>' if tup.ty.args[0] is INT else 'Point<C>'
        o = V(REF(cls), self.eng.alloc())
        for n, x in zip(AXES, self.untup(tup)):
            self.setfield(o, n, x)
        return o

    def key(self, v, ty):
        """a pointer or struct used as a key of a map: the map's comparator looks only at these members"""
        if v.ty.name == 'Tup':
            return v.t
        names = ('id', 'type', 'rank') if v.ty.args[0] == 'AgentID' else AXES
        return ty.sort().mk(*[self.lift(self.getattr(v, n), t) for n, t in zip(names, ty.args)])

    def bind(self, f, args, kw):
        env = Interp.bind(self, f, args, kw)
        # a key of a map handed over as a struct
        for k, v in env.items():
            if isinstance(v, V) and v.ty.name == 'Tup':
                env[k] = self.struct_of(v)
        return env

    def maykey(self, m, k):
        kt = m.ty.args[0]
        k = self.deref(k)
        if isinstance(k, V) and k.ty.name == 'Ref' and kt.name == 'Tup':
            return V(kt, z3.simplify(self.key(k, kt)))
        return V(kt, self.lift(k, kt))

    def copy_struct(self, v, into=None):
        if isinstance(v, V) and v.ty.name == 'Tup':
            o = self.struct_of(v)
            if into is None:
                return o
            v = o
        v = as_ref(self, v, 'struct')
        cls = v.ty.args[0]
        o = into if into is not None else V(REF(cls), self.eng.alloc())
        c, seen = cls, set()
        while c and c not in seen:
            seen.add(c)
            for n, ft in self.schema.get(c, {}).items():
                if n.startswith('__'):
                    continue
                x = self.getattr(v, n)
                if (c, n) in self.repo.embedded:
                    if into is not None:
                        self.copy_struct(x, self.getattr(o, n))
                        continue
                    x = self.copy_struct(x)
                elif ft.name in ('Dict', 'Set', 'List'):
                    raise Unsupported('copy of a struct with a container')
                self.setfield(o, n, x)
            k = self.repo.cls(c)
            c = k.bases[0].id if k and k.bases else None
        return o

    def rangecheck(self, o, i):
        o = self.deref(o)
        if isv(o) and o.ty.name == 'List':
            ln = self.L(o)[0]
            t = self.lift(i, INT)
            self.eng.prove('array index in range', z3.And(0 <= t, t < ln), 'safety', where=getattr(self.eng, 'cur', None))

    def getitem(self, o, i):
        o = self.deref(o)
        if isv(o) and o.ty.name == 'List':
            self.rangecheck(o, i)
            return self.wrapv(o.ty.args[0], self.elem(o, self.lift(i, INT)))
        return Interp.getitem(self, o, i)

    def setitem(self, o, i, v):
        self.rangecheck(o, i)
        return Interp.setitem(self, o, i, v)

    def eq(self, a, b):
        a, b = self.deref(a), self.deref(b)
        if isinstance(a, (MapIter, MapEnd, ListIter)):
            return a.compare(self, ast.Eq(), b, False)
        if (a is None) != (b is None):
            o = b if a is None else a
            if isinstance(o, V) and o.ty.isref:
                return o.t == 0
        return Interp.eq(self, a, b)


SLOTS = {}


def slot_no(k):
    return SLOTS.setdefault(k, len(SLOTS) + 1)


# --------------------------------------------------------------------------- scalars

@sp('toreal')
def _(I, x):
    x = I.deref(x)
    if isv(x):
        return V(REAL, z3.ToReal(x.t)) if x.ty is INT else V(REAL, I.lift(x, REAL))
    return float(x)


@sp('trunc')
def _(I, x):
    t = I.lift(x, REAL)
    t = z3.simplify(t)
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_TO_REAL:
        return I.norm(V(INT, t.arg(0)))
    return I.norm(V(INT, z3.simplify(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t)))))


@sp('bool')
def _(I, x):
    x = I.deref(x)
    if x is None:
        return False
    if isinstance(x, (bool, int, float)):
        return bool(x)
    if isv(x):
        if x.ty is BOOL:
            return x
        if x.ty.isref or x.ty is INT:
            return I.norm(V(BOOL, z3.simplify(x.t != 0)))
    raise Unsupported('truth of %r' % (x,))


@sp('cast')
def _(I, x, cls):
    x = I.deref(x)
    if x is None:
        return None
    if isinstance(x, NewObj):
        o = V(REF(cls), I.eng.alloc())
        if cls in DATA:
            for a in AXES:
                I.setfield(o, a, V(DATA[cls], I.eng.fresh('newc', DATA[cls].sort())))
        return o
    if isv(x) and x.ty.isref:
        return V(REF(cls), x.t)
    return x


@sp('float')
def _(I, s):
    return float(s)


@sp('PyArray_DATA')
def _(I, x):
    return x


@sp('deref')
def _(I, x):
    x = I.deref(x)
    if isv(x) and x.ty.name == 'Ref':
        I.check_nonnull(x)
        return x
    if isv(x) and x.ty.isref:
        return x
    raise Unsupported('dereference of %r' % (x,))


@sp('cell')
def _(I, v, ty):
    return I.newconc('list', [v])


@sp('undef')
def _(I, ty):
    ty = TYPES[ty]
    return I.eng.freshv('undef', ty) if not ty.isref else V(ty, I.eng.fresh('undef', z3.IntSort()))


@sp('newarr')
def _(I, n, ty):
    r = V(LIST(INT if ty == 'INT' else REAL), I.eng.alloc())
    t = I.lift(n, INT)
    el, ix = I.list_fresh(r.ty)
    I.list_put(r, t, el, ix)
    return r


@sp('agg')
def _(I, cls, *vals):
    o = V(REF(cls), I.eng.alloc())
    names = [n for n in I.schema[cls] if not n.startswith('__')]
    for i, n in enumerate(names):
        ft = I.schema[cls][n]
        if i < len(vals):
            I.setfield(o, n, vals[i])
        elif not ft.isref:
            I.setfield(o, n, V(ft, I.eng.fresh('undef', ft.sort())))
        elif (cls, n) in I.repo.embedded:
            I.setfield(o, n, SP['@agg'](I, I.repo.embedded[(cls, n)]))
        elif ft.name in ('Dict', 'Set', 'List'):
            I.setfield(o, n, SP['@new'](I, ty=ft))
        else:
            I.setfield(o, n, None)
    return o


@sp('copy')
def _(I, x):
    return I.copy_struct(I.deref(x))


@sp('assign')
def _(I, a, b):
    I.copy_struct(I.deref(b), as_ref(I, a, 'struct'))


@sp('construct')
def _(I, cls, key, *args):
    m = I.models.get('new:' + cls)
    if m:
        I.used_models.add('new:' + cls)
        return m(I, list(args), {})
    o = V(REF(cls), I.eng.alloc())
    c = I.repo.cls(cls)
    I.call_func(c.members[key], [o] + list(args), {})
    return o


@sp('make')
def _(I, cls, *args):
    c = I.repo.cls(cls)
    cand = [f for k, f in c.members.items() if (k == '__init__' or k.startswith('__init__(')) and len(f.node.args.args) == len(args) + 1]
    if len(cand) == 1:
        o = V(REF(cls), I.eng.alloc())
        I.call_func(cand[0], [o] + list(args), {})
        return o
    if args or cand:
        raise Unsupported('constructor of ' + cls)
    o = V(REF(cls), I.eng.alloc())
    for n, ft in I.schema[cls].items():
        if ft.isref and (cls, n) in I.repo.embedded:
            I.setfield(o, n, SP['@agg'](I, I.repo.embedded[(cls, n)]))
        elif ft.name in ('Dict', 'Set', 'List'):
            I.setfield(o, n, SP['@new'](I, ty=ft))
        else:
            I.setfield(o, n, {'Int': 0, 'Real': 0.0, 'Bool': False}.get(ft.name))
    return o


@sp('new')
def _(I, s=None, ty=None):
    ty = ty or TYPES[s]
    r = V(ty, I.eng.alloc())
    I.list_init(r) if ty.name == 'List' else I.dict_init(r)
    return r


@sp('newfrom')
def _(I, s, src):
    ty = TYPES[s]
    src = I.deref(src)
    if isinstance(src, Conc) and ty.name in ('List', 'Set'):
        r = SP['@new'](I, ty=ty)
        for x in list(I.payload(src)):
            I.list_append(r, x) if ty.name == 'List' else I.set_add(r, x)
        return r
    raise Unsupported('container constructor')


@sp('pair')
def _(I, a=None, b=None):
    return Pair(a, b) if b is not None else a


@sp('static')
def _(I, name, did):
    nm_, node = I.repo.svars[did]
    h = I.models.get('static:' + name)
    if h:
        return h(I)
    t = ctype(node)
    ini = kids(node)
    ty = ty_of_ct(t)
    cur = I.eng.st.ghost.get(('static', name))
    if not ini:
        # the initialiser sits on another declaration of the same variable
        for i2, (n2, nd2) in I.repo.svars.items():
            if n2 == name and kids(nd2):
                ini = kids(nd2)
    q = (node.get('type') or {}).get('qualType', '')
    if ty.isref:
        o = V(ty, z3.Int('static_' + safe(name)))
        I.eng.st.pc += [o.t > 0, o.t <= z3.Int('alloc0')]
        return o
    if ini and ('const ' in q or node.get('constexpr')):
        tr = Tr(I.repo, None, node)
        e = ast.fix_missing_locations(ast.Expression(tr.E(ini[0]))).body
        return I.eval(e, Frame(I, I.repo.m, None, {}))
    return V(ty, z3.Const('static_' + safe(name), ty.sort()))


@sp('enum')
def _(I, name):
    return V(INT, z3.Int('enum_' + name))


@sp('exc')
def _(I, t):
    return ExcVal(t, [])


def tdiv(a, b):
    q = z3.If(a >= 0, a, -a) / z3.If(b >= 0, b, -b)
    return z3.If((a >= 0) == (b >= 0), q, -q)


@sp('idiv')
def _(I, a, b):
    if isinstance(a, int) and isinstance(b, int) and b:
        return int(abs(a) // abs(b)) * (1 if (a >= 0) == (b >= 0) else -1)
    a, b = I.lift(a, INT), I.lift(b, INT)
    I.eng.prove('no division by zero', b != 0, 'safety')
    if z3.is_int_value(b) and b.as_long() > 0:
        return I.norm(V(INT, z3.simplify(z3.If(a >= 0, a / b, -((-a) / b)))))
    q, r = divmod_c(I, a, b)
    return V(INT, q)


def divmod_c(I, a, b):
    """truncating division: a = b*q + r, |r| < |b|, r has the sign of a"""
    tab = I.eng.st.ghost.get('__div', {})
    k = (a.get_id(), b.get_id())
    if k in tab:
        return tab[k][2], tab[k][3]
    q, r = I.eng.fresh('quo', z3.IntSort()), I.eng.fresh('rem', z3.IntSort())
    ab = z3.If(b >= 0, b, -b)
    I.eng.st.pc.append(z3.Implies(b != 0, z3.And(a == b * q + r, r < ab, -r < ab, z3.Implies(a >= 0, r >= 0), z3.Implies(a <= 0, r <= 0))))
    tab = dict(tab)
    tab[k] = (a, b, q, r)
    I.eng.st.ghost['__div'] = tab
    return q, r


@sp('imod')
def _(I, a, b):
    if isinstance(a, int) and isinstance(b, int) and b:
        return int(abs(a) % abs(b)) * (1 if a >= 0 else -1)
    a, b = I.lift(a, INT), I.lift(b, INT)
    I.eng.prove('no division by zero', b != 0, 'safety')
    q, r = divmod_c(I, a, b)
    return V(INT, r)


@sp('min')
def _(I, a, b):
    return pick(I, I.lt(b, a), b, a)


@sp('max')
def _(I, a=None, b=None):
    if a is None:
        # std::numeric_limits<...>::max(): some number
        return V(INT, I.eng.fresh('limit', z3.IntSort()))
    return pick(I, I.lt(a, b), b, a)


def pick(I, c, a, b):
    if isinstance(c, bool):
        return a if c else b
    ty = REAL if REAL in (I.ty_of(a), I.ty_of(b)) else INT
    return I.norm(V(ty, z3.simplify(z3.If(c, I.lift(a, ty), I.lift(b, ty)))))


def unreal(t):
    """the integer a real term is, or None"""
    t = z3.simplify(t)
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_TO_REAL:
        return t.arg(0)
    if z3.is_rational_value(t) and t.denominator_as_long() == 1:
        return z3.IntVal(t.numerator_as_long())
    if z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL):
        xs = [unreal(c) for c in t.children()]
        if None in xs:
            return None
        r = xs[0]
        for x in xs[1:]:
            r = {z3.Z3_OP_ADD: r + x, z3.Z3_OP_SUB: r - x, z3.Z3_OP_MUL: r * x}[t.decl().kind()]
        return r
    return None


@sp('fmod')
def _(I, a, b):
    a, b = I.lift(a, REAL), I.lift(b, REAL)
    I.eng.prove('fmod by a nonzero number', b != 0, 'safety')
    ia, ib = unreal(a), unreal(b)
    if ia is not None and ib is not None:
        q, r = divmod_c(I, z3.simplify(ia), z3.simplify(ib))
        I.eng.st.ghost['fmod_q'] = I.eng.st.ghost.get('fmod_q', ()) + (q,)
        return V(REAL, z3.ToReal(r))
    q, r = I.eng.fresh('fq', z3.IntSort()), I.eng.fresh('fr', z3.RealSort())
    ab = z3.If(b >= 0, b, -b)
    I.eng.st.pc.append(z3.Implies(b != 0, z3.And(a == b * z3.ToReal(q) + r, r < ab, -r < ab, z3.Implies(a >= 0, r >= 0), z3.Implies(a <= 0, r <= 0))))
    I.eng.st.ghost['fmod_q'] = I.eng.st.ghost.get('fmod_q', ()) + (q,)
    return V(REAL, r)


@sp('floor')
def _(I, x):
    return V(REAL, z3.ToReal(z3.ToInt(I.lift(x, REAL))))


@sp('nextafter')
def _(I, x, d):
    r = I.eng.fresh('nexta', z3.RealSort())
    m = I.lift(x, REAL)
    g = I.eng.st.ghost
    I.eng.st.pc.append(r < m)
    I.eng.st.pc += [z3.Implies(t < m, t <= r) for t in g.get('__reps', ())]
    g['__next'] = g.get('__next', ()) + ((m, r),)
    g['__reps'] = g.get('__reps', ()) + (r,)
    return V(REAL, r)


@sp('numeric_limits')
def _(I, *a):
    return V(REAL, z3.Real('INF'))


SP['@infinity'] = SP['@numeric_limits']


@sp('Py_TYPE')
def _(I, x):
    return None


@sp('Py_BuildValue')
def _(I, *a):
    return NewObj()


@sp('tp_new')
def _(I, *a):
    return NewObj()


@sp('callptr')
def _(I, f, *args):
    f = I.deref(f)
    if isinstance(f, (FuncVal, BoundMethod)):
        return I.call(f, list(args), {})
    t = I.lift(f, ANY)
    for name in fnptrs(I.repo):
        g = I.repo.m.env[name]
        if len(g.node.args.args) != len(args):
            continue
        if ptypes(g) != tuple(I.ty_of(a) for a in args):
            continue
        if I.eng.branch(t == fnid(I.repo, name)):
            return I.call_func(g, list(args), {})
    I.eng.prove('the function pointer holds one of the functions whose address is taken', False, 'safety')
    raise PathEnd()


def ptypes(g):
    return tuple(ty_of_ct(CT_deref(a.ctype)) for a in g.node.args.args)


def CT_deref(c):
    return c


def fnid(repo, name):
    return z3.IntVal(fnptrs(repo).index(name) + 1)


def fnptrs(repo):
    """every function whose address is taken in the source (all translated once to know)"""
    if not getattr(repo, '_fn', None):
        for c in list(repo.classes.values()):
            for f in list(c.members.values()):
                if isinstance(f, FuncVal):
                    f.node.body
        for f in list(repo.m.env.values()):
            if isinstance(f, FuncVal):
                f.node.body
        repo._fn = sorted(repo.taken)
    return repo._fn


# --------------------------------------------------------------------------- containers

@sp('items')
def _(I, m):
    return Items(as_ref(I, m))


@sp('map.find')
def _(I, m, k):
    m = as_ref(I, m)
    kv = I.maykey(m, k)
    return MapIter(m, kv.t, I.dict_has(m, kv).t)


@sp('map.end')
def _(I, m):
    return MapEnd(as_ref(I, m))


@sp('map.erase')
def _(I, m, it):
    m = as_ref(I, m)
    if isinstance(it, MapIter):
        I.eng.prove('erased map iterator is valid', mkand([it.found, I.dict_has(m, V(m.ty.args[0], it.kt)).t]), 'safety')
        I.dict_del(m, V(m.ty.args[0], it.kt))
        return None
    k = I.maykey(m, it)
    had = I.dict_has(m, k)
    if I.eng.branch(had.t):
        I.dict_del(m, k)
        return 1
    return 0


@sp('map.emplace')
def _(I, m, k, v):
    m = as_ref(I, m)
    kv = I.maykey(m, k)
    if not I.eng.branch(I.dict_has(m, kv).t):
        I.dict_set(m, kv, v)
    return None


@sp('map.at')
def _(I, m, k):
    """operator[]: inserts a default value when the key is missing"""
    m = as_ref(I, m)
    kv = I.maykey(m, k)
    vt = m.ty.args[1]
    if not I.eng.branch(I.dict_has(m, kv).t):
        if vt.name in ('Dict', 'Set', 'List'):
            d = SP['@new'](I, ty=vt)
        else:
            d = {'Int': 0, 'Real': 0.0, 'Bool': False}.get(vt.name)
        I.dict_set(m, kv, d)
    return I.dict_get(m, kv)


@sp('map.set')
def _(I, m, k, v):
    m = as_ref(I, m)
    I.dict_set(m, I.maykey(m, k), v)


@sp('map.clear')
def _(I, m):
    I.dict_init(as_ref(I, m))


@sp('map.size')
def _(I, m):
    return V(INT, I.dict_len(as_ref(I, m)))


for _k in ('list', 'vector'):
    @sp(_k + '.size')
    def _(I, l):
        return I.norm(V(INT, I.L(as_ref(I, l))[0]))

    @sp(_k + '.push_back')
    def _(I, l, x):
        I.list_append(as_ref(I, l), x)

    @sp(_k + '.front')
    def _(I, l):
        l = as_ref(I, l)
        I.eng.prove('front of a non-empty list', I.L(l)[0] > 0, 'safety')
        return I.wrapv(l.ty.args[0], I.elem(l, z3.IntVal(0)))

    @sp(_k + '.back')
    def _(I, l):
        l = as_ref(I, l)
        I.eng.prove('back of a non-empty list', I.L(l)[0] > 0, 'safety')
        return I.wrapv(l.ty.args[0], I.elem(l, z3.simplify(I.L(l)[0] - 1)))

    @sp(_k + '.clear')
    def _(I, l):
        I.list_clear(as_ref(I, l))

    @sp(_k + '.empty')
    def _(I, l):
        return V(BOOL, I.L(as_ref(I, l))[0] == 0)

    @sp(_k + '.begin')
    def _(I, l):
        return ListIter(as_ref(I, l), at='begin')

    @sp(_k + '.end')
    def _(I, l):
        return ListIter(as_ref(I, l), at='end')

    @sp(_k + '.erase')
    def _(I, l, it):
        l = as_ref(I, l)
        if it.at is not None:
            raise Unsupported('erase at an end')
        I.eng.prove('erased list iterator is valid', it.found, 'safety')
        t = it.x
        if not l.ty.opt:
            raise Unsupported('erase from a list with duplicates')
        ln, el, ix = I.L(l)
        p = z3.simplify(z3.Select(ix, t))
        I.list_cut(l, p, p + 1)

    @sp(_k + '.pop_back')
    def _(I, l):
        l = as_ref(I, l)
        ln = I.L(l)[0]
        I.eng.prove('pop_back of a non-empty list', ln > 0, 'safety')
        I.list_cut(l, ln - 1, ln)

    @sp(_k + '.pop_front')
    def _(I, l):
        l = as_ref(I, l)
        ln = I.L(l)[0]
        I.eng.prove('pop_front of a non-empty list', ln > 0, 'safety')
        I.list_cut(l, z3.IntVal(0), z3.IntVal(1))


@sp('find')
def _(I, b, e, x):
    l = b.l
    t = I.lift(x, l.ty.args[0])
    if not l.ty.opt:
        raise Unsupported('find in a list with duplicates')
    return ListIter(l, t, z3.Select(I.M(l), t))


@sp('set.insert')
def _(I, s, x):
    s = as_ref(I, s)
    k = I.maykey(s, x)
    had = I.dict_has(s, k)
    I.set_add(s, k)
    return Pair(None, V(BOOL, z3.simplify(z3.Not(had.t))))


@sp('set.find')
def _(I, s, x):
    s = as_ref(I, s)
    k = I.maykey(s, x)
    return MapIter(s, k.t, I.dict_has(s, k).t)


@sp('set.end')
def _(I, s):
    return MapEnd(as_ref(I, s))


@sp('set.count')
def _(I, s, x):
    s = as_ref(I, s)
    return V(INT, z3.If(I.dict_has(s, I.maykey(s, x)).t, z3.IntVal(1), z3.IntVal(0)))


@sp('set.empty')
def _(I, s):
    return V(BOOL, I.dict_len(as_ref(I, s)) == 0)


@sp('set.clear')
def _(I, s):
    I.dict_init(as_ref(I, s))


SP['@set.erase'] = SP['@map.erase']


@sp('map.empty')
def _(I, m):
    return V(BOOL, I.dict_len(as_ref(I, m)) == 0)


@sp('map.count')
def _(I, m, k):
    m = as_ref(I, m)
    return V(INT, z3.If(I.dict_has(m, I.maykey(m, k)).t, z3.IntVal(1), z3.IntVal(0)))


@sp('vector.insert')
def _(I, l, pos, *r):
    """the whole of another list at the end"""
    l = as_ref(I, l)
    if not (isinstance(pos, ListIter) and pos.at == 'end' and pos.l.t.eq(l.t) and len(r) == 2 and all(isinstance(x, ListIter) for x in r) and r[0].at == 'begin' and r[1].at == 'end' and r[0].l.t.eq(r[1].l.t)):
        raise Unsupported('vector.insert')
    I.list_extend(l, r[0].l)


@sp('set.size')
def _(I, s):
    return V(INT, I.dict_len(as_ref(I, s)))


INTERNAL = {'@' + x for x in ('toreal', 'trunc', 'bool', 'cast', 'float', 'deref', 'cell', 'undef', 'newarr', 'agg', 'copy', 'assign', 'construct', 'make', 'new',
                              'newfrom', 'pair', 'static', 'enum', 'exc', 'idiv', 'imod', 'callptr', 'items', 'store', 'advance', 'copyc')}


# --------------------------------------------------------------------------- rounding
#
# In a unit with models['fp'] every double result is rounded: rnd(t) is some representable number, rounding is monotone and exact
# on representable numbers; integers converted to double, coordinates and literals are representable.

def fp_rep(I, t):
    g = I.eng.st.ghost
    reps, rs = g.get('__reps', ()), g.get('__rnds', ())
    if any(t.eq(r) for r in reps):
        return
    g['__reps'] = reps + (t,)
    for a, r in rs:
        I.eng.st.pc += [z3.Implies(a <= t, r <= t), z3.Implies(a >= t, r >= t)]
    for m, r in g.get('__next', ()):
        I.eng.st.pc.append(z3.Implies(t < m, t <= r))


def fp_round(I, t):
    g = I.eng.st.ghost
    t = z3.simplify(t)
    if z3.is_rational_value(t) and abs(t.as_fraction()) < 2 ** 50 and t.as_fraction().denominator in (1, 2, 4):
        return t
    for a, r in g.get('__rnds', ()):
        if a.eq(t):
            return r
    r = I.eng.fresh('rnd', z3.RealSort())
    for p in g.get('__reps', ()):
        I.eng.st.pc += [z3.Implies(t <= p, r <= p), z3.Implies(t >= p, r >= p)]
    for a, q in g.get('__rnds', ()):
        I.eng.st.pc += [z3.Implies(t <= a, r <= q), z3.Implies(t >= a, r >= q)]
    g['__rnds'] = g.get('__rnds', ()) + ((t, r),)
    g['__reps'] = g.get('__reps', ()) + (r,)
    return r


class FInterp(CInterp):
    """double arithmetic rounds"""

    def binop(self, op, a, b):
        r = CInterp.binop(self, op, a, b)
        if isv(r) and r.ty is REAL:
            for x in (a, b):
                fp_rep(self, self.lift(x, REAL))
            return V(REAL, fp_round(self, r.t))
        return r

    def lt(self, a, b, strict=True):
        for x in (a, b):
            if isv(x) and x.ty is REAL or isinstance(x, float):
                fp_rep(self, self.lift(x, REAL))
        return CInterp.lt(self, a, b, strict)

    def getfield(self, obj, cls, name):
        v = CInterp.getfield(self, obj, cls, name)
        if isv(v) and v.ty is REAL:
            fp_rep(self, v.t)
        return v


class CUnit(PyUnit):
    INTERP = CInterp


class FUnit(PyUnit):
    INTERP = FInterp
