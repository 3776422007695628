"""numpy vectors of a length known when the code is read, expanded element by element.

A vector is a list of (guard, value): boolean indexing keeps every element and strengthens its guard, so a filtered vector
is exact for every input.  Integers are mathematical (no wrap-around of the machine type).
"""
import ast
import z3
from .core import *
from .pyfront import *
from .pyfront import ObjVal


class Vec(ObjVal):
    pyname = 'numpy vector'

    def __init__(self, items, guards=None):
        self.items = list(items)
        self.guards = list(guards) if guards is not None else [True] * len(self.items)

    def aligned(self, o):
        if len(self.items) != len(o.items):
            return False
        return all((a is b) or (not isinstance(a, bool) and not isinstance(b, bool) and z3.eq(a, b)) for a, b in zip(self.guards, o.guards))

    def zip(self, I, other, f):
        other = I.deref(other)
        if isinstance(other, Vec):
            if len(other.items) == 1 and len(self.items) != 1:
                other = Vec(other.items * len(self.items), self.guards)
            if not self.aligned(other):
                raise Unsupported('element-wise operation on vectors of different selections')
            return Vec([f(a, b) for a, b in zip(self.items, other.items)], self.guards)
        if isinstance(other, (int, float, V)):
            return Vec([f(a, other) for a in self.items], self.guards)
        if isinstance(other, Conc):
            return self.zip(I, Vec(I.payload(other), self.guards), f)
        raise Unsupported('element-wise operation with %r' % (other,))

    def binop(self, I, op, other, swapped):
        if isinstance(op, (ast.BitAnd, ast.BitOr)):
            def f(a, b):
                a, b = truthof(I, a), truthof(I, b)
                return mkand([a, b]) if isinstance(op, ast.BitAnd) else mkor([a, b])
            return self.zip(I, other, lambda a, b: boolv(I, f(a, b)))
        def g(a, b):
            return elem_op(I, op, b, a) if swapped else elem_op(I, op, a, b)
        return self.zip(I, other, g)

    def compare(self, I, op, other, swapped):
        return self.zip(I, other, lambda a, b: boolv(I, I.compare(op, b, a) if swapped else I.compare(op, a, b)))

    def unary(self, I, op):
        if isinstance(op, ast.Invert):
            return Vec([boolv(I, mknot(truthof(I, x))) for x in self.items], self.guards)
        if isinstance(op, ast.USub):
            return Vec([I.binop(ast.Sub(), 0, x) for x in self.items], self.guards)
        raise Unsupported('unary operator on a vector')

    def getitem(self, I, i):
        i = I.deref(i)
        if isinstance(i, Vec):
            if not self.aligned(i):
                raise Unsupported('mask of another selection')
            g = []
            for a, m in zip(self.guards, i.items):
                t = truthof(I, m)
                t = z3.simplify(t) if not isinstance(t, bool) else t
                t = True if not isinstance(t, bool) and z3.is_true(t) else t
                g.append(t if a is True else a if t is True else z3.And(a, t if not isinstance(t, bool) else z3.BoolVal(t)))
            return Vec(self.items, g)
        if isinstance(i, int) and all(g is True for g in self.guards):
            if not -len(self.items) <= i < len(self.items):
                raise PyExc('IndexError')
            return self.items[i]
        if isinstance(i, Slice) and all(g is True for g in self.guards) and all(x is None or isinstance(x, int) for x in (i.lo, i.hi, i.step)):
            return Vec(self.items[slice(i.lo, i.hi, i.step)])
        raise Unsupported('vector subscript')

    def setitem(self, I, i, v):
        I.mutating()
        i = I.deref(i)
        if not all(g is True for g in self.guards):
            raise Unsupported('assignment to a filtered vector')
        if isinstance(i, int):
            if not -len(self.items) <= i < len(self.items):
                raise PyExc('IndexError')
            self.items[i] = v
            return
        if isinstance(i, Slice) and all(x is None or isinstance(x, int) for x in (i.lo, i.hi, i.step)):
            ks = list(range(len(self.items)))[slice(i.lo, i.hi, i.step)]
            v = I.deref(v)
            vs = [v] * len(ks) if isinstance(v, (int, float, V)) else vec(I, v).items
            if len(vs) != len(ks):
                raise PyExc('ValueError')
            for k, x in zip(ks, vs):
                self.items[k] = x
            return
        raise Unsupported('vector assignment')

    def length(self, I):
        if all(g is True for g in self.guards):
            return len(self.items)
        return V(INT, z3.Sum([z3.If(g if not isinstance(g, bool) else z3.BoolVal(g), 1, 0) for g in self.guards]))

    def getattr(self, I, name):
        if name == 'size' and all(g is True for g in self.guards):
            return len(self.items)
        if name in ('astype', 'copy'):
            return Builtin('ndarray.' + name, lambda I, a, kw: Vec(self.items, self.guards))
        raise Unsupported('attribute %s of a vector' % name)

    def iteration(self, I):
        if all(g is True for g in self.guards):
            return ('conc', list(self.items))
        raise Unsupported('iteration over a filtered vector')


class Rows(ObjVal):
    """np.stack of vectors"""
    pyname = 'numpy matrix'

    def __init__(self, rows):
        self.rows = rows

    def getitem(self, I, i):
        if isinstance(i, int):
            if not -len(self.rows) <= i < len(self.rows):
                raise PyExc('IndexError')
            return self.rows[i]
        ks = self.rowlist(I, i)
        return Rows([Vec(self.rows[k].items, self.rows[k].guards) for k in ks])

    def rowlist(self, I, i):
        i = I.deref(i)
        ks = list(I.payload(i)) if isinstance(i, Conc) and i.kind == 'list' else None
        if ks is None or not all(isinstance(k, int) for k in ks):
            raise Unsupported('matrix subscript')
        if not all(-len(self.rows) <= k < len(self.rows) for k in ks):
            raise PyExc('IndexError')
        return ks

    def setitem(self, I, i, v):
        I.mutating()
        ks = [i] if isinstance(i, int) else self.rowlist(I, i)
        v = I.deref(v)
        if not isinstance(v, Rows) or len(v.rows) != len(ks):
            raise Unsupported('matrix assignment')
        for k, r in zip(ks, v.rows):
            if not r.aligned(self.rows[k]) or len(r.items) != len(self.rows[k].items):
                raise Unsupported('matrix assignment')
            self.rows[k].items = list(r.items)

    def binop(self, I, op, other, swapped):
        other = I.deref(other)
        if isinstance(other, Rows):
            if len(other.rows) != len(self.rows):
                raise Unsupported('element-wise operation on matrices of different shapes')
            return Rows([a.binop(I, op, b, swapped) for a, b in zip(self.rows, other.rows)])
        return Rows([a.binop(I, op, other, swapped) for a in self.rows])

    def length(self, I):
        return len(self.rows)

    def iteration(self, I):
        return ('conc', list(self.rows))


def truthof(I, x):
    t = I.truth(x)
    return t


def boolv(I, t):
    return t if isinstance(t, bool) else V(BOOL, z3.simplify(t))


def elem_op(I, op, a, b):
    if isinstance(op, ast.Mod):
        # numpy's remainder has the sign of the divisor, as Python's; no branching on the divisor
        return nmod(I, a, b)
    return I.binop(op, a, b)


def nmod(I, a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a % b
    bt = I.lift(b, INT)
    I.eng.prove('the divisor is positive', bt > 0, 'safety')
    at = I.lift(a, INT)
    return V(INT, at % bt)


def vec(I, v):
    v = I.deref(v)
    if isinstance(v, Vec):
        return v
    if isinstance(v, Conc) and v.kind == 'list':
        return Vec(I.payload(v))
    if isinstance(v, tuple):
        return Vec(v)
    raise Unsupported('array of %r' % (v,))


def np_array(I, a, kw):
    v = I.deref(a[0])
    items = list(I.payload(v)) if isinstance(v, Conc) and v.kind == 'list' else None
    if items and all(isinstance(I.deref(x), (Conc, tuple)) for x in items):
        return Rows([vec(I, x) for x in items])
    return vec(I, a[0])


def np_zeros(I, a, kw):
    if not isinstance(a[0], int):
        raise Unsupported('zeros')
    return Vec([0] * a[0])


def np_tile(I, a, kw):
    v = vec(I, a[0])
    if not isinstance(a[1], int):
        raise Unsupported('tile')
    return Vec(v.items * a[1], v.guards * a[1])


def np_repeat(I, a, kw):
    v = vec(I, a[0])
    if not isinstance(a[1], int):
        raise Unsupported('repeat')
    return Vec([x for x in v.items for _ in range(a[1])], [x for x in v.guards for _ in range(a[1])])


def np_mod(I, a, kw):
    v = I.deref(a[0])
    if isinstance(v, Vec):
        return v.zip(I, a[1], lambda x, y: nmod(I, x, y))
    return nmod(I, v, a[1])


def np_where(I, a, kw):
    c, x, y = (I.deref(z) for z in a)
    n = len(c.items)
    def at(z, i):
        if isinstance(z, Vec):
            if not z.aligned(c):
                raise Unsupported('where over different selections')
            return z.items[i]
        return z
    out = []
    for i in range(n):
        t = truthof(I, c.items[i])
        if isinstance(t, bool):
            out.append(at(x, i) if t else at(y, i))
        else:
            out.append(I.norm(V(INT, z3.If(t, I.lift(at(x, i), INT), I.lift(at(y, i), INT)))))
    return Vec(out, c.guards)


def np_minmax(f):
    def g(I, a, kw):
        v = I.deref(a[0])
        def one(x, y):
            s, t = I.lift(x, INT), I.lift(y, INT)
            return I.norm(V(INT, z3.If((s < t) if f == 'min' else (s > t), s, t)))
        return v.zip(I, a[1], one)
    return g


def np_stack(I, a, kw):
    rows = a[0] if isinstance(a[0], tuple) else [x for x in I.payload(I.deref(a[0]))]
    if kw.get('axis', 0) != 0:
        raise Unsupported('stack axis')
    rows = [I.deref(r) for r in rows]
    for r in rows:
        if not isinstance(r, Vec):
            raise Unsupported('stack of %r' % (r,))
        if not rows[0].aligned(r):
            # rows of different selections have different lengths in general
            raise Unsupported('stack of different selections')
    return Rows([Vec(r.items, r.guards) for r in rows])


MODELS = {'numpy.array': np_array, 'numpy.zeros': np_zeros, 'numpy.tile': np_tile, 'numpy.repeat': np_repeat, 'numpy.mod': np_mod, 'numpy.remainder': np_mod,
          'numpy.where': np_where, 'numpy.stack': np_stack, 'numpy.vstack': np_stack, 'numpy.minimum': np_minmax('min'), 'numpy.maximum': np_minmax('max')}
