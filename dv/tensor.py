"""Objects the value layers and the topology code compute with: points, bounding boxes, border handlers, torch tensors.

A tensor is an array of reals over its index ranges.  Reading one element gives the value at that moment (torch gives a view:
a caller that keeps it and looks at it after a later write is outside).  Indexing by slices gives a view of the same storage.
"""
import ast
import z3
from .core import *
from .pyfront import *
from .pyfront import ObjVal
from .nparr import Vec, Rows, truthof

BOXF = ('xmin', 'xextent', 'ymin', 'yextent', 'zmin', 'zextent')


class BoxVal(ObjVal):
    """geometry.BoundingBox: a named tuple of six integers"""
    pyname = 'BoundingBox'

    def __init__(self, vals):
        self.vals = list(vals)

    def getattr(self, I, name):
        if name in BOXF:
            return self.vals[BOXF.index(name)]
        raise Unsupported('attribute %s of a bounding box' % name)

    def getitem(self, I, i):
        if isinstance(i, int):
            return self.vals[i]
        if isinstance(i, Slice) and all(x is None or isinstance(x, int) for x in (i.lo, i.hi, i.step)):
            return tuple(self.vals[slice(i.lo, i.hi, i.step)])
        raise Unsupported('subscript of a bounding box')

    def length(self, I):
        return 6

    def iteration(self, I):
        return ('conc', list(self.vals))

    def ax(self, I, k):
        """(min, extent) of dimension k as terms"""
        return I.lift(self.vals[2 * k], INT), I.lift(self.vals[2 * k + 1], INT)


class PointVal(ObjVal):
    pyname = 'DiscretePoint'

    def __init__(self, coords):
        self.coords = Vec(coords)

    def getattr(self, I, name):
        if name == 'coordinates':
            return self.coords
        if name in ('x', 'y', 'z'):
            return self.coords.items['xyz'.index(name)]
        raise Unsupported('attribute %s of a point' % name)


def bh(I, kind, x, m, e):
    """the border-handled coordinate (proved of the border classes under G01)"""
    if kind == 'sticky':
        return z3.If(e <= 0, m, z3.If(x < m, m, z3.If(x > m + e - 1, m + e - 1, x)))
    f = z3.Function('bh_periodic', z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())
    r = f(x, m, e)
    q = z3.Function('bh_turns', z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())(x, m, e)
    I.eng.assume(z3.Implies(e > 0, z3.And(m <= r, r <= m + e - 1, r == x - q * e)))
    I.eng.assume(z3.Implies(z3.And(e > 0, m <= x, x <= m + e - 1), r == x))
    return z3.If(e <= 0, m, r)


class BorderVal(ObjVal):
    pyname = 'borders'

    def __init__(self, kind, box):
        self.kind, self.box = kind, box

    def getattr(self, I, name):
        if name == '_transform':
            def f(I, a, kw):
                p, t = I.deref(a[0]), I.deref(a[1])
                if not (isinstance(p, PointVal) and isinstance(t, PointVal)):
                    raise Unsupported('transform of %r' % (p,))
                I.mutating()
                xs = [I.lift(x, INT) for x in p.coords.items]
                t.coords.items = [I.norm(V(INT, bh(I, self.kind, xs[k], *self.box.ax(I, k)))) for k in range(3)]
                return None
            return Builtin('%s borders _transform' % self.kind, f)
        raise Unsupported('attribute %s of borders' % name)


class Tensor(ObjVal):
    pyname = 'tensor'

    def __init__(self, shape, arr):
        self.shape, self.arr = [s for s in shape], arr

    def n(self, k):
        return self.shape[k]

    def sel(self, *ix):
        return z3.Select(self.arr, *ix)

    def getattr(self, I, name):
        if name == 'shape':
            return tuple(I.norm(V(INT, s)) for s in self.shape)
        raise Unsupported('attribute %s of a tensor' % name)

    def pos(self, I, k, i, guard=None):
        t = I.lift(i, INT)
        n = self.shape[k]
        ok = z3.And(t >= -n, t < n)
        I.eng.prove('a tensor index is in range', ok if guard is None or guard is True else z3.Implies(guard, ok), 'safety')
        return z3.simplify(z3.If(t < 0, t + n, t))

    def split(self, I, i):
        i = i if isinstance(i, tuple) else (i,)
        i = tuple(I.deref(x) for x in i)
        if len(i) > len(self.shape):
            raise Unsupported('tensor subscript')
        if all(isinstance(x, Vec) for x in i) and len(i) == len(self.shape):
            return 'vec', i
        if all(isinstance(x, int) or (isinstance(x, V) and x.ty is INT) for x in i) and len(i) == len(self.shape):
            return 'int', i
        if all(isinstance(x, Slice) and x.step is None for x in i):
            i = i + tuple(Slice(None, None, None) for _ in range(len(self.shape) - len(i)))
            return 'slice', [I.slice_bounds(x, n) for x, n in zip(i, self.shape)]
        raise Unsupported('tensor subscript')

    def getitem(self, I, i):
        k, i = self.split(I, i)
        if k == 'int':
            return V(REAL, self.sel(*[self.pos(I, d, x) for d, x in enumerate(i)]))
        if k == 'vec':
            for v in i[1:]:
                if not i[0].aligned(v):
                    raise Unsupported('index vectors of different selections')
            return Vec([V(REAL, self.sel(*[self.pos(I, d, i[d].items[j], g) for d in range(len(i))])) for j, g in enumerate(i[0].guards)], i[0].guards)
        return TView(self, i)

    def setitem(self, I, i, v):
        I.mutating()
        k, i = self.split(I, i)
        v = I.deref(v)
        if k == 'int':
            self.arr = z3.Store(self.arr, *([self.pos(I, d, x) for d, x in enumerate(i)] + [I.lift(v, REAL)]))
            return
        if k != 'slice':
            raise Unsupported('assignment to selected elements')
        vs = [z3.Int('ti%d' % d) for d in range(len(self.shape))]
        old = self.arr
        if isinstance(v, TView):
            if len(v.reg) != len(i):
                raise Unsupported('assignment of a region of other dimensions')
            for (a, b), (c, d) in zip(i, v.reg):
                I.eng.prove('the assigned region has the extents of its target', mx(b - a) == mx(d - c), 'safety')
            if v.t is self:
                I.eng.prove('an assigned region does not overlap its target',
                            z3.Or(*[z3.Or(b <= c, d <= a, a >= b, c >= d) for (a, b), (c, d) in zip(i, v.reg)]), 'safety')
            src = z3.Select(v.t.arr, *[x - a + c for x, (a, b), (c, d) in zip(vs, i, v.reg)])
        elif isinstance(v, (int, float)) or (isinstance(v, V) and v.ty in (INT, REAL)):
            src = I.lift(v, REAL)
        else:
            raise Unsupported('assignment of %r to a region' % (v,))
        self.arr = z3.Lambda(vs, z3.If(z3.And(*[z3.And(x >= a, x < b) for x, (a, b) in zip(vs, i)]), src, z3.Select(old, *vs)))


def mx(t):
    return z3.If(t < 0, z3.IntVal(0), t)


class TView(ObjVal):
    """a rectangular view of a tensor"""
    pyname = 'tensor view'

    def __init__(self, t, reg):
        self.t, self.reg = t, reg


def fresh_tensor(I, shape, tag='cells'):
    sh = [I.lift(s, INT) for s in shape]
    for s in sh:
        I.eng.prove('a tensor extent is not negative', s >= 0, 'safety')
    return Tensor(sh, I.eng.fresh(tag, z3.ArraySort(*([z3.IntSort()] * len(sh) + [z3.RealSort()]))))


def shape_of(I, v):
    v = I.deref(v)
    return list(v) if isinstance(v, tuple) else list(I.payload(v)) if isinstance(v, Conc) else [v]


def torch_full(I, a, kw):
    t = fresh_tensor(I, shape_of(I, a[0]))
    vs = [z3.Int('ti%d' % d) for d in range(len(t.shape))]
    t.arr = z3.Lambda(vs, I.lift(a[1], REAL))
    return t


def torch_rand(I, a, kw):
    return fresh_tensor(I, shape_of(I, a[0]))


def new_point(I, a, kw):
    a = list(a) + [0] * (3 - len(a))
    for k, n in enumerate('xyz'):
        if n in kw:
            a[k] = kw[n]
    return PointVal(a)


def new_box(I, a, kw):
    vals = dict(zip(BOXF, a))
    vals.update(kw)
    dflt = dict(zmin=0, zextent=0)
    return BoxVal([vals[n] if n in vals else dflt[n] for n in BOXF])


MODELS = {'torch.full': torch_full, 'torch.rand': torch_rand, '_space.DiscretePoint': new_point, 'geometry.BoundingBox': new_box,
          '_space.GridStickyBorders': lambda I, a, kw: BorderVal('sticky', I.deref(a[0])),
          '_space.GridPeriodicBorders': lambda I, a, kw: BorderVal('periodic', I.deref(a[0]))}
