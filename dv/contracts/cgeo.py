"""Contracts on the C++ of geometry.h/.cpp, borders.h and the comparators: properties G01 and I01.

A dimension is (coordinate, minimum, extent).  Everything is stated per dimension, so one, two and three dimensions are covered by one
contract; a dimension of extent 0 is one the space does not have.
"""
import z3
from ..core import *
from ..pyfront import Contract, mkand, mkor

CONTRACTS, LOOPS, MODELS = {}, {}, {}
AX = ('x', 'y', 'z')
EPS = z3.RealVal('1/100000000')
TOL = z3.RealVal('1/50000000')


def con(qual, **kw):
    c = Contract(qual, **kw)
    CONTRACTS[qual] = c
    return c


def box(b):
    """(min, extent) per axis of a BoundingBox"""
    return [(getattr(b, a + 'min_'), getattr(b, a + '_extent_')) for a in AX]


def box_wf(b):
    x, y, z = b.x_extent_, b.y_extent_, b.z_extent_
    return z3.And(b.xmax_ == b.xmin_ + x, b.ymax_ == b.ymin_ + y, b.zmax_ == b.zmin_ + z, b.num_dims == z3.If(z > 0, 3, z3.If(y > 0, 2, 1)))


def box_space(b):
    """the bounds of a space: one, two or three dimensions"""
    x, y, z = b.x_extent_, b.y_extent_, b.z_extent_
    return z3.And(box_wf(b), x > 0, y >= 0, z >= 0, z3.Implies(z > 0, y > 0))


def real(t):
    return z3.ToReal(t) if t.sort() == z3.IntSort() else t


# --------------------------------------------------------------------------- I01: comparators

def order(name, ty, eq, assume_int=True):
    """the comparator is a strict total order whose equivalence is equality of the components"""
    def ens(c):
        ab, ba, bd, ad = [c.I.lift(x, BOOL) for x in c.I.untup(c.result)]
        a, b = c.arg('a'), c.arg('b')
        same = eq(a, b)
        yield 'never both before each other', z3.Not(z3.And(ab, ba))
        yield 'equivalent exactly when all components are equal', same == z3.And(z3.Not(ab), z3.Not(ba))
        yield 'transitive', z3.Implies(z3.And(ab, bd), ad)
    return Contract('cxx.' + name + '.lemma_order', args={'c': REF(name), 'a': ty, 'b': ty, 'd': ty}, ensures=ens, apply=False,
                    code='def lemma_order(c, a, b, d):\n    return (c.op(a, b), c.op(b, a), c.op(b, d), c.op(a, d))')


def eqv(names):
    return lambda a, b: z3.And(*[getattr(a, n) == getattr(b, n) for n in names])


ORDER_ID = order('agent_id_comp', REF('AgentID'), eqv(('id', 'type', 'rank')))
ORDER_PD = order('PointComp<D>', REF('Point<D>'), eqv(AX))
ORDER_PC = order('PointComp<C>', REF('Point<C>'), eqv(AX))
for _k in ('D', 'C'):
    con('cxx.point_equals(%s*,Point<%s>&)' % (_k, _k), args={'pt': ('opt', REF(_k)), 'coords': REF('Point<%s>' % _k)}, result=BOOL, modifies=[],
        ensures=lambda c: [('equal exactly when there is a point with the same coordinates', c.res == z3.And(c.arg('pt').ref != 0, eqv(AX)(c.arg('pt'), c.arg('coords'))))])
    con('cxx.extract_coords(%s*,Point<%s>&)' % (_k, _k), args={'pt': REF(_k), 'coords': REF('Point<%s>' % _k)},
        modifies=lambda c, k=_k: [('Point<%s>.%s' % (k, a), c.arg('coords').ref) for a in AX],
        ensures=lambda c: [('the coordinates of the point', eqv(AX)(c.old('pt'), c.arg('coords')))])
    con('cxx.update_point(%s*,Point<%s>&)' % (_k, _k), args={'pt': REF(_k), 'coords': REF('Point<%s>' % _k)},
        modifies=lambda c, k=_k: [('%s.%s' % (k, a), c.arg('pt').ref) for a in AX],
        ensures=lambda c: [('the point takes the coordinates', eqv(AX)(c.arg('pt'), c.old('coords')))])
    con('cxx.create_point(PyTypeObject*,Point<%s>&)' % _k, args={'pt_type': ('opt', ANY), 'wpt': REF('Point<%s>' % _k)}, result=REF(_k), modifies=[],
        ensures=lambda c: [('a new point with the coordinates', z3.And(c.res.ref > c.oldtop, eqv(AX)(c.res, c.old('wpt'))))])

# --------------------------------------------------------------------------- bounding boxes
XS = {a + s: INT for a in AX for s in ('min', '_extent')}


def box_is(b, c):
    return z3.And(box_wf(b), *[z3.And(getattr(b, a + 'min_') == c.arg(a + 'min'), getattr(b, a + '_extent_') == c.arg(a + '_extent')) for a in AX])


BF = [a + s for a in AX for s in ('min_', 'max_', '_extent_')] + ['num_dims']
for _f in ('__init__(long,long,long,long,long,long)', 'reset'):
    con('cxx.BoundingBox.' + _f, args=dict({'self': REF('BoundingBox')}, **XS), requires=lambda c: [('extents not negative', z3.And(*[c.arg(a + '_extent') >= 0 for a in AX]))],
        modifies=lambda c: [('BoundingBox.' + f, c.self.ref) for f in BF],
        ensures=lambda c: [('the box of these minima and extents', box_is(c.self, c))])
con('cxx.BoundingBox.__init__(BoundingBox&)', args={'self': REF('BoundingBox'), 'other': REF('BoundingBox')},
    requires=lambda c: [('different objects', c.self.ref != c.arg('other').ref), ('a box', box_wf(c.arg('other')))],
    modifies=lambda c: [('BoundingBox.' + f, c.self.ref) for f in BF],
    ensures=lambda c: [('a copy of the box', z3.And(*[getattr(c.self, f) == getattr(c.old('other'), f) for f in BF]))])


def inside(b, p):
    """in the half-open box, in the dimensions the box has"""
    return z3.And(*[z3.Implies(z3.Or(a == 'x', e > 0), z3.And(real(m) <= real(getattr(p, a)), real(getattr(p, a)) < real(m + e))) for a, (m, e) in zip(AX, box(b))])


for _t in ('D*', 'Point<D>&', 'C*', 'Point<C>&'):
    con('cxx.BoundingBox.contains(%s)' % _t, args={'self': REF('BoundingBox'), 'pt': REF(_t.rstrip('*&'))}, result=BOOL, modifies=[],
        requires=lambda c: [('a box of a space', z3.And(box_wf(c.self), z3.Implies(c.self.z_extent_ > 0, c.self.y_extent_ > 0)))],
        ensures=lambda c: [('exactly the points of the half-open box', c.res == inside(c.self, c.arg('pt')))])


# --------------------------------------------------------------------------- borders

def wrap_ghost(I, c):
    q = I.eng.fresh('wq', z3.IntSort())
    I.eng.st.ghost['fmod_q'] = I.eng.st.ghost.get('fmod_q', ()) + (q,)


def wrap_contract(k, fp=False):
    q = 'cxx.wrap<%s>' % {'D': 'long', 'C': 'double'}[k]
    ty = INT if k == 'D' else REAL

    def ens(c):
        x, m, e = c.arg('coord'), c.arg('min'), c.arg('extent')
        yield 'inside, congruent to the coordinate, unchanged if inside', periodic_axis(c.I, k, x, m, e, c.res, fp)
        if c.I.top != q:
            # for a caller the congruence holds for one particular multiple
            if not fp:
                yield 'witness', real(c.res) == real(x) - real(c.I.eng.st.ghost['fmod_q'][-1]) * real(e)
            if k == 'C' and fp:
                from ..cinterp import fp_rep
                fp_rep(c.I, c.res)
    return Contract(q, args={'coord': ty, 'min': INT, 'max': INT, 'extent': INT}, result=ty, modifies=[], ghost=wrap_ghost,
                    requires=lambda c: [('bounds of a dimension', z3.And(c.arg('extent') > 0, c.arg('max') == c.arg('min') + c.arg('extent')))], ensures=ens)


def sticky_axis(k, x, m, e, r, fp=False):
    if k == 'D':
        return z3.If(e > 0, r == z3.If(x < m, m, z3.If(x > m + e - 1, m + e - 1, x)), r == m)
    lo, hi = real(m), real(m + e)
    if fp:
        return z3.If(e > 0, z3.And(lo <= r, r < hi), r == lo)
    return z3.If(e > 0, z3.And(lo <= r, r < hi, z3.Implies(x < lo, r == lo), z3.Implies(z3.And(lo <= x, x < hi - TOL), r == x), z3.Implies(x >= hi - TOL, r >= hi - TOL)), r == lo)


def periodic_axis(I, k, x, m, e, r, fp=False):
    lo, hi = real(m), real(m + e)
    x, r = real(x), real(r)
    parts = [lo <= r, r < hi, z3.Implies(z3.And(lo <= x, x < hi), r == x)]
    if not fp:
        n = z3.Int('n!per')
        qs = [z3.IntVal(0)] + [q + d for q in I.eng.st.ghost.get('fmod_q', ()) for d in (-1, 0, 1)]
        parts.append(z3.Or(*([r == x - real(q) * real(e) for q in qs] + [z3.Exists([n], r == x - real(n) * real(e))])))
    return z3.If(e > 0, z3.And(*parts), r == lo)


def axes(c, b, src, dst, f):
    return [('%s: %s' % (a, f.__doc__), f(getattr(src, a), m, e, getattr(dst, a))) for a, (m, e) in zip(AX, box(b))]


def fn_is(c, self_):
    """the transformation of the dimensions the space has was chosen by the constructor"""
    k = 'D' if '<D>' in self_.ty.args[0] else 'C'
    from ..cinterp import fnid
    b = self_.bounds_
    ids = [fnid(c.I.repo, 'transform%s<%s>' % (s, k)) for s in ('X', 'XY', 'XYZ')]
    return self_.transform_.ref == z3.If(b.z_extent_ > 0, ids[2], z3.If(b.y_extent_ > 0, ids[1], ids[0]))


def point_mods(k, name):
    return lambda c: [('%s.%s' % (k, a), c.arg(name).ref) for a in AX]


def border_contracts(fp=False):
    out = {}
    for k in ('D', 'C'):
        w = wrap_contract(k, fp)
        out[w.qual] = w
        for cls in ('Sticky', 'Periodic'):
            full = '%s<%s>' % (cls, k)

            def requires(c, cls=cls):
                yield 'bounds of a space', box_space(c.self.bounds_)
                if cls == 'Periodic':
                    yield 'function of the dimensions', fn_is(c, c.self)

            def ensures(c, cls=cls, k=k):
                def sticky(x, m, e, r):
                    "the nearest location inside the bounds"
                    return sticky_axis(k, x, m, e, r, fp)

                def periodic(x, m, e, r):
                    "the location inside the bounds congruent to the point"
                    return periodic_axis(c.I, k, x, m, e, r, fp)
                return axes(c, c.oself.bounds_, c.old('pt'), c.arg('transformed_pt'), sticky if cls == 'Sticky' else periodic)

            for t in (('D*',) if k == 'D' else ()) + ('Point<%s>&' % k,):
                tk = t.rstrip('*&')

                def mods(c, tk=tk, k=k, cls=cls):
                    r = [('%s.%s' % (tk, a), c.arg('transformed_pt').ref) for a in AX]
                    if cls == 'Periodic':
                        r += [('Point<%s>.%s' % (k, a), c.self.temp_pt.ref) for a in AX]
                    return r
                q = 'cxx.%s.transform(%s*,%s)' % (full, k, t)
                out[q] = Contract(q, args={'self': REF(full), 'pt': REF(k), 'transformed_pt': REF(tk)}, requires=requires, ensures=ensures, modifies=mods)
    return out


CONTRACTS.update(border_contracts())
FP = border_contracts(True)

for _k in ('D', 'C'):
    for _c in ('Sticky', 'Periodic'):
        con('cxx.%s<%s>.__init__(BoundingBox&)' % (_c, _k), args={'self': REF('%s<%s>' % (_c, _k)), 'bounds': REF('BoundingBox')},
            requires=lambda c: [('bounds of a space', box_space(c.arg('bounds')))],
            modifies=lambda c, _c=_c, _k=_k: [('%s<%s>.%s' % (_c, _k, f), c.self.ref) for f in (['bounds_'] if _c == 'Sticky' else ['bounds_', 'transform_', 'temp_pt'])],
            ensures=lambda c, _c=_c: [('keeps the bounds', z3.And(*[getattr(c.self.bounds_, f) == getattr(c.old('bounds'), f) for f in BF]))]
            + ([('chooses the transformation of the dimensions', fn_is(c, c.self))] if _c == 'Periodic' else []))
