"""Contracts for repast4py/value_layer.py (V01, V02)."""
import z3
from ..core import *
from ..pyfront import *
from ..pyfront import Contract
from .. import nparr, tensor
from ..nparr import Vec, Rows
from ..tensor import *
from . import geometry as G

PYC = ('_Impl1D', '_Impl2D', '_Impl3D', 'ValueLayer', 'SharedValueLayer', 'ReadWriteValueLayer')
SCHEMA = {k: {'__py__': True} for k in PYC}
CONTRACTS, LOOPS = {}, {}
MODELS = dict(nparr.MODELS)
MODELS.update(tensor.MODELS)
KIND = {0: 'sticky', 1: 'periodic'}


def box_arg(d, name='b'):
    def mk(I):
        v = []
        for k in range(3):
            v += [V(INT, z3.Int('%s_min%d' % (name, k))), V(INT, z3.Int('%s_max%d' % (name, k)) - z3.Int('%s_min%d' % (name, k)) + 1) if k < d else 0]
        return BoxVal(v)
    return mk


def pt_arg(name):
    return lambda I: PointVal([V(INT, z3.Int('%s_%d' % (name, k))) for k in range(3)])


def const(v):
    return lambda I: v


def bhp(c, kind, pt, box):
    return [bh(c.I, kind, c.I.lift(x, INT), *box.ax(c.I, k)) for k, x in enumerate(pt.coords.items)]


def m_havoc(I, a, kw):
    """the cells of a layer become arbitrary: whatever was written before"""
    vl = I.deref(a[0])
    t = I.deref(I.getattr(vl, 'grid'))
    t.arr = I.eng.fresh('cells', t.arr.sort())
    return None


def m_at(I, a, kw):
    """the i-th location of a location array as a point"""
    locs, i = I.deref(a[0]), a[1]
    rows = locs.rows if isinstance(locs, Rows) else [locs]
    return PointVal([r.items[i] for r in rows] + [0] * (3 - len(rows)))


def m_count(I, a, kw):
    locs = I.deref(a[0])
    return len((locs.rows[0] if isinstance(locs, Rows) else locs).items)


def m_guard(I, a, kw):
    return None


MODELS.update({'value_layer.havoc': m_havoc, 'value_layer.at': m_at, 'value_layer.count': m_count})


def lemma(name, d, kind, code, args, ensures, requires=None, init=None, random=False):
    a = {'bounds': box_arg(d), 'borders': const(0 if kind == 'sticky' else 1)}
    a['init'] = const('random') if random else (lambda I: V(REAL, z3.Real('init')))
    a.update(args)

    def req(c):
        I = c.I
        for k in range(d):
            yield 'extents are positive', c.args['bounds'].ax(I, k)[1] > 0
        if requires:
            yield from requires(c)
    code = 'def lemma(%s):\n' % ', '.join(a) + ''.join('    %s\n' % l for l in code.strip().split('\n'))
    con = Contract('value_layer.' + name, args=a, requires=req, ensures=ensures, code=code, apply=False)
    CONTRACTS['value_layer.' + name] = con
    UNITS.append('value_layer.' + name)
    return con


UNITS = []


def eqs(a, b):
    return z3.And(*[x == y for x, y in zip(a, b)])


def num(c, v):
    v = c.I.deref(v)
    return c.I.lift(v, REAL)


for _d in (1, 2, 3):
    for _k in ('sticky', 'periodic'):
        def _ini(c, d=_d, kind=_k):
            yield 'every location reads the initial value', num(c, c.result) == z3.Real('init')
        lemma('LEMMA_INIT_%d_%s' % (_d, _k), _d, _k, 'vl = ValueLayer(bounds, borders, init)\nreturn vl.get(p)', {'p': pt_arg('p')}, _ini)

        def _rw(c, d=_d, kind=_k):
            before, after, got = c.result
            a, b = bhp(c, kind, c.args['p'], c.args['bounds']), bhp(c, kind, c.args['q'], c.args['bounds'])
            same = eqs(a, b)
            yield 'the written location reads the written value', num(c, got) == z3.Real('v')
            yield 'the same cell reads the written value', z3.Implies(same, num(c, after) == z3.Real('v'))
            yield 'no other cell changes', z3.Implies(z3.Not(same), num(c, after) == num(c, before))
        for _r in (False, True):
            lemma('LEMMA_SET_%d_%s%s' % (_d, _k, '_random' if _r else ''), _d, _k,
                  'vl = ValueLayer(bounds, borders, init)\nhavoc(vl)\nbefore = vl.get(p)\nvl.set(q, v)\nreturn before, vl.get(p), vl.get(q)',
                  {'p': pt_arg('p'), 'q': pt_arg('q'), 'v': lambda I: V(REAL, z3.Real('v'))}, _rw, random=_r)

        def _inb(c, d=_d):
            for k in range(d):
                m, e = c.args['bounds'].ax(c.I, k)
                x = c.I.lift(c.args['p'].coords.items[k], INT)
                yield 'the point is inside the bounds', z3.And(m <= x, x <= m + e - 1)

        class _Sub:
            def __init__(self, I, args, result):
                self.I, self.args, self.result = I, args, result

        def _ng(c, d=_d, kind=_k):
            vals, locs, gets = c.result
            vals, locs = c.I.deref(vals), c.I.deref(locs)
            rows = locs.rows if isinstance(locs, Rows) else [locs]
            yield 'one value per location', z3.BoolVal(vals.aligned(rows[0]) and all(r.aligned(rows[0]) for r in rows) and len(rows) == d)
            gets = [c.I.deref(x) for x in (c.I.payload(c.I.deref(gets)))]
            for i, g in enumerate(vals.guards):
                g = g if not isinstance(g, bool) else z3.BoolVal(g)
                yield 'value %d is the value of location %d' % (i, i), z3.Implies(g, num(c, vals.items[i]) == num(c, gets[i]))
            mm = []
            for k in range(d):
                m, e = c.args['bounds'].ax(c.I, k)
                mm += [V(INT, m), V(INT, z3.simplify(m + e - 1))]
            sub = _Sub(c.I, {'pt': c.args['p'].coords, 'min_max': Vec(mm)}, locs)
            yield from (G.sticky_post(d) if kind == 'sticky' else G.periodic_post(d))(sub)
        lemma('LEMMA_NGHS_%d_%s' % (_d, _k), _d, _k,
              'vl = ValueLayer(bounds, borders, init)\nhavoc(vl)\nvals, locs = vl.get_nghs(p)\nreturn vals, locs, [vl.get(at(locs, i)) for i in range(count(locs))]',
              {'p': pt_arg('p')}, _ng, requires=_inb)


# ---------------------------------------------------------------- V02: shared layers
def shared(d, fields):
    """a SharedValueLayer whose attributes are the given values (functions of the interpreter and the object under construction)"""
    def mk(I):
        obj = V(REF('SharedValueLayer'), z3.Int('arg_self'))
        I.eng.st.pc.append(obj.t > 0)
        for n, f in fields.items():
            I.setov(obj, n, f(I) if callable(f) else f)
        return obj
    return mk


def iv(n):
    return lambda I: V(INT, z3.Int(n))


def locb(d):
    """local bounds: lo, one past hi"""
    def mk(I):
        v = []
        for k in range(3):
            v += [V(INT, z3.Int('l_min%d' % k)), V(INT, z3.Int('l_end%d' % k) - z3.Int('l_min%d' % k)) if k < d else 0]
        return BoxVal(v)
    return mk


def full(d):
    def mk(I):
        v = []
        for k in range(3):
            v += [V(INT, z3.Int('f_min%d' % k)), V(INT, z3.Int('f_end%d' % k) - z3.Int('f_min%d' % k)) if k < d else 0]
        return BoxVal(v)
    return mk


def z(n, k):
    return z3.Int('%s%d' % (n, k))


B = z3.Int('buf')


def part_of(d):
    """the local bounds are a part of the full bounds that some rank owns; another rank's part is at least a buffer wide"""
    for k in range(d):
        yield 'local bounds inside the bounds', z3.And(z('f_min', k) <= z('l_min', k), z('l_min', k) < z('l_end', k), z('l_end', k) <= z('f_end', k))
    yield 'more than one rank along x', z3.Not(z3.And(z('f_min', 0) == z('l_min', 0), z('l_end', 0) == z('f_end', 0)))
    yield 'the buffer size is not negative', B >= 0
    for k in range(d):
        yield 'the buffer fits the local bounds', B <= z('l_end', k) - z('l_min', k)


def grid_lo_hi(c, d, periodic):
    """the cells a rank holds along each dimension: its own and a buffer towards each neighbouring rank"""
    for k in range(d):
        lo, hi = z('l_min', k), z('l_end', k)
        if periodic:
            yield k, lo - B, hi + B
        else:
            yield k, z3.If(z('f_min', k) < lo, lo - B, lo), z3.If(hi < z('f_end', k), hi + B, hi)


for _d in (1, 2):          # three-dimensional shared layers are refused by the constructor
    for _p in (False, True):
        def _ens(c, d=_d, p=_p):
            I = c.I
            box, off = c.result
            box, off = I.deref(box), I.deref(off)
            for k, lo, hi in grid_lo_hi(c, d, p):
                m, e = box.ax(I, k)
                yield 'the grid of dimension %d covers the local bounds and the buffers' % k, z3.And(m == lo, m + e == hi)
            for k in range(d, 3):
                yield 'dimension %d has no extent' % k, box.ax(I, k)[1] == 0
            for k in range(d):
                a, b = (I.lift(off.items[2 * k + j], INT) for j in (0, 1))
                m, e = box.ax(I, k)
                yield 'the offsets of dimension %d locate the local bounds in the grid' % k, z3.And(m + a == z('l_min', k), m + e - b == z('l_end', k))
        nm = 'value_layer.LEMMA_GRID_%d_%s' % (_d, 'periodic' if _p else 'sticky')
        CONTRACTS[nm] = Contract(nm, args={'self': shared(_d, {'local_bounds': locb(_d), 'buffer_size': iv('buf'), 'periodic': _p}), 'bounds': full(_d), 'buffer_size': iv('buf'), 'n': iv('n_ranks')},
                                 requires=(lambda d: lambda c: list(part_of(d)) + [('several ranks', z3.Int('n_ranks') > 1)])(_d), ensures=_ens, apply=False,
                                 code='def lemma(self, bounds, buffer_size, n):\n    self._init_buffered_bounds(bounds, buffer_size, self.periodic)\n    return self._compute_grid_bounds(n), self.non_buff_grid_offsets\n')
        UNITS2 = globals().setdefault('UNITS2', [])
        UNITS2.append(nm)


def _fs_post(periodic):
    def f(c):
        I = c.I
        s, e, full_, grid = (z3.Int(n) for n in ('s0', 'e0', 'full0', 'grid0'))
        res = I.payload(I.deref(c.result))
        sl = [(I.lift(x.lo, INT), I.lift(x.hi, INT)) for x in res]
        g = z3.Int('pos')
        hit = z3.Or(*[z3.And(a <= g, g < b) for a, b in sl]) if sl else z3.BoolVal(False)
        shifts = (0,) if not periodic else (-full_, 0, full_)
        want = z3.Or(*[z3.And(s + d <= g, g < e + d, *([s + d >= 0, e + d <= grid] if periodic else [])) for d in shifts])
        yield 'exactly the positions of the grid that hold the cells, once per whole turn that fits', hit == want
        for a, b in sl:
            yield 'each region has the extent of the cells', b - a == e - s
            yield 'each region lies in the grid', z3.And(a >= 0, b <= grid)
    return f


for _p in (False, True):
    nm = 'value_layer.SharedValueLayer._find_slices'
    cn = 'FIND_SLICES_%s' % ('PERIODIC' if _p else 'STICKY')
    globals()[cn] = Contract(nm, args={'self': shared(1, {'periodic': _p}), 'start_val': iv('s0'), 'end_val': iv('e0'), 'full_extent': iv('full0'), 'grid_extent': iv('grid0')},
                             requires=(lambda p: lambda c: [('a region of the bounds', z3.And(z3.Int('s0') < z3.Int('e0'), z3.Int('full0') > 0))] +
                                       ([] if p else [('inside the grid', z3.And(z3.Int('s0') >= 0, z3.Int('e0') <= z3.Int('grid0')))]))(_p), ensures=_fs_post(_p), apply=False)
    UNITS2.append(cn)


class Holder:
    pass


def mk_layer(d, periodic=True):
    """a shared layer with a grid of arbitrary cells over local bounds and buffers on all sides"""
    def mk(I):
        obj = shared(d, {'local_bounds': locb(d), 'buffer_size': iv('buf'), 'periodic': periodic})(I)
        impl = V(REF('_Impl%dD' % d), z3.Int('arg_impl'))
        I.eng.st.pc.append(impl.t > 0)
        ext = [z('l_end', k) - z('l_min', k) + 2 * B for k in range(d)]
        t = Tensor(list(reversed(ext)), z3.Const('cells0', z3.ArraySort(*([z3.IntSort()] * d + [z3.RealSort()]))))
        I.setov(impl, 'grid', t)
        I.setov(impl, 'pt_translation', Vec([V(INT, B - z('l_min', k)) if k < d else 0 for k in range(3)]))
        I.setov(obj, 'impl', impl)
        return obj
    return mk


def cellf(c, old=False):
    I = c.I
    t = I.deref(I.getattr(I.getattr(c.args['self'], 'impl'), 'grid'))
    arr = z3.Const('cells0', t.arr.sort()) if old else t.arr
    return lambda *ix: z3.Select(arr, *ix)


def _selfbuf(axis):
    def f(c):
        # positions of the grid: row i, column j
        i, j = z3.Int('pi'), z3.Int('pj')
        ex, ey = z('l_end', 0) - z('l_min', 0), z('l_end', 1) - z('l_min', 1)
        new, old = cellf(c), cellf(c, True)
        a, ea = (j, ex) if axis == 0 else (i, ey)
        o, eo = (i, ey) if axis == 0 else (j, ex)
        inside = z3.And(i >= 0, j >= 0, i < ey + 2 * B, j < ex + 2 * B)
        low = z3.And(a < B, o >= B, o < B + eo)
        high = z3.And(a >= B + ea, o >= B, o < B + eo)
        sh = (lambda n: old(i, j + n)) if axis == 0 else (lambda n: old(i + n, j))
        yield 'the low buffer holds the cells at the high end', z3.Implies(z3.And(inside, low), new(i, j) == sh(ea))
        yield 'the high buffer holds the cells at the low end', z3.Implies(z3.And(inside, high), new(i, j) == sh(-ea))
        yield 'no other cell changes', z3.Implies(z3.And(inside, z3.Not(low), z3.Not(high)), new(i, j) == old(i, j))
    return f


def _local_ok(d):
    return lambda c: [('local bounds', z3.And(*[z('l_min', k) < z('l_end', k) for k in range(d)])), ('the buffer is at least one cell and fits', z3.And(B >= 1, *[B <= z('l_end', k) - z('l_min', k) for k in range(d)]))]


for _a, _n in enumerate('XY'):
    nm = 'value_layer.SharedValueLayer._buffer_self_' + _n
    CONTRACTS[nm] = Contract(nm, args={'self': mk_layer(2)}, requires=_local_ok(2), ensures=_selfbuf(_a), apply=False)
    UNITS2.append(nm)

for _d in (1, 2):
    def _iv(c, d=_d):
        ix = [z3.Int('pi%d' % k) for k in range(d)]          # per dimension x, y
        new, old = cellf(c), cellf(c, True)
        r = list(reversed(ix))
        ext = [z('l_end', k) - z('l_min', k) for k in range(d)]
        grid = z3.And(*[z3.And(ix[k] >= 0, ix[k] < ext[k] + 2 * B) for k in range(d)])
        own = z3.And(*[z3.And(ix[k] >= B, ix[k] < B + ext[k]) for k in range(d)])
        yield 'every cell of the local bounds has the initial value', z3.Implies(own, new(*r) == z3.Real('init'))
        yield 'no cell of the buffers changes', z3.Implies(z3.And(grid, z3.Not(own)), new(*r) == old(*r))
    nm = 'INIT_VALUE_%d' % _d
    globals()[nm] = Contract('value_layer.SharedValueLayer._init_value', args={'self': mk_layer(_d), 'init_value': lambda I: V(REAL, z3.Real('init')), 'nd': const(_d)},
                             requires=_local_ok(_d), ensures=_iv, apply=False)
    UNITS2.append(nm)


class LayerTok(ObjVal):
    """one of the two layers: records what is asked of it"""
    pyname = 'layer'

    def __init__(self, name):
        self.name, self.log = name, []

    def getattr(self, I, name):
        def f(I, a, kw):
            self.log.append((name, [I.deref(x) for x in a]))
            return ('result of', self.name, name)
        return Builtin('layer.' + name, f)


def rw_self(I):
    obj = V(REF('ReadWriteValueLayer'), z3.Int('arg_self'))
    I.eng.st.pc.append(obj.t > 0)
    R, W = LayerTok('read'), LayerTok('write')
    I.setov(obj, 'read_layer', R)
    I.setov(obj, 'write_layer', W)
    I.eng.st.ghost['RW'] = (R, W)
    return obj


def _rw_post(kind):
    def f(c):
        R, W = c.I.eng.st.ghost['RW']
        p = c.args.get('pt')
        r, w = (c.I.deref(c.I.getov(c.args['self'], n)) for n in ('read_layer', 'write_layer'))
        B_ = z3.BoolVal
        if kind == 'swap':
            yield 'the layers are exchanged', B_(r is W and w is R and not R.log and not W.log)
            return
        yield 'the layers stay where they are', B_(r is R and w is W)
        if kind in ('get', 'get_nghs'):
            yield 'answered by the read layer', B_(c.result == ('result of', 'read', kind) and len(R.log) == 1 and R.log[0][0] == kind and R.log[0][1] == [p] and not W.log)
        if kind == 'set':
            yield 'written to the write layer only', B_(len(W.log) == 1 and W.log[0][0] == 'set' and W.log[0][1] == [p, c.args['val']] and not R.log)
        if kind == '_synch_ghosts':
            yield 'both layers are synchronized once', B_([x[0] for x in R.log] == ['_synch_ghosts'] and [x[0] for x in W.log] == ['_synch_ghosts'])
    return f


for _m, _k in (('swap_layers', 'swap'), ('get', 'get'), ('get_nghs', 'get_nghs'), ('set', 'set'), ('_synch_ghosts', '_synch_ghosts')):
    nm = 'value_layer.ReadWriteValueLayer.' + _m
    a = {'self': rw_self}
    if _k in ('get', 'get_nghs', 'set'):
        a['pt'] = pt_arg('p')
    if _k == 'set':
        a['val'] = lambda I: V(REAL, z3.Real('v'))
    CONTRACTS[nm] = Contract(nm, args=a, ensures=_rw_post(_k), apply=False)
    UNITS2.append(nm)
