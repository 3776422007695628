"""Contracts on the C++ of the process topology (distributed_space.cpp): properties G04 and G05.

MPI is an assumed contract: a cartesian communicator numbers the points of the process grid it was made with; MPI_Cart_coords and
MPI_Cart_rank are inverse to each other, and MPI_Cart_rank wraps coordinates around exactly in the periodic dimensions.
"""
import ast
import z3
from ..core import *
from ..pyfront import *
from ..pyfront import Contract
from ..pybuiltins import METHODS
from ..cinterp import SP
from . import cgeo
from .cgeo import AX, box, box_wf, box_space

CONTRACTS, LOOPS, MODELS = dict(cgeo.CONTRACTS), dict(cgeo.LOOPS), dict(cgeo.MODELS)
COORD = [z3.Function('cart_coord%d' % i, z3.IntSort(), z3.IntSort()) for i in range(3)]
BOX = REF('BoundingBox')
CART = REF('ompi_communicator_t')


# ---------------------------------------------------------------- arrays: concrete lists or heap lists of known length
def conc(I, n):
    n = z3.simplify(I.lift(n, INT))
    if not z3.is_int_value(n):
        raise Unsupported('a number of dimensions that is not known')
    return n.as_long()


def aget(I, a, i):
    return I.lift(I.getitem(a, i), INT)


def aset(I, a, i, t):
    I.setitem(a, i, V(INT, z3.simplify(t)))


def newfrom(I, s, src):
    src = I.deref(src)
    if isinstance(src, Conc) and s == 'List<Int>':
        return I.newconc('list', list(I.payload(src)))
    return SP['@newfrom'](I, s, src)


def cl(name, f):
    """an operation on a list that is also known element by element"""
    def g(I, l, *a):
        d = I.deref(l)
        if isinstance(d, Conc):
            return f(I, d, *a)
        if '@list.' + name not in SP:
            raise Unsupported('list.' + name)
        return SP['@list.' + name](I, l, *a)
    for k in ('list', 'vector'):
        MODELS['@%s.%s' % (k, name)] = g


def c_pop(i):
    def f(I, d):
        p = I.payload(d)
        I.eng.prove('pop of a non-empty list', z3.BoolVal(len(p) > 0), 'safety')
        I.mutating()
        if p:
            p.pop(i)
    return f


def c_at(i):
    def f(I, d):
        p = I.payload(d)
        I.eng.prove('element of a non-empty list', z3.BoolVal(len(p) > 0), 'safety')
        if not p:
            raise Unsupported('element of an empty list')
        return p[i]
    return f


def c_push(I, d, x):
    I.mutating()
    I.payload(d).append(x)


cl('pop_front', c_pop(0))
cl('pop_back', c_pop(-1))
cl('front', c_at(0))
cl('back', c_at(-1))
cl('push_back', c_push)
cl('size', lambda I, d: len(I.payload(d)))
cl('resize', lambda I, d, n: I.payload(d).__setitem__(slice(None), [0] * conc(I, n)))


def fill_n(I, a, n, v):
    for i in range(conc(I, n)):
        I.setitem(a, i, v)


# ---------------------------------------------------------------- MPI
def newarr(I, n, ty):
    n = z3.simplify(I.lift(n, INT))
    if z3.is_int_value(n) and n.as_long() <= 8:
        r = V(LIST(INT if ty == 'INT' else REAL), I.eng.alloc())
        el, ix = I.list_fresh(r.ty)
        I.list_put(r, n, el, ix)
        return r
    return SP['@newarr'](I, n, ty)


def comm_size(I, comm, out):
    n = z3.Int('world_size')
    I.eng.assume(n >= 1)
    aset(I, out, 0, n)


def comm_rank(I, comm, out):
    r = I.eng.st.ghost.get('myrank')
    if r is None:
        raise Unsupported('rank')
    aset(I, out, 0, r)


def dims_create(I, size, nd, dims):
    for i in range(conc(I, nd)):
        p = z3.Int('procs%d' % i)
        I.eng.assume(p >= 1)
        I.eng.prove('dimensions left for MPI to choose', aget(I, dims, i) == 0, 'safety')
        aset(I, dims, i, p)


def cart_create(I, comm, nd, dims, periods, reorder, out):
    nd = conc(I, nd)
    ds = tuple(aget(I, dims, i) for i in range(nd))
    I.eng.prove('dimensions are positive', z3.And(*[d >= 1 for d in ds]), 'safety')
    I.mutating()
    g = I.eng.st.ghost
    ncart = g.get('carts', ())
    c = V(CART, z3.Int('cart_comm%d' % len(ncart)))
    for o, _, _ in ncart:
        I.eng.assume(o.t != c.t)
    g['carts'] = ncart + ((c, ds, tuple(aget(I, periods, i) != 0 for i in range(nd))),)
    I.eng.assume(c.t != 0)
    I.setitem(out, 0, c)


def grid(I, comm):
    comm = I.deref(comm)
    cs = I.eng.st.ghost.get('carts', ())
    for c, ds, per in cs:
        if isinstance(comm, V) and z3.simplify(comm.t).eq(c.t):
            return ds, per
    raise Unsupported('a communicator that is not cartesian')


def in_grid(I, r, ds):
    """the coordinates of a rank lie in the grid"""
    return z3.And(*[z3.And(0 <= COORD[i](r), COORD[i](r) < d) for i, d in enumerate(ds)])


def rank_of(I, ws):
    F = z3.Function('cart_rank%d' % len(ws), *([z3.IntSort()] * (len(ws) + 1)))
    return F(*ws)


def cart_coords(I, comm, rank, nd, out):
    ds, per = grid(I, comm)
    nd = conc(I, nd)
    r = I.lift(rank, INT)
    if nd != len(ds):
        raise Unsupported('coordinates of another dimension')
    I.eng.assume(in_grid(I, r, ds))
    I.eng.assume(rank_of(I, [COORD[i](r) for i in range(nd)]) == r)
    for i in range(nd):
        aset(I, out, i, COORD[i](r))


def wrapped(c, d, per):
    return z3.If(per, z3.If(c < 0, c + d, z3.If(c >= d, c - d, c)), c)


def cart_rank(I, comm, coords, out):
    ds, per = grid(I, comm)
    cs = [aget(I, coords, i) for i in range(len(ds))]
    I.eng.prove('coordinates in the grid, at most one turn around a periodic one', z3.And(*[z3.If(p, z3.And(-d <= c, c < 2 * d), z3.And(0 <= c, c < d)) for c, d, p in zip(cs, ds, per)]), 'safety')
    ws = [wrapped(c, d, p) for c, d, p in zip(cs, ds, per)]
    r = rank_of(I, ws)
    I.eng.assume(z3.And(r >= 0, *[COORD[i](r) == w for i, w in enumerate(ws)]))
    aset(I, out, 0, r)


def deref(I, x):
    d = I.deref(x)
    if isinstance(d, Conc):
        return I.getitem(d, 0)
    return SP['@deref'](I, x)


def build_value(I, fmt, *a):
    I.mutating()
    o = V(ANY, I.eng.alloc())
    I.eng.st.ghost['built'] = I.eng.st.ghost.get('built', ()) + ((o, fmt, a),)
    return o


MODELS.update({'@newfrom': newfrom, '@newarr': newarr, '@fill_n': fill_n, '@MPI_Comm_size': comm_size, '@MPI_Comm_rank': comm_rank, '@MPI_Dims_create': dims_create, '@MPI_Cart_create': cart_create,
               '@MPI_Cart_coords': cart_coords, '@MPI_Cart_rank': cart_rank, '@deref': deref, '@_Py_BuildValue_SizeT': build_value, '@Py_BuildValue': build_value})


# ---------------------------------------------------------------- G04: the local bounds
CTOR = {'chosen by MPI': '__init__(ompi_communicator_t*,MPI_Comm*,int,BoundingBox&,bool)', 'given': '__init__(ompi_communicator_t*,MPI_Comm*,vector<int>&,BoundingBox&,bool)'}


def topology(nd, kind):
    def f(I, a, kw):
        bounds, periodic = a
        comm = V(CART, z3.Int('world'))
        out = I.newconc('list', [None])
        if kind == 'given':
            dims = I.newconc('list', [V(INT, z3.Int('procs%d' % i)) for i in range(nd)])
            I.eng.assume(z3.And(*[z3.Int('procs%d' % i) >= 1 for i in range(nd)]))
        else:
            dims = nd
        return SP['@construct'](I, 'CartesianTopology', CTOR[kind], comm, out, dims, bounds, periodic)
    return f


def local_of(I, a, kw):
    """the local bounds the topology gives to a rank"""
    t, r, b = a
    old = I.eng.st.ghost.get('myrank')
    I.eng.st.ghost['myrank'] = I.lift(r, INT)
    c = I.repo.cls('CartesianTopology')
    I.call_func(c.members['getBounds(BoundingBox&)'], [t, b], {})
    I.eng.st.ghost['myrank'] = old
    return None


MODELS['cxx.local_of'] = local_of
CODE = '''def lemma(bounds, periodic, ra, rb, ba, bb):
    t = %s(bounds, periodic)
    local_of(t, ra, ba)
    local_of(t, rb, bb)
'''


def tiling(nd, kind):
    mk = 'topology_%d_%s' % (nd, kind.replace(' ', '_'))
    MODELS['cxx.' + mk] = topology(nd, kind)

    def pre(c):
        b = c.arg('bounds')
        yield 'bounds of a space of this dimension', z3.And(box_space(b), b.num_dims == nd)
        yield 'boxes to fill in', z3.And(c.arg('ba').ref != c.arg('bb').ref, c.arg('ba').ref != b.ref, c.arg('bb').ref != b.ref)

    def post(c):
        I = c.I
        g = c.old('bounds')
        ra, rb = c.arg('ra'), c.arg('rb')
        A, B, G = box(c.arg('ba')), box(c.arg('bb')), box(g)
        cs = I.eng.st.ghost.get('carts', ())
        yield 'one process grid', z3.BoolVal(len(cs) == 1 and len(cs[0][1]) == nd)
        ds, per = cs[0][1], cs[0][2]
        yield 'periodic as asked for', z3.And(*[p == c.arg('periodic') for p in per])
        for b in (c.arg('ba'), c.arg('bb')):
            yield 'a box', box_wf(b)
        for i in range(3):
            if i >= nd:
                yield 'no further dimension (%s)' % AX[i], z3.And(A[i][1] == 0, B[i][1] == 0)
                continue
            ca, cb, P = COORD[i](ra), COORD[i](rb), ds[i]
            (lo, e), (lo2, e2), (m, ext) = A[i], B[i], G[i]
            n = ' (%s)' % AX[i]
            yield 'inside the global bounds' + n, z3.And(m <= lo, lo + e <= m + ext, e >= 0)
            yield 'the first rank starts at the lower bound' + n, z3.Implies(ca == 0, lo == m)
            yield 'the last rank ends at the upper bound' + n, z3.Implies(ca == P - 1, lo + e == m + ext)
            yield 'the next rank starts where this one ends' + n, z3.Implies(cb == ca + 1, lo2 == lo + e)
            yield 'ranks further along do not overlap' + n, z3.Implies(cb > ca, lo2 >= lo + e)
            yield 'ranks level in this dimension have the same interval' + n, z3.Implies(ca == cb, z3.And(lo == lo2, e == e2))
            yield 'extents differ by at most one' + n, z3.And(e - e2 <= 1, e2 - e <= 1)
    q = 'TILING_%d_%s' % (nd, 'MPI' if 'MPI' in kind else 'GIVEN')
    globals()[q] = Contract('cxx.CartesianTopology.' + q, args={'bounds': BOX, 'periodic': BOOL, 'ra': INT, 'rb': INT, 'ba': BOX, 'bb': BOX}, requires=pre, ensures=post, apply=False,
                            exc_ok=('invalid_argument',) if kind == 'given' else (), code=CODE % mk)
    return q


UNITS_G04 = [tiling(nd, k) for nd in (1, 2, 3) for k in CTOR]


# ---------------------------------------------------------------- G05: neighbours and their buffers
def nghs_of(I, a, kw):
    t, lb, bs = a
    nghs = I.newconc('list', [])
    coords = I.newconc('list', [])
    c = I.repo.cls('CartesianTopology')
    I.call_func(c.members['getCoords'], [t, coords], {})
    I.call_func(c.members['getNeighbors'], [t, nghs], {})
    I.call_func(c.members['getBounds(BoundingBox&)'], [t, lb], {})
    nd = I.call_func(c.members['numDims'], [t], {})
    ppd = I.call_func(c.members['procsPerDim'], [t], {})
    I.call_func(I.repo.find('cxx.compute_neighbor_buffers'), [nghs, coords, lb, nd, ppd, bs], {})
    own = []
    for e in list(I.payload(nghs)):
        b = SP['@agg'](I, 'BoundingBox')
        local_of(I, [t, I.getattr(e, 'rank'), b], {})
        own.append(b)
    return (nghs, I.newconc('list', own))


MODELS['cxx.nghs_of'] = nghs_of
CODE_N = '''def lemma(bounds, periodic, lb, buffer_size):
    return nghs_of(%s(bounds, periodic), lb, buffer_size)
'''


def strips(nd, only=None):
    mk = 'topology_%d_chosen_by_MPI' % nd

    def setup(I, args):
        I.eng.st.ghost['myrank'] = z3.Int('myrank')

    def pre(c):
        b = c.arg('bounds')
        yield 'bounds of a space of this dimension', z3.And(box_space(b), b.num_dims == nd)
        yield 'a box to fill in', c.arg('lb').ref != b.ref
        yield 'a buffer', z3.And(c.arg('buffer_size') >= 0)
        if only is not None:
            # a split of the cases into units
            x, p = COORD[0](z3.Int('myrank')), z3.Int('procs0')
            yield only, {'PERIODIC': c.arg('periodic'), 'FIRST': z3.And(x == 0, p > 1), 'LAST': z3.And(x == p - 1, p > 1), 'ONLY': z3.And(x == 0, p == 1), 'INNER': z3.And(x != 0, x != p - 1)}[only]
            if only != 'PERIODIC':
                yield 'not periodic', z3.Not(c.arg('periodic'))

    def post(c):
        import itertools
        I = c.I
        me = z3.Int('myrank')
        cs = I.eng.st.ghost.get('carts', ())
        ds, per = cs[0][1], cs[0][2]
        lb = c.arg('lb')
        bs = c.arg('buffer_size')
        L = box(lb)[:nd]
        C = [COORD[i](me) for i in range(nd)]
        offs = [d for d in itertools.product((-1, 0, 1), repeat=nd) if any(d)]
        W = {d: [wrapped(C[i] + d[i], ds[i], per[i]) for i in range(nd)] for d in offs}
        there = {d: z3.And(*[z3.And(0 <= w, w < p) for w, p in zip(W[d], ds)]) for d in offs}
        other = {d: z3.Or(*[w != x for w, x in zip(W[d], C)]) for d in offs}

        def side(i, k):
            lo, e = L[i]
            return (lo, lo + bs) if k == -1 else (lo + e - bs, lo + e) if k == 1 else (lo, lo + e)
        S = {d: [side(i, d[i]) for i in range(nd)] for d in offs}
        built = {z3.simplify(o.t).sexpr(): (f, a) for o, f, a in I.eng.st.ghost.get('built', ())}
        ents = []
        nghs, own = I.untup(c.result) if not isinstance(c.result, tuple) else c.result
        own = [c.v(b) for b in I.payload(I.deref(own))]
        for e in I.payload(I.deref(nghs)):
            v = c.v(e)
            info = built.get(z3.simplify(v.buffer_info.ref).sexpr())
            if info is None or len(info[1]) != 7:
                yield 'a buffer for each neighbour', z3.BoolVal(False)
                return
            a = [I.lift(x, INT) for x in info[1]]
            ents.append((v, a[0], [(a[1 + 2 * i], a[2 + 2 * i]) for i in range(3)]))
        for k, (v, r, s) in enumerate(ents):
            is_d = [z3.And(there[d], *[COORD[i](r) == W[d][i] for i in range(nd)], *[z3.And(s[i][0] == S[d][i][0], s[i][1] == S[d][i][1]) for i in range(nd)]) for d in offs]
            yield 'neighbour %d is next in the process grid, its buffer the strip that faces it' % k, z3.Or(*is_d)
            yield 'neighbour %d is not the rank itself' % k, z3.And(r == v.rank, r != me, z3.Or(*[COORD[i](r) != C[i] for i in range(nd)]))
            for i in range(nd, 3):
                yield 'neighbour %d: no extent in a dimension the space does not have' % k, z3.And(s[i][0] == 0, s[i][1] == 0)
            yield 'neighbour %d: the local bounds that rank has' % k, z3.And(box_wf(v.local_bounds), *[x == y for p, q in zip(box(v.local_bounds), box(own[k])) for x, y in zip(p, q)])
        small = z3.And(*[bs <= e for _, e in L])
        for d in offs:
            cov = [z3.And(*[COORD[i](r) == W[d][i] for i in range(nd)], *[z3.And(s[i][0] <= S[d][i][0], S[d][i][1] <= s[i][1]) for i in range(nd)]) for v, r, s in ents]
            yield 'the rank at offset %s is a neighbour and is sent that strip' % (d,), z3.Implies(z3.And(there[d], other[d], small), z3.Or(*cov) if cov else z3.BoolVal(False))
    q = 'STRIPS_%d' % nd + ('_' + only if only else '')
    globals()[q] = Contract('cxx.CartesianTopology.' + q, args={'bounds': BOX, 'periodic': BOOL, 'lb': BOX, 'buffer_size': INT}, setup=setup, requires=pre, ensures=post, apply=False, code=CODE_N % mk)
    return q


UNITS_G05 = [strips(1), strips(2)] + [strips(3, k) for k in ('PERIODIC', 'FIRST', 'LAST', 'ONLY', 'INNER')]
