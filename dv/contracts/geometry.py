"""Contracts for repast4py/geometry.py: the neighbour finders (G08)."""
import itertools
import z3
from ..core import *
from ..pyfront import *
from ..pyfront import Contract
from .. import nparr
from ..nparr import Vec, Rows

SCHEMA, CONTRACTS, LOOPS, MODELS = {}, {}, {}, dict(nparr.MODELS)


def intvec(name, n):
    return lambda I: Vec([V(INT, z3.Int('%s_%d' % (name, i))) for i in range(n)])


def rows_of(c, d):
    r = c.result
    if isinstance(r, Vec):
        return [r]
    if isinstance(r, Rows):
        return r.rows
    raise Unsupported('result')


def terms(c, d):
    """per element: guard and coordinates, in x, y, z order"""
    rows = rows_of(c, d)
    if len(rows) != d:
        return None
    I = c.I
    g = [x if not isinstance(x, bool) else z3.BoolVal(x) for x in rows[0].guards]
    cols = [[I.lift(x, INT) for x in r.items] for r in rows]
    o = c.args.get('pytorch_order')
    if d > 1 and o is not None:
        o = I.lift(o, BOOL)
        cols = [[z3.If(o, b, a) for a, b in zip(cols[k], cols[d - 1 - k])] for k in range(d)]
    return [(g[i], [cols[k][i] for k in range(d)]) for i in range(len(g))]


def pt_mm(c, d):
    p = [c.I.lift(x, INT) for x in c.args['pt'].items]
    m = [c.I.lift(x, INT) for x in c.args['min_max'].items]
    return p, m


def offsets(d):
    return list(itertools.product((-1, 0, 1), repeat=d))


def sticky_post(d):
    def f(c):
        p, m = pt_mm(c, d)
        ts = terms(c, d)
        if ts is None:
            yield 'one row per dimension', z3.BoolVal(False)
            return
        def inside(q):
            return z3.And(*[z3.And(q[k] >= m[2 * k], q[k] <= m[2 * k + 1]) for k in range(d)])
        yield 'every result is inside the bounds', z3.And(*[z3.Implies(g, inside(q)) for g, q in ts])
        yield 'every result is adjacent to the point or the point itself', z3.And(*[z3.Implies(g, z3.And(*[z3.And(q[k] - p[k] <= 1, p[k] - q[k] <= 1) for k in range(d)])) for g, q in ts])
        for o in offsets(d):
            w = [p[k] + o[k] for k in range(d)]
            n = z3.Sum([z3.If(z3.And(g, *[q[k] == w[k] for k in range(d)]), 1, 0) for g, q in ts])
            yield 'the cell at offset %s is returned exactly once if it is inside the bounds' % (o,), n == z3.If(inside(w), 1, 0)
    return f


def wrap(x, lo, hi):
    return lo + (x - lo) % (hi - lo + 1)


def periodic_post(d):
    def f(c):
        p, m = pt_mm(c, d)
        ts = terms(c, d)
        if ts is None:
            yield 'one row per dimension', z3.BoolVal(False)
            return
        for j, (g, q) in enumerate(ts):
            yield 'result %d is inside the bounds' % j, z3.Implies(g, z3.And(*[z3.And(q[k] >= m[2 * k], q[k] <= m[2 * k + 1]) for k in range(d)]))
        # for an arbitrary cell: it is returned as often as it is the image of an offset
        w = [z3.Int('cell_%d' % k) for k in range(d)]
        img = [z3.And(*[w[k] == wrap(p[k] + o[k], m[2 * k], m[2 * k + 1]) for k in range(d)]) for o in offsets(d)]
        got = [z3.And(g, *[q[k] == w[k] for k in range(d)]) for g, q in ts]
        yield 'as many results as offsets', z3.BoolVal(len(ts) == 3 ** d)
        # element by element where the code keeps an order of its own: each result is the image of an offset of its own
        used = match(c, ts, p, m, d)
        if used is not None:
            for j, o in enumerate(used):
                g, q = ts[j]
                yield 'result %d is the cell at offset %s, wrapped into the bounds' % (j, o), z3.And(g, *[q[k] == wrap(p[k] + o[k], m[2 * k], m[2 * k + 1]) for k in range(d)])
            yield 'each offset is used once', z3.BoolVal(sorted(used) == sorted(offsets(d)))
        else:
            yield 'every cell is returned as often as it is the image of an offset', z3.Sum([z3.If(x, 1, 0) for x in got]) == z3.Sum([z3.If(x, 1, 0) for x in img])
    return f


def match(c, ts, p, m, d):
    """which offset each result stems from, found by evaluating at one sample; the obligations then prove it for all"""
    I = c.I
    sub = []
    for k in range(d):
        sub += [(p[k], z3.IntVal(50 + 7 * k)), (m[2 * k], z3.IntVal(0)), (m[2 * k + 1], z3.IntVal(1000))]
    o = c.args.get('pytorch_order')
    if o is not None and isv(o):
        sub.append((o.t, z3.BoolVal(False)))
    out = []
    for g, q in ts:
        off = []
        for k in range(d):
            v = z3.simplify(z3.substitute(q[k], *sub))
            if not z3.is_int_value(v):
                return None
            off.append(v.as_long() - 50 - 7 * k)
        if tuple(off) not in offsets(d):
            return None
        out.append(tuple(off))
    return out


def bounds_ok(d):
    def f(c):
        p, m = pt_mm(c, d)
        return [('the bounds hold at least one cell', z3.And(*[m[2 * k] <= m[2 * k + 1] for k in range(d)]))]
    return f


for d in (1, 2, 3):
    for kind, post in (('sticky', sticky_post), ('periodic', periodic_post)):
        q = 'geometry.find_%dd_nghs_%s' % (d, kind)
        args = {'pt': intvec('pt', d), 'min_max': intvec('mm', 2 * d)}
        if d > 1:
            args['pytorch_order'] = BOOL
        CONTRACTS[q] = Contract(q, args=args, requires=bounds_ok(d), ensures=post(d), modifies=lambda c: [])
        if d > 1:
            a2 = {k: v for k, v in args.items() if k != 'pytorch_order'}
            globals()['DEFAULT_%d_%s' % (d, kind.upper())] = Contract(q, args=a2, requires=bounds_ok(d), ensures=post(d), modifies=lambda c: [], apply=False)


def dims_post(c):
    b = c.args['box']
    ye, ze = c.I.lift(b[3], INT), c.I.lift(b[5], INT)
    yield 'the number of dimensions with an extent', c.res == z3.If(z3.And(ye == 0, ze == 0), 1, z3.If(ze == 0, 2, 3))
