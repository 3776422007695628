"""Contracts for repast4py/logging.py (L01, L02)."""
import z3
from ..core import *
from ..pyfront import *
from ..pyfront import Contract, LoopCtx
from . import files as F
from .files import attr, parts, opened, PATH, FILE

NUM = LIST(REAL)
LG = REF('ReducingDataLogger')
COMM = REF('Comm')
ROWS = LIST(ANY)
SCHEMA = dict(F.SCHEMA)
SCHEMA.update({
    'DataSource': {'name': STR, 'value': REAL, 'dtype': ANY},
    'ReducingDataLogger': {'_data': NUM, '_data_source': REF('DataSource'), '_op': ANY, '_rank': INT, '_idx': INT},
    'ReducingDataSet': {'_data_loggers': LIST(LG), '_delimiter': STR, '_comm': COMM, '_rank': INT, '_buffer_size': INT, 'fpath': PATH, 'ticks': NUM},
    'TabularLogger': {'_delimiter': STR, '_comm': COMM, '_rank': INT, '_rows': ROWS, '_fpath': PATH},
    'Comm': {'rank_': INT, 'size_': INT},
    'File': {'path': PATH, 'text': STR, 'blocks': LIST(ROWS)},
})
CONTRACTS = {'util.find_free_filename': F.CONTRACTS['util.find_free_filename']}
LOOPS = {}
MODELS = dict(F.MODELS)


# ---------------------------------------------------------------- numpy arrays of numbers, as lists
def zeros(I, a, kw):
    n = I.lift(a[0], INT)
    I.eng.prove('an array size is not negative', n >= 0, 'safety')
    r = V(NUM, I.eng.alloc())
    I.list_put(r, n, z3.K(z3.IntSort(), z3.RealVal(0)))
    return r


def empty(I, a, kw):
    n = I.lift(a[0], INT)
    I.eng.prove('an array size is not negative', n >= 0, 'safety')
    r = V(NUM, I.eng.alloc())
    I.list_put(r, n, I.eng.fresh('empty', z3.ArraySort(z3.IntSort(), z3.RealSort())))
    return r


def concat(I, a, kw):
    xs = a[0] if isinstance(a[0], tuple) else tuple(I.payload(I.deref(a[0])))
    r = I.deref(xs[0])
    for x in xs[1:]:
        r = I.list_concat(r, x)
    if len(xs) == 1:
        r = I.list_slice(r, Slice(None, None, None))
    return r


@attr
def shape(I, o):
    return (V(INT, I.L(o)[0]),)


@attr
def asize(I, o):
    return V(INT, I.L(o)[0])


def comm_reduce(I, o, a, kw):
    a = list(a) + [None] * (4 - len(a))
    for k, n in enumerate(('sendbuf', 'recvbuf', 'op', 'root')):
        if n in kw:
            a[k] = kw[n]
    if a[3] is None:
        a[3] = 0
    send, recv, op, root = (I.deref(x) for x in a)
    I.mutating()
    ln, el, _ = I.L(send)
    rank = I.getfield(o, 'Comm', 'rank_')
    if recv is not None:
        if not (isinstance(recv, V) and recv.ty is NUM):
            raise Unsupported('receive buffer')
        l2, el2, _ = I.L(recv)
        atroot = z3.And(recv.t != 0, rank.t == I.lift(root, INT))
        I.eng.prove('the receive buffer has the size of what is sent', z3.Implies(atroot, l2 == ln), 'safety')
        I.list_put(recv, l2, z3.If(atroot, I.eng.fresh('reduced', el2.sort()), el2))
    I.eng.st.ghost['reduces'] = I.eng.st.ghost.get('reduces', ()) + ((ln, el, recv, op, root, o),)
    return None


MODELS.update({'numpy.zeros': zeros, 'numpy.empty': empty, 'numpy.concatenate': concat, 'List.shape': shape, 'List.size': asize,
               'Comm.Reduce': comm_reduce, 'Comm.Get_rank': lambda I, o, a, kw: I.getfield(o, 'Comm', 'rank_'), 'Comm.rank': attr(lambda I, o: I.getfield(o, 'Comm', 'rank_'))})


def open_file(I, a, kw):
    f = F.do_open(I, a, kw)
    I.setfield(f, 'blocks', I.newconc('list', []))
    return f


for _m in ('logging', 'parameters'):
    MODELS[_m + '.open'] = open_file


# ---------------------------------------------------------------- one reducing logger
def lg_inv(l):
    yield 'the values logged fit the array', z3.And(0 <= l._idx, l._idx <= l._data.len, l._data.ref >= 1)


def log_post(c):
    s, o = c.self, c.oself
    i = z3.Int('i!lg')
    yield 'one more value', s._idx == o._idx + 1
    yield 'it is the current value of the source', s._data.el[o._idx] == o._data_source.value
    yield 'earlier values are kept', qall(i, z3.Implies(z3.And(0 <= i, i < o._idx), s._data.el[i] == o._data.el[i]), [s._data.el[i]])
    yield from lg_inv(s)
    yield 'the array is allocated', z3.And(s._data.ref >= 1, s._data.ref <= c.I.eng.alloc_top())
    yield 'an array of its own', z3.Or(s._data.ref == o._data.ref, s._data.ref > z3.Int('alloc0') if c.I.top == 'logging.ReducingDataLogger.log' else s._data.ref > c.oldtop)


Q = 'logging.ReducingDataLogger.'
CONTRACTS[Q + 'log'] = Contract(Q + 'log', args={'self': LG}, requires=lambda c: lg_inv(c.self), ensures=log_post,
                                modifies=lambda c: [('ReducingDataLogger._idx', c.self.ref), ('ReducingDataLogger._data', c.self.ref), c.self._data])


def new_post(c):
    # the constructor
    s = c.v(c.result)
    yield 'nothing is logged yet', s._idx == 0
    yield from lg_inv(s)
    yield 'source, operation and rank', z3.And(s._data_source.ref == c.arg('data_source').ref, s._op.ref == c.I.lift(c.args['op'], ANY), s._rank == c.arg('rank'))


def red_post(c):
    s, o = c.self, c.oself
    yield 'the values are discarded', s._idx == 0
    yield from lg_inv(s)
    I = c.I
    root = o._rank == 0
    res = c.res
    ref = res.ref
    yield 'an array on rank 0 only', root == (ref != 0)
    yield 'as many values as were logged', z3.Implies(root, res.len == o._idx)
    if I.top == Q + 'reduce':
        rs = c.I.eng.st.ghost.get('reduces', ())
        yield 'one reduction', z3.BoolVal(len(rs) == 1)
        if len(rs) != 1:
            return
        ln, el, recv, op, rt, comm = rs[0]
        i = z3.Int('i!rd')
        yield 'exactly the logged values in order', z3.And(ln == o._idx, z3.Implies(z3.And(0 <= i, i < o._idx), el[i] == o._data.el[i]))
        yield 'with the operation of the logger, to rank 0, over the communicator given', z3.And(I.lift(op, ANY) == o._op.ref, I.lift(rt, INT) == 0, comm.t == c.arg('comm').ref)
        yield 'the result of that reduction is returned', I.lift(recv, NUM) == ref
    else:
        yield 'a new array', z3.Or(ref == 0, ref > c.oldtop)
        g, g0 = c.ghost['lastres'], c.oldghost['lastres']
        yield 'name of the result', g == z3.Store(g0, s.ref, ref)


CONTRACTS[Q + 'reduce'] = Contract(Q + 'reduce', args={'self': LG, 'comm': COMM}, requires=lambda c: list(lg_inv(c.self)) + [('the rank is that of the communicator', c.self._rank == c.arg('comm').rank_)],
                                   ensures=red_post, result=NUM, modifies=lambda c: [('ReducingDataLogger._idx', c.self.ref)],
                                   ghost=lambda I, c: I.eng.st.ghost.__setitem__('lastres', I.eng.fresh('lastres', z3.ArraySort(z3.IntSort(), z3.IntSort()))))
CONTRACTS['LOGGER_NEW'] = None
LOGGER_NEW = Contract('logging.ReducingDataLogger.__new__', args={'data_source': REF('DataSource'), 'op': ANY, 'rank': INT}, ensures=new_post, apply=False)
del CONTRACTS['LOGGER_NEW']


# ---------------------------------------------------------------- a set of loggers
def ds_inv(c, s, flushed=None):
    ls = s._data_loggers
    i, j = z3.Int('i!ds'), z3.Int('j!ds')
    I = c.I
    L = lambda k: c.view(LG, ls.el[k])
    yield 'there is a logger', ls.len >= 1
    yield 'the loggers are different objects', qall([i, j], z3.Implies(z3.And(0 <= i, i < ls.len, 0 <= j, j < ls.len, i != j), ls.el[i] != ls.el[j]), [z3.MultiPattern(ls.el[i], ls.el[j])])
    yield 'each with an array of its own', qall([i, j], z3.Implies(z3.And(0 <= i, i < ls.len, 0 <= j, j < ls.len, i != j), L(i)._data.ref != L(j)._data.ref), [z3.MultiPattern(ls.el[i], ls.el[j])])
    yield 'each logger is sound', qall(i, z3.Implies(z3.And(0 <= i, i < ls.len), z3.And(
        L(i)._idx >= 0, L(i)._idx <= L(i)._data.len, L(i)._rank == s._rank, ls.el[i] >= 1, ls.el[i] <= c.I.eng.alloc_top(), L(i)._data.ref >= 1, L(i)._data.ref <= c.I.eng.alloc_top(),
        z3.Implies(s._rank == 0, L(i)._data.ref != s.ticks.ref))), [ls.el[i]])
    yield 'rank 0 keeps the ticks, other ranks have no such list', z3.If(s._rank == 0, z3.And(s.ticks.ref >= 1, s.ticks.ref <= c.I.eng.alloc_top()), s.ticks.ref == 0)
    yield 'all loggers hold as many values as there are ticks on rank 0', qall(i, z3.Implies(z3.And(0 <= i, i < ls.len), z3.And(
        L(i)._idx == L(0)._idx, z3.Implies(s._rank == 0, L(i)._idx == s.ticks.len))), [ls.el[i]])
    yield 'the rank is that of the communicator', s._rank == s._comm.rank_


DS = REF('ReducingDataSet')
QS = 'logging.ReducingDataSet.'


def ds_setup(I, args):
    I.eng.st.ghost['lastres'] = z3.Const('lastres0', z3.ArraySort(z3.IntSort(), z3.IntSort()))


STRR = z3.Function('str_' + safe(str(REAL)), z3.RealSort(), z3.StringSort())
ROW = z3.Function('row_prefix', z3.IntSort(), z3.IntSort(), z3.StringSort())
TXT = z3.Function('text_of_rows', z3.IntSort(), z3.StringSort())
VAL = z3.Function('value_at', z3.IntSort(), z3.IntSort(), z3.RealSort())       # column, row


class WriteComp:
    """val_arrays = [x.reduce(comm) for x in loggers]"""
    elem_type = NUM

    def ghosts(self, I):
        return ['lastres']

    def __call__(self, lc):
        s, ls = lc.self, lc.self._data_loggers
        out = lc.loc('__comp0')
        j, k = z3.Int('j!wc'), z3.Int('k!wc')
        L = lambda k: lc.view(LG, ls.el[k])
        L0 = lambda k: lc.view(LG, ls.el[k], old=True)
        g = lc.ghost['lastres']
        n = L0(0)._idx
        arr = lambda k: lc.view(NUM, out.el[k])
        yield 'one array per logger', out.len == lc.i
        yield 'loggers reduced so far are empty', qall(j, z3.Implies(z3.And(0 <= j, j < ls.len), z3.And(
            L(j)._idx == z3.If(j < lc.i, 0, L0(j)._idx))), [ls.el[j]])
        yield 'the arrays are what the reductions gave', qall(j, z3.Implies(z3.And(0 <= j, j < lc.i), out.el[j] == g[ls.el[j]]), [out.el[j]])
        yield 'on rank 0 one value per tick', qall(j, z3.Implies(z3.And(0 <= j, j < lc.i), z3.And(out.el[j] <= lc.I.eng.alloc_top(), (out.el[j] > lc.top0_()) if False else True,
                                                   z3.Implies(s._rank == 0, z3.And(out.el[j] > z3.Int('alloc0'), out.el[j] != out.ref, arr(j).len == n)))), [out.el[j]])
        yield 'no file is opened', z3.BoolVal(len(lc.I.eng.st.ghost.get('opened', ())) == 0)


LOOPS[(QS + 'write', 'comp0')] = WriteComp()


def cols(lc):
    return lc.loc('val_arrays')


def write_rows(lc):
    I = lc.I
    va = cols(lc)
    f = filev(lc)
    a, b = z3.Int('a!wr'), z3.Int('b!wr')
    # the value in column a, row b is named once, when the loop is entered
    arr0 = lambda k: View(I, lc.h0, V(NUM, va.el[k]))
    if not lc.havocked:
        I.eng.assume(qall([a, b], VAL(a, b) == arr0(a).el[b], [VAL(a, b)]))
        I.eng.assume(TXT(0) == z3.StringVal(''))
        I.eng.st.ghost['columns'] = (va, dict(lc.h0))
    i = lc.i
    I.eng.assume(TXT(i + 1) == z3.Concat(TXT(i), ROW(i, va.len), z3.StringVal('\n')))
    yield 'the rows so far are written', f.text == TXT(i)


def filev(lc):
    fs = [v for v in lc.fr.env.values() if isinstance(v, V) and v.ty is FILE]
    if len(fs) != 1:
        raise Unsupported('the file written in the loop')
    return lc.v(fs[0])


def write_cols(lc):
    I = lc.I
    s = lc.self
    f = filev(lc)
    i = I.lift(lc.fr.env['i'], INT) if 'i' in lc.fr.env else None
    j = lc.i
    f0 = View(I, lc.h0, f._v)
    I.eng.assume(ROW(i, 0) == z3.StringVal(''))
    I.eng.assume(ROW(i, j + 1) == z3.If(j == 0, STRR(VAL(0, i)), z3.Concat(ROW(i, j), s._delimiter, STRR(VAL(j, i)))))
    yield 'the columns so far are written', f.text == z3.Concat(f0.text, ROW(i, j))
    fl = I.lift(lc.fr.env['first'], BOOL)
    yield 'the first column', fl == (j == 0)


LOOPS[(QS + 'write', 0)] = write_rows
LOOPS[(QS + 'write', 1)] = write_cols


def write_post(c):
    s, o = c.self, c.oself
    I = c.I
    ls = s._data_loggers
    j = z3.Int('j!wp')
    L = lambda k: c.view(LG, ls.el[k])
    yield from ds_inv(c, s)
    yield 'nothing logged is left', qall(j, z3.Implies(z3.And(0 <= j, j < ls.len), L(j)._idx == 0), [ls.el[j]])
    yield 'the tick list stays the same object', s.ticks.ref == o.ticks.ref
    if I.top != QS + 'write':
        return
    op = opened(c)
    if not op:
        yield 'rank 0 writes', s._rank != 0
        return
    yield 'only rank 0 writes', s._rank == 0
    yield 'one file is opened, to append', z3.BoolVal(len(op) == 1 and op[0][2] == 'a')
    pre, nm, mode, f = op[0]
    fv = c.v(f)
    yield 'it is the file of the data set', z3.And(pre == o.fpath.pre, nm == o.fpath.nm)
    if 'columns' not in I.eng.st.ghost:
        raise Unsupported('the loop over the rows')
    va, h0 = I.eng.st.ghost['columns']
    n = o.ticks.len
    g = c.ghost['lastres']
    VA = View(I, h0, va._v)
    yield 'one column for the ticks and one per logger', VA.len == ls.len + 1
    r = z3.Int('row!wp')
    inr = z3.And(0 <= r, r < n)
    yield 'the first column holds the ticks', z3.Implies(inr, VAL(0, r) == o.ticks.el[r])
    yield 'each other column holds the reduction of its logger', z3.Implies(z3.And(0 <= j, j < ls.len, inr), VAL(j + 1, r) == View(I, h0, V(NUM, g[ls.el[j]])).el[r])
    yield 'exactly the rows, one per tick, are appended', fv.text == TXT(n)


CONTRACTS[QS + 'write'] = Contract(QS + 'write', args={'self': DS}, setup=ds_setup, requires=lambda c: ds_inv(c, c.self), ensures=write_post,
                                   modifies=lambda c: ['ReducingDataLogger._idx', c.self.ticks])


def ds_log_loop(lc):
    s, ls = lc.self, lc.self._data_loggers
    L = lambda k: lc.view(LG, ls.el[k])
    L0 = lambda k: lc.view(LG, ls.el[k], old=True)
    j, k, r = z3.Int('j!dl'), z3.Int('k!dl'), z3.Int('r!dl')
    yield 'values logged', qall(j, z3.Implies(z3.And(0 <= j, j < ls.len), z3.And(
        L(j)._idx == z3.If(j < lc.i, L0(j)._idx + 1, L0(j)._idx), L(j)._idx <= L(j)._data.len, L(j)._data.ref <= lc.I.eng.alloc_top(), L(j)._data.ref >= 1,
        z3.Or(L(j)._data.ref == L0(j)._data.ref, L(j)._data.ref > z3.Int('alloc0')), z3.Implies(j >= lc.i, L(j)._data.ref == L0(j)._data.ref))), [ls.el[j]])
    yield 'arrays of their own', qall([j, k], z3.Implies(z3.And(0 <= j, j < ls.len, 0 <= k, k < ls.len, j != k), L(j)._data.ref != L(k)._data.ref), [z3.MultiPattern(ls.el[j], ls.el[k])])
    yield 'the value of the source is logged', qall(j, z3.Implies(z3.And(0 <= j, j < lc.i), L(j)._data.el[L0(j)._idx] == L0(j)._data_source.value), [ls.el[j]])
    yield 'earlier values are kept', qall([j, r], z3.Implies(z3.And(0 <= j, j < ls.len, 0 <= r, r < L0(j)._idx), L(j)._data.el[r] == L0(j)._data.el[r]), [L(j)._data.el[r]])
    yield 'the ticks stay', z3.And(s.ticks.ref == lc.at0(s).ticks.ref, z3.Implies(s._rank == 0, z3.And(s.ticks.len == lc.at0(s).ticks.len, s.ticks.el == lc.at0(s).ticks.el)))


LOOPS[(QS + 'log', 0)] = ds_log_loop


def ds_log_post(c):
    s, o = c.self, c.oself
    ls = s._data_loggers
    L = lambda k: c.view(LG, ls.el[k])
    L0 = lambda k: c.view(LG, ls.el[k], old=True)
    j, r = z3.Int('j!lp'), z3.Int('r!lp')
    n = L0(0)._idx + 1
    fl = n >= o._buffer_size
    yield from ds_inv(c, s)
    yield 'each logger has one more value, none after a write', qall(j, z3.Implies(z3.And(0 <= j, j < ls.len), L(j)._idx == z3.If(fl, 0, L0(j)._idx + 1)), [ls.el[j]])
    yield 'the value logged is that of the source', z3.Implies(z3.And(0 <= j, j < ls.len), L(j)._data.el[L0(j)._idx] == L0(j)._data_source.value)
    yield 'the tick is kept until the write', z3.Implies(z3.And(s._rank == 0, z3.Not(fl)), z3.And(s.ticks.el[o.ticks.len] == c.arg('tick'), z3.Implies(z3.And(0 <= r, r < o.ticks.len), s.ticks.el[r] == o.ticks.el[r])))


CONTRACTS[QS + 'log'] = Contract(QS + 'log', args={'self': DS, 'tick': REAL}, setup=ds_setup, requires=lambda c: ds_inv(c, c.self), ensures=ds_log_post, apply=False)


# ---------------------------------------------------------------- where data sets and tables are written (L02)
def only_free(c, req, mode='w'):
    op = opened(c)
    p0, n0 = parts(c.I, req)
    for k, (pre, nm, md, f) in enumerate(op):
        yield 'file %d opened for writing is the free name for the request' % k, z3.And(pre == p0, nm == F.FREE(p0, n0), z3.Not(F.EX(pre, nm)))
        yield 'it is created', z3.BoolVal(md in ('w', 'x', 'a'))
    yield 'one file at most', z3.BoolVal(len(op) <= 1)


def hdr_loop(lc):
    f = filev(lc)
    I = lc.I
    ls = lc.loc('data_loggers')
    j = lc.i
    H = z3.Function('header', z3.IntSort(), z3.StringSort())
    I.eng.assume(H(0) == z3.StringVal('tick'))
    I.eng.assume(H(j + 1) == z3.Concat(H(j), lc.loc('self')._delimiter, lc.view(LG, ls.el[j])._data_source.name))
    yield 'the header so far', f.text == H(j)


LOOPS[(QS + '__init__', 0)] = hdr_loop


def ds_new_post(c):
    s = c.v(c.result)
    I = c.I
    op = opened(c)
    H = z3.Function('header', z3.IntSort(), z3.StringSort())
    yield from only_free(c, c.args['fpath'])
    yield 'a file on rank 0 only', z3.BoolVal(len(op) == 1) == (c.arg('comm').rank_ == 0)
    p0, n0 = parts(I, c.args['fpath'])
    yield 'later writes go to that name', z3.And(s.fpath.pre == p0, s.fpath.nm == F.FREE(p0, n0))
    if op:
        ls = c.old('data_loggers')
        I.eng.assume(H(0) == z3.StringVal('tick'))
        for k in range(4):      # instances of the definition of the header
            I.eng.assume(H(k + 1) == z3.Concat(H(k), c.arg('delimiter'), c.view(LG, ls.el[k], old=True)._data_source.name))
        yield 'the header names the tick and each logger', c.v(op[0][3]).text == z3.Concat(H(c.arg('data_loggers').len), z3.StringVal('\n'))
        yield 'no tick yet', s.ticks.len == 0
    yield 'attributes', z3.And(s._data_loggers.ref == c.arg('data_loggers').ref, s._delimiter == c.arg('delimiter'), s._rank == c.arg('comm').rank_, s._buffer_size == c.arg('buffer_size'), s._comm.ref == c.arg('comm').ref)


DATASET_NEW = Contract('logging.ReducingDataSet.__new__', args={'data_loggers': LIST(LG), 'comm': COMM, 'fpath': STR, 'delimiter': STR, 'buffer_size': INT}, ensures=ds_new_post, apply=False)


class CsvVal(ObjVal):
    pyname = 'csv writer'

    def __init__(self, f, delim):
        self.f, self.delim = f, delim

    def getattr(self, I, name):
        if name == 'writerows':
            def rows(I, a, kw):
                r = I.deref(a[0])
                I.list_append(I.getfield(self.f, 'File', 'blocks'), r)
            return Builtin('csv.writerows', rows)
        if name == 'writerow':
            def row(I, a, kw):
                I.eng.st.ghost['headerrow'] = I.eng.st.ghost.get('headerrow', ()) + (I.deref(a[0]),)
            return Builtin('csv.writerow', row)
        raise Unsupported('csv writer.' + name)


def csv_writer(I, a, kw):
    d = kw.get('delimiter', ',')
    I.eng.st.ghost['delims'] = I.eng.st.ghost.get('delims', ()) + (d,)
    return CsvVal(a[0], d)


def comm_gather(I, o, a, kw):
    """on the root: what each rank passed, in the order of ranks"""
    x = I.deref(a[0])
    root = I.lift(kw.get('root', a[1] if len(a) > 1 else 0), INT)
    rank, size = (I.getfield(o, 'Comm', n).t for n in ('rank_', 'size_'))
    ty = LIST(ROWS)
    r = V(ty, I.eng.alloc())
    own = I.list_slice(x, Slice(None, None, None))
    el = I.eng.fresh('gathered', z3.ArraySort(z3.IntSort(), z3.IntSort()))
    j = z3.Int('j!ga')
    I.eng.assume(z3.And(0 <= rank, rank < size, el[rank] == own.t))
    I.list_put(r, size, el)
    I.eng.st.ghost['gathered'] = I.eng.st.ghost.get('gathered', ()) + ((r, own, root),)
    if I.eng.branch(rank == root):
        return r
    return None


MODELS.update({'csv.writer': csv_writer, 'Comm.gather': comm_gather})
TL = REF('TabularLogger')
QT = 'logging.TabularLogger.'


def tl_new_post(c):
    s = c.v(c.result)
    op = opened(c)
    root = c.arg('comm').rank_ == 0
    yield from only_free(c, c.args['fpath'])
    yield 'a file on rank 0 only', z3.BoolVal(len(op) == 1) == root
    p0, n0 = parts(c.I, c.args['fpath'])
    yield 'later writes go to that name', z3.Implies(root, z3.And(s._fpath.pre == p0, s._fpath.nm == F.FREE(p0, n0)))
    yield 'no row yet', s._rows.len == 0
    g = c.I.eng.st.ghost
    if op:
        yield 'the header row', z3.BoolVal(len(g.get('headerrow', ())) == 1 and g['headerrow'][0] is c.I.deref(c.args['headers']))
        yield 'with the delimiter', z3.And(*[c.I.lift(d, STR) == c.arg('delimiter') for d in g['delims']])
    yield 'attributes', z3.And(s._delimiter == c.arg('delimiter'), s._rank == c.arg('comm').rank_, s._comm.ref == c.arg('comm').ref)


TABULAR_NEW = Contract('logging.TabularLogger.__new__', args={'comm': COMM, 'fpath': STR, 'headers': LIST(STR), 'delimiter': STR}, ensures=tl_new_post, apply=False)


def row_post(c):
    s, o = c.self, c.oself
    i = z3.Int('i!rw')
    yield 'one more row', s._rows.len == o._rows.len + 1
    I = c.I
    x = V(ANY, s._rows.el[o._rows.len])
    yield 'it is the row logged', x.t == I.box(I.deref(tuple(c.args['args'])))
    yield 'earlier rows are kept', qall(i, z3.Implies(z3.And(0 <= i, i < o._rows.len), s._rows.el[i] == o._rows.el[i]), [s._rows.el[i]])


def two_values(I):
    return (V(REAL, z3.Real('v0')), V(REAL, z3.Real('v1')))


CONTRACTS[QT + 'log_row'] = Contract(QT + 'log_row', args={'self': TL, 'args': two_values}, ensures=row_post, modifies=lambda c: [c.self._rows], apply=False)


def tw_loop(lc):
    I = lc.I
    g = I.eng.st.ghost['gathered'][-1][0]
    f = filev(lc)
    gv = lc.v(g)
    j = z3.Int('j!tw')
    yield 'the rows of the ranks so far', z3.And(f.blocks.len == lc.i, qall(j, z3.Implies(z3.And(0 <= j, j < lc.i), f.blocks.el[j] == gv.el[j]), [f.blocks.el[j]]))
    yield 'the list of all rows stays', gv.len == View(I, lc.h0, g).len


LOOPS[(QT + 'write', 0)] = tw_loop


def tw_post(c):
    s, o = c.self, c.oself
    I = c.I
    g = I.eng.st.ghost.get('gathered', ())
    op = opened(c)
    yield 'the rows are gathered once, on rank 0', z3.And(z3.BoolVal(len(g) == 1), *[x[2] == 0 for x in g])
    if len(g) != 1:
        return
    r, own, root = g[0]
    i, j = z3.Int('i!tp'), z3.Int('j!tp')
    ow = c.v(own)
    yield 'this rank contributes its rows in order', z3.And(ow.len == o._rows.len, z3.Implies(z3.And(0 <= i, i < ow.len), ow.el[i] == o._rows.el[i]))
    yield 'no row is left', s._rows.len == 0
    yield 'a file on rank 0 only', z3.BoolVal(len(op) >= 1) == (s._comm.rank_ == 0)
    if op:
        pre, nm, mode, f = op[0]
        yield 'one file, to append', z3.BoolVal(len(op) == 1 and mode == 'a')
        yield 'it is the file of the logger', z3.And(pre == o._fpath.pre, nm == o._fpath.nm)
        yield 'with the delimiter', z3.And(*[I.lift(d, STR) == o._delimiter for d in I.eng.st.ghost.get('delims', ())])
        fv, rv = c.v(f), c.v(r)
        yield 'the rows of every rank, in the order of ranks, once', z3.And(fv.blocks.len == s._comm.size_, z3.Implies(z3.And(0 <= j, j < s._comm.size_), fv.blocks.el[j] == rv.el[j]))


CONTRACTS[QT + 'write'] = Contract(QT + 'write', args={'self': TL}, requires=lambda c: [('the rank is that of the communicator', c.self._rank == c.self._comm.rank_)], ensures=tw_post, apply=False)
CONTRACTS[QS + 'close'] = Contract(QS + 'close', args={'self': DS}, setup=ds_setup, requires=lambda c: ds_inv(c, c.self), modifies=lambda c: ['ReducingDataLogger._idx', c.self.ticks],
                                   ensures=lambda c: [('nothing logged is left', qall(z3.Int('j!cl'), z3.Implies(z3.And(0 <= z3.Int('j!cl'), z3.Int('j!cl') < c.self._data_loggers.len), c.view(LG, c.self._data_loggers.el[z3.Int('j!cl')])._idx == 0), [c.self._data_loggers.el[z3.Int('j!cl')]]))], apply=False)
UNITS_L01 = [QS + 'close', Q + 'log', Q + 'reduce', 'LOGGER_NEW', QS + 'write', QS + 'log', 'DATASET_NEW', 'TABULAR_NEW', QT + 'log_row', QT + 'write']
UNITS_L02 = ['util.find_free_filename', 'DATASET_NEW', 'TABULAR_NEW', QS + 'write', QT + 'write']
LOOPS.update(F.LOOPS)
