"""L01 logged data: reducing data sets and tabular loggers on 1 to 3 ranks against a global model."""
import csv, io, json, os, shutil, tempfile
from dataclasses import dataclass, make_dataclass
import common
from common import Spec, Fail, check
from mpi4py import MPI
import numpy as np
from topo_mpi import sub, both, guard
from repast4py import logging as L

OPS = {'SUM': (MPI.SUM, sum), 'MIN': (MPI.MIN, min), 'MAX': (MPI.MAX, max)}
TYPES = [int, float, np.int32, np.float64]


def val(rank, tick, j):
    return ((rank + 1) * 7919 + tick * 31 + j * 5) % 101 - 50


def run_l01(case):
    comm = sub(case['n'])
    if comm == MPI.COMM_NULL:
        return
    tmp = comm.bcast(tempfile.mkdtemp(prefix='vplog') if comm.rank == 0 else None, 0)
    here = os.getcwd()
    try:
        os.chdir(tmp)
        (red if case['kind'] == 'red' else tab)(case, comm, tmp)
    except Fail:
        comm.Barrier()
        raise
    else:
        comm.Barrier()
    finally:
        os.chdir(here)
        if comm.rank == 0:
            shutil.rmtree(tmp, ignore_errors=True)


def red(case, comm, tmp):
    cols = case['cols']            # [type, op, name or None]
    D = make_dataclass('D', [('f%d' % j, TYPES[t]) for j, (t, o, nm) in enumerate(cols)])
    d = D(*[0] * len(cols))
    loggers = []
    if case['one'] and len({o for _, o, _ in cols}) == 1:
        names = None if all(nm is None for _, _, nm in cols) else {'f%d' % j: nm for j, (_, _, nm) in enumerate(cols)}
        loggers = L.create_loggers(d, OPS[cols[0][1]][0], comm.rank, names)
    else:
        for j, (t, o, nm) in enumerate(cols):
            loggers += L.create_loggers(d, OPS[o][0], comm.rank, {'f%d' % j: nm})
    fp = {0: 'x.csv', 1: os.path.join(tmp, 'a', 'b', 'x.csv'), 2: 'out/x.csv'}[case['path']]
    ds = L.ReducingDataSet(loggers, comm, fp, delimiter=case['delim'], buffer_size=case['buf'])
    want = [case['delim'].join(['tick'] + [nm or 'f%d' % j for j, (_, _, nm) in enumerate(cols)])]
    tick = 0
    for op in case['ops']:
        if op[0] == 'log':
            for _ in range(op[1]):
                tk = tick * 0.5 if case['half'] else tick
                for j in range(len(cols)):
                    v = val(comm.rank, tick, j)
                    setattr(d, 'f%d' % j, v + 0.5 if TYPES[cols[j][0]] in (float, np.float64) else v)
                ds.log(tk)
                vs = []
                for j, (t, o, _) in enumerate(cols):
                    xs = [val(r, tick, j) + (0.5 if TYPES[t] in (float, np.float64) else 0) for r in range(comm.size)]
                    vs.append(OPS[o][1](xs))
                want.append(case['delim'].join(str(x) for x in [tk] + vs))
                tick += 1
        elif op[0] == 'write':
            ds.write()
        else:
            ds.close()

        def sofar():
            if comm.rank:
                return
            got = open(fp).read().split('\n')
            check(got[-1] == '', 'L01: the last line of the data set is not complete')
            got.pop()
            check(got == want[:len(got)], 'L01: after %s the data set has %s', op, diff(got, want))
            if op[0] != 'log':
                check(len(got) == len(want), 'L01: after %s the data set has %d of %d lines', op[0], len(got), len(want))
        both(comm, sofar)


def diff(got, want):
    for i, (a, b) in enumerate(zip(got, want)):
        if a != b:
            return 'line %d as %r, expected %r' % (i, a, b)
    return '%d lines, %d expected' % (len(got), len(want))


def tab(case, comm, tmp):
    fp = {0: 'x.csv', 1: os.path.join(tmp, 'a', 'b', 'x.csv'), 2: 'out/x.csv'}[case['path']]
    lg = L.TabularLogger(comm, fp, case['headers'], delimiter=case['delim'])
    rows, mine = [[str(h) for h in case['headers']]], []
    n = 0
    for op in case['ops']:
        if op[0] == 'log':
            k = op[1] % 7 if comm.rank % 2 == 0 else op[1] % 3
            for _ in range(k):
                row = [comm.rank, n] + case['vals'][:len(case['headers']) - 2]
                lg.log_row(*row)
                mine.append(['' if x is None else str(x) for x in row])
                n += 1
        else:
            (lg.write if op[0] == 'write' else lg.close)()
            for r in comm.allgather(mine):
                rows += r
            mine = []

        def sofar():
            if comm.rank:
                return
            with open(fp, newline='') as f:
                got = list(csv.reader(f, delimiter=case['delim']))
            check(got == rows, 'L01: after %s the rows are %s', op[0], diff(got, rows))
        both(comm, sofar)


VALS = ['a,b', 'x', 'q"q', '', 'two\nlines', 3, 2.5, None, 'tab\t', True, -7]


def gen(nprocs):
    def g(rng, i):
        ops = []
        for _ in range(rng.randint(1, 6)):
            x = rng.random()
            ops.append(['log', rng.choice([1, 1, 2, 3, 7, 19, 40])] if x < 0.6 else ['write'] if x < 0.85 else ['close'])
        c = {'n': rng.randint(1, nprocs), 'ops': ops + [['close']], 'delim': rng.choice([',', ';', '|', '\t']), 'path': rng.randrange(3)}
        if i % 2:
            c.update(kind='red', cols=[[rng.randrange(4), rng.choice(list(OPS)), rng.choice([None, 'n%d' % j])] for j in range(rng.randint(1, 3))], half=rng.random() < 0.5,
                     buf=rng.choice([1, 2, 3, 5, 8, 1000, 1000]), one=rng.random() < 0.5)
            if c['one']:
                for x in c['cols']:
                    x[1] = c['cols'][0][1]
            if rng.random() < 0.15:
                c['ops'].insert(0, ['log', rng.choice([499, 500, 501, 999, 1000, 1001, 1503])])
        else:
            k = rng.randint(0, 3)
            c.update(kind='tab', headers=['rank', 'n'] + ['h%d' % j for j in range(k)], vals=[rng.choice(VALS) for _ in range(k)])
        return c
    return g


NP = int(os.environ.get('OMPI_COMM_WORLD_SIZE', '1'))
RED = {'n': NP, 'kind': 'red', 'delim': ',', 'path': 2, 'half': False, 'one': False, 'cols': [[0, 'SUM', None], [1, 'MIN', 'm']]}
FIXED = [dict(RED, buf=b, ops=[['log', k], ['log', 1], ['close'], ['close']]) for b in (1, 499, 500, 501, 1000, 2000) for k in (499, 500, 501, 1000, 1001)]
PROPS = {'L01': Spec(gen(NP), guard('L01', run_l01), fixed=FIXED, mpi=True, cases=300, thorough=5000)}
if __name__ == '__main__':
    common.main(PROPS)
