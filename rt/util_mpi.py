"""L02 names of output files (1 to 2 ranks), P01 parameters."""
import json, os, shutil, tempfile, time
from pathlib import Path
import common
from common import Spec, Fail, check
from mpi4py import MPI
import numpy as np
import torch
import yaml
from dataclasses import dataclass
from topo_mpi import sub, both, guard
from repast4py import logging as L, parameters as P, random as R, util as U


@dataclass
class D:
    a: int = 1


def free(path):
    p, op, i = Path(path), Path(path), 1
    root, ext = os.path.splitext(op.name)
    while os.path.lexists(p):
        p = op.parent / ('%s_%d%s' % (root, i, ext))
        i += 1
    return p


def run_l02(case):
    comm = sub(case['n'])
    if comm == MPI.COMM_NULL:
        return
    tmp = comm.bcast(tempfile.mkdtemp(prefix='vpout') if comm.rank == 0 else None, 0)
    here = os.getcwd()
    try:
        os.chdir(tmp)
        l02(case, comm, tmp)
    except Fail:
        comm.Barrier()
        raise
    else:
        comm.Barrier()
    finally:
        os.chdir(here)
        if comm.rank == 0:
            shutil.rmtree(tmp, ignore_errors=True)


def l02(case, comm, tmp):
    me = comm.rank
    req = case['path'] if not case['abs'] else os.path.join(tmp, case['path'])
    root, ext = os.path.splitext(os.path.basename(req))
    par = os.path.dirname(req)
    content = {}
    if me == 0:
        if (case['exist'] or case['mk']) and par:
            os.makedirs(par, exist_ok=True)
        for k in case['exist']:
            f = os.path.join(par, root + ('_%d' % k if k else '') + ext)
            if k in case['dirs']:
                os.mkdir(f)
            else:
                content[f] = 'old %d' % k
                with open(f, 'w') as o:
                    o.write(content[f])
        for nm in case['others']:
            if par == '' or os.path.isdir(par):
                f = os.path.join(par, nm)
                if not os.path.exists(f):
                    content[f] = 'other'
                    with open(f, 'w') as o:
                        o.write('other')
    comm.Barrier()
    made = []
    for use in case['uses']:
        want = str(free(req)) if me == 0 else ''
        comm.Barrier()
        if use == 'find':
            if me == 0:
                got = U.find_free_filename(req)
                check(not os.path.exists(got), 'L02: the name %s exists', got)
                check(str(got) == want, 'L02: the name for %s is %s, not %s', req, got, want)
            continue
        if use == 'tab':
            lg = L.TabularLogger(comm, req, ['x'])
            lg.log_row(me)
            lg.write()
            lg.close()
        elif use == 'red':
            lg = L.ReducingDataSet(L.create_loggers(D(), MPI.SUM, me), comm, req)
            lg.log(1)
            lg.close()
        elif use == 'par' and (par == '' or os.path.isdir(par)):
            if me == 0:
                with open('params.in', 'w') as f:
                    f.write('a: 1\n')
                P.init_params('params.in', '{}', dump_file=req)
        else:
            continue
        comm.Barrier()

        def f():
            if me:
                return
            check(os.path.isfile(want), 'L02: %s wrote no file %s', use, want)
            for p, s in content.items():
                check(os.path.isfile(p) and open(p).read() == s, 'L02: %s changed the existing file %s', use, p)
            content[want] = open(want).read()
            check(content[want] == {'tab': 'x\n' + ''.join('%d\n' % i for i in range(comm.size)), 'red': 'tick,a\n1,%d\n' % comm.size, 'par': 'a: 1\n'}[use].replace('\n', '\r\n' if use == 'tab' else '\n') or
                  content[want].replace('\r', '') == {'tab': 'x\n' + ''.join('%d\n' % i for i in range(comm.size)), 'red': 'tick,a\n1,%d\n' % comm.size, 'par': 'a: 1\n'}[use],
                  'L02: %s wrote %r to %s', use, content[want], want)
        both(comm, f)


def gen_l02(nprocs):
    def g(rng, i):
        nm = rng.choice(['counts.csv', 'out', 'a.tar.gz', '.hidden', 'x_1.csv', 'sp ace.txt', 'x_1_1'])
        ex = sorted(set(rng.choice([0, 0, 0, 1, 2, 3, 4, 10]) for _ in range(rng.randrange(5))))
        if rng.random() < 0.4:
            ex = list(range(rng.randrange(13)))
        return {'n': rng.randint(1, nprocs), 'path': rng.choice(['', '', 'o/', 'o/p/']) + nm, 'abs': rng.random() < 0.5, 'exist': ex, 'mk': rng.random() < 0.5,
                'dirs': [k for k in ex if rng.random() < 0.1], 'others': [rng.choice(['counts_01.csv', 'counts.txt', 'counts_1', 'counts_2.csv2', 'out_x'])],
                'uses': [rng.choice(['find', 'tab', 'red', 'par']) for _ in range(rng.randint(1, 4))]}
    return g


def run_p01(case):
    comm = sub(1)
    if comm == MPI.COMM_NULL:
        return
    tmp = tempfile.mkdtemp(prefix='vppar')
    try:
        fn = os.path.join(tmp, 'p.yaml')
        with open(fn, 'w') as f:
            if case['file'] or not case['empty']:
                yaml.safe_dump(case['file'], f)
        R.init(987654)
        before, bs = R.default_rng, R.seed
        s = '' if case['over'] is None else json.dumps(case['over'])
        args = P.create_args_parser().parse_args([fn] + ([s] if s != '' or case['arg'] else []))
        if s == '' and not case['arg']:
            s = '{}'
        check(args.parameters_file == fn and args.parameters == s, 'P01: the command line %s is parsed as %s', s, args)
        dump = os.path.join(tmp, 'dump.yaml') if case['dump'] else None
        got = P.init_params(args.parameters_file, args.parameters, dump)
        want = dict(case['file'])
        want.update(case['over'] or {})
        check(got == want and all(type(got[k]) is type(want[k]) for k in want), 'P01: the parameters are %s, expected %s', got, want)
        check(P.params is got, 'P01: the published parameters are not those returned')
        if 'random.seed' in want:
            sd = want['random.seed']
            check(R.seed == sd, 'P01: the seed is %s, not %s', R.seed, sd)
            check(R.default_rng.bit_generator.state == np.random.default_rng(sd).bit_generator.state, 'P01: the generator is not seeded with %s', sd)
            x = torch.rand(3).tolist()
            torch.manual_seed(sd)
            check(x == torch.rand(3).tolist(), 'P01: torch is not seeded with %s', sd)
        else:
            check(R.default_rng is before and R.seed == bs, 'P01: the generator is seeded without a seed parameter')
        if dump:
            with open(dump) as f:
                check(yaml.safe_load(f) == want, 'P01: the dumped parameters differ')
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


PV = [0, 1, -4, 2.5, 'text', '', True, None, [1, 2], {'n': {'m': 1}}, 'yes', '1', 1e10]


def gen_p01(rng, i):
    def d():
        x = {rng.choice(['a', 'b', 'world.width', 'c d', 'é', 'stop.at']): rng.choice(PV) for _ in range(rng.randrange(5))}
        if rng.random() < 0.4:
            x['random.seed'] = rng.choice([0, 1, 42, 2 ** 31, 2 ** 40, 7])
        return x
    return {'file': d(), 'over': rng.choice([None, {}, d(), d(), d()]), 'arg': rng.random() < 0.5, 'dump': rng.random() < 0.4, 'empty': rng.random() < 0.5}


NP = int(os.environ.get('OMPI_COMM_WORLD_SIZE', '1'))
L2 = [{'n': 1, 'path': p, 'abs': a, 'exist': list(range(k)), 'mk': True, 'dirs': [], 'others': [], 'uses': [u]} for p in ('x.csv', 'o/x') for a in (True, False) for k in (0, 1, 2, 12) for u in ('find', 'tab', 'red', 'par')]
PROPS = {'L02': Spec(gen_l02(NP), guard('L02', run_l02), fixed=L2, mpi=True, cases=300, thorough=4000),
         'P01': Spec(gen_p01, guard('P01', run_p01), fixed=[{'file': {}, 'over': {'a': 1}, 'arg': False, 'dump': True, 'empty': True}], mpi=True, cases=400, thorough=6000)}
if __name__ == '__main__':
    common.main(PROPS)
