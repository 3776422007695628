"""Runtime-contract drivers: the contracts of a property, evaluated on executions of the real code.

A driver module defines  PROPS = {'S01': Spec(gen, run, fixed=[...])}  where gen(rng, i) makes a JSON-able case and
run(case) returns None (the contract held) or a message saying which clause failed.
Usage: driver.py --prop S01 --seed 1 --cases 200 --budget 20 --out out.json        (explore)
       driver.py --replay file                                                    (exit 1 if the case still fails)
Under mpirun (Spec.mpi) every rank makes the same cases; run(case) returns each rank's own message.
"""
import argparse, json, os, random, sys, time, traceback


class Spec:
    def __init__(self, gen, run, fixed=(), mpi=False, cases=300, thorough=3000, ops=None, nontrivial=None):
        self.gen, self.run, self.fixed, self.mpi = gen, run, list(fixed), mpi
        self.cases, self.thorough, self.ops = cases, thorough, ops
        self.nontrivial = nontrivial or (lambda c: True)


class Fail(Exception):
    pass


def check(cond, msg, *a):
    if not cond:
        raise Fail(msg % a if a else msg)


def guarded(spec, case):
    try:
        return spec.run(case)
    except Fail as ex:
        return str(ex)
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as ex:
        tb = traceback.extract_tb(ex.__traceback__)
        where = [f for f in tb if '/repast4py/' in f.filename]
        if not where and isinstance(ex, (ImportError, AttributeError, NameError)):
            raise            # the driver's own trouble
        at = ' at %s:%d' % (os.path.basename(where[-1].filename), where[-1].lineno) if where else ''
        return 'unexpected %s: %s%s' % (type(ex).__name__, ex, at)


def shrink(spec, case, msg, deadline):
    """drop operations while the case still fails"""
    key = spec.ops
    if not key or not isinstance(case.get(key), list):
        return case, msg
    changed = True
    while changed and time.time() < deadline:
        changed = False
        i = 0
        n = max(1, len(case[key]) // 2)
        while n >= 1:
            i = 0
            while i < len(case[key]) and time.time() < deadline:
                c = dict(case)
                c[key] = case[key][:i] + case[key][i + n:]
                m = guarded(spec, c)
                if m:
                    case, msg, changed = c, m, True
                else:
                    i += n
            n //= 2
    return case, msg


def main(props):
    ap = argparse.ArgumentParser()
    ap.add_argument('--prop')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--cases', type=int, default=0)
    ap.add_argument('--budget', type=float, default=30)
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--out')
    ap.add_argument('--replay')
    ap.add_argument('--known')
    a = ap.parse_args()
    global OUT
    OUT = a.out
    rank, size, comm = 0, 1, None
    if os.environ.get('OMPI_COMM_WORLD_SIZE'):
        from mpi4py import MPI
        comm = MPI.COMM_WORLD
        rank, size = comm.rank, comm.size
    if a.replay:
        r = json.load(open(a.replay))
        spec = props[r['property']]
        m = collect(comm, guarded(spec, r['case']))
        if rank == 0:
            print(('FAILS: ' + m) if m else 'holds')
        sys.exit(1 if m else 0)
    spec = props[a.prop]
    n = a.cases or (spec.cases if a.tier == 'quick' else spec.thorough)
    known = json.load(open(a.known)) if a.known else []
    rng = random.Random('%s/%d/%d' % (a.prop, a.seed, size))
    t0 = time.time()
    done, distinct, samples, viol, kn = 0, set(), [], None, {}
    cur = a.out + '.cur' if a.out else None
    for i in range(len(spec.fixed) + n):
        stop = time.time() - t0 > a.budget
        if comm is not None:
            stop = comm.bcast(stop, 0)
        if stop:
            break
        case = spec.fixed[i] if i < len(spec.fixed) else spec.gen(rng, i)
        if comm is not None and size > 1:
            case = comm.bcast(case, 0)
        if rank == 0 and cur:
            with open(cur, 'w') as f:
                json.dump(case, f)
        m = collect(comm, guarded(spec, case))
        done += 1
        if rank == 0:
            distinct.add(json.dumps(case, sort_keys=True) if spec.nontrivial(case) else '')
            if len(samples) < 3 and i >= len(spec.fixed):
                samples.append(case)
        if m:
            k = next((k for k in known if k['match'] in m), None)
            if k is not None:
                kn[k['match']] = kn.get(k['match'], 0) + 1
                continue
            if comm is None or size == 1:
                case, m = shrink(spec, case, m, time.time() + 10)
            viol = {'property': a.prop, 'case': case, 'message': m, 'nprocs': size}
            break
    if rank == 0:
        distinct.discard('')
        res = {'property': a.prop, 'evaluations': done, 'distinct': len(distinct), 'samples': samples, 'violation': viol,
               'known': kn, 'nprocs': size, 'wall_s': time.time() - t0}
        if a.out:
            with open(a.out + '.tmp', 'w') as f:
                json.dump(res, f)
            os.rename(a.out + '.tmp', a.out)
        else:
            v = res.pop('violation')
            print(json.dumps(res)[:600])
            print('VIOLATION', json.dumps(v)[:3000])
    sys.exit(0)


OUT = None


def abort(prop, case, msg, nprocs, real):
    """an exception on one rank of several: write the outcome and end all ranks"""
    from mpi4py import MPI
    sys.stderr.write(msg + '\n')
    traceback.print_exc()
    if OUT and real:
        res = {'property': prop, 'evaluations': 1, 'distinct': 1, 'samples': [case], 'known': {}, 'nprocs': nprocs, 'wall_s': 0,
               'violation': {'property': prop, 'case': case, 'message': msg, 'nprocs': nprocs}}
        tmp = '%s.%d' % (OUT, os.getpid())
        with open(tmp, 'w') as f:
            json.dump(res, f)
        os.rename(tmp, OUT)
    else:
        print(('FAILS: ' if real else 'driver error: ') + msg, flush=True)
    MPI.COMM_WORLD.Abort(1)


def collect(comm, m):
    if comm is None or comm.size == 1:
        return m
    ms = comm.allgather(m)
    return '; '.join('rank %d: %s' % (r, x) for r, x in enumerate(ms) if x) or None
