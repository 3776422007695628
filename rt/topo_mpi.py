"""G04 decomposition, G05 buffer strips, G06 out of bounds routing. Run under mpirun; every case uses the first k ranks."""
import itertools
import os
import common
from common import Spec, Fail, check
from mpi4py import MPI
import numpy as np
from repast4py import core, space
from repast4py.geometry import BoundingBox
from repast4py.space import CartesianTopology, DiscretePoint as DP, ContinuousPoint as CP, BorderType, OccupancyType

world = MPI.COMM_WORLD
subs = {}


def sub(k):
    if k not in subs:
        subs[k] = world.Split(0 if world.rank < k else MPI.UNDEFINED, world.rank)
    return subs[k]


for k in range(1, world.size + 1):
    sub(k)


def box_of(case):
    b = []
    for i in range(3):
        b += [case['min'][i], case['ext'][i]] if i < case['dims'] else [0, 0]
    return BoundingBox(*b)


def both(comm, f):
    m = None
    try:
        f()
    except Fail as ex:
        m = str(ex)
    ms = [x for x in comm.allgather(m) if x]
    if ms:
        raise Fail(ms[0])


def dims_of(size, d):
    return MPI.Compute_dims(size, d)


def lb(b):
    return ((b.xmin, b.xextent), (b.ymin, b.yextent), (b.zmin, b.zextent))


def topo_check(case, t, boxes, procs, comm, tag):
    d = case['dims']
    if tag == 'G04':
        g = box_of(case)
        G = lb(g)
        for r, b in enumerate(boxes):
            for i in range(d):
                check(G[i][0] <= b[i][0] and b[i][0] + b[i][1] <= G[i][0] + G[i][1] and b[i][1] >= 0, 'G04: rank %d has bounds %s outside %s', r, b, g)
        for i in range(d):
            es = [b[i][1] for b in boxes]
            check(max(es) - min(es) <= 1, 'G04: extents in dimension %d are %s', i, es)
        for (r, a), (q, b) in itertools.combinations(enumerate(boxes), 2):
            check(any(a[i][0] + a[i][1] <= b[i][0] or b[i][0] + b[i][1] <= a[i][0] or a[i][1] == 0 or b[i][1] == 0 for i in range(d)), 'G04: ranks %d and %d overlap: %s and %s', r, q, a, b)
        vol = lambda b: int(np.prod([int(b[i][1]) for i in range(d)], dtype=object))
        check(sum(vol(b) for b in boxes) == vol(G), 'G04: the local bounds %s do not cover %s', boxes, g)


def neighbours(case, procs, boxes, coords, me, buf):
    """what each neighbour must get: rank -> set of strips"""
    d = case['dims']
    at = {c: r for r, c in enumerate(coords)}
    mine, lo = coords[me], boxes[me]
    out = {}
    for off in itertools.product((-1, 0, 1), repeat=d):
        c = [mine[i] + off[i] for i in range(d)]
        if case['periodic']:
            c = [c[i] % procs[i] for i in range(d)]
        elif not all(0 <= c[i] < procs[i] for i in range(d)):
            continue
        r = at[tuple(c)]
        if r == me:
            continue
        s = []
        for i in range(3):
            if i >= d:
                s += [0, 0]
            elif off[i] == 0:
                s += [lo[i][0], lo[i][0] + lo[i][1]]
            elif off[i] < 0:
                s += [lo[i][0], lo[i][0] + buf]
            else:
                s += [lo[i][0] + lo[i][1] - buf, lo[i][0] + lo[i][1]]
        out.setdefault(r, set()).add(tuple(s))
    return out


def sub_of(a, b):
    return all(b[2 * i] <= a[2 * i] and a[2 * i + 1] <= b[2 * i + 1] for i in range(3))


def strips_check(got, want, me, where):
    res = {}
    for r, s in got:
        res.setdefault(r, []).append(tuple(int(x) for x in s))
    check(set(res) == set(want), 'G05: %s of rank %d has neighbours %s, expected %s', where, me, sorted(res), sorted(want))
    for r in want:
        for s in res[r]:
            check(s in want[r], 'G05: %s of rank %d buffers %s for rank %d, expected %s', where, me, s, r, sorted(want[r]))
        for s in want[r]:
            check(any(sub_of(s, q) for q in res[r]), 'G05: %s of rank %d does not buffer %s for rank %d, only %s', where, me, s, r, res[r])


def run_topo(tag):
    def run(case):
        comm = sub(case['n'])
        if comm == MPI.COMM_NULL:
            return
        box = box_of(case)
        per = case['periodic']
        t = CartesianTopology(comm, box, per)
        boxes = comm.allgather(lb(t.local_bounds))
        coords = [tuple(c) if isinstance(c, (tuple, list)) else (c,) for c in comm.allgather(tuple(int(x) for x in np.atleast_1d(t.coordinates)))]
        procs = list(t.procs_per_dim)
        d = case['dims']

        def f():
            check(len(set(coords)) == comm.size and int(np.prod(procs)) == comm.size, '%s: coordinates %s in a grid of %s', tag, coords, procs)
            topo_check(case, t, boxes, procs, comm, tag)
            if tag == 'G05':
                for buf in case['bufs']:
                    if any(b[i][1] < buf for b in boxes for i in range(d)):
                        continue
                    want = neighbours(case, procs, boxes, coords, comm.rank, buf)
                    strips_check(list(t.compute_buffer_nghs(buf)), want, comm.rank, 'the topology')
        both(comm, f)
        buf = case['bufs'][0]
        if any(b[i][1] < max(buf, 1) for b in boxes for i in range(d)):
            return
        oc = OccupancyType.Multiple
        bt = BorderType.Periodic if per else BorderType.Sticky
        for mk in (lambda: space.SharedGrid('g', box, bt, oc, buf, comm), lambda: space.SharedCSpace('c', box, bt, oc, buf, comm, 5)):
            s = mk()

            def f2():
                check(lb(s.get_local_bounds()) == boxes[comm.rank], '%s: a shared space has local bounds %s, its topology %s', tag, lb(s.get_local_bounds()), boxes[comm.rank])
                if tag == 'G05':
                    strips_check(list(s._get_buffer_data()), neighbours(case, procs, boxes, coords, comm.rank, buf), comm.rank, 'a shared space')
            both(comm, f2)
    return run


def gen_topo(rng, i):
    d = rng.choice([1, 2, 2, 3, 3])
    n = rng.randint(1, world.size)
    lo = max(dims_of(n, d))
    ext = [rng.choice([rng.randint(lo, 3 * lo + 7), rng.randint(max(dims_of(n, d)[k] if k < d else 1, 1), 60), 10, 23, 100]) for k in range(3)]
    ext = [max(e, dims_of(n, d)[k]) if k < d else e for k, e in enumerate(ext)]
    return {'n': n, 'dims': d, 'ext': ext, 'min': [rng.choice([0, 0, -1, 3, -20, rng.randint(-100, 100), -10**9, 10**10]) for _ in range(3)],
            'periodic': rng.random() < 0.5, 'bufs': [rng.choice([0, 1, 1, 2, 3]), rng.randint(1, 5)]}


# ---------------------------------------------------------------- G06
def run_g06(case):
    comm = sub(case['n'])
    if comm == MPI.COMM_NULL:
        return
    box = box_of(case)
    d = case['dims']
    bt = BorderType.Periodic if case['periodic'] else BorderType.Sticky
    oc = OccupancyType.Single if case['single'] else OccupancyType.Multiple
    disc = case['kind'] == 'grid'
    s = space.SharedGrid('g', box, bt, oc, 1, comm) if disc else space.SharedCSpace('c', box, bt, oc, 1, comm, 3)
    P = DP if disc else CP
    boxes = comm.allgather(lb(s.get_local_bounds()))

    def inside(l, b):
        return all(b[i][0] <= l[i] < b[i][0] + b[i][1] for i in range(d))

    def f():
        ag = [core.Agent(i // 2, i % 2, comm.rank if i % 3 else 0) for i in range(6)]
        live, oob = set(), {}
        for op in case['ops']:
            k = op[1] % len(ag)
            a = ag[k]
            if op[0] == 'add':
                s.add(a)
                live.add(k)
            elif op[0] == 'rm':
                s.remove(a)
                live.discard(k)
                oob.pop(a.uid, None)
            elif op[0] == 'clr':
                s._clear_oob()
                oob = {}
            elif op[0] in ('mv', 'smv') and k in live:
                p = op[2]
                if op[0] == 'smv' and not case['single']:
                    s._move_oob_agent(a, np.array([(int if disc else float)(x) for x in p]))
                    m = s.get_location(a)
                    if m is None:
                        continue
                    got = (m.x, m.y, m.z)
                else:
                    m = s.move(a, P(*p))
                    if m is None:
                        check(case['single'], 'G06: refused')
                        l = s.get_location(a)
                    else:
                        got = (m.x, m.y, m.z)
                if m is not None:
                    if inside(got, boxes[comm.rank]):
                        oob.pop(a.uid, None)
                    else:
                        own = [r for r, b in enumerate(boxes) if inside(got, b)]
                        check(len(own) == 1, 'G06: location %s belongs to ranks %s', got, own)
                        oob[a.uid] = (own[0], got)
            have = {}
            for u, r, pt in s._get_oob():
                check(u not in have, 'G06: two records for agent %s', u)
                have[u] = (r, tuple(x.item() for x in pt))
            check(have == oob, 'G06: rank %d after %s records %s, expected %s', comm.rank, op, have, oob)
    both(comm, f)


def gen_g06(rng, i):
    c = gen_topo(rng, i)
    dm = dims_of(c['n'], c['dims'])
    c['ext'] = [rng.randint(2 * (dm[k] if k < c['dims'] else 1), 12) if 2 * (dm[k] if k < c['dims'] else 1) <= 12 else 2 * dm[k] + rng.randint(0, 5) for k in range(3)]
    c['min'] = [rng.choice([0, 0, -3, 5, -20]) for _ in range(3)]
    c['kind'] = rng.choice(['grid', 'cs'])
    c['single'] = rng.random() < 0.2
    ops = [['add', k] for k in range(6)]
    for _ in range(rng.randint(3, 40)):
        k = rng.randrange(6)
        x = rng.random()
        if x < 0.1:
            ops.append(['rm', k])
        elif x < 0.2:
            ops.append(['add', k])
        elif x < 0.25:
            ops.append(['clr', k])
        else:
            p = [rng.randint(c['min'][j] - 2, c['min'][j] + c['ext'][j] + 1) if j < c['dims'] else 0 for j in range(3)]
            if c['kind'] == 'cs':
                p = [v + rng.choice([0, 0, 0.5, 0.25]) if j < c['dims'] else v for j, v in enumerate(p)]
            ops.append(['smv' if x > 0.93 else 'mv', k, p])
    c['ops'] = ops
    return c


def guard(tag, run):
    def g(case):
        try:
            return run(case)
        except Fail:
            raise
        except BaseException as ex:
            import traceback
            w = [x for x in traceback.extract_tb(ex.__traceback__) if '/repast4py/' in x.filename]
            common.abort(tag, case, '%s: unexpected %s: %s' % (tag, type(ex).__name__, ex), world.size, bool(w) or not isinstance(ex, (NameError, ImportError, IndexError)))
    return g


PROPS = {'G04': Spec(gen_topo, guard('G04', run_topo('G04')), mpi=True, cases=150, thorough=1500),
         'G05': Spec(gen_topo, guard('G05', run_topo('G05')), mpi=True, cases=150, thorough=1500),
         'G06': Spec(gen_g06, guard('G06', run_g06), mpi=True, cases=200, thorough=2000)}

if __name__ == '__main__':
    common.main(PROPS)
