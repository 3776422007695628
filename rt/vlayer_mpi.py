"""V02 shared value layers. Run under mpirun; every case uses the first k ranks."""
import itertools
import common
from common import Spec, Fail, check
from mpi4py import MPI
import torch
from topo_mpi import world, sub, both, guard, lb, dims_of
from repast4py.context import SharedContext
from repast4py.geometry import BoundingBox
from repast4py.space import DiscretePoint as DP, BorderType
from repast4py.value_layer import SharedValueLayer, ReadWriteValueLayer


def run_v02(case):
    comm = sub(case['n'])
    if comm == MPI.COMM_NULL:
        return
    d, buf, per = case['dims'], case['buf'], case['periodic']
    b = []
    for i in range(3):
        b += [case['min'][i], case['ext'][i]] if i < d else [0, 0]
    box = BoundingBox(*b)
    G = lb(box)
    bt = BorderType.Periodic if per else BorderType.Sticky
    dt = [torch.float64, torch.int64, torch.float32][case['dt']]
    rw = case['rw']
    v = (ReadWriteValueLayer if rw else SharedValueLayer)(comm, box, bt, buf, case['init'], dt)
    layers = [v.read_layer, v.write_layer] if rw else [v]
    mine = lb(layers[0].local_bounds)
    boxes = comm.allgather(mine)

    def cells(bx, pad=0):
        return itertools.product(*[range(bx[i][0] - pad, bx[i][0] + bx[i][1] + pad) if i < d else [0] for i in range(3)])

    def norm(p):
        return tuple(G[i][0] + (p[i] - G[i][0]) % G[i][1] if i < d else 0 for i in range(3))

    own = [{c: None for c in cells(mine)} for _ in layers]
    for o, l in zip(own, layers):
        for c in o:
            o[c] = l.get(DP(*c)).item() if case['init'] == 'random' else case['init']

    def owned(op):
        for k, (o, l) in enumerate(zip(own, layers)):
            for c, x in o.items():
                y = l.get(DP(*c)).item()
                check(y == x, 'V02: after %s rank %d has %s in its own cell %s, not %s', op, comm.rank, y, c, x)

    def buffers(op):
        allv = comm.allgather([list(o.items()) for o in own])

        def f():
            owned(op)
            for k, l in enumerate(layers):
                glob = {}
                for r in allv:
                    glob.update(dict(r[k]))
                for c in cells(mine, buf if comm.size > 1 else 0):
                    n = norm(c)
                    if not per and n != c:
                        continue
                    y = l.get(DP(*c)).item()
                    check(y == glob[n], 'V02: after %s rank %d of %d reads %s at %s, its owner has %s (%s, own %s)', op, comm.rank, comm.size, y, c, glob[n], box, mine)
            l = layers[0]
            if buf > 0:
                glob = {}
                for r in allv:
                    glob.update(dict(r[0]))
                for c in list(cells(mine))[:60]:
                    vals, locs = v.get_nghs(DP(*c))
                    locs = locs.reshape(d, -1)
                    for j, x in enumerate(vals):
                        n = norm(tuple(int(locs[i][j]) if i < d else 0 for i in range(3)))
                        check(x.item() == glob[n], 'V02: after %s rank %d sees %s at %s next to %s, its owner has %s', op, comm.rank, x.item(), n, c, glob[n])
        both(comm, f)
    buffers('creation')
    ctx = SharedContext(comm)
    ctx.add_value_layer(v)
    for op in case['ops']:
        if op[0] == 'set':
            # cells drawn by index from those of each rank
            for q, x in zip(op[1], op[2]):
                cs = list(own[-1])
                if not cs:
                    continue
                c = cs[(q * (comm.rank + 3)) % len(cs)]
                x = x * (comm.rank + 1)
                v.set(DP(*c), x)
                own[-1][c] = x
            both(comm, lambda: owned(op))
        elif op[0] == 'swap' and rw:
            a = v.read_layer, v.write_layer
            v.swap_layers()
            check(v.read_layer is a[1] and v.write_layer is a[0], 'V02: swap')
            layers.reverse()
            own.reverse()
            both(comm, lambda: owned(op))
        elif op[0] == 'sync':
            if op[1]:
                ctx.synchronize(None)
            elif rw:
                v._synch_ghosts()
            else:
                v._synch_ghosts()
            buffers(op)


def gen_v02(rng, i):
    d = rng.choice([1, 2, 2, 2])
    n = rng.randint(1, world.size)
    dm = dims_of(n, d)
    buf = rng.choice([1, 1, 2, 3])
    c = {'n': n, 'dims': d, 'ext': [dm[k] * buf + rng.randint(0, 7) if k < d else 1 for k in range(3)], 'min': [rng.choice([0, 0, -4, 3, 10]) for _ in range(3)],
         'periodic': rng.random() < 0.5, 'buf': buf, 'dt': rng.choice([0, 0, 1, 2]), 'init': rng.choice([0, 5, 'random']), 'rw': rng.random() < 0.35}
    if c['dt'] == 1 and c['init'] == 'random':
        c['dt'] = 0
    ops = []
    for k in range(rng.randint(2, 6)):
        m = rng.randint(1, 12)
        ops.append(['set', [rng.randrange(1000) for _ in range(m)], [rng.randint(1, 9999) for _ in range(m)]])
        if rng.random() < 0.3:
            ops.append(['swap'])
        if rng.random() < 0.7:
            ops.append(['sync', rng.random() < 0.5])
    ops.append(['sync', True])
    c['ops'] = ops
    return c


PROPS = {'V02': Spec(gen_v02, guard('V02', run_v02), mpi=True, cases=150, thorough=1500)}

if __name__ == '__main__':
    common.main(PROPS)
