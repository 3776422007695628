"""V01 value layers, on one process."""
import itertools
import common
from common import Spec, Fail, check
from mpi4py import MPI
import numpy as np
import torch
from repast4py.geometry import BoundingBox
from repast4py.space import DiscretePoint as DP, BorderType
from repast4py.value_layer import ValueLayer, SharedValueLayer, ReadWriteValueLayer


def run_v01(case):
    d = case['dims']
    b = []
    for i in range(3):
        b += [case['min'][i], case['ext'][i]] if i < d else [0, 0]
    box = BoundingBox(*b)
    per = case['periodic']
    bt = BorderType.Periodic if per else BorderType.Sticky
    dt = [torch.float64, torch.int64, torch.float32][case['dt']]
    if case['layer'] == 'plain' or d == 3:
        v = ValueLayer(box, bt, case['init'], dt)
    elif case['layer'] == 'shared':
        v = SharedValueLayer(MPI.COMM_SELF, box, bt, case['buf'], case['init'], dt)
    else:
        v = ReadWriteValueLayer(MPI.COMM_SELF, box, bt, case['buf'], case['init'], dt)
    rw = case['layer'] == 'rw' and d < 3
    cells = list(itertools.product(*[range(case['min'][i], case['min'][i] + case['ext'][i]) if i < d else [0] for i in range(3)]))
    model = [{c: None for c in cells}]
    if case['init'] == 'random':
        model = [{c: v.get(DP(*c)).item() for c in cells}]
    else:
        model = [{c: case['init'] for c in cells}]
    if rw:
        model.append({c: (v.write_layer.get(DP(*c)).item()) if case['init'] == 'random' else case['init'] for c in cells})

    def norm(p):
        o = []
        for i in range(3):
            if i >= d:
                o.append(0)
            else:
                mn, ex = case['min'][i], case['ext'][i]
                o.append(mn + (p[i] - mn) % ex if per else max(mn, min(mn + ex - 1, p[i])))
        return tuple(o)

    def all_eq(op):
        for c in cells:
            x = v.get(DP(*c)).item()
            check(x == model[0][c], 'V01: after %s cell %s is %s, not %s (%s)', op, c, x, model[0][c], box)
        g = (v.read_grid if rw else v.grid)
        check(list(g.shape) == [case['ext'][i] for i in range(d)][::-1], 'V01: the tensor has shape %s', list(g.shape))
        for c in cells:
            check(g[tuple(c[i] - case['min'][i] for i in range(d))[::-1]].item() == model[0][c], 'V01: after %s the tensor differs from get at %s', op, c)
    all_eq('init')
    w = model[-1]
    for op in case['ops']:
        if op[0] == 'set':
            p = DP(*op[1])
            v.set(p, op[2])
            check((p.x, p.y, p.z) == tuple(op[1]), 'V01: set changed its point')
            model[-1][norm(op[1])] = op[2]
        elif op[0] == 'get':
            p = DP(*op[1])
            x = v.get(p).item()
            check(x == model[0][norm(op[1])], 'V01: get(%s) is %s, not %s', op[1], x, model[0][norm(op[1])])
            check((p.x, p.y, p.z) == tuple(op[1]), 'V01: get changed its point')
        elif op[0] == 'swap' and rw:
            v.swap_layers()
            model.reverse()
        elif op[0] == 'nghs':
            c = norm(op[1])
            vals, locs = v.get_nghs(DP(*c))
            locs = np.atleast_2d(np.asarray(locs))
            ls = [tuple(int(locs[i][k]) if i < d else 0 for i in range(3)) for k in range(locs.shape[1])]
            check(len(vals) == len(ls), 'V01: %d values for %d neighbours', len(vals), len(ls))
            for l, x in zip(ls, vals):
                check(l in model[0], 'V01: neighbour %s of %s', l, c)
                check(x.item() == model[0][l], 'V01: the neighbour %s of %s has value %s, not %s', l, c, x.item(), model[0][l])
            want = []
            for off in itertools.product(*[(-1, 0, 1) if i < d else (0,) for i in range(3)]):
                p = tuple(c[i] + off[i] for i in range(3))
                if per or norm(p) == p:
                    want.append(norm(p))
            check(sorted(ls) == sorted(want), 'V01: the neighbours of %s are %s, expected %s', c, sorted(ls), sorted(want))
        all_eq(op)


def gen_v01(rng, i):
    d = rng.choice([1, 2, 2, 3])
    c = {'dims': d, 'ext': [rng.randint(1, 5) for _ in range(3)], 'min': [rng.choice([0, 0, -3, 4, 1]) for _ in range(3)],
         'periodic': rng.random() < 0.5, 'layer': rng.choice(['plain', 'plain', 'shared', 'rw']), 'buf': rng.choice([0, 1, 2]), 'dt': rng.choice([0, 0, 1, 2]),
         'init': rng.choice([0, 3, 7, 'random'])}
    if c['dt'] == 1 and c['init'] == 'random':
        c['dt'] = 0
    ops = []
    for k in range(rng.randint(2, 14)):
        p = [rng.randint(c['min'][j] - 7, c['min'][j] + c['ext'][j] + 6) if j < d else 0 for j in range(3)]
        ops.append(rng.choice([['set', p, rng.randint(1, 999)], ['set', p, rng.randint(1, 999)], ['get', p], ['nghs', p], ['swap']]))
    c['ops'] = ops
    return c


PROPS = {'V01': Spec(gen_v01, run_v01, ops='ops', cases=400, thorough=5000)}

if __name__ == '__main__':
    common.main(PROPS)
