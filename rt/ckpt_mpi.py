"""C02 snapshots of agents, locations, networks, saved values and the random state, on 1 to 3 ranks."""
import copy, os, pickle
import common
from common import Spec, Fail, check
from mpi4py import MPI
import numpy as np
from topo_mpi import sub, both, guard
from repast4py import checkpoint as C
from repast4py import core, context, space, random as R
from repast4py.network import DirectedSharedNetwork, UndirectedSharedNetwork
from repast4py.geometry import BoundingBox
from repast4py.space import DiscretePoint as DP, ContinuousPoint as CP, BorderType, OccupancyType


class Ag(core.Agent):
    def __init__(self, id, type, rank, val):
        super().__init__(id=id, type=type, rank=rank)
        self.val = val

    def save(self):
        return (self.uid, self.val)

    def update(self, val):
        self.val = val


def restore(d):
    return Ag(d[0][0], d[0][1], d[0][2], d[1])


def key(directed, u, v):
    return (u, v) if directed or u <= v else (v, u)


class World:
    def __init__(self, case, comm):
        self.case, self.comm = case, comm
        self.ctx = context.SharedContext(comm)
        d, ext, mn = case['dims'], case['ext'], case['min']
        b = []
        for i in range(3):
            b += [mn[i], ext[i]] if i < d else [0, 0]
        box = BoundingBox(*b)
        bt = BorderType.Periodic if case['periodic'] else BorderType.Sticky
        self.spaces = []
        if 'g' in case['proj']:
            self.spaces.append(space.SharedGrid('grid', box, bt, OccupancyType.Multiple, case['buf'], comm))
        if 'c' in case['proj']:
            self.spaces.append(space.SharedCSpace('cs', box, bt, OccupancyType.Multiple, case['buf'], comm, 5))
        self.nets = []
        if 'd' in case['proj']:
            self.nets.append(DirectedSharedNetwork('dnet', comm))
        if 'u' in case['proj']:
            self.nets.append(UndirectedSharedNetwork('unet', comm))
        for p in self.spaces + self.nets:
            self.ctx.add_projection(p)

    def uids(self):
        return sorted(u for x in self.comm.allgather([a.uid for a in self.ctx.agents()]) for u in x)

    def edges(self, n):
        """(u, v) -> attributes, of the edges this rank has"""
        return {key(n.is_directed, u.uid, v.uid): dict(a) for u, v, a in n.graph.edges(data=True)}

    def state(self):
        s = {'agents': {a.uid: copy.deepcopy(a.val) for a in self.ctx.agents()}}
        s['order'] = [a.uid for a in self.ctx.agents()]
        for p in self.spaces:
            s[p.name] = {a.uid: tuple(float(x) for x in np.array(p.get_location(a).coordinates)) for a in self.ctx.agents()}
        for n in self.nets:
            s[n.name] = self.edges(n)
        return s

    def ops(self, ops):
        c, me = self.comm, self.comm.rank
        for op in ops:
            if op[0] == 'move':
                for a in list(self.ctx.agents()):
                    for j, p in enumerate(self.spaces):
                        rng = np.random.default_rng([op[1], a.uid[0], a.uid[2], j])
                        pt = p.get_random_local_pt(rng)
                        p.move(a, pt)
            elif op[0] == 'sync':
                self.ctx.synchronize(restore)
            elif op[0] == 'edge':
                us = self.uids()
                if len(us) < 2:
                    continue
                u, v = us[op[1] % len(us)], us[op[2] % len(us)]
                if u == v:
                    continue
                home = {x: r for r, l in enumerate(c.allgather([a.uid for a in self.ctx.agents()])) for x in l}
                # the owner of u makes the edge, with a requested ghost of v
                req = [(v, home[v])] if home[u] == me != home[v] else []
                self.ctx.request_agents(req, restore)
                if home[u] == me:
                    x = self.ctx.agent(v) or self.ctx.ghost_agent(v)
                    for n in self.nets:
                        n.add_edge(self.ctx.agent(u), x, **op[3])
                self.ctx.synchronize(restore)
            elif op[0] in ('upd', 'rm'):
                for n in self.nets:
                    es = sorted(set().union(*[set(x) for x in c.allgather(self.edges(n))]))
                    if not es:
                        continue
                    u, v = es[op[1] % len(es)]
                    home = {x: r for r, l in enumerate(c.allgather([a.uid for a in self.ctx.agents()])) for x in l}
                    if home[u] == me:
                        x = self.ctx.agent(v) or self.ctx.ghost_agent(v)
                        if op[0] == 'upd':
                            n.update_edge(self.ctx.agent(u), x, **op[2])
                        else:
                            n.remove_edge(self.ctx.agent(u), x)
                    self.ctx.synchronize(restore)
            elif op[0] == 'val':
                for a in self.ctx.agents():
                    a.val = a.val + [op[1]]
            elif op[0] == 'die':
                us = [a for a in self.ctx.agents()]
                if us:
                    self.ctx.remove(us[op[1] % len(us)])
                self.ctx.synchronize(restore)
            elif op[0] == 'rng':
                R.default_rng.random(op[1])


def run_c02(case):
    comm = sub(case['n'])
    if comm == MPI.COMM_NULL:
        return
    me = comm.rank
    R.init(case['seed'] + me)
    w = World(case, comm)
    for i in range(case['pop']):
        if i % comm.size == me:
            a = Ag(i, i % 3, me, [i])
            w.ctx.add(a)
            for j, p in enumerate(w.spaces):
                p.move(a, p.get_random_local_pt(np.random.default_rng([7, i, j])))
    w.ctx.synchronize(restore)
    w.ops(case['before'])
    ck = C.Checkpoint()
    ck.save_random()
    ck.save_agents(w.ctx.agents())
    for p in w.spaces:
        ck.save_space(w.ctx, p)
    for n in w.nets:
        ck.save_network(n, me)
    vals = {'k%d' % i: v for i, v in enumerate(case['vals'])}
    for k, v in vals.items():
        ck.save(k, v)
    want = w.state()
    seed, nxt = R.seed, None
    blob = pickle.dumps(ck) if case['pickle'] else None
    draws = R.default_rng.random(5).tolist()
    w.ops(case['after'])
    if blob:
        ck = pickle.loads(blob)
    for rep in range(case['times']):
        R.init(4711)
        ck.restore_random()
        sd, dr = R.seed, R.default_rng.random(5).tolist()

        def rnd():
            check(sd == seed and dr == draws, 'C02: the random state restored gives seed %s and %s, expected %s and %s', sd, dr, seed, draws)
        both(comm, rnd)
        x = World(case, comm)
        for a in ck.restore_agents(restore):
            x.ctx.add(a)
        for p in x.spaces:
            ck.restore_space(x.ctx, p)
        for n in x.nets:
            ck.restore_network(x.ctx, n, restore)

        def cmp(when):
            got = x.state()
            for k in want:
                check(got[k] == want[k], 'C02: %s rank %d has %s of %s, saved %s', when, me, k, got[k], want[k])
            for n in x.nets:
                for u, v in n.graph.edges:
                    for y in (u, v):
                        check((x.ctx.agent(y.uid) if y.local_rank == me else x.ctx.ghost_agent(y.uid)) is y, 'C02: an edge of rank %d joins a stale agent %s', me, y.uid)

        both(comm, lambda: cmp('after restoring'))
        x.ctx.synchronize(restore)
        both(comm, lambda: cmp('after restoring and synchronizing'))

        def vs():
            for k, v in vals.items():
                got = ck.restore(k, lambda y, *a: (y, a), 1, 'z')
                check(got == (v, (1, 'z')), 'C02: %s restored as %s, saved %s', k, got, v)
        both(comm, vs)
        if rep + 1 < case['times']:
            x.ops(case['after'])


def gen_attr(rng):
    return {rng.choice(['w', 'c']): rng.choice([1, 2.5, 'a', None])for _ in range(rng.choice([0, 1, 2]))}


def gen_ops(rng, proj):
    ks = ['val', 'rng', 'sync', 'die']
    if 'g' in proj or 'c' in proj:
        ks += ['move'] * 3
    if 'd' in proj or 'u' in proj:
        ks += ['edge'] * 6 + ['upd', 'upd', 'rm']
    out = []
    for _ in range(rng.randint(0, 8)):
        k = rng.choice(ks)
        out.append({'val': lambda: ['val', rng.randrange(100)], 'rng': lambda: ['rng', rng.randrange(1, 5)], 'sync': lambda: ['sync'],
                    'die': lambda: ['die', rng.randrange(20)], 'move': lambda: ['move', rng.randrange(1000)],
                    'edge': lambda: ['edge', rng.randrange(20), rng.randrange(20), gen_attr(rng)],
                    'upd': lambda: ['upd', rng.randrange(20), {'w': rng.randrange(9)}], 'rm': lambda: ['rm', rng.randrange(20)]}[k]())
    return out


def gen(nprocs):
    def g(rng, i):
        d = rng.choice([1, 2, 2, 3])
        proj = ''.join(p for p in 'gcdu' if rng.random() < 0.5)
        return {'n': rng.randint(1, nprocs), 'dims': d, 'min': [rng.choice([0, 0, -7, 5]) for _ in range(3)], 'ext': [rng.randint(12, 30) for _ in range(3)], 'periodic': rng.random() < 0.5,
                'buf': rng.choice([0, 1, 2]), 'proj': proj, 'pop': rng.choice([0, 1, 2, 5, 9]), 'seed': rng.randrange(1000),
                'before': gen_ops(rng, proj), 'after': gen_ops(rng, proj), 'pickle': rng.random() < 0.3, 'times': rng.choice([1, 1, 2]),
                'vals': [rng.choice([1, 'x', [1, 2], {'a': [None]}]) for _ in range(rng.randrange(3))]}
    return g


NP = int(os.environ.get('OMPI_COMM_WORLD_SIZE', '1'))
PROPS = {'C02': Spec(gen(NP), guard('C02', run_c02), mpi=True, cases=300, thorough=6000)}
if __name__ == '__main__':
    common.main(PROPS)
