"""A03 (agents moving between ranks), A04 (ghosts): random model histories over several ranks against a global oracle
that every rank keeps. Run under mpirun."""
import os
import common
from common import Spec, Fail, check
from mpi4py import MPI
import numpy as np
from repast4py import core, context, space, random as R
from repast4py.geometry import BoundingBox
from repast4py.space import DiscretePoint as DP, ContinuousPoint as CP, BorderType, OccupancyType

comm = MPI.COMM_WORLD
rank, size = comm.rank, comm.size


class Ag(core.Agent):
    def __init__(self, id, type, rank, val):
        super().__init__(id=id, type=type, rank=rank)
        self.val = val

    def save(self):
        return (self.uid, self.val)

    def update(self, val):
        self.val = val


def both(f):
    """run f on this rank; a failure anywhere is a failure everywhere (no rank is left waiting)"""
    m = None
    try:
        f()
    except Fail as ex:
        m = str(ex)
    ms = [x for x in comm.allgather(m) if x]
    if ms:
        raise Fail(ms[0])


class World:
    def __init__(self, case):
        R.init(1)
        self.case = case
        self.cache = {}
        self.ctx = context.SharedContext(comm)
        self.grid = self.cs = None
        d = case['dims']
        ext = case['ext']
        mn = case['min']
        b = [0, 0, 0, 0, 0, 0]
        for i in range(d):
            b[2 * i], b[2 * i + 1] = mn[i], ext[i]
        self.box = BoundingBox(*b)
        self.bt = BorderType.Periodic if case['periodic'] else BorderType.Sticky
        if 'grid' in case['proj']:
            self.grid = space.SharedGrid('grid', self.box, self.bt, OccupancyType.Multiple, case['buf'], comm)
            self.ctx.add_projection(self.grid)
        if 'cs' in case['proj']:
            self.cs = space.SharedCSpace('cs', self.box, self.bt, OccupancyType.Multiple, case['buf'], comm, 5)
            self.ctx.add_projection(self.cs)
        s = self.grid or self.cs
        self.bounds = None
        if s is not None:
            lb = s.get_local_bounds()
            self.bounds = comm.allgather((lb.xmin, lb.xextent, lb.ymin, lb.yextent, lb.zmin, lb.zextent))
        self.o = {}            # uid -> dict(owner, val, loc, req=set of ranks)
        self.n = 0
        self.dead = set()
        self.obj = {}
        self.moved_once = False

    def restore(self, data):
        uid = data[0]
        if self.case['cache'] and uid in self.cache:
            a = self.cache[uid]
            a.val = data[1]
            return a
        a = Ag(uid[0], uid[1], uid[2], data[1])
        self.cache[uid] = a
        return a

    def owner_of(self, loc):
        for r, b in enumerate(self.bounds):
            if all(b[2 * i] <= loc[i] < b[2 * i] + b[2 * i + 1] for i in range(self.case['dims'])):
                return r
        raise Fail('A03: no rank owns location %s' % (loc,))

    def place(self, uid, cell):
        """the owner moves the agent to a cell; everybody learns the location"""
        o = self.o[uid]
        c = (list(cell) + [0, 0, 0])[:3]
        got = None
        if rank == o['owner']:
            a = self.ctx.agent(uid)
            if a is None:
                got = 'A03: agent %s is not local on rank %d any more' % (uid, rank)
            else:
                if self.grid is not None:
                    p = self.grid.move(a, DP(*c))
                    got = (p.x, p.y, p.z)
                if self.cs is not None:
                    f = [x + 0.25 if i < self.case['dims'] else 0 for i, x in enumerate(c)]
                    p = self.cs.move(a, CP(*f))
                    got2 = (p.x, p.y, p.z)
                    if self.grid is None:
                        got = got2
        got = comm.bcast(got, o['owner'])
        if isinstance(got, str):
            raise Fail(got)
        o['loc'] = got

    def pick(self, k):
        us = sorted(self.o)
        return us[k % len(us)] if us else None

    def op(self, op):
        t = op[0]
        if t == 'add':
            r = op[1] % size
            uid = (self.n, op[2], r)
            self.n += 1
            self.o[uid] = {'owner': r, 'val': op[3], 'loc': None, 'req': set()}
            if rank == r:
                a = Ag(*uid, op[3])
                self.cache[uid] = a
                self.ctx.add(a)
                self.obj[uid] = a
            if self.bounds:
                b = self.bounds[r]
                cell = [b[2 * i] + op[4 + i] % max(1, b[2 * i + 1]) for i in range(self.case['dims'])]
                self.place(uid, cell)
            return
        if t == 'req':
            # op: ['req', [[rank, k], ...]]
            mine, new = [], set()
            for r, k in op[1]:
                u = self.pick(k)
                if u is None:
                    continue
                o = self.o[u]
                r %= size
                if o['owner'] == r or (self.bounds and self.owner_of(o['loc']) != o['owner']):
                    continue
                o['req'].add(r)
                if r == rank and (u, o['owner']) not in mine:
                    mine.append((u, o['owner']))
                    if self.ctx.ghost_agent(u) is None:
                        new.add(u)
            got = self.ctx.request_agents(list(mine), self.restore)

            def f():
                gu = sorted(a.uid for a in got)
                check(gu == sorted(u for u, _ in mine), 'A04: rank %d requested %s and received %s', rank, [u for u, _ in mine], gu)
                for u, ow in mine:
                    g = self.ctx.ghost_agent(u)
                    check(g is not None, 'A04: requested agent %s is not a ghost on rank %d', u, rank)
                    check(g.val == self.o[u]['val'] or u not in new, 'A04: requested ghost %s has state %s, not %s', u, g.val, self.o[u]['val'])
                    check(g.local_rank == ow, 'A04: the ghost of %s says it belongs to rank %s, not %s', u, g.local_rank, ow)
            both(f)
            return
        if t == 'mva':
            if self.bounds:
                return
            mv, oa = [], []
            seen = set()
            for k, r in op[1]:
                u = self.pick(k)
                r %= size
                if u is None or u in seen or self.o[u]['owner'] == r:
                    continue
                seen.add(u)
                oa.append((u, r))
                if self.o[u]['owner'] == rank:
                    mv.append((u, r))
            self.ctx.move_agents(mv, self.restore)
            for u, r in oa:
                self.o[u]['owner'] = r
                self.o[u]['req'].discard(r)
            self.verify('move_agents', True)
            return
        u = self.pick(op[1])
        if u is None:
            return
        o = self.o[u]
        if t == 'rm':
            if rank == o['owner']:
                self.ctx.remove(self.ctx.agent(u))
            del self.o[u]
            self.dead.add(u)
        elif t == 'set':
            o['val'] = op[2]
            if rank == o['owner']:
                a = self.ctx.agent(u)
                if a is not None:
                    a.val = op[2]
        elif t == 'mv' and self.bounds:
            g = self.box
            mins, exts = (g.xmin, g.ymin, g.zmin), (g.xextent, g.yextent, g.zextent)
            cell = [mins[i] + op[2 + i] % (exts[i] + (4 if op[5] else 0)) - (2 if op[5] else 0) for i in range(self.case['dims'])]
            self.place(u, cell)

    def sync(self, ghosts):
        self.ctx.synchronize(self.restore, sync_ghosts=ghosts)
        if self.bounds:
            for u, o in self.o.items():
                n = self.owner_of(o['loc'])
                if n != o['owner']:
                    o['owner'] = n
                    o['req'].discard(n)
        self.verify('synchronize', ghosts)

    def in_buffer(self, loc, r):
        """is the location of another rank's agent within the buffer around the bounds of rank r"""
        b, buf = self.bounds[r], self.case['buf']
        g = (self.box.xmin, self.box.xextent, self.box.ymin, self.box.yextent, self.box.zmin, self.box.zextent)
        for i in range(self.case['dims']):
            lo, hi = b[2 * i], b[2 * i] + b[2 * i + 1]
            cands = [loc[i]]
            if self.case['periodic']:
                cands += [loc[i] - g[2 * i + 1], loc[i] + g[2 * i + 1]]
            if not any(lo - buf <= x < hi + buf for x in cands):
                return False
        return True

    def verify(self, what, ghosts):
        want = self.want

        def a03():
            mine = sorted(u for u, o in self.o.items() if o['owner'] == rank)
            got = sorted(a.uid for a in self.ctx.agents())
            check(got == mine, 'A03: after %s rank %d has local agents %s, expected %s', what, rank, got, mine)
            for u in mine:
                a = self.ctx.agent(u)
                o = self.o[u]
                check(a is not None and a.uid == u, 'A03: agent %s is not found by its id on rank %d', u, rank)
                check(a.val == o['val'], 'A03: agent %s has state %s on rank %d, expected %s', u, a.val, rank, o['val'])
                check(a.local_rank == rank, 'A03: local agent %s says it belongs to rank %d, not %d', u, a.local_rank, rank)
                check(self.ctx.ghost_agent(u) is None, 'A03: agent %s is local and still a ghost on rank %d', u, rank)
                for s in (self.grid, self.cs):
                    if s is not None:
                        check(a in s, 'A03: agent %s is not in a space of its own rank %d', u, rank)
                        p = s.get_location(a)
                        off = 0.25 if s is self.cs and self.grid is not None else 0
                        l = tuple(x + off if i < self.case['dims'] else x for i, x in enumerate(o['loc']))
                        if not (self.grid is not None and s is self.cs):
                            check(p is not None and (p.x, p.y, p.z) == l, 'A03: agent %s is at %s on rank %d, expected %s', u, p, rank, l)
                        check(any(x is a for x in s.get_agents(p)), 'A03: the space of rank %d does not return the local agent %s at its location', rank, u)
            if self.bounds:
                for u in self.cache:
                    o = self.o.get(u)
                    if o is None or o['owner'] == rank:
                        continue
                    near = self.in_buffer(o['loc'], rank) and self.case['buf'] > 0
                    if ghosts and not near and rank not in o['req']:
                        for s in (self.grid, self.cs):
                            check(s is None or self.cache[u] not in s, 'A03: agent %s of rank %d is still in a space of rank %d', u, o['owner'], rank)

        def a04():
            for u, o in self.o.items():
                if o['owner'] == rank:
                    continue
                g = self.ctx.ghost_agent(u)
                if rank in o['req']:
                    check(g is not None, 'A04: the requested ghost of %s is gone from rank %d', u, rank)
                if g is not None and ghosts:
                    check(g.val == o['val'], 'A04: the ghost of %s on rank %d has state %s, its original %s', u, rank, g.val, o['val'])
                if not ghosts or not self.bounds or self.case['buf'] == 0:
                    continue
                near = self.in_buffer(o['loc'], rank)
                for s in (self.grid, self.cs):
                    if s is None:
                        continue
                    if s is self.cs and self.grid is not None:
                        continue
                    here = [x for x in s.get_agents((DP if s is self.grid else CP)(*o['loc'])) if x.uid == u]
                    check(len(here) == (1 if near else 0), 'A04: rank %d sees %d copies of agent %s of rank %d at %s, expected %d', rank, len(here), u, o['owner'], o['loc'], 1 if near else 0)
                    for x in here:
                        check(x.val == o['val'], 'A04: the buffered ghost of %s on rank %d has state %s, its original %s', u, rank, x.val, o['val'])
                if not near and rank not in o['req']:
                    check(g is None, 'A04: rank %d keeps a ghost of %s which it neither requested nor borders', rank, u)
            if ghosts:
                for u in self.dead:
                    check(self.ctx.ghost_agent(u) is None, 'A04: removed agent %s is still a ghost on rank %d', u, rank)
                    check(self.ctx.agent(u) is None, 'A04: removed agent %s is still local on rank %d', u, rank)
                    for s in (self.grid, self.cs):
                        if s is not None and u in self.cache:
                            check(self.cache[u] not in s, 'A04: removed agent %s is still in a space of rank %d', u, rank)
        both(a03 if want == 'A03' else a04)


def gen(rng, i):
    dims = rng.choice([1, 2, 2, 2, 3])
    proj = rng.choice([['grid'], ['cs'], ['grid', 'cs'], [], ['grid']])
    if 'cs' in proj and dims == 1:
        dims = 2
    buf = rng.choice([0, 1, 1, 2])
    periodic = rng.random() < 0.4
    big = 6 if not periodic else 8
    case = {'dims': dims, 'proj': proj, 'ext': [rng.randint(4 * size, 6 * size) if dims == 1 else rng.randint(2 * big, 3 * big) for _ in range(3)],
            'min': [rng.choice([0, 0, -7, 3]) for _ in range(3)], 'periodic': periodic, 'buf': buf, 'cache': rng.random() < 0.4}
    ops = []
    for _ in range(rng.randint(4, 8)):
        ops.append(['add', rng.randrange(size), rng.choice([0, 0, 1]), rng.randrange(100), rng.randrange(50), rng.randrange(50), rng.randrange(50)])
    for _ in range(rng.randint(2, 5)):
        for _ in range(rng.randint(1, 6)):
            x = rng.random()
            if x < 0.1:
                ops.append(['add', rng.randrange(size), rng.choice([0, 0, 1]), rng.randrange(100), rng.randrange(50), rng.randrange(50), rng.randrange(50)])
            elif x < 0.2:
                ops.append(['rm', rng.randrange(50)])
            elif x < 0.35:
                ops.append(['set', rng.randrange(50), rng.randrange(1000)])
            elif x < 0.75:
                ops.append(['mv', rng.randrange(50), rng.randrange(60), rng.randrange(60), rng.randrange(60), rng.random() < 0.2])
            elif x < 0.9:
                ops.append(['req', [[rng.randrange(size), rng.randrange(50)] for _ in range(rng.randint(1, 3))]])
            else:
                ops.append(['mva', [[rng.randrange(50), rng.randrange(size)] for _ in range(rng.randint(1, 3))]])
        ops.append(['sync', rng.random() < 0.8])
    case['ops'] = ops
    return case


def runner(want):
    def run(case):
        w = World(case)
        w.want = want
        for op in case['ops']:
            if op[0] == 'sync':
                w.sync(op[1])
            else:
                w.op(op)
        return None
    return run


def guard(want):
    """an exception on one rank would leave the others waiting: report it and end the process group"""
    f = runner(want)

    def run(case):
        try:
            return f(case)
        except Fail:
            raise
        except BaseException as ex:
            import traceback, json, sys
            tb = traceback.extract_tb(ex.__traceback__)
            w = [x for x in tb if '/repast4py/' in x.filename]
            if w or True:
                out = os.environ.get('VERIF_OUT')
                msg = '%s: unexpected %s: %s at %s' % (want, type(ex).__name__, ex, w and '%s:%d' % (os.path.basename(w[-1].filename), w[-1].lineno))
                common.abort(want, case, msg, size, bool(w))
    return run


PROPS = {'A03': Spec(gen, guard('A03'), mpi=True, cases=120, thorough=2000), 'A04': Spec(gen, guard('A04'), mpi=True, cases=120, thorough=2000)}

if __name__ == '__main__':
    common.main(PROPS)
