"""N01 (edges shared between two ranks): random histories of edges, updates, removals, requests, agent removals, moves
and synchronizations over several ranks against a global oracle that every rank keeps. Run under mpirun."""
import os
import common
from common import Spec, Fail, check
from mpi4py import MPI
from repast4py import core, context, network, space, random as R
from repast4py.geometry import BoundingBox
from repast4py.space import DiscretePoint as DP, BorderType, OccupancyType

comm = MPI.COMM_WORLD
rank, size = comm.rank, comm.size


class Ag(core.Agent):
    def __init__(self, id, type, rank, val):
        super().__init__(id=id, type=type, rank=rank)
        self.val = val

    def save(self):
        return (self.uid, self.val)

    def update(self, val):
        self.val = val


def restore(data):
    uid = data[0]
    return Ag(uid[0], uid[1], uid[2], data[1])


def both(f):
    m = None
    try:
        f()
    except Fail as ex:
        m = str(ex)
    ms = [x for x in comm.allgather(m) if x]
    if ms:
        raise Fail(ms[0])


class World:
    def __init__(self, case):
        R.init(1)
        self.case = case
        self.directed = case['directed']
        self.ctx = context.SharedContext(comm)
        self.grid = None
        self.cell = {}
        if case.get('grid'):
            self.box = BoundingBox(0, 8 * size, 0, 4, 0, 0)
            self.grid = space.SharedGrid('grid', self.box, BorderType.Sticky, OccupancyType.Multiple, case['grid'], comm)
        self.net = (network.DirectedSharedNetwork if self.directed else network.UndirectedSharedNetwork)('net', comm)
        ps = [self.net] + ([self.grid] if self.grid is not None else [])
        for p in (ps if case.get('netfirst', True) else ps[::-1]):
            self.ctx.add_projection(p)
        if self.grid is not None:
            lb = self.grid.get_local_bounds()
            self.bounds = comm.allgather((lb.xmin, lb.xextent, lb.ymin, lb.yextent))
        self.o = {}              # uid -> {'owner', 'val'}
        self.e = {}              # edge key -> attributes
        self.touch = {}          # edge key -> rank that touched it since the last synchronization
        self.gone = set()        # edges whose agent has been removed or moved since the last synchronization
        self.n = 0
        self.dead = []
        self.was = {}

    def key(self, u, v):
        return (u, v) if self.directed or u <= v else (v, u)

    def pick(self, k):
        us = sorted(self.o)
        return us[k % len(us)] if us else None

    def pick_edge(self, k):
        es = sorted(self.e)
        return es[k % len(es)] if es else None

    def find(self, uid):
        return self.ctx.agent(uid) or self.ctx.ghost_agent(uid)

    def shared(self, k):
        return self.o[k[0]]['owner'] != self.o[k[1]]['owner']

    def ends(self, k):
        return {self.o[u]['owner'] if u in self.o else self.was[u] for u in k}

    def may(self, k, r):
        return self.touch.get(k, r) == r

    def op(self, op):
        t = op[0]
        if t == 'add':
            r = op[1] % size
            uid = (self.n, op[2], r)
            self.n += 1
            self.o[uid] = {'owner': r, 'val': op[3]}
            if rank == r:
                a = Ag(*uid, op[3])
                self.ctx.add(a)
            if self.grid is not None:
                b = self.bounds[r]
                self.cell[uid] = (b[0] + op[4] % b[1], b[2] + op[5] % b[3])
                if rank == r:
                    self.grid.move(a, DP(*self.cell[uid], 0))
            return
        if t == 'req':
            mine = []
            for r, k in op[1]:
                u = self.pick(k)
                r %= size
                if u is None or self.o[u]['owner'] == r or self.away(u):
                    continue
                if r == rank and (u, self.o[u]['owner']) not in mine:
                    mine.append((u, self.o[u]['owner']))
            self.ctx.request_agents(mine, restore)
            return
        if t == 'edge':
            # on rank r, between two agents of which one at least is local there, the other local or a ghost there
            r = op[1] % size
            u, v = self.pick(op[2]), self.pick(op[3])
            if u is None or u == v or r not in (self.o[u]['owner'], self.o[v]['owner']):
                return
            k = self.key(u, v)
            if not self.may(k, r):
                return
            done = None
            if rank == r:
                a, b = self.find(u), self.find(v)
                if a is not None and b is not None:
                    self.net.add_edge(a, b, **op[4])
                    done = True
            done = comm.bcast(done, r)
            if done:
                self.e.setdefault(k, {}).update(op[4])
                self.touch[k] = r
            return
        if t in ('upd', 'rm'):
            k = self.pick_edge(op[1])
            if k is None:
                return
            r = self.o[k[op[2] % 2]]['owner']
            if not self.may(k, r) or (k in self.gone):
                return
            sw = not self.directed and op[3]
            miss = None
            if rank == r:
                a, b = self.find(k[0]), self.find(k[1])
                if a is None or b is None:
                    miss = 'N01: rank %d has edge %s but not both of its agents' % (r, k)
                elif t == 'upd':
                    self.net.update_edge(*((b, a) if sw else (a, b)), **op[4])
                else:
                    self.net.remove_edge(*((b, a) if sw else (a, b)))
            miss = comm.bcast(miss, r)
            if miss:
                raise Fail(miss)
            self.touch[k] = r
            if t == 'upd':
                self.e[k].update(op[4])
            else:
                del self.e[k]
            return
        if t == 'clear':
            r = op[1] % size
            es = [k for k in self.e if r in (self.o[k[0]]['owner'], self.o[k[1]]['owner'])]
            if any(x != r and not {r}.isdisjoint(self.ends(k)) for k, x in self.touch.items()):
                return          # the rank still has edges the other rank has changed
            if rank == r:
                self.net.clear_edges()
            for k in es:
                del self.e[k]
                self.touch[k] = r
            return
        if t == 'mva':
            if self.grid is not None:
                return
            # an agent moves; agents it has an edge with stay, and its edges are in step on all ranks
            mv, seen = [], set()
            for k, r in op[1]:
                u = self.pick(k)
                r %= size
                if u is None or self.o[u]['owner'] == r or u in seen:
                    continue
                nb = {x for e in self.e if u in e for x in e}
                if (any(u in e for e in self.touch) and not self.case.get('busy')) or (nb & seen and not self.case.get('together')):
                    continue
                seen |= (nb | {u}) if not self.case.get('together') else {u}
                mv.append((u, r))
            self.ctx.move_agents([(u, r) for u, r in mv if self.o[u]['owner'] == rank], restore)
            for u, r in mv:
                self.o[u]['owner'] = r
            self.touch.clear()
            self.gone.clear()
            self.verify('move_agents')
            return
        u = self.pick(op[1])
        if u is None:
            return
        o = self.o[u]
        if t == 'del':
            es = [k for k in self.e if u in k]
            if any(not self.may(k, o['owner']) for k in es) or any(u in k for k in self.touch if self.touch[k] != o['owner']):
                return
            if rank == o['owner']:
                self.ctx.remove(self.ctx.agent(u))
            for k in es:
                del self.e[k]
            del self.o[u]
            self.dead.append(u)
            self.was[u] = o['owner']
        elif t == 'set':
            o['val'] = op[2]
            if rank == o['owner']:
                self.ctx.agent(u).val = op[2]
        elif t == 'mv' and self.grid is not None:
            nb = {x for e in self.e if u in e for x in e} - {u}
            far = self.case.get('cross') and op[4] and (self.case.get('busy') or not any(u in e for e in self.touch)) \
                and (self.case.get('together') or not any(self.away(x) for x in nb))
            b = (0, 8 * size, 0, 4) if far else self.bounds[o['owner']]
            self.cell[u] = (b[0] + op[2] % b[1], b[2] + op[3] % b[3])
            if rank == o['owner']:
                self.grid.move(self.ctx.agent(u), DP(*self.cell[u], 0))

    def home(self, u):
        c = self.cell[u]
        return next(r for r, b in enumerate(self.bounds) if b[0] <= c[0] < b[0] + b[1] and b[2] <= c[1] < b[2] + b[3])

    def away(self, u):
        return self.grid is not None and self.home(u) != self.o[u]['owner']

    def sync(self):
        self.ctx.synchronize(restore)
        if self.grid is not None:
            for u in self.o:
                self.o[u]['owner'] = self.home(u)
        self.touch.clear()
        self.gone.clear()
        self.verify('synchronize')

    def verify(self, what):
        def f():
            mgr = self.ctx._agent_manager
            g = self.net.graph
            got = {}
            for u, v, d in g.edges(data=True):
                k = self.key(u.uid, v.uid)
                lu, lv = u.uid in mgr._local_agents, v.uid in mgr._local_agents
                if not (lu or lv):
                    continue
                check(k not in got, 'N01: edge %s is twice on rank %d', k, rank)
                got[k] = dict(d)
            want = {k: a for k, a in self.e.items() if rank in (self.o[k[0]]['owner'], self.o[k[1]]['owner'])}
            check(set(got) == set(want), 'N01: after %s rank %d has edges %s, expected %s', what, rank, sorted(got), sorted(want))
            for k in want:
                check(got[k] == want[k], 'N01: edge %s has attributes %s on rank %d, expected %s', k, got[k], rank, want[k])
            for a in g.nodes:
                uid = a.uid
                check(uid in self.o, 'N01: rank %d has a node for %s, which was removed', rank, uid)
                if self.o[uid]['owner'] == rank:
                    check(a is self.ctx.agent(uid), 'N01: node %s is not the local agent of rank %d', uid, rank)
                    check(a.local_rank == rank, 'N01: local agent %s says it belongs to rank %d, not %d', uid, a.local_rank, rank)
                else:
                    gh = self.ctx.ghost_agent(uid)
                    check(gh is a, 'N01: node %s of rank %d is not its ghost %s', uid, rank, gh)
                    check(a.local_rank == self.o[uid]['owner'], 'N01: the ghost of %s on rank %d says it belongs to rank %d', uid, rank, a.local_rank)
                    check(a.val == self.o[uid]['val'], 'N01: the ghost of %s on rank %d has state %s, its original %s', uid, rank, a.val, self.o[uid]['val'])
            for uid, o in self.o.items():
                if o['owner'] == rank:
                    check(self.ctx.agent(uid) is not None and self.ctx.agent(uid) in self.net, 'N01: local agent %s is not a node on rank %d', uid, rank)
            for k in self.want_tracked():
                check(k in got, 'N01: rank %d tracks a shared edge %s that is not in its graph', rank, k)
                check(self.shared(k), 'N01: rank %d tracks the edge %s, whose agents are both local', rank, k)
            for k in got:
                # the tables find every edge the graph has
                if not self.directed:
                    a, b = self.find(k[0]), self.find(k[1])
                    for e in ((a, b), (b, a)):
                        c = self.net.canonical_edge_keys.get(e)
                        check(c is not None and {c[0].uid, c[1].uid} == set(k), 'N01: edge %s has no canonical key on rank %d', k, rank)
            if not self.directed:
                for (a, b), c in self.net.canonical_edge_keys.items():
                    check(g.has_edge(a, b), 'N01: rank %d keeps a canonical key for %s-%s which is no edge', rank, a.uid, b.uid)
            for t in ('edges_to_update', 'new_edges', 'edges_to_remove'):
                check(not getattr(self.net, t), 'N01: %s of rank %d is not empty after %s', t, rank, what)
        both(f)
        # ghosts and the owner's records agree
        mine = {u: {r: c for r, c in g.ghost_ranks.items()} for u, g in self.ctx._agent_manager._ghosted_agents.items()}
        allm = comm.allgather(mine)

        def h():
            for a in self.net.graph.nodes:
                u = a.uid
                o = self.o[u]['owner']
                if o != rank and a not in self.net.ghosts_to_ref:
                    check(allm[o].get(u, {}).get(rank, 0) > 0 or self.grid is not None, 'N01: rank %d has a ghost node %s its owner does not know of', rank, u)
        both(h)

    def want_tracked(self):
        return {self.key(k[0].uid, k[1].uid) for k in self.net.ghosted_edges}


ATT = ['w', 'c', 'd']


def attrs(rng):
    return {k: rng.randrange(100) for k in ATT if rng.random() < 0.45}


def gen(rng, i, moves=False):
    case = {'directed': rng.random() < 0.5}
    if not moves and rng.random() < 0.3:
        case['grid'] = rng.choice([1, 2])
        case['netfirst'] = rng.random() < 0.5
    if moves and rng.random() < 0.4:
        case['grid'], case['netfirst'], case['cross'] = rng.choice([1, 2]), rng.random() < 0.5, True
    if moves:
        case['together'], case['busy'] = rng.random() < 0.5, rng.random() < 0.5
    ops = []

    def add():
        ops.append(['add', rng.randrange(size), rng.choice([0, 0, 1]), rng.randrange(100), rng.randrange(50), rng.randrange(50)])
    for _ in range(rng.randint(3, 3 + 2 * size)):
        add()
    if case.get('grid'):
        ops.append(['sync'])
    for _ in range(rng.randint(2, 6)):
        if rng.random() < 0.7:
            ops.append(['req', [[rng.randrange(size), rng.randrange(50)] for _ in range(rng.randint(1, 2 * size))]])
        for _ in range(rng.randint(1, 12)):
            x = rng.random()
            if case.get('cross') and rng.random() < 0.15:
                ops.append(['mv', rng.randrange(50), rng.randrange(50), rng.randrange(50), True])
            elif x < 0.04:
                add()
            elif x < 0.10:
                ops.append(['del', rng.randrange(50)])
            elif x < 0.16:
                ops.append(['set', rng.randrange(50), rng.randrange(1000)])
            elif x < 0.60:
                ops.append(['edge', rng.randrange(size), rng.randrange(50), rng.randrange(50), attrs(rng)])
            elif x < 0.72:
                ops.append(['upd', rng.randrange(50), rng.randrange(2), rng.random() < 0.5, attrs(rng)])
            elif x < 0.90:
                ops.append(['rm', rng.randrange(50), rng.randrange(2), rng.random() < 0.5])
            elif x < 0.93:
                ops.append(['clear', rng.randrange(size)])
            else:
                ops.append(['mv', rng.randrange(50), rng.randrange(50), rng.randrange(50), rng.random() < 0.7])
        if rng.random() < 0.6 or not case.get('busy'):
            ops.append(['sync'])
        if moves and not case.get('grid') and rng.random() < 0.7:
            ops.append(['mva', [[rng.randrange(50), rng.randrange(size)] for _ in range(rng.randint(1, 3))]])
    ops.append(['sync'])
    case['ops'] = ops
    return case


def run(case):
    w = World(case)
    for op in case['ops']:
        if op[0] == 'sync':
            w.sync()
        else:
            w.op(op)
    return None


def guard(f, tag):
    def g(case):
        try:
            return f(case)
        except Fail:
            raise
        except BaseException as ex:
            import traceback
            w = [x for x in traceback.extract_tb(ex.__traceback__) if '/repast4py/' in x.filename]
            common.abort(tag, case, '%s: unexpected %s: %s at %s' % (tag, type(ex).__name__, ex, w and '%s:%d' % (os.path.basename(w[-1].filename), w[-1].lineno)), size, bool(w))
    return g


def gen_all(rng, i):
    return gen(rng, i, os.environ.get('NETMOVES', '') == '1' or rng.random() < 0.5)


PROPS = {'N01': Spec(gen_all, guard(run, 'N01'), mpi=True, cases=200, thorough=3000)}

if __name__ == '__main__':
    common.main(PROPS)
