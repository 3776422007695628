"""A01 (registry and type index of a context), A02 (ghost counting of the agent manager)."""
import common
from common import Spec, Fail, check
from mpi4py import MPI
from repast4py import core, context, random as R
from repast4py.network import DirectedSharedNetwork
from repast4py import space
from repast4py.geometry import BoundingBox
from repast4py.space import BorderType, OccupancyType

comm = MPI.COMM_SELF


class Proj:
    def __init__(self, name):
        self.name, self.has = name, {}

    def add(self, a):
        check(a.uid not in self.has, 'A01: a projection received agent %s twice', a.uid)
        self.has[a.uid] = a

    def remove(self, a):
        self.has.pop(a.uid, None)

    def __contains__(self, a):
        return a.uid in self.has

    def _pre_synch_ghosts(self, m): pass
    def _synch_ghosts(self, m, c): pass
    def _agent_moving_rank(self, *a): pass
    def _agents_moved_rank(self, *a): pass
    def _post_agents_moved_rank(self, *a): pass


def run_a01(case):
    R.init(case['seed'])
    ctx = context.SharedContext(comm)
    model = {}       # uid -> agent, in insertion order
    types = set()
    projs = []
    n = 0
    real = None

    def verify(after):
        us = list(model)
        check([a.uid for a in ctx.agents()] == us, 'A01: after %s agents() is %s, not %s', after, [a.uid for a in ctx.agents()], us)
        check(all(a is model[a.uid] for a in ctx.agents()), 'A01: after %s agents() returns another object', after)
        check(ctx.size() == {-1: len(us)}, 'A01: after %s size() is %s with %d agents', after, ctx.size(), len(us))
        for t in (0, 1, 2, 3, 7):
            ut = [u for u in us if u[1] == t]
            check(ctx.contains_type(t) == (len(ut) > 0), 'A01: after %s contains_type(%d) is %s', after, t, ctx.contains_type(t))
            got = [a.uid for a in ctx.agents(agent_type=t)]
            check(got == ut, 'A01: after %s agents of type %d are %s, not %s', after, t, got, ut)
            check(ctx.size([t]) == {t: len(ut)}, 'A01: after %s size([%d]) is %s', after, t, ctx.size([t]))
            sh = ctx.agents(agent_type=t, shuffle=True)
            check(sorted(a.uid for a in sh) == sorted(ut), 'A01: a shuffled iteration over type %d is no permutation', t)
            for k in (0, 1, len(ut), len(ut) + 2):
                check([a.uid for a in ctx.agents(agent_type=t, count=k)] == ut[:k], 'A01: count %d of type %d', k, t)
                sh = [a.uid for a in ctx.agents(agent_type=t, count=k, shuffle=True)]
                check(len(sh) == min(k, len(ut)) and len(set(sh)) == len(sh) and set(sh) <= set(ut), 'A01: shuffled count %d of type %d is %s', k, t, sh)
        sh = list(ctx.agents(shuffle=True))
        check(sorted(a.uid for a in sh) == sorted(us), 'A01: a shuffled iteration is no permutation of the agents')
        check([a.uid for a in ctx.agents()] == us, 'A01: shuffling changed the iteration order')
        for k in (0, 2, len(us) + 1):
            check([a.uid for a in ctx.agents(count=k)] == us[:k], 'A01: count %d', k)
            sh = [a.uid for a in ctx.agents(count=k, shuffle=True)]
            check(len(sh) == min(k, len(us)) and len(set(sh)) == len(sh) and set(sh) <= set(us), 'A01: shuffled count %d is %s', k, sh)
        for u in seen:
            check(ctx.agent(u) is model.get(u), 'A01: after %s agent(%s) is %s', after, u, ctx.agent(u))
        for p in projs:
            check(p.has == model, 'A01: after %s projection %s has %s, expected %s', after, p.name, sorted(p.has), sorted(model))
        if real is not None:
            for u, a in seen.items():
                check((a in real[0]) == (u in model), 'A01: after %s agent %s in the grid: %s', after, u, a in real[0])
                check((a in real[1]) == (u in model), 'A01: after %s agent %s in the network: %s', after, u, a in real[1])
            check(real[1].graph.number_of_edges() == 0 and len(real[1].graph) == len(model), 'A01: the network has %d nodes for %d agents', len(real[1].graph), len(model))
    seen = {}
    for op in case['ops']:
        if op[0] == 'add':
            a = core.Agent(id=n if op[2] else op[3], type=op[1], rank=0)
            if a.uid in model:
                continue
            n += 1 if op[2] else 0
            if a.uid in seen:
                a = seen[a.uid]
            seen[a.uid] = a
            ctx.add(a)
            model[a.uid] = a
            check(a.local_rank == 0, 'A01: an added agent does not know its rank')
        elif op[0] == 'rm' and model:
            u = list(model)[op[1] % len(model)]
            ctx.remove(model.pop(u))
        elif op[0] == 'proj':
            p = Proj('p%d' % len(projs))
            projs.append(p)
            ctx.add_projection(p)
            check(ctx.get_projection(p.name) is p, 'A01: get_projection')
            try:
                ctx.add_projection(Proj(p.name))
            except ValueError:
                pass
            else:
                raise Fail('A01: a second projection with the same name was accepted')
            try:
                ctx.get_projection('nope')
            except KeyError:
                pass
            else:
                raise Fail('A01: get_projection of an unknown name')
        elif op[0] == 'real' and real is None:
            real = (space.SharedGrid('g', BoundingBox(0, 5, 0, 5, 0, 0), BorderType.Sticky, OccupancyType.Multiple, 1, comm), DirectedSharedNetwork('n', comm))
            ctx.add_projection(real[0])
            ctx.add_projection(real[1])
        verify(op)


def gen_a01(rng, i):
    ops = []
    for _ in range(rng.randint(1, 25)):
        x = rng.random()
        if x < 0.6:
            ops.append(['add', rng.choice([0, 0, 1, 2, 7]), rng.random() < 0.7, rng.randrange(5)])
        elif x < 0.85:
            ops.append(['rm', rng.randrange(20)])
        elif x < 0.95:
            ops.append(['proj'])
        else:
            ops.append(['real'])
    return {'seed': rng.randrange(1000), 'ops': ops}


# ---------------------------------------------------------------- A02

class AddTo:
    def __init__(self):
        self.got = []

    def add(self, a):
        self.got.append(a.uid)


def run_a02(case):
    m = core.AgentManager(0, 4)
    uids = [(i, t, r) for i in range(2) for t in range(2) for r in range(2)]
    loc = {}
    gh = {}          # uid -> [agent, count]
    req = set()
    ghosted = {}     # uid -> {rank: n}

    def verify(op):
        for u in uids:
            check(m.get_local(u) is loc.get(u), 'A02: after %s get_local(%s)', op, u)
            g = m.get_ghost(u, 0)
            check(g is (gh[u][0] if u in gh else None), 'A02: after %s ghost %s is %s, count should be %s', op, u, g, gh.get(u, [0, 0])[1])
            if u in gh:
                check(m._ghost_agents[u].ref_count == gh[u][1], 'A02: after %s the count of %s is %s, not %s', op, u, m._ghost_agents[u].ref_count, gh[u][1])
            check(m.is_requested(u) == (u in req), 'A02: after %s is_requested(%s) is %s', op, u, m.is_requested(u))
            for r in range(4):
                check(m.is_ghosted_to(r, u) == (ghosted.get(u, {}).get(r, 0) > 0), 'A02: after %s is_ghosted_to(%d, %s) is %s', op, r, u, m.is_ghosted_to(r, u))
                if m.is_ghosted_to(r, u):
                    check(m._ghosted_agents[u].ghost_ranks[r] == ghosted[u][r], 'A02: after %s %s is ghosted to %d %d times, not %d', op, u, r, m._ghosted_agents[u].ghost_ranks[r], ghosted[u][r])
        check(set(m._ghost_agents) == set(gh), 'A02: after %s ghosts are %s', op, list(m._ghost_agents))
        check(list(m._local_agents) == list(loc), 'A02: after %s local agents are %s', op, list(m._local_agents))
    for op in case['ops']:
        k, u = op[0], uids[op[1] % len(uids)]
        r, inc = op[2] % 4, op[3]
        if k == 'local' and u not in loc and u not in gh:
            loc[u] = core.Agent(*u)
            m.add_local(loc[u])
            check(loc[u].local_rank == 0, 'A02: add_local')
        elif k == 'ghost' and u not in loc and u not in gh:
            gh[u] = [core.Agent(*u), inc]
            m.add_ghost(r, gh[u][0], inc)
            check(gh[u][0].local_rank == r, 'A02: add_ghost does not set the owner')
        elif k == 'get' and u in gh:
            gh[u][1] += inc
            a = m.get_ghost(u, inc) if inc != 1 else m.get_ghost(u)
            check(a is gh[u][0], 'A02: get_ghost returned %s', a)
        elif k == 'getnone' and u not in gh:
            check(m.get_ghost(u) is None, 'A02: get_ghost of no ghost')
        elif k == 'rel' and u in gh and gh[u][1] > 0:
            m.remove_ghost(gh[u][0])
            if u not in req:
                gh[u][1] -= 1
                if gh[u][1] == 0:
                    del gh[u]
        elif k == 'req' and u in gh:
            m.add_req_ghost(u)
            req.add(u)
        elif k == 'del' and u in gh:
            m.delete_ghost(u)
            del gh[u]
            req.discard(u)
        elif k == 'proj':
            p = AddTo()
            m.add_ghosts_to_projection(p)
            check(sorted(p.got) == sorted(gh), 'A02: add_ghosts_to_projection added %s', p.got)
            for g in gh.values():
                g[1] += 1
        elif k == 'tag' and u in loc:
            a = m.tag_as_ghosted(r, u)
            check(a is loc[u], 'A02: tag_as_ghosted returned %s', a)
            d = ghosted.setdefault(u, {})
            d[r] = d.get(r, 0) + 1
        elif k == 'untag' and ghosted.get(u, {}).get(r, 0) > 0:
            m.untag_as_ghosted(r, u)
            ghosted[u][r] -= 1
            if ghosted[u][r] == 0:
                del ghosted[u][r]
        elif k == 'dellocal' and u in loc:
            lst = []
            a = m.delete_local(u, lst)
            check(a is loc.pop(u), 'A02: delete_local returned %s', a)
            g = ghosted.pop(u, None)
            check([(x.agent.uid, x.ghost_ranks) for x in lst if x.ghost_ranks] == ([(u, g)] if g else []), 'A02: delete_local reported %s, expected %s', lst, g)
        elif k == 'move' and u in loc:
            a = m.remove_local(u)
            check(a is loc.pop(u), 'A02: remove_local returned %s', a)
            if u in ghosted:
                g = m.delete_ghosted(u)
                check(g == ghosted.pop(u), 'A02: delete_ghosted returned %s', g)
            if inc % 2:
                m.add_local(a)
                loc[u] = a
                m.set_as_ghosted({1: 2, 3: 1} if r else {}, u)
                if r:
                    ghosted[u] = {1: 2, 3: 1}
        else:
            continue
        verify(op)


def gen_a02(rng, i):
    ks = ['local', 'ghost', 'get', 'getnone', 'rel', 'rel', 'req', 'del', 'proj', 'tag', 'tag', 'untag', 'dellocal', 'move']
    return {'ops': [['local', j, 0, 1] if rng.random() < 0.5 else ['ghost', j, rng.randrange(4), rng.randint(1, 3)] for j in range(8)]
            + [[rng.choice(ks), rng.randrange(8), rng.randrange(4), rng.randint(1, 3)] for _ in range(rng.randint(1, 40))]}


PROPS = {'A01': Spec(gen_a01, run_a01, ops='ops', cases=400, thorough=6000), 'A02': Spec(gen_a02, run_a02, ops='ops', cases=1500, thorough=20000)}

if __name__ == '__main__':
    common.main(PROPS)
