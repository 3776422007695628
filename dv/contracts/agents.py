"""Contracts for repast4py/core.py AgentManager (A02) and for the registry parts of repast4py/context.py (A01, A03, A04).

View: the manager is three maps keyed by the agent's unique id (id, type, rank): local agents, ghosted records
(rank -> count) and ghosts (agent, count), and the set of requested ids.
"""
import z3
from ..core import *
from ..pyfront import *
from ..pyfront import Contract, View, qall

UID = TUP(INT, INT, INT)
AG = REF('Agent')
GHOST, GHOSTED = REF('GhostAgent'), REF('GhostedAgent')
RANKS = DICT(INT, INT)
AM = REF('AgentManager')
LOCALS, GHOSTS, GHOSTEDS = DICT(UID, AG), DICT(UID, GHOST), DICT(UID, GHOSTED)
SCHEMA = {
    'Agent': {'uid': UID, 'local_rank': INT},
    'GhostAgent': {'agent': AG, 'ref_count': INT},
    'GhostedAgent': {'agent': AG, 'ghost_ranks': RANKS},
    'AgentManager': {'_local_agents': LOCALS, '_ghosted_agents': GHOSTEDS, '_ghost_agents': GHOSTS, 'rank': INT, '_req_ghosts': SET(UID)},
    'Comm': {'rank': INT, 'size': INT},
    'Callable': {},
}
CONTRACTS, LOOPS, MODELS = {}, {}, {}


def con(qual, **kw):
    CONTRACTS[qual] = Contract(qual, **kw)
    return CONTRACTS[qual]


def u(name='u!x'):
    return z3.Const(name, UID.sort())


def parts(m):
    return m._local_agents, m._ghosted_agents, m._ghost_agents, m._req_ghosts


def inv(c, m, old=False):
    """the representation invariant of an agent manager"""
    loc, gd, gh, rq = parts(m)
    top = c.I.eng.alloc_top()
    uid, rc = c.arr('Agent', 'uid', old), c.arr('GhostAgent', 'ref_count', old)
    ga, gda, gdr = c.arr('GhostAgent', 'agent', old), c.arr('GhostedAgent', 'agent', old), c.arr('GhostedAgent', 'ghost_ranks', old)
    x, y, r = u('u!x'), u('u!y'), z3.Int('r!i')
    yield 'parts exist', z3.And(*[z3.And(p.ref > 0, p.ref <= top) for p in (loc, gd, gh, rq)])
    yield 'local agents exist and are filed under their id', qall(x, z3.Implies(loc.has(x), z3.And(loc.val[x] > 0, loc.val[x] <= top, uid[loc.val[x]] == x)), [loc.val[x]])
    yield 'ghosts exist and are filed under their id', qall(x, z3.Implies(gh.has(x), z3.And(gh.val[x] > 0, gh.val[x] <= top, ga[gh.val[x]] > 0, ga[gh.val[x]] <= top, uid[ga[gh.val[x]]] == x)), [gh.val[x]])
    yield 'each ghost has its own record', qall([x, y], z3.Implies(z3.And(gh.has(x), gh.has(y), x != y), gh.val[x] != gh.val[y]), [z3.MultiPattern(gh.val[x], gh.val[y])])
    yield 'ghosted records exist and are filed under the id of their agent', qall(x, z3.Implies(gd.has(x), z3.And(
        gd.val[x] > 0, gd.val[x] <= top, gda[gd.val[x]] > 0, gda[gd.val[x]] <= top, uid[gda[gd.val[x]]] == x, gdr[gd.val[x]] > 0, gdr[gd.val[x]] <= top)), [gd.val[x]])
    yield 'each ghosted agent has its own record and its own ranks', qall([x, y], z3.Implies(z3.And(gd.has(x), gd.has(y), x != y), z3.And(
        gd.val[x] != gd.val[y], gdr[gd.val[x]] != gdr[gd.val[y]])), [z3.MultiPattern(gd.val[x], gd.val[y])])
    dom, val = rdom(c, old), rval(c, old)
    yield 'an agent is recorded as ghosted to a rank only with a positive count', qall([x, r], z3.Implies(z3.And(gd.has(x), dom[gdr[gd.val[x]]][r]), val[gdr[gd.val[x]]][r] > 0),
                                                                                      [dom[gdr[gd.val[x]]][r]])


def _rarr(c, part, rng, old):
    from ..pyfront import dk
    k = dk(RANKS, part)
    a = (c.oldheap if old else c.heap).get(k)
    if a is None:
        a = z3.Const('H_' + k, z3.ArraySort(z3.IntSort(), rng))
        Eng.heap_sorts[k] = rng
    return a


def rdom(c, old=False):
    return _rarr(c, 'dom', z3.ArraySort(z3.IntSort(), z3.BoolSort()), old)


def rval(c, old=False):
    return _rarr(c, 'val', z3.ArraySort(z3.IntSort(), z3.IntSort()), old)


def ranks_of(c, m, uid, old=False):
    return c.view(RANKS, c.arr('GhostedAgent', 'ghost_ranks', old)[m._ghosted_agents.val[uid]], old)


def pre(c):
    yield from inv(c, c.self)


def same_map(a, b):
    return z3.And(a.dom == b.dom, a.val == b.val)


def only(a, b, k):
    """a and b differ at most at key k"""
    x = u('u!o')
    return qall(x, z3.Implies(x != k, z3.And(a.has(x) == b.has(x), z3.Implies(a.has(x), a.val[x] == b.val[x]))))


def dropped(a, b, k):
    return z3.And(a.dom == z3.Store(b.dom, k, False), only(a, b, k))


con('core.AgentManager.is_requested', args={'self': AM, 'agent_id': UID}, requires=pre, modifies=lambda c: [], result=BOOL,
    ensures=lambda c: [('exactly the requested ids', c.res == c.self._req_ghosts.has(c.arg('agent_id')))])


def addreq_post(c):
    k = c.arg('agent_id')
    yield from inv(c, c.self)
    yield 'the id is requested and no other id changes', c.self._req_ghosts.dom == z3.Store(c.oself._req_ghosts.dom, k, True)


con('core.AgentManager.add_req_ghost', args={'self': AM, 'agent_id': UID}, requires=pre, ensures=addreq_post, modifies=lambda c: [c.self._req_ghosts])


# ---- local agents

def rl_post(c):
    m, o, k = c.self, c.oself, c.arg('agent_id')
    yield from inv(c, m)
    yield 'the id is not local any more', z3.Not(m._local_agents.has(k))
    yield 'no other local agent changes', only(m._local_agents, o._local_agents, k)
    yield 'the agent that was local is returned, or none', c.res.ref == z3.If(o._local_agents.has(k), o._local_agents.val[k], 0)


con('core.AgentManager.remove_local', args={'self': AM, 'agent_id': UID}, requires=pre, ensures=rl_post, modifies=lambda c: [c.self._local_agents], result=AG)


def al_pre(c):
    yield from inv(c, c.self)


def al_post(c):
    m, o, a = c.self, c.oself, c.arg('agent')
    yield from inv(c, m)
    yield 'the agent is local under its id', z3.And(m._local_agents.has(a.uid), m._local_agents.val[a.uid] == a.ref)
    yield 'no other local agent changes', only(m._local_agents, o._local_agents, a.uid)
    yield 'the agent knows its rank', a.local_rank == m.rank


con('core.AgentManager.add_local', args={'self': AM, 'agent': AG}, requires=al_pre, ensures=al_post,
    modifies=lambda c: [c.self._local_agents, ('Agent.local_rank', c.arg('agent').ref)])
con('core.AgentManager.get_local', args={'self': AM, 'agent_id': UID}, requires=pre, modifies=lambda c: [], result=AG,
    ensures=lambda c: [('the local agent of that id, or none', c.res.ref == z3.If(c.self._local_agents.has(c.arg('agent_id')), c.self._local_agents.val[c.arg('agent_id')], 0))])

GDL = LIST(GHOSTED)


def dl_post(c):
    m, o, k, l, ol = c.self, c.oself, c.arg('agent_id'), c.arg('ghosted_deleted'), c.old('ghosted_deleted')
    yield from inv(c, m)
    yield 'the id is not local and not ghosted any more', z3.And(z3.Not(m._local_agents.has(k)), z3.Not(m._ghosted_agents.has(k)))
    yield 'no other local agent changes', only(m._local_agents, o._local_agents, k)
    yield 'no other ghosted agent changes', only(m._ghosted_agents, o._ghosted_agents, k)
    yield 'the agent that was local is returned, or none', c.res.ref == z3.If(o._local_agents.has(k), o._local_agents.val[k], 0)
    i = z3.Int('i!d')
    yield 'its ghosted record, if it has one, is handed over after those before it', z3.And(
        l.len == ol.len + z3.If(o._ghosted_agents.has(k), 1, 0),
        z3.Implies(o._ghosted_agents.has(k), l.el[ol.len] == o._ghosted_agents.val[k]),
        qall(i, z3.Implies(z3.And(0 <= i, i < ol.len), l.el[i] == ol.el[i]), [l.el[i]]))


con('core.AgentManager.delete_local', args={'self': AM, 'agent_id': UID, 'ghosted_deleted': GDL}, requires=pre, ensures=dl_post,
    modifies=lambda c: [c.self._local_agents, c.self._ghosted_agents, c.arg('ghosted_deleted')], result=AG)


# ---- ghosted agents

con('core.AgentManager.is_ghosted_to', args={'self': AM, 'ghost_rank': INT, 'agent_id': UID}, requires=pre, modifies=lambda c: [], result=BOOL,
    ensures=lambda c: [('exactly if its count for that rank is positive', c.res == z3.And(
        c.self._ghosted_agents.has(c.arg('agent_id')), ranks_of(c, c.self, c.arg('agent_id')).has(c.arg('ghost_rank'))))])


def count(c, m, uid, r, old=False):
    rk = ranks_of(c, m, uid, old)
    return z3.If(z3.And(m._ghosted_agents.has(uid), rk.has(r)), rk.val[r], 0)


def counts_else(c, m, o, uid, r):
    """every count other than that of uid on rank r is as before"""
    x, q = u('u!c'), z3.Int('q!c')
    return qall([x, q], z3.Implies(z3.Or(x != uid, q != r), count(c, m, x, q) == count(c, o, x, q, True)))


def tag_pre(c):
    m, k = c.self, c.arg('agent_id')
    yield from inv(c, m)
    yield 'the agent is ghosted already or local', z3.Or(m._ghosted_agents.has(k), m._local_agents.has(k))


def tag_post(c):
    m, o, k, r = c.self, c.oself, c.arg('agent_id'), c.arg('ghost_rank')
    yield from inv(c, m)
    yield 'the count of the agent on that rank grows by one', count(c, m, k, r) == count(c, o, k, r, True) + 1
    yield 'no other count changes', counts_else(c, m, o, k, r)
    yield 'the agent of that id is returned', z3.And(c.res.ref > 0, c.arr('Agent', 'uid')[c.res.ref] == k, z3.Implies(
        z3.Not(o._ghosted_agents.has(k)), c.res.ref == o._local_agents.val[k]))
    yield 'exactly that agent may become ghosted', z3.And(m._ghosted_agents.has(k), only(m._ghosted_agents, o._ghosted_agents, k))
    yield 'other records keep their ranks', others_keep(c, m, o, k)


def others_keep(c, m, o, k):
    x = u('u!k')
    gdr, ogdr, gda, ogda = (c.arr('GhostedAgent', f, old) for f in ('ghost_ranks', 'agent') for old in (False, True))
    return qall(x, z3.Implies(z3.And(o._ghosted_agents.has(x), x != k), z3.And(
        gdr[m._ghosted_agents.val[x]] == ogdr[o._ghosted_agents.val[x]], gda[m._ghosted_agents.val[x]] == ogda[o._ghosted_agents.val[x]])))


con('core.AgentManager.tag_as_ghosted', args={'self': AM, 'ghost_rank': INT, 'agent_id': UID}, requires=tag_pre, ensures=tag_post,
    modifies=lambda c: [c.self._ghosted_agents, ranks_of(c, c.self, c.arg('agent_id'))], result=AG)


def set_pre(c):
    m, k, g = c.self, c.arg('agent_id'), c.arg('ghost_ranks')
    r, x = z3.Int('r!s'), u('u!s')
    yield from inv(c, m)
    yield 'the agent is local', m._local_agents.has(k)
    yield 'the counts are positive', qall(r, z3.Implies(g.has(r), g.val[r] > 0), [g.val[r]])
    gdr = c.arr('GhostedAgent', 'ghost_ranks')
    yield 'the ranks belong to no other record', qall(x, z3.Implies(m._ghosted_agents.has(x), gdr[m._ghosted_agents.val[x]] != g.ref), [m._ghosted_agents.val[x]])


def set_post(c):
    m, o, k, g = c.self, c.oself, c.arg('agent_id'), c.arg('ghost_ranks')
    r = z3.Int('r!s')
    og = c.old('ghost_ranks')
    yield from inv(c, m)
    yield 'with no ranks nothing changes', z3.Implies(qall(r, z3.Not(og.has(r))), z3.And(m._ghosted_agents.dom == o._ghosted_agents.dom, only(m._ghosted_agents, o._ghosted_agents, k),
                                                                                            m._ghosted_agents.val[k] == o._ghosted_agents.val[k]))
    yield 'otherwise the agent is ghosted to exactly those ranks', qall(r, z3.Implies(og.has(r), z3.And(
        m._ghosted_agents.has(k), count(c, m, k, r) == og.val[r])))
    yield 'the record keeps the ranks given', qall(r, z3.Implies(og.has(r), c.arr('GhostedAgent', 'ghost_ranks')[m._ghosted_agents.val[k]] == g.ref))
    yield 'and to no other', z3.Implies(z3.Not(o._ghosted_agents.has(k)), qall(r, z3.Implies(z3.Not(og.has(r)), count(c, m, k, r) == 0)))
    yield 'no other agent changes', z3.And(only(m._ghosted_agents, o._ghosted_agents, k), others_keep(c, m, o, k))
    x, q = u('u!c'), z3.Int('q!c')
    yield 'no other count changes', qall([x, q], z3.Implies(x != k, count(c, m, x, q) == count(c, o, x, q, True)))


con('core.AgentManager.set_as_ghosted', args={'self': AM, 'ghost_ranks': RANKS, 'agent_id': UID}, requires=set_pre, ensures=set_post,
    modifies=lambda c: [c.self._ghosted_agents])


def dg_post(c):
    m, o, k = c.self, c.oself, c.arg('agent_id')
    yield from inv(c, m)
    yield 'the agent is not ghosted any more and no other changes', dropped(m._ghosted_agents, o._ghosted_agents, k)
    yield 'its ranks are returned', c.res.ref == c.arr('GhostedAgent', 'ghost_ranks', True)[o._ghosted_agents.val[k]]


con('core.AgentManager.delete_ghosted', args={'self': AM, 'agent_id': UID}, ensures=dg_post, result=RANKS, modifies=lambda c: [c.self._ghosted_agents],
    requires=lambda c: list(inv(c, c.self)) + [('the agent is ghosted', c.self._ghosted_agents.has(c.arg('agent_id')))])


def untag_post(c):
    m, o, k, r = c.self, c.oself, c.arg('agent_id'), c.arg('ghost_rank')
    yield from inv(c, m)
    yield 'the count of the agent on that rank drops by one', count(c, m, k, r) == count(c, o, k, r, True) - 1
    yield 'no other count changes', counts_else(c, m, o, k, r)
    yield 'the records are the same', z3.And(m._ghosted_agents.dom == o._ghosted_agents.dom, m._ghosted_agents.val == o._ghosted_agents.val)


con('core.AgentManager.untag_as_ghosted', args={'self': AM, 'ghost_rank': INT, 'agent_id': UID}, ensures=untag_post,
    requires=lambda c: list(inv(c, c.self)) + [('the agent is ghosted to that rank', z3.And(
        c.self._ghosted_agents.has(c.arg('agent_id')), ranks_of(c, c.self, c.arg('agent_id')).has(c.arg('ghost_rank'))))],
    modifies=lambda c: [ranks_of(c, c.self, c.arg('agent_id'))])


# ---- ghosts

def refc(c, m, uid, old=False):
    return c.arr('GhostAgent', 'ref_count', old)[m._ghost_agents.val[uid]]


def refc_else(c, m, o, uid):
    x = u('u!c')
    return qall(x, z3.Implies(z3.And(x != uid, o._ghost_agents.has(x)), refc(c, m, x) == refc(c, o, x, True)))


def rg_post(c):
    m, o, a = c.self, c.oself, c.arg('agent')
    k = a.uid
    rq = o._req_ghosts.has(k)
    n = refc(c, o, k, True)
    yield from inv(c, m)
    yield 'a requested ghost stays as it is', z3.Implies(rq, z3.And(m._ghost_agents.dom == o._ghost_agents.dom, m._ghost_agents.val == o._ghost_agents.val, refc(c, m, k) == n))
    yield 'the last reference drops the ghost', z3.Implies(z3.And(z3.Not(rq), n == 1), dropped(m._ghost_agents, o._ghost_agents, k))
    yield 'any other reference keeps it with one fewer', z3.Implies(z3.And(z3.Not(rq), n != 1), z3.And(
        m._ghost_agents.dom == o._ghost_agents.dom, m._ghost_agents.val == o._ghost_agents.val, refc(c, m, k) == n - 1))
    yield 'no other count changes', refc_else(c, m, o, k)


con('core.AgentManager.remove_ghost', args={'self': AM, 'agent': AG}, ensures=rg_post,
    requires=lambda c: list(inv(c, c.self)) + [('a ghost or a requested agent', z3.Or(c.self._req_ghosts.has(c.arg('agent').uid), c.self._ghost_agents.has(c.arg('agent').uid)))],
    modifies=lambda c: [c.self._ghost_agents, ('GhostAgent.ref_count', c.self._ghost_agents.val[c.arg('agent').uid])])


def delg_post(c):
    m, o, k = c.self, c.oself, c.arg('agent_id')
    yield from inv(c, m)
    yield 'the ghost is dropped and no other', dropped(m._ghost_agents, o._ghost_agents, k)
    yield 'it is no longer requested, and no other request changes', m._req_ghosts.dom == z3.Store(o._req_ghosts.dom, k, False)


con('core.AgentManager.delete_ghost', args={'self': AM, 'agent_id': UID}, ensures=delg_post, modifies=lambda c: [c.self._ghost_agents, c.self._req_ghosts],
    requires=lambda c: list(inv(c, c.self)) + [('it is a ghost', c.self._ghost_agents.has(c.arg('agent_id')))])


def addg_post(c):
    m, o, a = c.self, c.oself, c.arg('agent')
    yield from inv(c, m)
    yield 'the agent is a ghost with that count', z3.And(m._ghost_agents.has(a.uid), c.arr('GhostAgent', 'agent')[m._ghost_agents.val[a.uid]] == a.ref,
                                                        refc(c, m, a.uid) == c.arg('incr'))
    yield 'the ghost knows the rank of its agent', a.local_rank == c.arg('ghosted_rank')
    yield 'no other ghost changes', z3.And(only(m._ghost_agents, o._ghost_agents, a.uid), refc_else(c, m, o, a.uid))


con('core.AgentManager.add_ghost', args={'self': AM, 'ghosted_rank': INT, 'agent': AG, 'incr': INT}, requires=pre, ensures=addg_post,
    modifies=lambda c: [c.self._ghost_agents, ('Agent.local_rank', c.arg('agent').ref)])


def getg_post(c):
    m, o, k = c.self, c.oself, c.arg('agent_uid')
    has = o._ghost_agents.has(k)
    yield from inv(c, m)
    yield 'the ghost of that id, or none', c.res.ref == z3.If(has, c.arr('GhostAgent', 'agent')[o._ghost_agents.val[k]], 0)
    yield 'its count grows by the given amount', z3.Implies(has, refc(c, m, k) == refc(c, o, k, True) + c.arg('incr'))
    yield 'no other count changes', refc_else(c, m, o, k)


con('core.AgentManager.get_ghost', args={'self': AM, 'agent_uid': UID, 'incr': INT}, requires=pre, ensures=getg_post, result=AG,
    modifies=lambda c: [('GhostAgent.ref_count', c.self._ghost_agents.val[c.arg('agent_uid')])])
