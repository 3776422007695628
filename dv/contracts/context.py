"""Contracts for repast4py/context.py SharedContext (A01, A03, A04), over the contracts of core.AgentManager.

A projection is abstract here: its members are a ghost set of agents that add and remove change (assumed contract; the
projections' own code is under G0x and N01).
"""
import z3
from ..core import *
from ..pyfront import *
from ..pyfront import Contract, View, qall
from . import agents as AG_
from .agents import UID, AG, AM, LOCALS, GHOSTED, GDL, INT, u, inv as am_inv, only, same_map, dropped

PROJ = REF('Projection')
CTX = REF('SharedContext')
BYT = DICT(INT, LOCALS)
PROJS = DICT(INT, PROJ)
IL = LIST(INT)
AGL = LIST(AG)
SCHEMA = dict(AG_.SCHEMA)
SCHEMA.update({
    'SharedContext': {'_agent_manager': AM, '_agents_by_type': BYT, 'projections': PROJS, 'removed_ghosteds': GDL, 'projection_id': INT, 'rank': INT,
                      'comm': REF('Comm'), 'bounded_projs': PROJS, 'non_bounded_projs': LIST(PROJ)},
    'Projection': {'name': STR},
    'RNG': {},
})
CONTRACTS, LOOPS, MODELS = dict(AG_.CONTRACTS), dict(AG_.LOOPS), dict(AG_.MODELS)


def con(qual, **kw):
    CONTRACTS[qual] = Contract(qual, **kw)
    return CONTRACTS[qual]


# ---- ghost state: the members of each projection
MS = z3.ArraySort(z3.IntSort(), z3.ArraySort(z3.IntSort(), z3.BoolSort()))


def members0(I, args=None):
    I.eng.st.ghost['members'] = z3.Const('members0', MS)


def proj_change(on):
    def f(I, o, a, kw):
        g = I.eng.st.ghost
        m = g['members']
        g['members'] = z3.Store(m, o.t, z3.Store(m[o.t], I.lift(a[0], AG), on))
    return f


MODELS['Projection.add'] = proj_change(True)
MODELS['Projection.remove'] = proj_change(False)
MODELS['collections.OrderedDict'] = lambda I, a, kw: I.newconc('dict', [])


def uid_type(x):
    return UID.sort().accessor(0, 1)(x)


def cinv(c, s, old=False):
    """the context: its registries agree"""
    m, bt, pr = s._agent_manager, s._agents_by_type, s.projections
    loc = m._local_agents
    top = c.I.eng.alloc_top()
    h = c.oldheap if old else c.heap
    yield 'parts exist', z3.And(*[z3.And(p.ref > 0, p.ref <= top) for p in (m, bt, pr, s.removed_ghosteds)])
    yield from am_inv(c, m, old)
    t, t2, x, p = z3.Int('t!ci'), z3.Int('t2!ci'), u('u!ci'), z3.Int('p!ci')
    dom, val = ldom(c, old), lval(c, old)
    yield 'the registers of types are apart', qall([t, t2], z3.Implies(z3.And(bt.has(t), bt.has(t2), t != t2), bt.val[t] != bt.val[t2]), [z3.MultiPattern(bt.val[t], bt.val[t2])])
    yield 'and apart from the local agents', qall(t, z3.Implies(bt.has(t), z3.And(bt.val[t] != loc.ref, bt.val[t] > 0, bt.val[t] <= top)), [bt.val[t]])
    yield 'an agent is registered under a type exactly if it is local and of that type', qall([t, x], z3.Implies(
        bt.has(t), dom[bt.val[t]][x] == z3.And(loc.has(x), uid_type(x) == t)), [dom[bt.val[t]][x]])
    yield 'each local agent is registered under its type', qall(x, z3.Implies(loc.has(x), z3.And(
        bt.has(uid_type(x)), dom[bt.val[uid_type(x)]][x], val[bt.val[uid_type(x)]][x] == loc.val[x])), [loc.val[x]])
    yield 'projections exist', qall(p, z3.Implies(pr.has(p), z3.And(pr.val[p] > 0, pr.val[p] <= top)), [pr.val[p]])


def ldom(c, old=False):
    return arr(c, LOCALS, 'dom', z3.ArraySort(UID.sort(), z3.BoolSort()), old)


def lval(c, old=False):
    return arr(c, LOCALS, 'val', z3.ArraySort(UID.sort(), AG.sort()), old)


def arr(c, ty, part, rng, old):
    k = dk(ty, part)
    a = (c.oldheap if old else c.heap).get(k)
    if a is None:
        a = z3.Const('H_' + k, z3.ArraySort(z3.IntSort(), rng))
        Eng.heap_sorts[k] = rng
    return a


def same_parts(s, o):
    return z3.And(*[getattr(s, f).ref == getattr(o, f).ref for f in ('_agent_manager', '_agents_by_type', 'projections', 'removed_ghosteds')],
                  s._agent_manager._local_agents.ref == o._agent_manager._local_agents.ref)


def memb(c, old=False):
    return (c.oldghost if old else c.ghost)['members']


def all_projs(c, s, f):
    p = z3.Int('p!ap')
    return qall(p, z3.Implies(s.projections.has(p), f(s.projections.val[p])), [s.projections.val[p]])


def others(c, a):
    """no projection gains or loses any agent but a"""
    p, b = z3.Int('p!o'), z3.Int('b!o')
    return qall([p, b], z3.Implies(b != a, memb(c)[p][b] == memb(c, True)[p][b]), [memb(c)[p][b]])


# ---- add / remove

def add_post(c):
    s, o, a = c.self, c.oself, c.arg('agent')
    loc, ol = s._agent_manager._local_agents, o._agent_manager._local_agents
    yield from cinv(c, s)
    yield 'the agent is local', z3.And(loc.has(a.uid), loc.val[a.uid] == a.ref)
    yield 'no other agent changes', only(loc, ol, a.uid)
    yield 'the agent is in every projection', all_projs(c, s, lambda p: memb(c)[p][a.ref])
    yield 'no other agent enters or leaves a projection', others(c, a.ref)
    yield 'the agent knows its rank', a.local_rank == s._agent_manager.rank
    yield 'the same parts', same_parts(s, o)


def ctx_pre(c):
    yield from cinv(c, c.self)


def reg_of(c, s, uid):
    return c.view(LOCALS, s._agents_by_type.val[uid_type(uid)])


def add_mods(c):
    s = c.self
    return [s._agent_manager._local_agents, s._agents_by_type, reg_of(c, s, c.arg('agent').uid), ('Agent.local_rank', c.arg('agent').ref)]


def ghost_members(I, c):
    I.eng.st.ghost['members'] = I.eng.fresh('members', MS)


con('context.SharedContext.add', args={'self': CTX, 'agent': AG}, requires=ctx_pre, ensures=add_post, modifies=add_mods, setup=members0, ghost=ghost_members)


class ProjLoop:
    """over the projections: those seen have (or have not) the agent, no other membership changes"""
    def __init__(self, on, arg='agent'):
        self.on, self.name = on, arg

    def ghosts(self, I):
        return ['members']

    def __call__(self, lc):
        a = lc.arg(self.name).ref
        s = lc.self
        pr = s.projections
        p, b = z3.Int('p!pl'), z3.Int('b!pl')
        m, m0 = lc.ghost['members'], lc.g0['members']
        yield 'the projections seen', qall(p, z3.Implies(lc.seen[p], m[pr.val[p]][a] == self.on), [lc.seen[p]])
        yield 'no other agent', qall([p, b], z3.Implies(b != a, m[p][b] == m0[p][b]), [m[p][b]])


LOOPS[('context.SharedContext.add', 0)] = ProjLoop(True)
LOOPS[('context.SharedContext.remove', 0)] = ProjLoop(False)


def rm_pre(c):
    yield from cinv(c, c.self)
    a = c.arg('agent')
    loc = c.self._agent_manager._local_agents
    yield 'the agent is local', z3.And(loc.has(a.uid), loc.val[a.uid] == a.ref)


def rm_post(c):
    s, o, a = c.self, c.oself, c.arg('agent')
    m, om = s._agent_manager, o._agent_manager
    loc, ol = m._local_agents, om._local_agents
    rg, org = s.removed_ghosteds, o.removed_ghosteds
    yield from cinv(c, s)
    yield 'the agent is not local any more and no other changes', z3.And(z3.Not(loc.has(a.uid)), only(loc, ol, a.uid))
    yield 'the agent is in no projection', all_projs(c, s, lambda p: z3.Not(memb(c)[p][a.ref]))
    yield 'no other agent enters or leaves a projection', others(c, a.ref)
    k = a.uid
    yield 'the ranks it is ghosted to are kept for the next synchronisation', z3.And(
        rg.len == org.len + z3.If(om._ghosted_agents.has(k), 1, 0),
        z3.Implies(om._ghosted_agents.has(k), z3.And(rg.el[org.len] == om._ghosted_agents.val[k], z3.Not(m._ghosted_agents.has(k)))))
    yield 'the same parts', same_parts(s, o)


con('context.SharedContext.remove', args={'self': CTX, 'agent': AG}, requires=rm_pre, ensures=rm_post, setup=members0, ghost=ghost_members,
    modifies=lambda c: [c.self._agent_manager._local_agents, c.self._agent_manager._ghosted_agents, c.self.removed_ghosteds, reg_of(c, c.self, c.arg('agent').uid)])


# ---- queries

def some_local(c, s, cond, old=False):
    x = u('u!sl')
    return z3.Not(qall(x, z3.Implies(s._agent_manager._local_agents.has(x), z3.Not(cond(x)))))


con('context.SharedContext.contains_type', args={'self': CTX, 'agent_type': INT}, requires=ctx_pre, modifies=lambda c: [], result=BOOL,
    ensures=lambda c: [('exactly if a local agent has that type', c.res == some_local(c, c.self, lambda x: uid_type(x) == c.arg('agent_type')))])
con('context.SharedContext.agent', args={'self': CTX, 'agent_id': UID}, requires=ctx_pre, modifies=lambda c: [], result=AG,
    ensures=lambda c: [('the local agent of that id, or none', c.res.ref == z3.If(
        c.self._agent_manager._local_agents.has(c.arg('agent_id')), c.self._agent_manager._local_agents.val[c.arg('agent_id')], 0))])


def ghost_agent_post(c):
    m, o, k = c.self._agent_manager, c.oself._agent_manager, c.arg('agent_id')
    has = o._ghost_agents.has(k)
    yield 'the ghost of that id, or none', c.res.ref == z3.If(has, c.arr('GhostAgent', 'agent')[o._ghost_agents.val[k]], 0)
    yield 'a query counts no reference', z3.Implies(has, AG_.refc(c, m, k) == AG_.refc(c, o, k, True))


con('context.SharedContext.ghost_agent', args={'self': CTX, 'agent_id': UID}, requires=ctx_pre, result=AG, ensures=ghost_agent_post,
    modifies=lambda c: [('GhostAgent.ref_count', c.self._agent_manager._ghost_agents.val[c.arg('agent_id')])])


# what agents() returns: a list or an iterator over values

def agents_setup(with_type, with_count, shuffle=None):
    return None


def result_list(c):
    """(length, el) of a returned list, or the dict behind a returned iterator"""
    r = c.I.deref(c.result)
    if isinstance(r, Iter):
        d = r
        while isinstance(d, Iter):
            k = d.kind
            d = c.I.deref(d.a[0])
            if k == 'values':
                return 'values', d
        raise Unsupported('agents() returns %s' % k)
    return 'list', r


def wanted(c, s, typed):
    """the agents asked for"""
    loc = s._agent_manager._local_agents
    if typed:
        return lambda x: z3.And(loc.has(x), uid_type(x) == c.arg('agent_type'))
    return lambda x: loc.has(x)


def agents_post(typed, counted):
    def f(c):
        s, o = c.self, c.oself
        loc = s._agent_manager._local_agents
        kind, r = result_list(c)
        W = wanted(c, s, typed)
        x = u('u!ap')
        i, j = z3.Int('i!ap'), z3.Int('j!ap')
        uid = c.arr('Agent', 'uid')
        if kind == 'values':
            if isinstance(r, Conc):
                yield 'the agents asked for, and no other', qall(x, W(x) == z3.BoolVal(len(c.I.payload(r)) != 0))
                return
            d = c.view(r.ty, r.t)
            yield 'exactly the agents asked for', qall(x, z3.And(d.has(x) == W(x), z3.Implies(W(x), d.val[x] == loc.val[x])))
            if counted:
                yield 'no more than the count', z3.BoolVal(False)
            return
        if isinstance(r, Conc):
            yield 'there are none', z3.And(qall(x, z3.Not(W(x))) if not counted else z3.Or(qall(x, z3.Not(W(x))), c.arg('count') == 0), z3.BoolVal(len(c.I.payload(r)) == 0))
            return
        l = c.view(r.ty, r.t)
        yield 'only agents asked for', qall(i, z3.Implies(z3.And(0 <= i, i < l.len), z3.And(W(uid[l.el[i]]), loc.val[uid[l.el[i]]] == l.el[i])), [l.el[i]])
        yield 'none twice', qall([i, j], z3.Implies(z3.And(0 <= i, i < j, j < l.len), l.el[i] != l.el[j]), [z3.MultiPattern(l.el[i], l.el[j])])
        if counted:
            yield 'no more than the count', l.len <= c.arg('count')
            e = z3.Implies(l.len < c.arg('count'), hasall(l, W, loc))
            yield 'all of them when there are fewer', e
        else:
            yield 'all of them', hasall(l, W, loc)
    return f


def hasall(l, W, loc):
    x, i = u('u!ha'), z3.Int('i!ha')
    return qall(x, z3.Implies(W(x), z3.Not(qall(i, z3.Not(z3.And(0 <= i, i < l.len, l.el[i] == loc.val[x])), [l.el[i]]))))


def shuffle_model(I, o, a, kw):
    """assumed: the list is permuted"""
    r = I.deref(a[0])
    e = I.eng
    if isinstance(r, Conc):
        if len(I.payload(r)) > 1:
            raise Unsupported('shuffle')
        return
    ln, el, _ = I.L(r)
    el2 = e.fresh('el', el.sort())
    to, fro = (e.fresh(n, z3.ArraySort(z3.IntSort(), z3.IntSort())) for n in ('to', 'fro'))
    i = z3.Int('i!sh')
    e.st.pc.append(qall(i, z3.Implies(z3.And(0 <= i, i < ln), z3.And(0 <= to[i], to[i] < ln, fro[to[i]] == i, el2[to[i]] == el[i])), [to[i]]))
    e.st.pc.append(qall(i, z3.Implies(z3.And(0 <= i, i < ln), z3.And(0 <= fro[i], fro[i] < ln, to[fro[i]] == i, el2[i] == el[fro[i]])), [el2[i]]))
    e.st.pc.append(qall(i, z3.Implies(z3.And(0 <= i, i < ln), el2[to[i]] == el[i]), [el[i]]))
    I.list_put(r, ln, el2)


MODELS['RNG.shuffle'] = shuffle_model
rng_default = lambda I, o: V(REF('RNG'), z3.Const('rng', z3.IntSort()))
rng_default.is_attr = True
MODELS['random.default_rng'] = rng_default
MODELS['module:repast4py.random'] = True
MODELS['repast4py.random.default_rng'] = V(REF('RNG'), z3.Const('rng', z3.IntSort()))

for _n, _t, _c in (('ALL', 0, 0), ('TYPE', 1, 0), ('COUNT', 0, 1), ('TYPE_COUNT', 1, 1)):
    _args = {'self': CTX, 'shuffle': BOOL}
    if _t:
        _args['agent_type'] = INT
    if _c:
        _args['count'] = INT
    globals()['AGENTS_' + _n] = Contract('context.SharedContext.agents', args=_args, ensures=agents_post(_t, _c), modifies=lambda c: [], apply=False,
                                         requires=(lambda c: list(cinv(c, c.self)) + [('the count is not negative', c.arg('count') >= 0)]) if _c else ctx_pre)


def size_post(given):
    def f(c):
        n = c.res
        k, i = z3.Int('k!sz'), z3.Int('i!sz')
        nn = arr(c, LOCALS, 'n', z3.IntSort(), False)
        bt = c.self._agents_by_type
        if not given:
            yield 'the number of local agents, under -1', z3.And(n.has(-1), n.val[-1] == nn[c.self._agent_manager._local_agents.ref])
            yield 'nothing else', qall(k, n.has(k) == (k == -1))
            return
        l = c.arg('agent_type_ids')
        yield 'each type asked for has its number', qall(i, z3.Implies(z3.And(l.len > 0, 0 <= i, i < l.len), z3.And(
            n.has(l.el[i]), n.val[l.el[i]] == z3.If(bt.has(l.el[i]), nn[bt.val[l.el[i]]], 0))), [l.el[i]])
    return f


def size_loop(lc):
    l = lc.arg('agent_type_ids')
    if isinstance(lc.I.deref(lc.fr.env['counts']), Conc):
        return
    n = lc.loc('counts')
    j = z3.Int('j!sl')
    nn = arr(lc, LOCALS, 'n', z3.IntSort(), False)
    bt = lc.self._agents_by_type
    yield 'types counted so far', qall(j, z3.Implies(z3.And(0 <= j, j < lc.i), z3.And(
        n.has(l.el[j]), n.val[l.el[j]] == z3.If(bt.has(l.el[j]), nn[bt.val[l.el[j]]], 0))), [l.el[j]])


LOOPS[('context.SharedContext.size', 0)] = size_loop
SIZE_ALL = Contract('context.SharedContext.size', args={'self': CTX}, requires=ctx_pre, ensures=size_post(False), result=DICT(INT, INT), modifies=lambda c: [], apply=False)
SIZE_TYPES = Contract('context.SharedContext.size', args={'self': CTX, 'agent_type_ids': IL}, requires=ctx_pre, ensures=size_post(True), result=DICT(INT, INT), modifies=lambda c: [], apply=False)


# ---- projections

def isinst(I, v, k):
    if isinstance(v, V) and v.ty is PROJ and isinstance(k, ClassVal) and k.name == 'BoundedProjection':
        t = I.getfield(v, 'Projection', '__bounded')
        return I.eng.branch(t.t != 0) if isinstance(t, V) else bool(t)
    return NotImplemented


MODELS['isinstance'] = isinst
SCHEMA['Projection']['__bounded'] = INT


def ghosts_in(c, m, p, upto=None):
    x = u('u!gi')
    ga = c.arr('GhostAgent', 'agent')
    return qall(x, z3.Implies(m._ghost_agents.has(x) if upto is None else upto[x], memb(c)[p][ga[m._ghost_agents.val[x]]]), [m._ghost_agents.val[x]])


def others_p(c, p):
    """only projection p gains members, and none loses any"""
    q, b = z3.Int('p!op'), z3.Int('b!op')
    m, m0 = memb(c), memb(c, True)
    yield 'no other projection changes', qall([q, b], z3.Implies(q != p, m[q][b] == m0[q][b]), [m[q][b]])
    yield 'no member leaves', qall(b, z3.Implies(m0[p][b], m[p][b]), [m[p][b]])


def agp_post(c):
    m, o = c.self, c.oself
    x = u('u!ag')
    p = c.arg('projection').ref
    yield from am_inv(c, m)
    yield 'every ghost is in the projection', ghosts_in(c, m, p)
    yield 'every ghost counts one reference more', qall(x, z3.Implies(m._ghost_agents.has(x), AG_.refc(c, m, x) == AG_.refc(c, o, x, True) + 1), [m._ghost_agents.val[x]])
    yield from others_p(c, p)


class AgpLoop:
    def ghosts(self, I):
        return ['members']

    def __call__(self, lc):
        m, o = lc.self, lc.oself
        p = lc.arg('projection').ref
        x, q, b = u('u!al'), z3.Int('q!al'), z3.Int('b!al')
        ga, ga0 = lc.arr('GhostAgent', 'agent'), lc.arr('GhostAgent', 'agent', True)
        ms, m0 = lc.ghost['members'], lc.g0['members']
        r, r0 = lc.arr('GhostAgent', 'ref_count'), lc.arr('GhostAgent', 'ref_count', True)
        i = z3.Int('i!al')
        yield 'ghosts seen', qall(x, z3.Implies(m._ghost_agents.has(x), z3.And(
            r[m._ghost_agents.val[x]] == r0[m._ghost_agents.val[x]] + z3.If(lc.seen[x], 1, 0),
            z3.Implies(lc.seen[x], ms[p][ga[m._ghost_agents.val[x]]]))), [m._ghost_agents.val[x]])
        yield 'no other record', qall(i, z3.Implies(r[i] != r0[i], z3.Not(qall(x, z3.Not(z3.And(m._ghost_agents.has(x), m._ghost_agents.val[x] == i)), [m._ghost_agents.val[x]]))), [r[i]])
        yield 'no other projection', qall([q, b], z3.Implies(q != p, ms[q][b] == m0[q][b]), [ms[q][b]])
        yield 'no member leaves', qall(b, z3.Implies(m0[p][b], ms[p][b]), [ms[p][b]])


LOOPS[('core.AgentManager.add_ghosts_to_projection', 0)] = AgpLoop()
con('core.AgentManager.add_ghosts_to_projection', args={'self': AM, 'projection': PROJ}, requires=lambda c: list(am_inv(c, c.self)), ensures=agp_post,
    setup=members0, ghost=ghost_members, modifies=lambda c: ['GhostAgent.ref_count'])


def named(c, s, nm, old=False):
    p = z3.Int('p!nm')
    names = c.arr('Projection', 'name', old)
    return z3.Not(qall(p, z3.Implies(s.projections.has(p), names[s.projections.val[p]] != nm), [s.projections.val[p]]))


def fresh_ids(c, s):
    p = z3.Int('p!fi')
    return qall(p, z3.Implies(s.projections.has(p), p < s.projection_id), [s.projections.val[p]])


def ap_pre(c):
    s = c.self
    yield from cinv(c, s)
    top = c.I.eng.alloc_top()
    yield 'projection numbers are below the next one', fresh_ids(c, s)
    yield 'bounded and other projections are apart', z3.And(s.bounded_projs.ref != s.projections.ref, s.bounded_projs.ref > 0, s.non_bounded_projs.ref > 0,
                                                            s.bounded_projs.ref <= top, s.non_bounded_projs.ref <= top)


def ap_post(c):
    s, o, p = c.self, c.oself, c.arg('projection')
    m = s._agent_manager
    x, q = u('u!pp'), z3.Int('q!pp')
    yield from cinv(c, s)
    yield 'the projection is added under a new number and the others stay', z3.And(
        s.projections.has(o.projection_id), s.projections.val[o.projection_id] == p.ref,
        qall(q, z3.Implies(q != o.projection_id, z3.And(s.projections.has(q) == o.projections.has(q), s.projections.val[q] == o.projections.val[q]))))
    yield 'every local agent is in it', qall(x, z3.Implies(m._local_agents.has(x), memb(c)[p.ref][m._local_agents.val[x]]), [m._local_agents.val[x]])
    yield 'every ghost is in it', ghosts_in(c, m, p.ref)
    yield from others_p(c, p.ref)
    b = c.arr('Projection', '__bounded')[p.ref] != 0
    nb, onb = s.non_bounded_projs, o.non_bounded_projs
    yield 'a bounded projection is known as one under the same number', z3.Implies(b, z3.And(
        s.bounded_projs.has(o.projection_id), s.bounded_projs.val[o.projection_id] == p.ref, nb.len == onb.len))
    yield 'any other is in the other list', z3.Implies(z3.Not(b), z3.And(nb.len == onb.len + 1, nb.el[onb.len] == p.ref))
    yield 'numbers stay below the next one', fresh_ids(c, s)


def ap_name_loop(lc):
    names = lc.arr('Projection', 'name')
    p = z3.Int('p!nl')
    pr = lc.self.projections
    yield 'no name seen is that of the projection', qall(p, z3.Implies(lc.seen[p], names[pr.val[p]] != lc.arg('projection').name), [lc.seen[p]])


class ApLoop:
    def ghosts(self, I):
        return ['members']

    def __call__(self, lc):
        p = lc.arg('projection').ref
        loc = lc.self._agent_manager._local_agents
        x, q, b = u('u!al'), z3.Int('q!al'), z3.Int('b!al')
        ms, m0 = lc.ghost['members'], lc.g0['members']
        yield 'agents seen', qall(x, z3.Implies(lc.seen[x], ms[p][loc.val[x]]), [lc.seen[x]])
        yield 'no other projection', qall([q, b], z3.Implies(q != p, ms[q][b] == m0[q][b]), [ms[q][b]])
        yield 'no member leaves', qall(b, z3.Implies(m0[p][b], ms[p][b]), [ms[p][b]])


LOOPS[('context.SharedContext.add_projection', 0)] = ap_name_loop
LOOPS[('context.SharedContext.add_projection', 1)] = ApLoop()
con('context.SharedContext.add_projection', args={'self': CTX, 'projection': PROJ}, requires=ap_pre, ensures=ap_post, setup=members0, ghost=ghost_members,
    raises={'ValueError': lambda c: named(c, c.self, c.arg('projection').name)},
    modifies=lambda c: [c.self.projections, c.self.bounded_projs, c.self.non_bounded_projs, ('SharedContext.projection_id', c.self.ref), 'GhostAgent.ref_count'])


def gp_post(c):
    s = c.self
    p = z3.Int('p!gp')
    yield 'a projection of the context', z3.Not(qall(p, z3.Not(z3.And(s.projections.has(p), s.projections.val[p] == c.res.ref)), [s.projections.val[p]]))
    yield 'with that name', c.arr('Projection', 'name')[c.res.ref] == c.arg('projection_name')


def gp_loop(lc):
    names = lc.arr('Projection', 'name')
    p = z3.Int('p!nl')
    pr = lc.self.projections
    yield 'no name seen is the one asked for', qall(p, z3.Implies(lc.seen[p], names[pr.val[p]] != lc.arg('projection_name')), [lc.seen[p]])


LOOPS[('context.SharedContext.get_projection', 0)] = gp_loop
con('context.SharedContext.get_projection', args={'self': CTX, 'projection_name': STR}, requires=ctx_pre, ensures=gp_post, modifies=lambda c: [], result=PROJ,
    raises={'KeyError': lambda c: z3.Not(named(c, c.self, c.arg('projection_name')))})
