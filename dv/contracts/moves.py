"""Contracts for the exchange functions of repast4py/context.py SharedContext (A03, A04), each rank's part of them.

What a rank sends to another is a list of messages; the transport (mpi4py) hands rank d's list for rank r to rank r.  A message is a
record here: the two-element list or tuple that is sent, with its parts as fields.  The user's create_agent and an agent's save and
update are abstract: an agent created from a saved state carries the id in it.
"""
import ast
import z3
from ..core import *
from ..pyfront import *
from ..pyfront import Contract, Ctx, View, qall, Slice
from . import context as C
from . import agents as AG_
from .agents import UID, AG, AM, RANKS, GHOST, GHOSTED, GDL, u, inv as am_inv, count, rdom, rval, refc
from .context import CTX, PROJ, PROJS, cinv, same_parts, memb, MS

STATE, MDATA, MSG = REF('State'), REF('MoveData'), REF('OobMsg')
MSGS = DLIST(MSG)
SCHEMA = dict(C.SCHEMA)
SCHEMA.update({
    'State': {'uid': UID, 'of': AG, 'full': BOOL},              # (uid, ...) as saved by an agent, or just (uid,)
    'MoveData': {'state': STATE, 'ghosted': RANKS, 'n': INT},   # [state] or [state, ghosted ranks]
    'OobMsg': {'data': MDATA, 'pid': INT, 'pt': ANY},           # [move data, (projection id, location)]
    'Creator': {},
})
CONTRACTS, LOOPS, MODELS = dict(C.CONTRACTS), dict(C.LOOPS), dict(C.MODELS)
UNITS = []
I_ = z3.IntSort()
FROM = z3.Function('sender', I_, I_)            # of a received message
LIDX = z3.Function('rank_of_list', I_, I_)      # of a list of received messages
SMSG = z3.Function('message_of_state', I_, I_)
MMAP = z3.Function('message_of_ranks', I_, I_)


def con(q, unit=True, **kw):
    CONTRACTS[q] = Contract(q, **kw)
    if unit:
        UNITS.append(q)


def gput(I, **kw):
    g = I.eng.st.ghost = dict(I.eng.st.ghost)
    g.update(kw)


# ---- models
def state_item(I, o, a, kw):
    if isinstance(a[0], Slice):
        return (o,)
    if a[0] != 0:
        raise Unsupported('state')
    return I.getfield(o, 'State', 'uid')


def mdata_item(I, o, a, kw):
    if a[0] == 1:
        I.eng.prove('there is a second element', fld(I, o, 'n') == 2, 'safety')
    return I.getfield(o, 'MoveData', ('state', 'ghosted')[a[0]])


def msg_item(I, o, a, kw):
    return I.getfield(o, 'OobMsg', 'data') if a[0] == 0 else (I.getfield(o, 'OobMsg', 'pid'), I.getfield(o, 'OobMsg', 'pt'))


def fld(I, o, f):
    """the term of a field"""
    v = I.getfield(o, o.ty.args[0], f)
    return I.lift(v, SCHEMA[o.ty.args[0]][f])


def mdata_len(I, o, a, kw):
    return I.getfield(o, 'MoveData', 'n')


def create(I, f, a, kw):
    """create_agent: the agent has the id in the state; it may be new or one the user kept"""
    e = I.eng
    s = a[0]
    e.prove('agents are created from a saved state', fld(I, s, 'full'), 'pre')
    top = e.alloc_top()
    nb = e.fresh('allocA', I_)
    e.st.pc.append(nb >= top)
    e.newtop(nb)
    r = e.freshv('created', AG)
    e.assume(z3.And(r.t > 0, r.t <= nb, fld(I, r, 'uid') == fld(I, s, 'uid')))
    g = e.st.ghost
    if 'src' in g:
        gput(I, src=z3.Store(g['src'], fld(I, s, 'uid'), s.t), agentof=z3.Store(g['agentof'], s.t, r.t))
    return r


def move_oob(I, o, a, kw):
    g = I.eng.st.ghost
    m = g['moved']
    gput(I, moved=z3.Store(m, o.t, z3.Store(m[o.t], I.lift(a[0], AG), I.lift(a[1], ANY))))


MODELS.update({'State.__getitem__': state_item, 'MoveData.__getitem__': mdata_item, 'MoveData.__len__': mdata_len, 'OobMsg.__getitem__': msg_item, 'Creator.__call__': create,
               'Projection._move_oob_agent': move_oob})


# ---- receiving agents that crossed a boundary

MV = z3.ArraySort(I_, z3.ArraySort(I_, ANY.sort()))


class Recv:
    """the received messages"""
    def __init__(self, c, view):
        self.c, self.L = c, view
        self.uid_, self.full, self.n = c.arr('State', 'uid', True), c.arr('State', 'full', True), c.arr('MoveData', 'n', True)
        self.state_, self.ghosted_ = c.arr('MoveData', 'state', True), c.arr('MoveData', 'ghosted', True)
        self.data, self.pid, self.pt = c.arr('OobMsg', 'data', True), c.arr('OobMsg', 'pid', True), c.arr('OobMsg', 'pt', True)

    def lst(self, a):
        return View(self.c.I, self.c.oldheap, V(MSGS, self.L.el[a]))

    def has(self, m):
        return z3.And(0 <= FROM(m), FROM(m) < self.L.len, self.lst(FROM(m)).has(m))

    def pos(self, m):
        return self.lst(FROM(m)).pos(m)

    def state(self, m):
        return self.state_[self.data[m]]

    def uid(self, m):
        return self.uid_[self.state(m)]

    def ghosted(self, m):
        return self.ghosted_[self.data[m]]

    def two(self, m):
        return self.n[self.data[m]] == 2


def pr_pre(c):
    R = Recv(c, c.arg('recv_data'))
    s = c.self
    m_, bp, loc = s._agent_manager, s.bounded_projs, s._agent_manager._local_agents
    top = c.I.eng.alloc_top()
    a, m, n, x, r = z3.Int('a!pr'), z3.Int('m!pr'), z3.Int('n!pr'), u('x!pr'), z3.Int('r!pr')
    yield from cinv(c, s)
    yield 'the lists received', qall(a, z3.Implies(z3.And(0 <= a, a < R.L.len), z3.And(R.L.el[a] > 0, R.L.el[a] <= top, LIDX(R.L.el[a]) == a)), [R.L.el[a]])
    yield 'messages are told apart', qall([a, m], z3.Implies(z3.And(0 <= a, a < R.L.len, R.lst(a).has(m)), FROM(m) == a), [R.lst(a).mem[m]])
    has = [R.lst(FROM(m)).mem[m]]
    yield 'messages', qall(m, z3.Implies(R.has(m), z3.And(m > 0, m <= top, R.data[m] > 0, R.data[m] <= top, R.state(m) > 0, R.state(m) <= top, SMSG(R.state(m)) == m,
                                                         z3.Or(R.n[R.data[m]] == 1, R.two(m)), bp.has(R.pid[m]))), has)
    g = c.view(RANKS, R.ghosted(m))
    gdr = c.arr('GhostedAgent', 'ghost_ranks')
    yield 'the ranks in a message are its own', qall(m, z3.Implies(z3.And(R.has(m), R.two(m)), z3.And(g.ref > 0, g.ref <= top, MMAP(g.ref) == m)), has)
    yield 'with positive counts', qall([m, r], z3.Implies(z3.And(R.has(m), R.two(m), g.has(r)), g.val[r] > 0), [g.dom[r]])
    yield 'and no record\'s here', qall(x, z3.Implies(m_._ghosted_agents.has(x), z3.Not(z3.And(R.has(MMAP(gdr[m_._ghosted_agents.val[x]])), R.ghosted(MMAP(gdr[m_._ghosted_agents.val[x]])) == gdr[m_._ghosted_agents.val[x]]))),
                                        [m_._ghosted_agents.val[x]])
    yield 'a message without a state follows one with it, or the agent is here', qall(m, z3.Implies(z3.And(R.has(m), z3.Not(R.full[R.state(m)])), z3.Or(loc.has(R.uid(m)), z3.And(
        R.has(FIRST(m)), FROM(FIRST(m)) == FROM(m), R.pos(FIRST(m)) < R.pos(m), R.uid(FIRST(m)) == R.uid(m)))), has)
    yield 'one message for an agent and a space', qall([m, n], z3.Implies(z3.And(R.has(m), R.has(n), R.uid(m) == R.uid(n), R.pid[m] == R.pid[n]), m == n), [z3.MultiPattern(R.pid[m], R.pid[n])])
    yield 'only local agents are ghosted', qall(x, z3.Implies(m_._ghosted_agents.has(x), loc.has(x)), [m_._ghosted_agents.val[x]])
    p = z3.Int('p!pr')
    yield 'the spaces', z3.And(bp.ref > 0, qall([p, r], z3.Implies(z3.And(bp.has(p), bp.has(r), p != r), bp.val[p] != bp.val[r]), [z3.MultiPattern(bp.val[p], bp.val[r])]))
    G = c.arg('ghosts_to_remove')
    yield 'nothing noted yet', z3.And(G.ref > 0, G.ref <= top, G.len == 0)


FIRST = z3.Function('first_message', I_, I_)


def received(c, s, o, R, H, G):
    """what holds when the messages in H have been handled"""
    m_, om = s._agent_manager, o._agent_manager
    loc, ol, gh = m_._local_agents, om._local_agents, om._ghost_agents
    src, of, moved = c.ghost['src'], c.ghost['agentof'], c.ghost['moved']
    x, m, r = u('x!rv'), z3.Int('m!rv'), z3.Int('r!rv')
    yield from cinv(c, s)
    yield 'the same parts', z3.And(same_parts(s, o), m_._ghosted_agents.ref == om._ghosted_agents.ref, m_.rank == om.rank)
    has = [R.lst(FROM(m)).mem[m]]
    yield 'local agents stay', qall(x, z3.Implies(ol.has(x), z3.And(loc.has(x), loc.val[x] == ol.val[x])), [loc.val[x]])
    yield 'each agent received is local', qall(m, z3.Implies(H(m), loc.has(R.uid(m))), has)
    new = lambda x: z3.And(loc.has(x), z3.Not(ol.has(x)))
    sm = SMSG(src[x])
    yield 'and no other: it was created from the state in a message', qall(x, z3.Implies(new(x), z3.And(H(sm), R.state(sm) == src[x], R.uid(sm) == x, R.full[src[x]], loc.val[x] == of[src[x]])), [loc.val[x]])
    yield 'only local agents are ghosted', qall(x, z3.Implies(m_._ghosted_agents.has(x), loc.has(x)), [m_._ghosted_agents.dom[x]])
    gdr, ogdr = c.arr('GhostedAgent', 'ghost_ranks'), c.arr('GhostedAgent', 'ghost_ranks', True)
    yield 'records of agents that were here stay', qall(x, z3.Implies(ol.has(x), z3.And(m_._ghosted_agents.has(x) == om._ghosted_agents.has(x), z3.Implies(m_._ghosted_agents.has(x), m_._ghosted_agents.val[x] == om._ghosted_agents.val[x]))),
                                                        [m_._ghosted_agents.val[x]])
    og = c.view(RANKS, R.ghosted(sm), True)
    yield 'a received agent is ghosted to the ranks in its message but this one', qall([x, r], z3.Implies(new(x), count(c, m_, x, r) == z3.If(z3.And(R.two(sm), og.has(r), r != c.oself.rank), og.val[r], 0)), [og.dom[r]])
    q = gdr[m_._ghosted_agents.val[x]]
    yield 'the ranks in a message become those of its agent', qall(x, z3.Implies(z3.And(m_._ghosted_agents.has(x), R.has(MMAP(q)), R.two(MMAP(q)), R.ghosted(MMAP(q)) == q), z3.And(H(MMAP(q)), R.uid(MMAP(q)) == x)), [m_._ghosted_agents.val[x]])
    yield 'a former ghost is noted', z3.And(qall(x, z3.Implies(z3.And(new(x), gh.has(x)), G.has(x)), [loc.val[x]]), qall(x, z3.Implies(G.has(x), z3.And(new(x), gh.has(x))), [G.mem[x]]))
    bp = o.bounded_projs
    yield 'the agent is where its message says in the space', qall(m, z3.Implies(H(m), moved[bp.val[R.pid[m]]][loc.val[R.uid(m)]] == R.pt[m]), has)


def pr_post(c):
    R = Recv(c, c.old('recv_data'))
    yield from received(c, c.self, c.oself, R, R.has, c.arg('ghosts_to_remove'))


class PrLoop:
    def __init__(self, inner):
        self.inner = inner

    def ghosts(self, I):
        return ['src', 'agentof', 'moved', 'members']

    def __call__(self, lc):
        R = Recv(lc, lc.old('recv_data'))
        a = LIDX(lc.it.ref) if self.inner else lc.i
        H = lambda m: z3.And(R.has(m), z3.Or(FROM(m) < a, z3.And(FROM(m) == a, R.pos(m) < lc.i))) if self.inner else z3.And(R.has(m), FROM(m) < a)
        yield from received(lc, lc.self, lc.oself, R, H, lc.arg('ghosts_to_remove'))
        # the maps of ranks change only by losing this rank, when their message is handled
        q, r = z3.Int('q!pl'), z3.Int('r!pl')
        d, d0, v, v0 = rdom(lc), rdom(lc, True), rval(lc), rval(lc, True)
        yield 'maps of ranks', qall([q, r], z3.Implies(q <= lc.I.entry_top, z3.Or(z3.And(d[q][r] == d0[q][r], v[q][r] == v0[q][r]), z3.And(r == lc.oself.rank, H(MMAP(q)), R.two(MMAP(q)), R.ghosted(MMAP(q)) == q, z3.Not(d[q][r])))), [d[q][r]])


LOOPS[('context.SharedContext._process_recv_oob_data', 0)] = PrLoop(False)
LOOPS[('context.SharedContext._process_recv_oob_data', 1)] = PrLoop(True)


def pr_setup(I, args):
    g = I.eng.st.ghost
    C.members0(I)
    g['src'] = z3.Const('src0', z3.ArraySort(UID.sort(), I_))
    g['agentof'] = z3.Const('agentof0', z3.ArraySort(I_, I_))
    g['moved'] = z3.Const('moved0', MV)


con('context.SharedContext._process_recv_oob_data', args={'self': CTX, 'recv_data': LIST(MSGS), 'ghosts_to_remove': DLIST(UID), 'create_agent': REF('Creator')},
    requires=pr_pre, ensures=pr_post, setup=pr_setup, apply=False)

# ---- what is sent: for each rank the items put in its list

OB = z3.ArraySort(I_, z3.ArraySort(UID.sort(), z3.BoolSort()))
SCHEMA.update({'Outbox': {}, 'Slot': {'rank': INT}})


def outbox(I, n, sub, kind, it):
    """[[] for i in range(self.comm.size)]"""
    if isinstance(n.elt, ast.List) and not n.elt.elts and kind == 'list' and it[0] == 'sym':
        e = I.eng
        gput(I, boxlen=it[1](), outbox=z3.K(I_, z3.K(UID.sort(), z3.BoolVal(False))), snaps=z3.K(I_, z3.K(UID.sort(), z3.IntVal(0))))
        return V(REF('Outbox'), e.alloc())
    return NotImplemented


def slot(I, o, a, kw):
    r = I.lift(a[0], INT)
    I.eng.prove('messages are sent to one of the ranks', z3.And(0 <= r, r < I.eng.st.ghost['boxlen']), 'safety')
    v = V(REF('Slot'), I.eng.alloc())
    I.setfield(v, 'rank', V(INT, r))
    return v


def put(I, o, a, kw):
    """an id, or the state of an agent"""
    x, r, g = I.deref(a[0]), fld(I, o, 'rank'), I.eng.st.ghost
    if isinstance(x, Conc):
        return put_message(I, x, r)
    if isv(x) and x.ty is STATE:
        k = fld(I, x, 'uid')
        gput(I, snaps=z3.Store(g['snaps'], r, z3.Store(g['snaps'][r], k, fld(I, x, 'of'))))
    else:
        k = I.lift(x, UID)
    gput(I, outbox=z3.Store(g['outbox'], r, z3.Store(g['outbox'][r], k, True)))


def alltoall(I, o, a, kw):
    """the transport: what was sent is noted; what is received is what the other ranks sent"""
    g = I.eng.st.ghost
    if 'recv' not in g:
        raise Unsupported('alltoall')
    x = I.deref(a[0])
    if not (isv(x) and x.ty is REF('Outbox')):
        raise Unsupported('alltoall of %r' % (x,))
    gput(I, sent=g['outbox'], sentsnaps=g['snaps'])
    return g['recv']


def save(I, o, a, kw):
    v = V(STATE, I.eng.alloc())
    I.setfield(v, 'uid', I.getfield(o, 'Agent', 'uid'))
    I.setfield(v, 'of', o)
    I.setfield(v, 'full', V(BOOL, z3.BoolVal(True)))
    return v


def update(I, o, a, kw):
    """an agent takes over the (rest of the) state it is given"""
    s = I.deref(a[0])
    g = I.eng.st.ghost
    if not (isv(s) and s.ty is STATE) or 'updated' not in g:
        raise Unsupported('update')
    gput(I, updated=z3.Store(g['updated'], o.t, s.t))


def contains(I, o, a, kw):
    return V(BOOL, I.eng.st.ghost['members'][o.t][I.lift(a[0], AG)])


MODELS.update({'symcomp': outbox, 'Outbox.__getitem__': slot, 'Slot.append': put, 'Comm.alltoall': alltoall, 'Agent.save': save, 'Agent.update': update, 'Projection.__contains__': contains})
RECD = z3.Function('told_removed', UID.sort(), z3.BoolSort())
IDS = LIST(UID)


def ghosts_setup(recv):
    def f(I, args):
        C.members0(I)
        g = I.eng.st.ghost
        if recv:
            r = I.eng.freshv('recv', recv)
            g['recv'] = r
            I.recv0 = r
        g['updated'] = z3.Const('updated0', z3.ArraySort(I_, I_))
    return f


def rview(c, old=True):
    return View(c.I, c.oldheap if old else c.heap, c.I.recv0)


def ranks_ok(c, ref):
    r, n = z3.Int('r!ro'), c.arr('Comm', 'size')[c.self.comm.ref]
    return qall(r, z3.Implies(rdom(c)[ref][r], z3.And(0 <= r, r < n)), [rdom(c)[ref][r]])


def removed_pre(c):
    s = c.self
    rg = s.removed_ghosteds
    top = c.I.eng.alloc_top()
    i, x, p = z3.Int('i!ur'), u('x!ur'), z3.Int('p!ur')
    yield from cinv(c, s)
    ga, gr = c.arr('GhostedAgent', 'agent'), c.arr('GhostedAgent', 'ghost_ranks')
    yield 'the records of removed agents', qall(i, z3.Implies(z3.And(0 <= i, i < rg.len), z3.And(rg.el[i] > 0, rg.el[i] <= top, ga[rg.el[i]] > 0, gr[rg.el[i]] > 0, ranks_ok(c, gr[rg.el[i]]))), [rg.el[i]])
    yield 'the communicator', z3.And(s.comm.ref > 0, c.arr('Comm', 'size')[s.comm.ref] >= 1)
    if c.I.top == 'context.SharedContext._update_removed_ghosts':
        R = rview(c)
        a, j = z3.Int('a!ur'), z3.Int('j!ur')
        L = lambda a: View(c.I, c.heap, V(IDS, R.el[a]))
        yield 'lists received', z3.And(R.ref > 0, qall(a, z3.Implies(z3.And(0 <= a, a < R.len), z3.And(R.el[a] > 0, R.el[a] <= top)), [R.el[a]]))
        yield 'ids received', qall([a, j], z3.Implies(z3.And(0 <= a, a < R.len, 0 <= j, j < L(a).len), RECD(L(a).el[j])), [L(a).el[j]])


def dropped_ghosts(c, s, o):
    """only ghosts whose removal was received are gone, with their place in the projections"""
    gh, og = s._agent_manager._ghost_agents, o._agent_manager._ghost_agents
    x, p, b = u('x!dg'), z3.Int('p!dg'), z3.Int('b!dg')
    uid, ga0 = c.arr('Agent', 'uid'), c.arr('GhostAgent', 'agent', True)
    m, m0 = memb(c), z3.Const('members0', MS) if hasattr(c, 'g0') else memb(c, True)       # within a loop: as the function found them
    yield 'other ghosts stay', qall(x, z3.Implies(z3.Not(RECD(x)), z3.And(gh.has(x) == og.has(x), z3.Implies(gh.has(x), z3.And(gh.val[x] == og.val[x], refc(c, s._agent_manager, x) == refc(c, o._agent_manager, x, True))))), [gh.dom[x]])
    yield 'no ghost is new', qall(x, z3.Implies(gh.has(x), z3.And(og.has(x), gh.val[x] == og.val[x])), [gh.dom[x]])
    gone = lambda x: z3.And(og.has(x), z3.Not(gh.has(x)))
    pr = s.projections
    yield 'a ghost that is gone is in no projection', qall([x, p], z3.Implies(z3.And(gone(x), pr.has(p)), z3.Not(m[pr.val[p]][ga0[og.val[x]]])), [z3.MultiPattern(og.val[x], pr.val[p])])
    yield 'no other agent enters or leaves a projection', qall([p, b], z3.Or(m[p][b] == m0[p][b], z3.And(gone(uid[b]), ga0[og.val[uid[b]]] == b, z3.Not(m[p][b]))), [m[p][b]])


def removed_post(c):
    s, o = c.self, c.oself
    yield from cinv(c, s)
    yield 'the same parts', same_parts(s, o)
    yield from dropped_ghosts(c, s, o)
    yield 'the records are done with', s.removed_ghosteds.len == 0
    if c.I.top == 'context.SharedContext._update_removed_ghosts':
        sent = c.ghost['sent']
        rg = o.removed_ghosteds
        ga, gr, uid = c.arr('GhostedAgent', 'agent', True), c.arr('GhostedAgent', 'ghost_ranks', True), c.arr('Agent', 'uid', True)
        i, r, x = z3.Int('i!up'), z3.Int('r!up'), u('x!up')
        rec = rg.el[i]
        yield 'every rank an agent was ghosted to is told of its removal', qall([i, r], z3.Implies(z3.And(0 <= i, i < rg.len, rdom(c, True)[gr[rec]][r]), sent[r][uid[ga[rec]]]), [rdom(c, True)[gr[rec]][r]])
        yield 'and no other', qall([r, x], z3.Implies(sent[r][x], z3.Exists(i, z3.And(0 <= i, i < rg.len, rdom(c, True)[gr[rec]][r], uid[ga[rec]] == x))), [sent[r][x]])
        R = rview(c)
        a, j = z3.Int('a!up'), z3.Int('j!up')
        el = lambda a, j: View(c.I, c.oldheap, V(IDS, R.el[a])).el[j]
        ln = lambda a: View(c.I, c.oldheap, V(IDS, R.el[a])).len
        yield 'every ghost whose removal is received is gone', qall([a, j], z3.Implies(z3.And(0 <= a, a < R.len, 0 <= j, j < ln(a)), z3.Not(s._agent_manager._ghost_agents.has(el(a, j)))), [el(a, j)])


class SendRemoved:
    def __init__(self, inner):
        self.inner = inner

    def ghosts(self, I):
        return ['outbox']

    def __call__(self, lc):
        rg = lc.oself.removed_ghosteds
        ob = lc.ghost['outbox']
        ga, gr, uid = lc.arr('GhostedAgent', 'agent', True), lc.arr('GhostedAgent', 'ghost_ranks', True), lc.arr('Agent', 'uid', True)
        i, r, x = z3.Int('i!sr'), z3.Int('r!sr'), u('x!sr')
        rec = rg.el[i]
        if self.inner:
            # the record is the one at the outer position
            gh = lc.loc('gh').ref
            ob0 = lc.g0['outbox']
            yield 'told', qall(r, z3.Implies(lc.seen[r], ob[r][uid[ga[gh]]]), [lc.seen[r]])
            yield 'nobody else is told anything', qall([r, x], z3.Implies(ob[r][x], z3.Or(ob0[r][x], z3.And(lc.seen[r], x == uid[ga[gh]]))), [ob[r][x]])
            yield 'what was told stays', qall([r, x], z3.Implies(ob0[r][x], ob[r][x]), [ob0[r][x]])
        else:
            yield 'told so far', qall([i, r], z3.Implies(z3.And(0 <= i, i < lc.i, rdom(lc, True)[gr[rec]][r]), ob[r][uid[ga[rec]]]), [rdom(lc, True)[gr[rec]][r]])
            yield 'and nobody else', qall([r, x], z3.Implies(ob[r][x], z3.Exists(i, z3.And(0 <= i, i < lc.i, rdom(lc, True)[gr[rec]][r], uid[ga[rec]] == x))), [ob[r][x]])


class DropGhosts:
    """the ids received so far; inner: those of the present list too; innermost: the projections"""
    def __init__(self, inner):
        self.inner = inner

    def ghosts(self, I):
        return ['members']

    def __call__(self, lc):
        s, o = lc.self, lc.oself
        yield from cinv(lc, s)
        yield 'the same parts', z3.And(same_parts(s, o), s._agent_manager._ghost_agents.ref == o._agent_manager._ghost_agents.ref)
        yield from dropped_ghosts(lc, s, o)
        R = rview(lc)
        a, j = z3.Int('a!dl'), z3.Int('j!dl')
        el = lambda a, j: View(lc.I, lc.oldheap, V(IDS, R.el[a])).el[j]
        ln = lambda a: View(lc.I, lc.oldheap, V(IDS, R.el[a])).len
        gh = s._agent_manager._ghost_agents
        if self.inner:
            yield 'those of this list', qall(j, z3.Implies(z3.And(0 <= j, j < lc.i), z3.Not(gh.has(lc.it.el[j]))), [lc.it.el[j]])
            yield 'those gone before', qall([a, j], z3.Implies(z3.And(0 <= a, a < R.len, 0 <= j, j < ln(a), z3.Not(lc.at0(gh).has(el(a, j)))), z3.Not(gh.has(el(a, j)))), [el(a, j)])
        else:
            yield 'so far', qall([a, j], z3.Implies(z3.And(0 <= a, a < lc.i, 0 <= j, j < ln(a)), z3.Not(gh.has(el(a, j)))), [el(a, j)])


class DropOne:
    def ghosts(self, I):
        return ['members']

    def __call__(self, lc):
        a = lc.loc('ghost').ref
        pr = lc.self.projections
        p, b = z3.Int('p!do'), z3.Int('b!do')
        m, m0 = lc.ghost['members'], lc.g0['members']
        yield 'the projections seen', qall(p, z3.Implies(lc.seen[p], z3.Not(m[pr.val[p]][a])), [lc.seen[p]])
        yield 'no other agent', qall([p, b], z3.Or(m[p][b] == m0[p][b], z3.And(b == a, z3.Not(m[p][b]))), [m[p][b]])


Q = 'context.SharedContext._update_removed_ghosts'
LOOPS.update({(Q, 0): SendRemoved(False), (Q, 1): SendRemoved(True), (Q, 2): DropGhosts(False), (Q, 3): DropGhosts(True), (Q, 4): DropOne()})
con(Q, args={'self': CTX}, requires=removed_pre, ensures=removed_post, setup=ghosts_setup(LIST(IDS)), ghost=C.ghost_members,
    modifies=lambda c: [c.self._agent_manager._ghost_agents, c.self._agent_manager._req_ghosts, c.self.removed_ghosteds, 'GhostAgent.ref_count'])


# ---- the state of the ghosts

STATES = LIST(STATE)


def update_pre(c):
    s = c.self
    m_ = s._agent_manager
    gd, gh = m_._ghosted_agents, m_._ghost_agents
    x = u('x!gu')
    yield from removed_pre(c)
    gr = c.arr('GhostedAgent', 'ghost_ranks')
    yield 'agents are ghosted to ranks that exist', qall(x, z3.Implies(gd.has(x), ranks_ok(c, gr[gd.val[x]])), [gd.val[x]])
    if c.I.top == 'context.SharedContext._update_ghosts':
        R = rview(c)
        top = c.I.eng.alloc_top()
        a, j, k = z3.Int('a!gu'), z3.Int('j!gu'), z3.Int('k!gu')
        L = lambda a: View(c.I, c.heap, V(STATES, R.el[a]))
        uid = c.arr('State', 'uid')
        yield 'lists received', z3.And(R.ref > 0, qall(a, z3.Implies(z3.And(0 <= a, a < R.len), z3.And(R.el[a] > 0, R.el[a] <= top)), [R.el[a]]))
        e = L(a).el[j]
        yield 'states received are those of ghosts that are not removed', qall([a, j], z3.Implies(z3.And(0 <= a, a < R.len, 0 <= j, j < L(a).len), z3.And(
            e > 0, e <= top, gh.has(uid[e]), z3.Not(RECD(uid[e])), STATEOF(uid[e]) == e)), [L(a).el[j]])


STATEOF = z3.Function('state_received_for', UID.sort(), I_)       # one state for a ghost


def update_post(c):
    s, o = c.self, c.oself
    m_, om = s._agent_manager, o._agent_manager
    yield from cinv(c, s)
    yield 'the same parts', same_parts(s, o)
    yield from dropped_ghosts(c, s, o)
    yield 'the records are done with', s.removed_ghosteds.len == 0
    if c.I.top == 'context.SharedContext._update_ghosts':
        gd, ga, gr = om._ghosted_agents, c.arr('GhostedAgent', 'agent', True), c.arr('GhostedAgent', 'ghost_ranks', True)
        sent, of = c.ghost['sent'], c.ghost['sentsnaps']
        x, r = u('x!go'), z3.Int('r!go')
        yield 'each rank an agent is ghosted to is sent its state, and no other', qall([r, x], z3.Implies(gd.has(x), sent[r][x] == rdom(c, True)[gr[gd.val[x]]][r]), [sent[r][x]])
        yield 'nothing is sent of agents that are not ghosted', qall([r, x], z3.Implies(sent[r][x], gd.has(x)), [sent[r][x]])
        yield 'what is sent is the state of the agent', qall([r, x], z3.Implies(sent[r][x], of[r][x] == ga[gd.val[x]]), [sent[r][x]])
        yield from updated(c, s, o, lambda a, j: z3.BoolVal(True))


def updated(c, s, o, H):
    R = rview(c)
    a, j, b = z3.Int('a!uo'), z3.Int('j!uo'), z3.Int('b!uo')
    L = lambda a: View(c.I, c.oldheap, V(STATES, R.el[a]))
    e = L(a).el[j]
    up, up0 = c.ghost['updated'], z3.Const('updated0', z3.ArraySort(I_, I_))
    uid, auid = c.arr('State', 'uid', True), c.arr('Agent', 'uid', True)
    g = c.arr('GhostAgent', 'agent', True)[o._agent_manager._ghost_agents.val[uid[e]]]
    done = z3.And(0 <= a, a < R.len, 0 <= j, j < L(a).len, H(a, j))
    yield 'each ghost takes over the state received for it', qall([a, j], z3.Implies(done, up[g] == e), [L(a).el[j]])
    st = STATEOF(auid[b])
    yield 'and no other agent changes', qall(b, z3.Or(up[b] == up0[b], z3.And(up[b] == st, uid[st] == auid[b], o._agent_manager._ghost_agents.has(auid[b]),
                                                                             c.arr('GhostAgent', 'agent', True)[o._agent_manager._ghost_agents.val[auid[b]]] == b)), [up[b]])


class SendStates:
    def __init__(self, inner):
        self.inner = inner

    def ghosts(self, I):
        return ['outbox', 'snaps']

    def __call__(self, lc):
        om = lc.oself._agent_manager
        gd, ga, gr = om._ghosted_agents, lc.arr('GhostedAgent', 'agent', True), lc.arr('GhostedAgent', 'ghost_ranks', True)
        ob, sn = lc.ghost['outbox'], lc.ghost['snaps']
        x, r = u('x!ss'), z3.Int('r!ss')
        if self.inner:
            g = lc.loc('gh_agent').ref
            k = lc.arr('Agent', 'uid', True)[ga[g]]
            ob0, sn0 = lc.g0['outbox'], lc.g0['snaps']
            yield 'this agent', qall([r, x], ob[r][x] == z3.Or(ob0[r][x], z3.And(x == k, lc.seen[r])), [ob[r][x]])
            yield 'its state', qall([r, x], sn[r][x] == z3.If(z3.And(x == k, lc.seen[r]), ga[g], sn0[r][x]), [sn[r][x]])
        else:
            yield 'the agents seen', qall([r, x], ob[r][x] == z3.And(lc.seen[x], rdom(lc, True)[gr[gd.val[x]]][r]), [ob[r][x]])
            yield 'their states', qall([r, x], z3.Implies(ob[r][x], sn[r][x] == ga[gd.val[x]]), [sn[r][x]])


class TakeStates:
    def __init__(self, inner):
        self.inner = inner

    def ghosts(self, I):
        return ['updated']

    def __call__(self, lc):
        if self.inner:
            # what has been taken over before this list stays, and so far those of this list
            uid, auid = lc.arr('State', 'uid', True), lc.arr('Agent', 'uid', True)
            j, b = z3.Int('j!ts'), z3.Int('b!ts')
            up, up0 = lc.ghost['updated'], lc.g0['updated']
            gh = lc.oself._agent_manager._ghost_agents
            G = lambda k: lc.arr('GhostAgent', 'agent', True)[gh.val[k]]
            e = lc.it.el[j]
            yield 'this list', qall(j, z3.Implies(z3.And(0 <= j, j < lc.i), up[G(uid[e])] == e), [lc.it.el[j]])
            st = STATEOF(auid[b])
            yield 'no other', qall(b, z3.Or(up[b] == up0[b], z3.And(up[b] == st, uid[st] == auid[b], gh.has(auid[b]), G(auid[b]) == b)), [up[b]])
        else:
            yield from updated(lc, lc.self, lc.oself, lambda a, j: a < lc.i)


Q = 'context.SharedContext._update_ghosts'
LOOPS.update({(Q, 0): SendStates(False), (Q, 1): SendStates(True), (Q, 2): TakeStates(False), (Q, 3): TakeStates(True)})
con(Q, args={'self': CTX}, requires=update_pre, ensures=update_post, setup=ghosts_setup(LIST(STATES)), ghost=C.ghost_members,
    modifies=lambda c: [c.self._agent_manager._ghost_agents, c.self._agent_manager._req_ghosts, c.self.removed_ghosteds, 'GhostAgent.ref_count'])


# ---- gathering the agents that crossed a boundary

OOBT = TUP(UID, INT, ANY)
OOBLIST = LIST(OOBT)
OAT = TUP(AG, INT)
OOBL = z3.Function('out_of_bounds_of', I_, I_)                      # projection -> its list
OOBPOS = z3.Function('entry_of', I_, UID.sort(), I_)                # projection, id -> position in its list
INOOB = z3.Function('is_out_of_bounds', UID.sort(), z3.BoolSort())
RK = z3.Function('rank_of_location', UID.sort(), I_)
NBIDX = z3.Function('index_of_projection', I_, I_)
US = UID.sort()
BMAP = z3.ArraySort(I_, z3.ArraySort(I_, z3.BoolSort()))
EF = [lambda t, i=i: OOBT.sort().accessor(0, i)(t) for i in range(3)]
AF = [lambda t, i=i: OAT.sort().accessor(0, i)(t) for i in range(2)]


def move_data(I, x):
    """the list [state] or [state, ranks] as a record; later appends go to the record"""
    x = I.deref(x)
    if isv(x) and x.ty is MDATA:
        return x
    if not isinstance(x, Conc) or x.kind != 'list':
        raise Unsupported('message data')
    p = list(I.payload(x))
    if len(p) not in (1, 2):
        raise Unsupported('message data of length %d' % len(p))
    st = I.deref(p[0])
    if isinstance(st, tuple) and len(st) == 1:
        v = V(STATE, I.eng.alloc())
        I.setfield(v, 'uid', st[0])
        I.setfield(v, 'full', V(BOOL, z3.BoolVal(False)))
        st = v
    r = V(MDATA, I.eng.alloc())
    I.setfield(r, 'state', st)
    I.setfield(r, 'n', V(INT, z3.IntVal(len(p))))
    if len(p) == 2:
        I.setfield(r, 'ghosted', p[1])
    I.eng.st.conc[x.id] = Fwd(r)
    return r


def note_message(I, d, m, r, pid):
    g = I.eng.st.ghost
    s = I.getfield(d, 'MoveData', 'state')
    x = fld(I, s, 'uid')
    upd = {'msgs': z3.Store(g['msgs'], r, z3.Store(g['msgs'][r], m, True)), 'seq': z3.Store(g['seq'], m, g['seqn']), 'seqn': g['seqn'] + 1}
    upd['fullmsg'] = z3.If(fld(I, s, 'full'), z3.Store(g['fullmsg'], x, m), g['fullmsg'])
    if pid is not None:
        upd['msgof'] = z3.Store(g['msgof'], pid, z3.Store(g['msgof'][pid], x, m))
    gput(I, **{k: z3.simplify(v) if k == 'fullmsg' else v for k, v in upd.items()})


def put_message(I, x, r):
    if 'msgs' not in I.eng.st.ghost:
        raise Unsupported('message')
    p = list(I.payload(x))
    if len(p) == 2 and isinstance(p[1], tuple):
        d = move_data(I, p[0])
        m = V(MSG, I.eng.alloc())
        I.setfield(m, 'data', d)
        I.setfield(m, 'pid', p[1][0])
        I.setfield(m, 'pt', p[1][1])
        I.eng.st.conc[x.id] = Fwd(m)
        note_message(I, d, m.t, r, I.lift(p[1][0], INT))
    else:
        d = move_data(I, x)
        note_message(I, d, d.t, r, None)


def data_append(I, o, a, kw):
    I.eng.prove('the data has no second element yet', fld(I, o, 'n') == 1, 'safety')
    I.setfield(o, 'ghosted', a[0])
    I.setfield(o, 'n', V(INT, z3.IntVal(2)))


def get_oob(I, o, a, kw):
    return V(OOBLIST, OOBL(o.t))


def clear_oob(I, o, a, kw):
    g = I.eng.st.ghost
    gput(I, cleared=z3.Store(g['cleared'], o.t, True))


def moving(I, o, a, kw):
    """a projection lets an agent go that moves to another rank: it is no longer a member; ghosts that were here only for its sake may go too"""
    e = I.eng
    g = e.st.ghost
    ag = I.lift(a[0], AG)
    mgr = View(I, e.st.heap, a[3])
    gh = mgr._ghost_agents
    b, x = z3.Int('b!mv'), u('x!mv')
    uid, ga = Ctx(I, e.st.heap).arr('Agent', 'uid'), Ctx(I, e.st.heap).arr('GhostAgent', 'agent')
    row, old = e.fresh('row', z3.ArraySort(I_, z3.BoolSort())), g['members'][o.t]
    isg = z3.And(gh.dom[uid[b]], ga[gh.val[uid[b]]] == b)
    e.assume(qall(b, z3.And(z3.Implies(row[b], z3.And(old[b], b != ag)), z3.Implies(z3.And(old[b], b != ag, z3.Not(isg)), row[b])), [row[b]]))
    dom, val = gh.dom, gh.val
    I.havoc([View(I, e.st.heap, V(gh.ty, gh.ref)), 'GhostAgent.ref_count'])
    new = View(I, e.st.heap, a[3])._ghost_agents
    e.assume(z3.And(new.val == val, qall(x, z3.And(z3.Implies(new.dom[x], dom[x]), z3.Implies(z3.And(dom[x], INOOB(x)), new.dom[x])), [new.dom[x]])))
    gput(I, members=z3.Store(g['members'], o.t, row))


MODELS.update({'MoveData.append': data_append, 'Projection._get_oob': get_oob, 'Projection._clear_oob': clear_oob, 'Projection._agent_moving_rank': moving})


def oob(c, p):
    return View(c.I, c.oldheap, V(OOBLIST, OOBL(p)))


def go_pre(c):
    s = c.self
    m_, bp, nb, pr = s._agent_manager, s.bounded_projs, s.non_bounded_projs, s.projections
    top = c.I.eng.alloc_top()
    loc, gh, gd = m_._local_agents, m_._ghost_agents, m_._ghosted_agents
    k, j, x, i, q = z3.Int('k!go'), z3.Int('j!go'), u('x!go'), z3.Int('i!go'), z3.Int('q!go')
    yield from cinv(c, s)
    yield 'parts', z3.And(bp.ref > 0, nb.ref > 0, nb.ref <= top, s.comm.ref > 0, c.arr('Comm', 'size')[s.comm.ref] >= 1, c.arg('oob_agents').ref > 0, c.arg('oob_agents').len == 0)
    yield 'spaces are projections', qall(k, z3.Implies(bp.has(k), z3.And(bp.val[k] > 0, bp.val[k] <= top, pr.has(k), pr.val[k] == bp.val[k])), [bp.val[k]])
    yield 'each its own', qall([k, q], z3.Implies(z3.And(bp.has(k), bp.has(q), k != q), bp.val[k] != bp.val[q]), [z3.MultiPattern(bp.val[k], bp.val[q])])
    yield 'every projection is a space or one of the others', qall(k, z3.Implies(pr.has(k), z3.Or(bp.has(k), z3.And(0 <= NBIDX(pr.val[k]), NBIDX(pr.val[k]) < nb.len, nb.el[NBIDX(pr.val[k])] == pr.val[k]))), [pr.val[k]])
    yield 'the others exist', qall(i, z3.Implies(z3.And(0 <= i, i < nb.len), z3.And(nb.el[i] > 0, nb.el[i] <= top)), [nb.el[i]])
    O = lambda k: oob(c, bp.val[k])
    e = O(k).el[j]
    n = c.arr('Comm', 'size')[s.comm.ref]
    yield 'lists of agents out of bounds', qall(k, z3.Implies(bp.has(k), z3.And(OOBL(bp.val[k]) > 0, OOBL(bp.val[k]) <= top, O(k).len >= 0)), [bp.val[k]])
    yield 'their entries: local agents or ghosts, once each, bound for one rank', qall([k, j], z3.Implies(z3.And(bp.has(k), 0 <= j, j < O(k).len), z3.And(
        INOOB(EF[0](e)), OOBPOS(bp.val[k], EF[0](e)) == j, EF[1](e) == RK(EF[0](e)), 0 <= RK(EF[0](e)), RK(EF[0](e)) < n, z3.Or(loc.has(EF[0](e)), gh.has(EF[0](e))))), [e])
    yield 'no agent is both local and a ghost', qall(x, z3.Not(z3.And(loc.has(x), gh.has(x))), [loc.dom[x]])


class Gone:
    def __init__(self, c, s, o):
        self.c = c
        self.loc, self.ol = s._agent_manager._local_agents, o._agent_manager._local_agents

    def __call__(self, x):
        return z3.And(self.ol.has(x), z3.Not(self.loc.has(x)))


def gathered(c, s, o, H, OA, top0):
    """when the entries in H have been looked at"""
    m_, om, bp = s._agent_manager, o._agent_manager, o.bounded_projs
    loc, ol, gd, ogd, gh, ogh = m_._local_agents, om._local_agents, m_._ghosted_agents, om._ghosted_agents, m_._ghost_agents, om._ghost_agents
    g = c.ghost
    msgs, seq, n, full_, of_, mem = g['msgs'], g['seq'], g['seqn'], g['fullmsg'], g['msgof'], g['members']
    mem0 = z3.Const('members0', MS)
    top = c.I.eng.alloc_top()
    k, j, x, r, m, p, t = z3.Int('k!ga'), z3.Int('j!ga'), u('x!ga'), z3.Int('r!ga'), z3.Int('m!ga'), z3.Int('p!ga'), z3.Const('t!ga', OAT.sort())
    data, pid, pt = c.arr('OobMsg', 'data'), c.arr('OobMsg', 'pid'), c.arr('OobMsg', 'pt')
    st, nn, ranks = c.arr('MoveData', 'state'), c.arr('MoveData', 'n'), c.arr('MoveData', 'ghosted')
    suid, full, sof = c.arr('State', 'uid'), c.arr('State', 'full'), c.arr('State', 'of')
    U = lambda m: suid[st[data[m]]]
    F = lambda m: full[st[data[m]]]
    gone = Gone(c, s, o)
    yield from cinv(c, s)
    yield 'the same parts', z3.And(same_parts(s, o), m_._ghosted_agents.ref == om._ghosted_agents.ref, m_._ghost_agents.ref == om._ghost_agents.ref)
    O = lambda k: oob(c, bp.val[k])
    e = O(k).el[j]
    ex, er, ep = [f(e) for f in EF]
    mm = of_[k][ex]
    yield 'messages exist', qall([r, m], z3.Implies(msgs[r][m], z3.And(m > top0, m <= top, data[m] > top0, data[m] <= top, st[data[m]] > top0, st[data[m]] <= top, seq[m] < n)), [msgs[r][m]])
    yield 'each agent out of bounds is sent to the rank of its location and is not local any more', qall([k, j], z3.Implies(z3.And(bp.has(k), 0 <= j, j < O(k).len, H(k, j), z3.Not(ogh.has(ex))), z3.And(
        z3.Not(loc.has(ex)), msgs[er][mm], U(mm) == ex, pid[mm] == k, pt[mm] == ep)), [e])
    kk, xx = pid[m], U(m)
    en = O(kk).el[OOBPOS(bp.val[kk], xx)]
    yield 'each message is of such an agent, once', qall([r, m], z3.Implies(msgs[r][m], z3.And(
        bp.has(kk), 0 <= OOBPOS(bp.val[kk], xx), OOBPOS(bp.val[kk], xx) < O(kk).len, H(kk, OOBPOS(bp.val[kk], xx)), EF[0](en) == xx, EF[1](en) == r, of_[kk][xx] == m, gone(xx))), [msgs[r][m]])
    fm = full_[xx]
    yield 'the first message of an agent has its state and no other', qall([r, m], z3.Implies(msgs[r][m], z3.And(msgs[r][fm], F(fm), U(fm) == xx, F(m) == (fm == m), seq[fm] <= seq[m])), [msgs[r][m]])
    f = full_[x]
    gdr = c.arr('GhostedAgent', 'ghost_ranks', True)
    yield 'an agent that is gone is sent, with its state and the ranks it is ghosted to', qall(x, z3.Implies(gone(x), z3.And(
        msgs[RK(x)][f], U(f) == x, F(f), sof[st[data[f]]] == ol.val[x], nn[data[f]] == z3.If(ogd.has(x), 2, 1), z3.Implies(ogd.has(x), ranks[data[f]] == gdr[ogd.val[x]]))), [loc.dom[x]])
    yield 'no agent becomes local', qall(x, z3.Implies(loc.has(x), z3.And(ol.has(x), loc.val[x] == ol.val[x])), [loc.dom[x]])
    yield 'its record goes with it and no other', qall(x, z3.And(gd.has(x) == z3.And(ogd.has(x), z3.Not(gone(x))), z3.Implies(gd.has(x), gd.val[x] == ogd.val[x])), [gd.dom[x]])
    yield 'no ghost is new, and those out of bounds stay', qall(x, z3.And(z3.Implies(gh.has(x), z3.And(ogh.has(x), gh.val[x] == ogh.val[x])), z3.Implies(z3.And(ogh.has(x), INOOB(x)), gh.has(x))), [gh.dom[x]])
    yield 'the agents moved', z3.And(qall(x, z3.Implies(gone(x), OA.has(OAT.sort().mk(ol.val[x], RK(x)))), [loc.dom[x]]),
                                     qall(t, z3.Implies(OA.has(t), z3.And(gone(c.arr('Agent', 'uid')[AF[0](t)]), AF[0](t) == ol.val[c.arr('Agent', 'uid')[AF[0](t)]], AF[1](t) == RK(c.arr('Agent', 'uid')[AF[0](t)]))), [OA.mem[t]]))
    nb = o.non_bounded_projs
    yield 'agents that are gone are in none of the other projections', qall([x, j], z3.Implies(z3.And(gone(x), 0 <= j, j < nb.len), z3.Not(mem[nb.el[j]][ol.val[x]])), [z3.MultiPattern(loc.dom[x], nb.el[j])])
    yield 'local agents stay in their projections', qall([x, p], z3.Implies(loc.has(x), mem[p][loc.val[x]] == mem0[p][loc.val[x]]), [mem[p][loc.val[x]]])


GH_ = ['members', 'msgs', 'seq', 'seqn', 'fullmsg', 'msgof', 'cleared']


class Gather:
    def __init__(self, inner):
        self.inner = inner

    def ghosts(self, I):
        return GH_

    def __call__(self, lc):
        k = z3.Int('k!gl')
        if self.inner:
            cur = lc.I.lift(lc.fr.env['pid'], INT)
            seen = lc.I.eng.st.ghost['__seen']
            H = lambda k, j: z3.Or(seen[k], z3.And(k == cur, j < lc.i))
        else:
            if lc.i is not None and lc.havocked and not hasattr(lc, 'prev'):
                gput(lc.I, __seen=lc.seen)
            H = lambda k, j: lc.seen[k]
            yield 'the lists looked at are emptied', qall(k, z3.Implies(lc.seen[k], lc.ghost['cleared'][lc.oself.bounded_projs.val[k]]), [lc.seen[k]])
        yield from gathered(lc, lc.self, lc.oself, H, lc.arg('oob_agents'), lc.I.entry_top)
        if self.inner:
            yield 'lists emptied before', qall(k, z3.Implies(seen[k], lc.ghost['cleared'][lc.oself.bounded_projs.val[k]]), [seen[k]])


class LetGo:
    """the other projections let the agent go"""
    def ghosts(self, I):
        return ['members']

    def __call__(self, lc):
        s, o = lc.self, lc.oself
        m_, om = s._agent_manager, o._agent_manager
        gh, ogh = m_._ghost_agents, om._ghost_agents
        a = lc.loc('agent').ref
        mem, m0 = lc.ghost['members'], lc.g0['members']
        nb = o.non_bounded_projs
        j, x, p, b = z3.Int('j!lg'), u('x!lg'), z3.Int('p!lg'), z3.Int('b!lg')
        ga = lc.arr('GhostAgent', 'agent', True)
        uid = lc.arr('Agent', 'uid', True)
        yield from cinv(lc, s)
        yield 'the same ghosts', z3.And(gh.ref == ogh.ref)
        yield 'no ghost is new, and those out of bounds stay', qall(x, z3.And(z3.Implies(gh.has(x), z3.And(ogh.has(x), gh.val[x] == ogh.val[x])), z3.Implies(z3.And(ogh.has(x), INOOB(x)), gh.has(x))), [gh.dom[x]])
        yield 'gone from those before', qall(j, z3.Implies(z3.And(0 <= j, j < lc.i), z3.Not(mem[nb.el[j]][a])), [nb.el[j]])
        isg = z3.And(ogh.has(uid[b]), ga[ogh.val[uid[b]]] == b)
        yield 'nobody enters', qall([p, b], z3.Implies(mem[p][b], m0[p][b]), [mem[p][b]])
        yield 'only ghosts leave too', qall([p, b], z3.Implies(z3.And(m0[p][b], b != a, z3.Not(isg)), mem[p][b]), [mem[p][b]])


class Leave:
    """the agents gone leave every space"""
    def __init__(self, inner):
        self.inner = inner

    def ghosts(self, I):
        return ['members']

    def __call__(self, lc):
        mem, m0 = lc.ghost['members'], lc.g0['members']
        bp = lc.oself.bounded_projs
        k, t, p, b = z3.Int('k!lv'), z3.Const('t!lv', OAT.sort()), z3.Int('p!lv'), z3.Int('b!lv')
        OA = lc.arg('oob_agents')
        if self.inner:
            a = lc.loc('agent').ref
            yield 'the spaces seen', qall(k, z3.Implies(lc.seen[k], z3.Not(mem[bp.val[k]][a])), [lc.seen[k]])
            yield 'nobody else', qall([p, b], z3.Or(mem[p][b] == m0[p][b], z3.And(b == a, z3.Not(mem[p][b]))), [mem[p][b]])
        else:
            yield 'those before', qall([k, t], z3.Implies(z3.And(bp.has(k), OA.has(t), OA.pos(t) < lc.i), z3.Not(mem[bp.val[k]][AF[0](t)])), [z3.MultiPattern(bp.val[k], OA.mem[t])])
            uid = lc.arr('Agent', 'uid', True)
            yield 'nobody else', qall([p, b], z3.Or(mem[p][b] == m0[p][b], z3.And(z3.Not(mem[p][b]), Gone(lc, lc.self, lc.oself)(uid[b]), lc.oself._agent_manager._local_agents.val[uid[b]] == b)), [mem[p][b]])


def go_post(c):
    s, o = c.self, c.oself
    OA = c.arg('oob_agents')
    yield from gathered(c, s, o, lambda k, j: z3.BoolVal(True), OA, c.I.entry_top)
    mem, pr, bp = memb(c), o.projections, o.bounded_projs
    x, p = u('x!gp'), z3.Int('p!gp')
    ol = o._agent_manager._local_agents
    yield 'agents that are gone are in no projection', qall([x, p], z3.Implies(z3.And(Gone(c, s, o)(x), pr.has(p)), z3.Not(mem[pr.val[p]][ol.val[x]])), [z3.MultiPattern(s._agent_manager._local_agents.dom[x], pr.val[p])])
    yield 'the lists are emptied', qall(p, z3.Implies(bp.has(p), c.ghost['cleared'][bp.val[p]]), [bp.val[p]])


def go_setup(I, args):
    C.members0(I)
    g = I.eng.st.ghost
    ar = lambda rng, dom=I_: z3.ArraySort(dom, rng)
    g.update(msgs=z3.K(I_, z3.K(I_, z3.BoolVal(False))), seq=z3.Const('seq0', ar(I_)), seqn=z3.IntVal(0), fullmsg=z3.Const('fullmsg0', ar(I_, US)), msgof=z3.Const('msgof0', ar(ar(I_, US))),
             cleared=z3.K(I_, z3.BoolVal(False)))


Q = 'context.SharedContext._gather_oob_data'
LOOPS.update({(Q, 0): Gather(False), (Q, 1): Gather(True), (Q, 2): LetGo(), (Q, 3): Leave(False), (Q, 4): Leave(True)})
con(Q, args={'self': CTX, 'oob_agents': DLIST(OAT)}, requires=go_pre, ensures=go_post, setup=go_setup, apply=False)

for _q in UNITS:
    CONTRACTS[_q].feas_ms, CONTRACTS[_q].explore_s = 40, 300
