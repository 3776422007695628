"""Contracts on the C++ of DistributedCartesianSpace (distributed_space.h): property G06.

View of a distributed space: the view of its own space (cspace.py), the map of out of bounds records, the local bounds and the list of the
bounds of the other ranks.  RB names the local bounds of a rank, OWNER the rank that owns a location: the local bounds of the ranks tile
the bounds of the space (property G04).
"""
import z3
from ..core import *
from ..pyfront import *
from ..pyfront import Contract, View, qall, dk, lk
from ..cinterp import SP, Data, ListIter, as_ref
from . import cspace, cgeo
from .cgeo import AX, box, box_wf, box_space, inside, real
from .cspace import CLASSES, UID, AG, Sp, stable

CONTRACTS, LOOPS, MODELS = dict(cspace.CONTRACTS), dict(cspace.LOOPS), dict(cspace.MODELS)
PB = REF('pair<BoundingBox,int>')
SCHEMA = {'pair<BoundingBox,int>': {'first': REF('BoundingBox'), 'second': INT}}
UNITS = []
I_, B_ = z3.IntSort(), z3.BoolSort()
RB = {(a, p): z3.Function('rank_%s_%s' % (a, p), I_, I_) for a in AX for p in ('min', 'ext')}
REC = {f: z3.Function('record_' + f, I_, I_) for f in ('id', 'rank', 'place')}
SIZE, ME = z3.Int('world_size'), z3.Int('myrank')
BOX = REF('BoundingBox')


def con(qual, **kw):
    ee = kw.pop('exc_ensures', None)
    c = Contract(qual, **kw)
    c.exc_ensures = ee
    CONTRACTS[qual] = c
    UNITS.append(qual)
    return c


def build_value(I, fmt, *a):
    a = [I.getfield(I.deref(x.pt), I.deref(x.pt).ty.args[0], 'coords') if isinstance(x, Data) else x for x in a]
    o = V(ANY, I.eng.alloc())
    if fmt != '(O, I, O)' or len(a) != 3:
        raise Unsupported('a record of another form')
    I.eng.assume(z3.And(REC['id'](o.t) == I.lift(a[0], ANY), REC['rank'](o.t) == I.lift(a[1], INT), REC['place'](o.t) == I.lift(a[2], ANY)))
    return o


def allgather(I, src, n, t, dst, m, t2, comm):
    """every rank's six numbers, in rank order; what every rank sends is what this rank is shown to send: its own bounds"""
    src, dst = as_ref(I, src), as_ref(I, dst)
    ln, el, _ = I.L(src)
    I.eng.prove('as many numbers sent as received', z3.And(I.lift(n, INT) == 6, I.lift(m, INT) == 6, ln >= 6, I.L(dst)[0] >= 6 * SIZE), 'pre')
    for k, (a, p) in enumerate(SIX):
        I.eng.prove('number %d sent is the %s of the local bounds (%s)' % (k, p, a), el[k] == RB[a, p](ME), 'pre')
    e2, ix = I.list_fresh(dst.ty)
    r = z3.Int('r!ag')
    for k, f in enumerate(SIX):
        I.eng.assume(qall(r, z3.Implies(z3.And(0 <= r, r < SIZE), e2[6 * r + k] == RB[f](r)), [RB[f](r)]))
    I.eng.st.ghost['gathered'] = e2
    I.list_put(dst, I.L(dst)[0], e2, ix)


SIX = [(a, p) for a in AX for p in ('min', 'ext')]


def comm_size(I, comm, out):
    I.eng.assume(SIZE >= 1)
    I.setitem(out, 0, V(INT, SIZE))


def comm_rank(I, comm, out):
    I.eng.assume(z3.And(0 <= ME, ME < SIZE))
    I.setitem(out, 0, V(INT, ME))


def emplace(I, l, pos, *args):
    """a pair of a copy of the bounds and a rank; the ghost index says where the entry of a rank is"""
    l = as_ref(I, l)
    if not isinstance(pos, ListIter) or pos.at != 'end' or l.ty.args[0] is not PB or len(args) != 2:
        raise Unsupported('emplace')
    p = V(PB, I.eng.alloc())
    b = V(BOX, I.eng.alloc())
    I.call_func(I.repo.cls('BoundingBox').members['__init__(BoundingBox&)'], [b, args[0]], {})
    I.setfield(p, 'first', b)
    I.setfield(p, 'second', args[1])
    g = I.eng.st.ghost
    g['where'] = z3.Store(g['where'], I.lift(args[1], INT), I.L(l)[0])
    I.list_append(l, p)


def set_find(I, s, x):
    s = as_ref(I, s)
    kv = I.maykey(s, x)
    h = I.dict_has(s, kv)
    return ListIter(s, kv, h.t if isinstance(h, V) else h)


MODELS.update({'@_Py_BuildValue_SizeT': build_value, '@Py_BuildValue': build_value, '@MPI_Allgather': allgather, '@MPI_Comm_size': comm_size, '@MPI_Comm_rank': comm_rank, '@vector.emplace': emplace,
               '@set.emplace': lambda I, s, x: SP['@set.insert'](I, s, x), '@set.find': set_find, '@set.end': lambda I, s: ListIter(as_ref(I, s), at='end')})


def is_rank(b, r):
    """the bounds of that rank"""
    return z3.And(*[z3.And(getattr(b, a + 'min_') == RB[a, 'min'](r), getattr(b, a + '_extent_') == RB[a, 'ext'](r)) for a in AX])


def box_at(c, ref, old=False):
    """fields of the bounds with this reference, as arrays"""
    return {f: c.arr('BoundingBox', f, old)[ref] for f in cgeo.BF}


def is_rank_at(c, ref, r, old=False):
    f = box_at(c, ref, old)
    return z3.And(*[z3.And(f[a + 'min_'] == RB[a, 'min'](r), f[a + '_extent_'] == RB[a, 'ext'](r)) for a in AX], wf_at(f))


def wf_at(f):
    x, y, z = [f[a + '_extent_'] for a in AX]
    return z3.And(f['xmax_'] == f['xmin_'] + x, f['ymax_'] == f['ymin_'] + y, f['zmax_'] == f['zmin_'] + z, f['num_dims'] == z3.If(z > 0, 3, z3.If(y > 0, 2, 1)), x >= 0, y >= 0, z >= 0,
                  z3.Implies(z > 0, y > 0))


def in_rank(k, l, r):
    """the location is inside the bounds of the rank"""
    p = [k.LOC.sort().accessor(0, i)(l) for i in range(3)]
    return z3.And(*[z3.Implies(z3.Or(i == 0, RB[a, 'ext'](r) > 0), z3.And(real(RB[a, 'min'](r)) <= real(p[i]), real(p[i]) < real(RB[a, 'min'](r) + RB[a, 'ext'](r)))) for i, a in enumerate(AX)])


def entries(c, s, where, old=False):
    """the list of bounds: every entry is that of its rank, and every other rank has one"""
    L = s.all_bounds
    el, n = c.I.named(L.el, 'abel'), L.len
    j, r = z3.Int('j!ab'), z3.Int('r!ab')
    sec, fst = c.arr(PB.args[0], 'second', old), c.arr(PB.args[0], 'first', old)
    top = c.I.eng.alloc_top() if not old else c.oldtop
    yield 'each entry holds the bounds of its rank', qall(j, z3.Implies(z3.And(0 <= j, j < n), z3.And(el[j] > 0, el[j] <= top, fst[el[j]] > 0, fst[el[j]] <= top, 0 <= sec[el[j]], sec[el[j]] < SIZE,
                                                                                                is_rank_at(c, fst[el[j]], sec[el[j]], old))), [el[j]])
    return el, n, sec, where


class Dist:
    """the state of a distributed space"""
    def __init__(self, k, c, s, old=False):
        self.k, self.c, self.s, self.old = k, c, s, old
        self.sp = Sp(k, c, s.base_space, old)
        I = c.I
        self.od, self.ov = I.named(s.out_of_bounds_agents.dom, 'oobd'), I.named(s.out_of_bounds_agents.val, 'oobv')
        self.coords = I.named(c.arr(k.K, 'coords', old), 'coords')
        self.tup = I.named(c.arr('AgentID', 'as_tuple', old), 'tup')
        self.top = self.sp.top
        self.where = (c.oldghost if old else c.ghost).get('where')

    def owner(self, l):
        return z3.Function('owner_' + self.k.K, self.k.LOC.sort(), I_)(l)

    def routed(self, x):
        """the agent with id x is recorded, with the rank that owns its location and with that location"""
        sp = self.sp
        p, a, o = sp.ipt[sp.val[x]], sp.iag[sp.val[x]], self.ov[x]
        l = sp.loc(p)
        return z3.And(sp.dom[x], p != 0, z3.Not(in_rank(self.k, l, ME)), REC['rank'](o) == self.owner(l), REC['place'](o) == self.coords[p], REC['id'](o) == self.tup[sp.aid[a]])

    def inv(self):
        k, s, c, sp, top = self.k, self.s, self.c, self.sp, self.top
        yield from sp.inv()
        yield 'parts of the distributed space', z3.And(*[z3.And(r > 0, r <= top) for r in (s.base_space.ref, s.local_bounds.ref, s.out_of_bounds_agents.ref, s.all_bounds.ref)])
        yield 'local bounds', z3.And(is_rank(s.local_bounds, ME), wf_at({f: getattr(s.local_bounds, f) for f in cgeo.BF}), 0 <= ME, ME < SIZE)
        el, n, sec, _ = yield from entries(c, s, None, self.old)
        r = z3.Int('r!ab')
        w = self.where
        yield 'each other rank has an entry', qall(r, z3.Implies(z3.And(0 <= r, r < SIZE, r != ME), z3.And(0 <= w[r], w[r] < n, sec[el[w[r]]] == r)), [w[r]])
        x = z3.Const('u!d', UID.sort())
        yield 'a record names the rank that owns the location of the agent', qall(x, z3.Implies(self.od[x], self.routed(x)), [self.ov[x]])


def tiling(k, c, b):
    """assumed here, see G04: the local bounds of the ranks tile the bounds of the space"""
    l, r = z3.Const('l!t', k.LOC.sort()), z3.Int('r!t')
    own = z3.Function('owner_' + k.K, k.LOC.sort(), I_)
    p = [k.LOC.sort().accessor(0, i)(l) for i in range(3)]
    ins = z3.And(*[z3.Implies(z3.Or(i == 0, e > 0), z3.And(real(m) <= real(p[i]), real(p[i]) < real(m + e))) for i, (m, e) in enumerate(box(b))])
    yield 'each location inside the bounds has an owner', qall(l, z3.Implies(ins, z3.And(0 <= own(l), own(l) < SIZE, in_rank(k, l, own(l)))), [own(l)])
    yield 'no location inside the bounds has two', qall([l, r], z3.Implies(z3.And(ins, 0 <= r, r < SIZE, in_rank(k, l, r)), r == own(l)), [z3.MultiPattern(own(l), RB['x', 'min'](r))])


def dist(k):
    name = 'DCS<%s>' % k.name
    S, own = REF(name), 'cxx.DCS<%s>.' % k.name

    def setup(I, args=None):
        I.eng.st.ghost['where'] = z3.Const('where0', z3.ArraySort(I_, I_))
        if k.K == 'C':
            cspace.tree0(I)

    def pre(c):
        yield from Dist(k, c, c.self).inv()
        yield from tiling(k, c, c.self.base_space.borders.bounds_)

    def agent_ok(c):
        yield from pre(c)
        yield 'an agent with an id', c.arg('agent').aid.ref > 0

    def ghost(I, c):
        if k.K == 'C':
            cspace.havoc_tree(I)

    def mk(f, **kw):
        con(own + f, **dict(dict(setup=setup, ghost=ghost), **kw))

    def both(c):
        return Dist(k, c, c.self), Dist(k, c, c.oself, True)

    def others(n, o, u):
        x = z3.Const('u!e', UID.sort())
        yield 'no other record changes', qall(x, z3.Implies(x != u, z3.And(n.od[x] == o.od[x], z3.Implies(n.od[x], n.ov[x] == o.ov[x]))), [n.od[x]])

    # ---- the records
    def erased(u):
        def ens(c):
            n, o = both(c)
            yield 'the record is gone and no other', n.od == z3.Store(o.od, u(c), False)
            yield 'the others are what they were', n.ov == o.ov
        return ens

    def uid_of(v):
        return UID.sort().mk(*[getattr(v, f) for f in ('id', 'type', 'rank')])
    con(own + 'eraseOOB', args={'self': S, 'aid': REF('AgentID')}, setup=setup, modifies=lambda c: [c.self.out_of_bounds_agents], ensures=erased(lambda c: uid_of(c.old('aid'))),
        requires=lambda c: [('parts', z3.And(c.self.out_of_bounds_agents.ref > 0, c.arg('aid').ref > 0))])

    def cleared(c):
        n, o = both(c)
        x = z3.Const('u!e', UID.sort())
        yield from n.inv()
        yield 'no record is left', qall(x, z3.Not(n.od[x]), [n.od[x]])
    con(own + 'clearOOBData', args={'self': S}, setup=setup, requires=pre, modifies=lambda c: [c.self.out_of_bounds_agents], ensures=cleared)
    con(own + 'getOOBData', args={'self': S}, setup=setup, result=DICT(UID, ANY), requires=pre, modifies=[], ensures=lambda c: [('the records', c.res.ref == c.oself.out_of_bounds_agents.ref)])

    # ---- moves
    def sub(c, f):
        """the contract of the space inside, on this state"""
        return CONTRACTS[f]

    def mods(f, **names):
        def g(c):
            c2 = Ctx(c.I, c.heap, c.oldheap, dict(c.args, self=c.args['self']), c.result, c.exc, ghost=c.ghost, oldghost=c.oldghost)
            c2.args = dict(c.args, self=c.I.getattr(c.args['self'], 'base_space'), **{n: c.args[v] for n, v in names.items()})
            r = list(CONTRACTS[f].modifies(c2))
            return r + [c.self.out_of_bounds_agents]
        return g
    bown, bbase = 'cxx.' + k.name + '.', 'cxx.' + k.base + '.'
    brm = bown if k.K == 'C' else bbase

    def move_pre(c):
        yield from agent_ok(c)
        o = Sp(k, c, c.self.base_space)
        a = c.arg('agent').ref
        yield 'the agent is the object that was added', z3.Implies(o.dom[o.uid(a)], o.has(a))
        yield 'the location given is a point', c.arg('to').ref > 0

    def move_post(c):
        n, o = both(c)
        a = c.arg('agent').ref
        u, r = o.sp.uid(a), c.res.ref
        p = n.sp.pt(a)
        l = n.sp.loc(p)
        I = c.I
        yield from n.inv()
        w, own = n.where, n.owner(l)
        L = c.self.all_bounds
        sec = c.arr(PB.args[0], 'second')
        yield 'the new location has an owner, which is this rank or in the list', z3.Implies(r != 0, z3.And(0 <= own, own < SIZE, in_rank(k, l, own), z3.Or(own == ME, sec[L.el[w[own]]] == own)))
        yield 'recorded exactly if the new location is outside the local bounds', z3.Implies(r != 0, n.od[u] == z3.Not(in_rank(k, l, ME)))
        yield 'and then with the owner of the new location', z3.Implies(z3.And(r != 0, n.od[u]), z3.And(n.routed(u), in_rank(k, l, n.owner(l)), n.owner(l) != ME))
        yield 'a refused move changes no record', z3.Implies(r == 0, z3.And(n.od == o.od, n.ov == o.ov))
        yield from others(n, o, u)
        yield 'the agent is at the location returned', z3.Implies(r != 0, z3.And(n.sp.has(a), n.sp.pt(a) == r))
    mk('move', args={'self': S, 'agent': AG, 'to': k.PT}, result=k.PT, requires=move_pre, ensures=move_post, modifies=mods(bown + 'move', pt='to'),
       exc_ensures=lambda c: [('no record changes', z3.And(Dist(k, c, c.self).od == Dist(k, c, c.oself, True).od, Dist(k, c, c.self).ov == Dist(k, c, c.oself, True).ov))],
       raises={'invalid_argument': lambda c: z3.Not(Sp(k, c, c.oself.base_space, True).dom[Sp(k, c, c.oself.base_space, True).uid(c.arg('agent').ref)])})

    def move_loop(lc):
        s = lc.self
        L = s.all_bounds
        j = z3.Int('j!ml')
        pt = lc.loc('pt')
        l = k.LOC.sort().mk(*[getattr(pt, a) for a in AX])
        fst = lc.arr(PB.args[0], 'first')
        sec = lc.arr(PB.args[0], 'second')
        o = lc.at0(s)
        yield 'no record made yet', z3.And(s.out_of_bounds_agents.ref == o.out_of_bounds_agents.ref, s.out_of_bounds_agents.dom == o.out_of_bounds_agents.dom, s.out_of_bounds_agents.val == o.out_of_bounds_agents.val)
        yield 'no entry so far holds the location', qall(j, z3.Implies(z3.And(0 <= j, j < lc.i), z3.Not(in_rank(k, l, sec[L.el[j]]))), [L.el[j]])
    LOOPS[(own + 'move', 0)] = move_loop

    # ---- add and remove
    def add_post(c):
        n, o = both(c)
        a = c.arg('agent').ref
        u = o.sp.uid(a)
        yield from n.inv()
        yield 'an agent that was there keeps its record, a new one has none', n.od[u] == z3.And(o.od[u], o.sp.has(a))
        yield from others(n, o, u)
        yield 'the agent is in the space', z3.And(n.sp.has(a), c.res)
    mk('add', args={'self': S, 'agent': AG}, result=BOOL, requires=agent_ok, ensures=add_post, modifies=mods(bbase + 'add'))

    def rm_post(u):
        def ens(c):
            n, o = both(c)
            yield from n.inv()
            x = u(c, o)
            yield 'the agent and its record are gone', z3.And(n.od == z3.Store(o.od, x, False), n.sp.dom == z3.Store(o.sp.dom, x, False))
            yield from others(n, o, x)
        return ens
    mk('remove(AgentID*)', args={'self': S, 'aid': REF('AgentID')}, result=BOOL, requires=lambda c: list(pre(c)) + [('an id', c.arg('aid').ref > 0)], modifies=mods(brm + 'remove(AgentID*)'),
       ensures=rm_post(lambda c, o: uid_of(c.old('aid'))))
    mk('remove(Agent*)', args={'self': S, 'agent': AG}, result=BOOL, requires=agent_ok, modifies=mods(brm + 'remove(AgentID*)', aid='agent') if False else mods_rm(k, mods, brm), ensures=rm_post(lambda c, o: o.sp.uid(c.arg('agent').ref)))

    # ---- the bounds of all ranks
    def gab_pre(c):
        s = c.self
        j = z3.Int('j!nb')
        L = s.nghs
        el = L.el
        rk, lb = c.arr('CTNeighbor', 'rank'), c.arr('CTNeighbor', 'local_bounds')
        yield 'parts', z3.And(s.local_bounds.ref > 0, s.all_bounds.ref > 0, L.ref > 0, s.all_bounds.len == 0)
        yield 'local bounds', z3.And(is_rank(s.local_bounds, ME), wf_at({f: getattr(s.local_bounds, f) for f in cgeo.BF}), 0 <= ME, ME < SIZE)
        yield 'each neighbour holds the bounds of its rank', qall(j, z3.Implies(z3.And(0 <= j, j < L.len), z3.And(el[j] > 0, lb[el[j]] > 0, 0 <= rk[el[j]], rk[el[j]] < SIZE, rk[el[j]] != ME,
                                                                                                          is_rank_at(c, lb[el[j]], rk[el[j]]))), [el[j]])
        r = z3.Int('r!w')
        yield 'bounds of ranks', qall(r, z3.Implies(z3.And(0 <= r, r < SIZE), z3.And(*[RB[a, 'ext'](r) >= 0 for a in AX], z3.Implies(RB['z', 'ext'](r) > 0, RB['y', 'ext'](r) > 0))), [RB['x', 'min'](r)])

    def gab_post(c):
        el, n, sec, _ = yield from entries(c, c.self, None)
        r = z3.Int('r!ab')
        w = c.ghost['where']
        yield 'each other rank has an entry', qall(r, z3.Implies(z3.And(0 <= r, r < SIZE, r != ME), z3.And(0 <= w[r], w[r] < n, sec[el[w[r]]] == r)), [w[r]])

    def gab_ghost(I, c):
        I.eng.st.ghost['where'] = I.eng.fresh('where', z3.ArraySort(I_, I_))
    con(own + 'getAllBounds', args={'self': S, 'comm': REF('ompi_communicator_t')}, setup=setup, requires=gab_pre, ensures=gab_post, ghost=gab_ghost, modifies=lambda c: [c.self.all_bounds])

    class Gab:
        def __init__(self, second):
            self.second = second

        def ghosts(self, I):
            return ['where']

        def __call__(self, lc):
            s = lc.loc('self')
            el, n, sec, _ = yield from entries(lc, s, None)
            r = z3.Int('r!ab')
            w = lc.ghost['where']
            ok = lambda r: z3.And(0 <= w[r], w[r] < n, sec[el[w[r]]] == r)
            N = lc.loc('ngh_ranks')
            yield 'same lists', z3.And(s.all_bounds.ref == lc.at0(s).all_bounds.ref, s.nghs.ref == lc.at0(s).nghs.ref, s.nghs.len == lc.at0(s).nghs.len, s.nghs.el == lc.at0(s).nghs.el)
            yield 'a rank noted has an entry', qall(r, z3.Implies(N.dom[r], ok(r)), [N.dom[r]])
            if self.second:
                i = lc.loc('i')
                e2 = lc.ghost.get('gathered')
                if e2 is not None:
                    # what was gathered from rank i (an instance of the assumed contract of MPI_Allgather)
                    for q, f in enumerate(SIX):
                        lc.I.eng.assume(z3.Implies(z3.And(0 <= i, i < SIZE), e2[6 * i + q] == RB[f](i)))
                yield 'ranks passed have an entry', qall(r, z3.Implies(z3.And(0 <= r, r < i, r != ME), ok(r)), [w[r]])
                yield 'range', z3.And(0 <= i, i <= SIZE)
    LOOPS[(own + 'getAllBounds', 0)] = Gab(False)
    LOOPS[(own + 'getAllBounds', 1)] = Gab(True)


def mods_rm(k, mods, brm):
    def g(c):
        a = c.I.getattr(c.args['agent'], 'aid')
        c2 = Ctx(c.I, c.heap, c.oldheap, dict(c.args, aid=a), c.result, c.exc, ghost=c.ghost, oldghost=c.oldghost)
        return mods(brm + 'remove(AgentID*)')(c2)
    return g


for _c in CLASSES:
    dist(_c)
