"""Contracts on the C++ of space.h, grid.h, cspace.h and occupancy.h: properties G02 and G03.

The eight instantiated classes (grid or continuous, multiple or single occupancy, sticky or periodic borders) are verified one by one
against the same contracts.  View of a space: a map from agent ids to items (agent, point or none), and the occupancy map from
locations to agents.  The invariant says that the two are inverse to each other.  The occupancy accessors are verified as part of the
functions that use them (their bodies are executed, not assumed).

The spatial index of a continuous space is abstract here (property G07 is about its code): the set of point objects it holds, and the
location under which it holds each.
"""
import z3
from ..core import *
from ..pyfront import Contract, View, mkand, mkor, qall, dk, lk
from ..cinterp import fnid
from . import cgeo
from .cgeo import AX, box, box_space, inside, fn_is, real

CONTRACTS, LOOPS, MODELS = dict(cgeo.CONTRACTS), {}, {}
UID = TUP(INT, INT, INT)
AG = REF('Agent')
DL = DLIST(AG)
UNITS = {'G02': [], 'G03': []}


def con(qual, **kw):
    ee = kw.pop('exc_ensures', None)
    c = Contract(qual, **kw)
    c.exc_ensures = ee
    CONTRACTS[qual] = c
    return c


class Cls:
    def __init__(self, kind, occ, bord):
        self.K = 'D' if kind == 'Grid' else 'C'
        self.kind, self.mo, self.bord = kind, occ == 'MO', bord
        self.name = 'Base%s<%s<%s>,%s<%s>>' % (kind, occ, self.K, bord, self.K)
        self.base = 'BaseSpace<%s,%s<%s>,%s<%s>>' % (self.K, occ, self.K, bord, self.K)
        self.LOC = TUP(*([INT if self.K == 'D' else REAL] * 3))
        self.ITEM = REF('SpaceItem<%s>' % self.K)
        self.PT = REF(self.K)


CLASSES = [Cls(k, o, b) for k in ('Grid', 'CSpace') for o in ('MO', 'SO') for b in ('Sticky', 'Periodic')]


# --------------------------------------------------------------------------- view

def bh(k, bord):
    """the border-handled coordinate as a function of coordinate, minimum and extent"""
    s = z3.IntSort() if k == 'D' else z3.RealSort()
    return z3.Function('bh_%s_%s' % (bord, k), s, z3.IntSort(), z3.IntSort(), s)


def whole(c, ty, part, rng, old=False):
    key = lk(ty, part) if ty.name == 'List' else dk(ty, part)
    a = (c.oldheap if old else c.heap).get(key)
    if a is None:
        a = z3.Const('H_' + key, z3.ArraySort(z3.IntSort(), rng))
        Eng.heap_sorts[key] = rng
    return a


def empty(k):
    return z3.Int('static_' + safe('%s<%s>::empty_list' % ('MO' if k.mo else 'SO', k.K)))


class Sp:
    """the state of a space"""

    def __init__(self, k, c, s, old=False):
        self.k, self.c, self.s, I = k, c, s, c.I
        self.dom, self.val = I.named(s.agent_map.dom, 'amd'), I.named(s.agent_map.val, 'amv')
        self.ld, self.lv = I.named(s.location_map.dom, 'lmd'), I.named(s.location_map.val, 'lmv')
        K = k.K
        self.ipt, self.iag = [I.named(c.arr('SpaceItem<%s>' % K, f, old), f) for f in ('pt', 'agent')]
        self.aid = I.named(c.arr('Agent', 'aid', old), 'aid')
        self.idf = [I.named(c.arr('AgentID', f, old), f) for f in ('id', 'type', 'rank')]
        self.px = [I.named(c.arr(K, a, old), a) for a in AX]
        self.top = I.eng.alloc_top() if not old else c.oldtop
        if k.mo:
            self.mem = I.named(whole(c, DL, 'mem', z3.ArraySort(AG.sort(), z3.BoolSort()), old), 'Lmem')
        self.len_ = whole(c, DL, 'len', z3.IntSort(), old)
        g = c.oldghost if old else c.ghost
        self.tp, self.tl, self.to = g.get('tpts'), g.get('tloc'), g.get('town')

    def uid(self, a):
        return UID.sort().mk(*[f[self.aid[a]] for f in self.idf])

    def loc(self, p):
        return self.k.LOC.sort().mk(*[x[p] for x in self.px])

    def at(self, l, a):
        """agent a is filed under location l"""
        return z3.And(self.ld[l], self.mem[self.lv[l]][a] if self.k.mo else self.lv[l] == a)

    def has(self, a):
        """the agent (this object) is in the space"""
        return z3.And(self.dom[self.uid(a)], self.iag[self.val[self.uid(a)]] == a)

    def pt(self, a):
        return self.ipt[self.val[self.uid(a)]]

    def located(self, a, l=None):
        return z3.And(self.has(a), self.pt(a) != 0, *([self.loc(self.pt(a)) == l] if l is not None else []))

    def inv(self):
        k, s, top = self.k, self.s, self.top
        x, y, a, b = z3.Const('u!s', UID.sort()), z3.Const('v!s', UID.sort()), z3.Int('a!s'), z3.Int('b!s')
        l, m = z3.Const('l!s', k.LOC.sort()), z3.Const('m!s', k.LOC.sort())
        dom, val, ipt, iag = self.dom, self.val, self.ipt, self.iag
        yield 'parts', z3.And(s.wpt.ref > 0, box_space(s.borders.bounds_), *([fn_is(self.c, s.borders)] if k.bord == 'Periodic' else []))
        yield 'each agent is filed under its id', qall(x, z3.Implies(dom[x], z3.And(
            val[x] > 0, val[x] <= top, iag[val[x]] > 0, iag[val[x]] <= top, self.aid[iag[val[x]]] > 0, self.uid(iag[val[x]]) == x, ipt[val[x]] >= 0, ipt[val[x]] <= top)), [val[x]])
        yield 'each agent has its own item', qall([x, y], z3.Implies(z3.And(dom[x], dom[y], x != y), val[x] != val[y]), [z3.MultiPattern(val[x], val[y])])
        yield 'each agent has its own point', qall([x, y], z3.Implies(z3.And(dom[x], dom[y], x != y, ipt[val[x]] != 0), ipt[val[x]] != ipt[val[y]]),
                                                   [z3.MultiPattern(ipt[val[x]], ipt[val[y]])])
        yield 'each located agent is filed under its location', qall(x, z3.Implies(z3.And(dom[x], ipt[val[x]] != 0), self.at(self.loc(ipt[val[x]]), iag[val[x]])), [val[x]])
        if k.mo:
            mem, lv = self.mem, self.lv
            yield 'the agents filed under a location are located there', qall([l, a], z3.Implies(z3.And(self.ld[l], mem[lv[l]][a]), z3.And(a > 0, self.aid[a] > 0, self.located(a, l))), [mem[lv[l]][a]])
            yield 'lists exist', qall(l, z3.Implies(self.ld[l], z3.And(lv[l] > 0, lv[l] <= top, lv[l] != empty(k))), [lv[l]])
            yield 'each location has its own list', qall([l, m], z3.Implies(z3.And(self.ld[l], self.ld[m], l != m), lv[l] != lv[m]), [z3.MultiPattern(lv[l], lv[m])])
        else:
            a = self.lv[l]
            yield 'the agent filed under a location is located there', qall(l, z3.Implies(self.ld[l], z3.And(a > 0, self.aid[a] > 0, self.located(a, l))), [self.lv[l]])
        e = empty(k)
        yield 'the shared empty list is empty', z3.And(e > 0, e <= z3.Int('alloc0'), z3.Select(self.len_, e) == 0)

        def ins(v):
            return z3.And(*[z3.Implies(z3.Or(ax == 'x', e > 0), z3.And(real(mn) <= real(p[v]), real(p[v]) < real(mn + e))) for p, ax, (mn, e) in zip(self.px, AX, box(s.borders.bounds_))])
        yield 'each located agent lies inside the bounds', qall(x, z3.Implies(z3.And(dom[x], ipt[val[x]] != 0), ins(ipt[val[x]])), [val[x]])
        if k.K == 'C':
            q, t = z3.Int('q!s'), s.spatial_tree.ref
            tp, tl, to = self.tp, self.tl, self.to
            yield 'the index holds the point of every located agent', z3.Implies(t != 0, qall(x, z3.Implies(z3.And(dom[x], ipt[val[x]] != 0), z3.And(
                tp[ipt[val[x]]], tl[ipt[val[x]]] == self.loc(ipt[val[x]]))), [val[x]]))
            yield 'the index holds no other point', z3.Implies(t != 0, qall(q, z3.Implies(tp[q], z3.And(
                to[q] > 0, self.dom[self.uid(iag[to[q]])], self.val[self.uid(iag[to[q]])] == to[q], ipt[to[q]] == q, q != 0)), [tp[q]]))

    def same(self, o):
        """nothing changed"""
        return z3.And(self.dom == o.dom, self.val == o.val, self.ld == o.ld, self.lv == o.lv)


def others(n, o, u):
    """every agent but the one with id u is as it was"""
    x = z3.Const('u!o', UID.sort())
    return qall(x, z3.Implies(x != u, z3.And(n.dom[x] == o.dom[x], z3.Implies(n.dom[x], z3.And(n.val[x] == o.val[x], n.iag[n.val[x]] == o.iag[o.val[x]],
                n.ipt[n.val[x]] == o.ipt[o.val[x]], z3.Implies(o.ipt[o.val[x]] != 0, n.loc(n.ipt[n.val[x]]) == o.loc(o.ipt[o.val[x]])))))), [n.val[x]])


def stable(n, o, u):
    yield 'every other agent is where it was', others(n, o, u)


# --------------------------------------------------------------------------- the spatial index (abstract)
AB = z3.ArraySort(z3.IntSort(), z3.BoolSort())
LOCC = TUP(REAL, REAL, REAL)


def tree0(I, args=None):
    g = I.eng.st.ghost
    g['tpts'], g['tloc'], g['town'] = z3.Const('tpts0', AB), z3.Const('tloc0', z3.ArraySort(z3.IntSort(), LOCC.sort())), z3.Const('town0', z3.ArraySort(z3.IntSort(), z3.IntSort()))


def havoc_tree(I, c=None):
    g = I.eng.st.ghost
    for n in ('tpts', 'tloc', 'town'):
        g[n] = I.eng.fresh(n, g[n].sort())


def pt_loc(I, p):
    return LOCC.sort().mk(*[I.lift(I.getattr(p, a), REAL) for a in AX])


def tree_add(I, o, a, kw):
    e, it = I.eng, a[0]
    p = I.getattr(it, 'pt')
    e.prove('an item added to the index has a point', p.t != 0, 'pre')
    e.prove('the index does not hold the point yet', z3.Not(e.st.ghost['tpts'][p.t]), 'pre')
    g = e.st.ghost
    g['tpts'], g['tloc'], g['town'] = z3.Store(g['tpts'], p.t, True), z3.Store(g['tloc'], p.t, pt_loc(I, p)), z3.Store(g['town'], p.t, I.deref(it).t)
    return V(BOOL, e.fresh('added', z3.BoolSort()))


def tree_remove(I, o, a, kw):
    e, it = I.eng, a[0]
    p = I.getattr(it, 'pt')
    g = e.st.ghost
    e.prove('the index holds the point of the item removed', z3.And(p.t != 0, g['tpts'][p.t]), 'pre')
    e.prove('under the location the point still has', g['tloc'][p.t] == pt_loc(I, p), 'pre')
    g['tpts'] = z3.Store(g['tpts'], p.t, False)
    return V(BOOL, e.fresh('removed', z3.BoolSort()))


MODELS['CPSpatialTree.addItem'] = tree_add
MODELS['CPSpatialTree.removeItem'] = tree_remove


# --------------------------------------------------------------------------- borders, for the callers

def wrap_border(k, bord):
    """the border contract with the result named as a function of coordinate, minimum and extent (the code is deterministic)"""
    q = 'cxx.%s<%s>.transform(%s*,Point<%s>&)' % (bord, k, k, k)
    c0 = cgeo.CONTRACTS[q]

    def ens(c):
        b, src, dst = c.oself.bounds_, c.old('pt'), c.arg('transformed_pt')
        for a, (m, e) in zip(AX, box(b)):
            r = getattr(dst, a)
            yield a + ': named', r == bh(k, bord)(getattr(src, a), m, e)
            yield a + ': inside', z3.If(e > 0, z3.And(real(m) <= real(r), real(r) < real(m + e)), real(r) == real(m))
    CONTRACTS[q] = Contract(q, args=c0.args, requires=c0.requires, ensures=ens, modifies=c0.modifies)


for _k in ('D', 'C'):
    for _b in ('Sticky', 'Periodic'):
        wrap_border(_k, _b)


# --------------------------------------------------------------------------- the classes

def spaces(k):
    K, S = k.K, REF(k.name)
    own, base = 'cxx.' + k.name + '.', 'cxx.' + k.base + '.'
    setup = tree0 if K == 'C' else None
    ghost = havoc_tree if K == 'C' else None
    rm = own if K == 'C' else base
    wp = ['Point<%s>.%s' % (K, a) for a in AX]

    def reg(prop, q, **kw):
        kw.setdefault('setup', setup)
        if ghost and kw.get('modifies') is None or (ghost and kw.pop('tree', False)):
            kw['ghost'] = lambda I, c: havoc_tree(I)
        kw.pop('tree', None)
        a = kw['args']
        con(q, **kw)
        UNITS[prop].append(q)

    def pre(c):
        yield from Sp(k, c, c.self).inv()

    def agent_ok(c):
        yield from pre(c)
        a = c.arg('agent')
        yield 'an agent with an id', a.aid.ref > 0

    def wmods(c):
        return [(f, c.self.wpt.ref) for f in wp]

    def lmods(c, u):
        """what filing or removing the agent with this id may change"""
        o = Sp(k, c, c.self)
        r = [c.self.agent_map, c.self.location_map] + wmods(c)
        if k.mo:
            r.append(DL)
        return r

    def res_of(c, u):
        return Sp(k, c, c.self), Sp(k, c, c.oself, True)

    def same_parts(c):
        s, o = c.self, c.oself
        return z3.And(s.agent_map.ref == o.agent_map.ref, s.location_map.ref == o.location_map.ref, s.wpt.ref == o.wpt.ref)

    # ---- queries
    def q_at(c):
        n, o = Sp(k, c, c.self), Sp(k, c, c.oself, True)
        l = k.LOC.sort().mk(*[getattr(c.old('pt'), a) for a in AX])
        x = z3.Const('u!q', UID.sort())
        r = c.res.ref
        yield 'an agent located there', z3.Implies(r != 0, o.located(r, l))
        yield 'none only if no agent is located there', z3.Implies(r == 0, qall(x, z3.Not(z3.And(o.dom[x], o.ipt[o.val[x]] != 0, o.loc(o.ipt[o.val[x]]) == l)), [o.val[x]]))
        yield 'nothing changes', n.same(o)
    reg('G02', base + 'getAgentAt', args={'self': S, 'pt': k.PT}, result=AG, requires=pre, modifies=wmods, ensures=q_at)

    def q_all(c):
        n, o = Sp(k, c, c.self), Sp(k, c, c.oself, True)
        l = k.LOC.sort().mk(*[getattr(c.old('pt'), a) for a in AX])
        a = z3.Int('a!q')
        mem = c.res.mem
        yield 'exactly the agents located there', qall(a, z3.Implies(mem[a], o.located(a, l)), [mem[a]])
        x = z3.Const('u!q', UID.sort())
        yield 'every agent located there', qall(x, z3.Implies(z3.And(o.dom[x], o.ipt[o.val[x]] != 0, o.loc(o.ipt[o.val[x]]) == l), mem[o.iag[o.val[x]]]), [o.val[x]])
        yield 'nothing changes', n.same(o)
    reg('G02', base + 'getAgentsAt', args={'self': S, 'pt': k.PT}, result=DL, requires=pre, modifies=wmods, ensures=q_all)

    def q_loc(c):
        o = Sp(k, c, c.oself, True)
        u = o.uid(c.arg('agent').ref)
        return [('the point of the agent, if it has one', c.res.ref == z3.If(o.dom[u], o.ipt[o.val[u]], 0))]
    reg('G02', base + 'getLocation', args={'self': S, 'agent': AG}, result=k.PT, requires=agent_ok, modifies=[], ensures=q_loc)
    reg('G02', base + 'contains(Agent*)', args={'self': S, 'agent': AG}, result=BOOL, requires=agent_ok, modifies=[],
        ensures=lambda c: [('whether the id is in the space', c.res == Sp(k, c, c.oself, True).dom[Sp(k, c, c.oself, True).uid(c.arg('agent').ref)])])
    reg('G02', base + 'holds', args={'self': S, 'agent': AG}, result=BOOL, requires=agent_ok, modifies=[],
        ensures=lambda c: [('whether this very agent is in the space', c.res == Sp(k, c, c.oself, True).has(c.arg('agent').ref))])

    # ---- add and remove
    def rm_post(u):
        def ens(c):
            n, o = Sp(k, c, c.self), Sp(k, c, c.oself, True)
            x = u(c, o)
            yield from n.inv()
            yield 'the agent is gone and no other', z3.And(n.dom == z3.Store(o.dom, x, False), n.val == o.val)
            yield 'says whether the agent was located', c.res == z3.And(o.dom[x], o.ipt[o.val[x]] != 0)
            yield from stable(n, o, x)
            yield 'same parts', same_parts(c)
        return ens
    reg('G03', rm + 'remove(AgentID*)', args={'self': S, 'aid': REF('AgentID')}, result=BOOL, requires=pre, modifies=lambda c: lmods(c, None), tree=True,
        ensures=rm_post(lambda c, o: UID.sort().mk(*[getattr(c.old('aid'), f) for f in ('id', 'type', 'rank')])))
    reg('G03', rm + 'remove(Agent*)', args={'self': S, 'agent': AG}, result=BOOL, requires=agent_ok, modifies=lambda c: lmods(c, None), tree=True,
        ensures=rm_post(lambda c, o: o.uid(c.arg('agent').ref)))

    def add_post(c):
        n, o = Sp(k, c, c.self), Sp(k, c, c.oself, True)
        a = c.arg('agent').ref
        x = o.uid(a)
        yield from n.inv()
        yield 'the agent is in the space', z3.And(n.has(a), c.res)
        yield 'at its old location if it was there, else without one', z3.If(o.has(a), z3.And(n.same(o), n.ipt[n.val[x]] == o.ipt[o.val[x]], z3.Implies(o.ipt[o.val[x]] != 0, n.loc(n.ipt[n.val[x]]) == o.loc(o.ipt[o.val[x]]))), n.ipt[n.val[x]] == 0)
        yield from stable(n, o, x)
    reg('G03', base + 'add', args={'self': S, 'agent': AG}, result=BOOL, requires=agent_ok, tree=True, ensures=add_post,
        modifies=lambda c: lmods(c, None) + ['SpaceItem<%s>.pt' % K, 'SpaceItem<%s>.agent' % K])

    # ---- move
    def move_pre(c):
        yield from agent_ok(c)
        o = Sp(k, c, c.self)
        a = c.arg('agent').ref
        yield 'the agent is the object that was added', z3.Implies(o.dom[o.uid(a)], o.has(a))
        p = c.arg(PTN)
        x = z3.Const('u!m', UID.sort())
        # the caller's point may be the agent's own
        yield 'the location given is a point', p.ref > 0

    PTN = 'pt'

    def target(c):
        b, p = c.oself.borders.bounds_, c.old(PTN)
        return k.LOC.sort().mk(*[bh(K, k.bord)(getattr(p, a), m, e) for a, (m, e) in zip(AX, box(b))])

    def move_post(c):
        n, o = Sp(k, c, c.self), Sp(k, c, c.oself, True)
        a = c.arg('agent').ref
        u, l, r = o.uid(a), target(c), c.res.ref
        yield from n.inv()
        if k.mo:
            yield 'never refused', r != 0
        else:
            w = o.lv[l]
            yield 'refused exactly if another agent is there', (r == 0) == z3.And(o.ld[l], w != a)
            yield 'and that agent is in the space at that location', z3.Implies(r == 0, z3.And(w != a, o.located(w, l)))
            yield 'a refusal changes nothing', z3.Implies(r == 0, z3.And(n.same(o), others(n, o, u), n.ipt[n.val[u]] == o.ipt[o.val[u]], z3.Implies(o.ipt[o.val[u]] != 0, n.loc(n.ipt[n.val[u]]) == o.loc(o.ipt[o.val[u]]))))
        yield 'the agent is at the border-handled location', z3.Implies(r != 0, z3.And(n.located(a, l), n.pt(a) == r))
        yield 'the same agents', z3.And(n.dom == o.dom, n.val == o.val)
        yield from stable(n, o, u)
        yield 'same parts', same_parts(c)

    def move_exc(c):
        n, o = Sp(k, c, c.self), Sp(k, c, c.oself, True)
        yield 'nothing changed', n.same(o)

    def move_mods(c):
        o = Sp(k, c, c.self)
        a = c.arg('agent').ref
        r = lmods(c, None)[1:] + [('SpaceItem<%s>.pt' % K, o.val[o.uid(a)])] + [('%s.%s' % (K, x), o.pt(a)) for x in AX]
        if k.bord == 'Periodic':
            r += [('Point<%s>.%s' % (K, x), c.self.borders.temp_pt.ref) for x in AX]
        return r
    reg('G03', own + 'move', args={'self': S, 'agent': AG, PTN: k.PT}, result=k.PT, requires=move_pre, ensures=move_post, exc_ensures=move_exc, tree=True, modifies=move_mods,
        raises={'invalid_argument': lambda c: z3.Not(Sp(k, c, c.oself, True).dom[Sp(k, c, c.oself, True).uid(c.arg('agent').ref)])})


for _c in CLASSES:
    spaces(_c)


# --------------------------------------------------------------------------- constructors and box queries

def new_tree(k):
    def f(I, a, kw):
        o = V(REF('CPSpatialTree'), I.eng.alloc())
        g = I.eng.st.ghost
        g['tpts'] = z3.K(z3.IntSort(), z3.BoolVal(False))
        I.eng.st.ghost['tree_dims'] = k
        return o
    return f


for _n in ('2', '3'):
    for _o in ('MO', 'SO'):
        MODELS['new:CPSpatialTreeImpl<SpatialTree<Box%sD,C,%s<C>>>' % (_n, _o)] = new_tree(int(_n))


def ctors(k):
    q = 'cxx.' + k.name + ('.__init__(string&,BoundingBox&)' if k.K == 'D' else '.__init__(string&,BoundingBox&,int)')

    def pre(c):
        yield 'bounds of a space', box_space(c.arg('bounds'))
        e = empty(k)
        yield 'the shared empty list is empty', z3.And(e > 0, e <= z3.Int('alloc0'), z3.Select(whole(c, DL, 'len', z3.IntSort()), e) == 0)

    def post(c):
        n = Sp(k, c, c.self)
        x = z3.Const('u!c', UID.sort())
        yield from n.inv()
        yield 'no agent', qall(x, z3.Not(n.dom[x]), [n.dom[x]])
        yield 'the bounds given', z3.And(*[getattr(c.self.borders.bounds_, f) == getattr(c.old('bounds'), f) for f in cgeo.BF])
        if k.K == 'C':
            yield 'an index exactly from two dimensions on', (c.self.spatial_tree.ref != 0) == (c.old('bounds').num_dims >= 2)
    con(q, args=dict({'self': REF(k.name), 'name': STR, 'bounds': REF('BoundingBox')}, **({'tree_threshold': INT} if k.K == 'C' else {})), requires=pre, ensures=post,
        setup=tree0 if k.K == 'C' else None)
    UNITS['G03'].append(q)


for _c in CLASSES:
    ctors(_c)


# --------------------------------------------------------------------------- box queries (G07)
UNITS['G07'] = []


def tracked(n, a):
    return z3.And(a > 0, n.located(a))


def within_box(n, b, a):
    return z3.And(tracked(n, a), cgeo.inside(b, type('P', (), {x: f[n.pt(a)] for x, f in zip(AX, n.px)})))


def tree_query(I, o, a, kw):
    """what SpatialTree.getObjectsWithin is verified against, over the points the index holds"""
    from ..pyfront import Ctx
    e = I.eng
    me = I.deref(I.the_space)
    k = next(k for k in CLASSES if k.name == me.ty.args[0])
    c = Ctx(I, e.st.heap)
    n = Sp(k, c, View(I, e.st.heap, me))
    box, A = View(I, e.st.heap, I.deref(a[0])), View(I, e.st.heap, I.deref(a[1]))
    p, x = z3.Int('p!tq'), z3.Int('a!tq')
    ag, tp = n.iag[n.to[p]], n.tp
    e.prove('a query box', z3.And(cgeo.box_wf(box), box.num_dims >= 2, box.x_extent_ > 0, box.y_extent_ > 0, box.z_extent_ >= 0), 'pre')
    e.prove('points held are of agents in the space', qall(p, z3.Implies(tp[p], z3.And(p > 0, ag > 0, n.located(ag), n.pt(ag) == p))), 'pre')
    e.prove('an agent has one point', qall(x, z3.Implies(tracked(n, x), n.iag[n.to[n.pt(x)]] == x)), 'pre')
    e.prove('every agent of the space is held', qall(x, z3.Implies(tracked(n, x), tp[n.pt(x)])), 'pre')
    e.prove('locations of points held', qall(p, z3.Implies(tp[p], n.ld[n.loc(p)])), 'pre')
    e.prove('with exactly the agents there', qall([p, x], z3.Implies(tp[p], n.at(n.loc(p), x) == z3.And(tracked(n, x), n.loc(n.pt(x)) == n.loc(p)))), 'pre')
    w = within_box(n, box, x)
    e.prove('none of them is listed yet', qall(x, z3.Implies(w, z3.Not(A.has(x)))), 'pre')
    m0 = A.mem
    I.havoc([A])
    A = View(I, e.st.heap, I.deref(a[1]))
    e.assume(qall(x, A.mem[x] == z3.Or(m0[x], w), [A.mem[x]]))


MODELS['CPSpatialTree.getObjectsWithin'] = tree_query


class Each1D:
    def __init__(self, k):
        self.k = k

    def __call__(self, lc):
        n = Sp(self.k, lc, lc.self)
        A, A0, x = lc.arg('agents'), lc.old('agents'), z3.Int('a!e1')
        yield 'listed so far', qall(x, A.mem[x] == z3.Or(A0.mem[x], z3.And(within_box(n, lc.old('bounds'), x), lc.seen[n.uid(x)])), [A.mem[x]])


def query_setup(I, args):
    tree0(I)
    I.the_space = args['self']


def queries(k):
    q = 'cxx.' + k.name + '.getAgentsWithin'
    x = z3.Int('a!gw')

    def pre(c):
        n = Sp(k, c, c.self)
        yield from n.inv()
        b, A, s = c.arg('bounds'), c.arg('agents'), c.self
        yield 'an index exactly from two dimensions on', (s.spatial_tree.ref != 0) == (s.borders.bounds_.num_dims >= 2)
        yield 'a query box with as many dimensions', z3.And(cgeo.box_wf(b), b.num_dims == s.borders.bounds_.num_dims, b.x_extent_ > 0, z3.Implies(b.num_dims >= 2, z3.And(b.y_extent_ > 0, b.z_extent_ >= 0)))
        yield 'an empty vector', z3.And(A.ref > 0, A.ref <= c.I.eng.alloc_top(), A.ref != empty(k), qall(x, z3.Not(A.mem[x]), [A.mem[x]]))
        if k.mo:
            l = z3.Const('l!gw', k.LOC.sort())
            yield 'of its own', qall(l, z3.Implies(n.ld[l], n.lv[l] != A.ref), [n.lv[l]])

    def post(c):
        n, A = Sp(k, c, c.self), c.arg('agents')
        yield 'exactly the agents located in the box', qall(x, A.mem[x] == within_box(n, c.old('bounds'), x), [A.mem[x]])
        yield from n.inv()
    LOOPS[(q, 0)] = Each1D(k)
    con(q, args={'self': REF(k.name), 'bounds': REF('BoundingBox'), 'agents': DL}, requires=pre, ensures=post, setup=query_setup, modifies=lambda c: [c.arg('agents')])
    UNITS['G07'].append(q)


for _c in CLASSES:
    if _c.K == 'C':
        queries(_c)
