"""Contracts on the C++ of SpatialTree.h/.cpp: property G07.

A tree is a node; what matters of a node is its box and the set of point objects it holds (ghost `held`, one set per node).  The virtual
functions have one contract each, on STNode; the overrides of ComponentNode and CompositeNode are verified against it, calls through a
child pointer use it.  Assumed: the nodes form a tree (children are made by make_shared in the constructors and in split and never shared), so
that an operation on one child touches nothing of its siblings and its parent.
Coordinates are real numbers here: halving an extent is exact.
"""
import z3
from ..core import *
from ..pyfront import Contract, View, mkand, mkor, qall
from . import cgeo
from .cgeo import AX, box_wf, inside, real

CONTRACTS, LOOPS, MODELS, SCHEMA = {k: v for k, v in cgeo.CONTRACTS.items() if 'BoundingBox' in k or 'extract_coords' in k}, {}, {}, {}
UNITS = []
AG = REF('Agent')
PT = REF('C')
NP = REF('NodePoint')


def con(q, **kw):
    c = CONTRACTS[q] = Contract(q, **kw)
    UNITS.append(q)
    return c


def lo(b, a):
    return getattr(b.min_, a + '_')


def hi(b, a):
    return getattr(b.max_, a + '_')


def ext(b, a):
    return getattr(b, a + '_extent')


def isbox(D, b):
    """extents are those of the corners; a 2D box has no depth"""
    r = [ext(b, a) == hi(b, a) - lo(b, a) for a in AX[:D]]
    return z3.And(*r, b.z_extent == 0) if D == 2 else z3.And(*r)


def within(D, b, p):
    """in the closed box"""
    return z3.And(*[z3.And(lo(b, a) <= getattr(p, a), getattr(p, a) <= hi(b, a)) for a in AX[:D]])


for D in (2, 3):
    B = REF('Box%dD' % D)
    con('cxx.Box%dD.__init__(NodePoint&,double,double,double)' % D, args={'self': B, 'min': NP, 'max_x': REAL, 'max_y': REAL, 'max_z': REAL}, apply=False,
        ensures=lambda c, D=D: [('the box of the two corners', z3.And(isbox(D, c.self), *[z3.And(lo(c.self, a) == getattr(c.old('min'), a + '_'), hi(c.self, a) == c.arg('max_' + a)) for a in AX[:D]]))])
    con('cxx.Box%dD.contains(C*)' % D, args={'self': B, 'pt': PT}, result=BOOL, modifies=[], ensures=lambda c, D=D: [('exactly the points of the closed box', c.res == within(D, c.self, c.arg('pt')))])
    con('cxx.Box%dD.intersects' % D, args={'self': B, 'bbox': REF('BoundingBox')}, result=BOOL, modifies=[],
        requires=lambda c, D=D: [('a box with as many dimensions', z3.And(box_wf(c.arg('bbox')), c.arg('bbox').num_dims == D, c.arg('bbox').y_extent_ > 0, c.arg('bbox').z_extent_ >= 0))],
        ensures=lambda c, D=D: [('if not, no point is in both', z3.Implies(z3.Not(c.res), z3.Or(*[z3.Or(hi(c.self, a) < real(getattr(c.arg('bbox'), a + 'min_')), lo(c.self, a) >= real(getattr(c.arg('bbox'), a + 'max_'))) for a in AX[:D]])))])


# --------------------------------------------------------------------------- nodes

class T:
    """the classes of one tree"""
    def __init__(self, D, occ):
        self.D, self.mo = D, occ == 'MO'
        t = '<Box%dD,C,%s<C>>' % (D, occ)
        self.N, self.COMP, self.CN, self.COMPD, self.TREE = ['%s%s' % (x, t) for x in ('STNode', 'CompositeNode', 'ComponentNode', 'Composite%dDNode' % D, 'SpatialTree')]
        self.items = ('MOItems' if self.mo else 'SOItems') + '<C>'
        self.planes = [a + '_plane' for a in AX[:D]]

    def index(self, n, p):
        """the child a point belongs to: one bit per dimension"""
        return sum([z3.If(getattr(p, a) >= getattr(n, q), 1 << (self.D - 1 - i), 0) for i, (a, q) in enumerate(zip(AX, self.planes))], z3.IntVal(0))

    def kids(self, c, n):
        """the children's boxes are the parts of the node's box on either side of the planes"""
        ch = n.children
        r = [ch.ref > 0, ch.len == 2 ** self.D]
        kid = [View(c.I, n._h, V(REF(self.N), ch.el[i])) for i in range(2 ** self.D)]
        r += [z3.Distinct(n.ref, *[k.ref for k in kid])] + [z3.And(k.ref > 0, k.ref <= c.I.eng.alloc_top()) for k in kid]
        b = n.bounds_
        r.append(isbox(self.D, b))
        for j, (a, q) in enumerate(zip(AX, self.planes)):
            pl = getattr(n, q)
            r += [lo(b, a) < hi(b, a), pl == lo(b, a) + ext(b, a) / 2]
            for i, k in enumerate(kid):
                up = i >> (self.D - 1 - j) & 1
                r += [lo(k.bounds_, a) == (pl if up else lo(b, a)), hi(k.bounds_, a) == (hi(b, a) if up else pl)]
        for k in kid:
            r.append(isbox(self.D, k.bounds_))
        return r


TREES = [T(D, o) for D in (2, 3) for o in ('MO', 'SO')]


def trees(t):
    D, node = t.D, REF(t.COMP)
    con('cxx.%s.calcChildIndex' % t.COMPD, args={'self': REF(t.COMPD), 'pt': PT}, result=INT, modifies=[],
        ensures=lambda c: [('one bit per dimension', c.res == t.index(c.self, c.arg('pt')))])
    sig = ','.join(['double'] * D)
    con('cxx.%s.__init__(NodePoint&,%s)' % (t.COMPD, sig), args=dict({'self': REF(t.COMPD), 'min': NP}, **{a + '_extent': REAL for a in AX[:D]}),
        requires=lambda c: [('an extent', z3.And(*[c.arg(a + '_extent') > 0 for a in AX[:D]]))],
        ensures=lambda c: [('the children share out the box %d' % i, x) for i, x in enumerate(t.kids(c, c.self))] + [ ('the box given', z3.And(*[z3.And(lo(c.self.bounds_, a) == getattr(c.old('min'), a + '_'), hi(c.self.bounds_, a) == getattr(c.old('min'), a + '_') + c.arg(a + '_extent')) for a in AX[:D]])),
                           ('empty', c.self.size == 0)])


for _t in TREES:
    trees(_t)


# --------------------------------------------------------------------------- what a node holds
I_ = z3.IntSort()
import os
NP2 = int(os.environ.get("NP2", "1"))
SET = z3.ArraySort(I_, z3.BoolSort())
HS = z3.ArraySort(I_, SET)
CARD = z3.Function('card_of_points', SET, I_)
LEAF = z3.Function('is_component_node', I_, z3.BoolSort())
TRACKED = z3.Function('in_the_space', I_, z3.BoolSort())     # an agent with a location in the space
PTOF = z3.Function('point_of_agent', I_, I_)
AGOF = z3.Function('agent_of_point', I_, I_)
DL = DLIST(AG)


def held(c, old=False):
    return (c.oldghost if old else c.ghost)['held']


def setup(I, args):
    I.eng.st.ghost = dict(I.eng.st.ghost, held=z3.Const('held0', HS))


def hput(I, n, s):
    I.eng.st.ghost = dict(I.eng.st.ghost, held=z3.Store(I.eng.st.ghost['held'], n, s))


class PtV:
    """the coordinates of any point object"""
    def __init__(self, c, p):
        for a in AX:
            setattr(self, a, c.arr('C', a)[p])


def ncard(h, pt):
    """of the number of points in a set"""
    q = z3.Int('q!cd')
    return z3.And(CARD(h) >= 0, qall(q, z3.Implies(h[q], CARD(h) >= 1), [h[q]]), CARD(z3.Store(h, pt, True)) == CARD(h) + z3.If(h[pt], 0, 1), CARD(z3.Store(h, pt, False)) == CARD(h) - z3.If(h[pt], 1, 0))


def composite(t, c, n, h, hs):
    """h: the sets of all nodes, hs: what n holds"""
    for i, x in enumerate(t.kids(c, n)):
        yield 'its children share out the box %d' % i, x
    p = z3.Int('p!cm')
    P = PtV(c, p)
    hs = c.I.named(hs, 'hs')
    kid = [c.I.named(h[n.children.el[i]], 'hk') for i in range(2 ** t.D)]
    ix = t.index(n, P)
    for i, k in enumerate(kid):
        yield 'child %d holds the points on its side' % i, qall(p, k[p] == z3.And(hs[p], ix == i), [k[p]])
        yield 'and all of them (%d)' % i, qall(p, z3.Implies(z3.And(hs[p], ix == i), k[p]), [hs[p]])
    yield 'what it holds is in its box', qall(p, z3.Implies(hs[p], z3.And(p > 0, within(t.D, n.bounds_, P))), [hs[p]])
    yield 'the size is the number of points', n.size == CARD(hs)


def nodes(t):
    D = t.D
    S = {'self': REF(t.COMP)}

    def inbox(I, o, p):
        c = Ctx_(I)
        return within(D, View(I, I.eng.st.heap, I.getattr(o, 'bounds_')), PtV(c, p))

    def add(I, o, a, kw):
        e, p = I.eng, I.lift(a[0], PT)
        h = e.st.ghost['held'][o.t]
        e.prove('a point goes into a node whose box has it', inbox(I, o, p), 'pre')
        e.prove('and that does not hold it', z3.Not(h[p]), 'pre')
        hput(I, o.t, z3.Store(h, p, True))
        r = e.fresh('full', z3.BoolSort())
        e.assume(z3.Implies(r, LEAF(o.t)))
        return V(BOOL, r)

    def remove(I, o, a, kw):
        p = I.lift(a[0], PT)
        h = I.eng.st.ghost['held'][o.t]
        I.eng.prove('a point is looked for in a node whose box has it', inbox(I, o, p), 'pre')
        hput(I, o.t, z3.Store(h, p, False))
        return V(BOOL, h[p])

    def split(I, o, a, kw):
        e = I.eng
        e.prove('only component nodes are split', LEAF(o.t), 'pre')
        r = V(REF(t.N), e.alloc())
        I.setattr(r, 'bounds_', I.getattr(o, 'bounds_'))
        e.assume(z3.Not(LEAF(r.t)))
        hput(I, r.t, e.st.ghost['held'][o.t])
        hput(I, o.t, z3.K(I_, z3.BoolVal(False)))
        return r

    MODELS.update({t.N + '.addItem': add, t.N + '.removeItem': remove, t.N + '.split': split,
                   t.COMP + '.calcChildIndex': lambda I, o, a, kw: V(INT, t.index(View(I, I.eng.st.heap, o), View(I, I.eng.st.heap, a[0])))})

    def pre(want):
        def f(c):
            h = held(c)
            hs = h[c.self.ref]
            p = c.arg('pt').ref
            yield from composite(t, c, c.self, h, hs)
            yield 'counting', ncard(hs, p)
            if want is not None:
                yield 'not held yet', z3.Not(hs[p])
        return f

    def post(val):
        def f(c):
            h0 = held(c, True)[c.self.ref]
            p = c.arg('pt').ref
            ok = within(D, c.oself.bounds_, c.old('pt'))
            hs = z3.If(ok, z3.Store(h0, p, val), h0)
            yield from composite(t, c, c.self, held(c), hs)
            yield 'the answer', c.res == (z3.BoolVal(False) if val else z3.And(ok, h0[p]))
        return f
    con('cxx.%s.addItem' % t.COMP, args=dict(S, pt=PT, threshold=INT), result=BOOL, requires=pre(True), ensures=post(True), setup=setup, apply=False)
    con('cxx.%s.removeItem' % t.COMP, args=dict(S, pt=PT), result=BOOL, requires=pre(None), ensures=post(False), setup=setup, apply=False)


from ..pyfront import Ctx


def Ctx_(I):
    return Ctx(I, I.eng.st.heap)


for _t in TREES:
    nodes(_t)


# --------------------------------------------------------------------------- queries
a_ = z3.Int('a!q')


def wanted(c, hs, box, a):
    """an agent whose point is held and in the query box"""
    return z3.And(TRACKED(a), hs[PTOF(a)], inside(box, PtV(c, PTOF(a))))


def dims(t, box):
    return z3.And(box_wf(box), box.num_dims == t.D, box.x_extent_ > 0, box.y_extent_ > 0, box.z_extent_ >= 0)


def locmap(t, c, hs, M, A):
    """the map of the space knows the agents at the location of each point held"""
    p, a = z3.Int('p!lm'), z3.Int('a!lm')
    P, q = PtV(c, p), PtV(c, PTOF(a))
    k = LOC.sort().mk(*[getattr(P, x) for x in AX])
    yield 'the map of locations', z3.And(M.ref > 0, M.ref <= c.I.eng.alloc_top())
    yield 'locations', qall(p, z3.Implies(hs[p], M.has(k)), [hs[p]])
    if t.mo:
        L = View(c.I, M._h, V(DL, M.val[k]))
        yield 'lists of agents', qall(p, z3.Implies(hs[p], z3.And(L.ref > 0, L.ref <= c.I.eng.alloc_top(), L.ref != A.ref)), [hs[p]])
        yield 'with exactly the agents there', qall([p, a], z3.Implies(hs[p], L.has(a) == z3.And(TRACKED(a), *[getattr(P, x) == getattr(q, x) for x in AX])), [z3.MultiPattern(hs[p], L.mem[a]), z3.MultiPattern(hs[p], PTOF(a))][:NP2])
    else:
        yield 'with the agent there', qall(p, z3.Implies(hs[p], M.val[k] == AGOF(p)), [hs[p]])


def space(t, c, hs):
    """each point held is that of one agent of the space, and with it come all the points of its location"""
    p, a = z3.Int('p!sp'), z3.Int('a!sp')
    yield 'points are of agents in the space', qall(p, z3.Implies(hs[p], z3.And(p > 0, TRACKED(AGOF(p)), PTOF(AGOF(p)) == p)), [hs[p]])
    yield 'an agent has one point', qall(a, z3.Implies(TRACKED(a), z3.And(a > 0, AGOF(PTOF(a)) == a)), [PTOF(a)])
    q = PtV(c, PTOF(a))
    P = PtV(c, p)
    same = z3.And(*[getattr(P, x) == getattr(q, x) for x in AX])
    yield 'all of a location', qall([p, a], z3.Implies(z3.And(hs[p], TRACKED(a), same), hs[PTOF(a)]), [z3.MultiPattern(hs[p], PTOF(a))])


def query_pre(t, hs_):
    def f(c):
        hs = hs_(c)
        A = c.arg('agents')
        yield 'a query box with as many dimensions', dims(t, c.arg('box'))
        yield from space(t, c, hs)
        yield from locmap(t, c, hs, c.arg('loc_map'), A)
        yield 'the vector', z3.And(A.ref > 0, A.ref <= c.I.eng.alloc_top())
        yield 'none of them is listed yet', qall(a_, z3.Implies(wanted(c, hs, c.arg('box'), a_), z3.Not(A.has(a_))), [A.mem[a_]])
    return f


def listed(c, hs, box, A, A0, upto=None):
    w = wanted(c, hs, box, a_)
    if upto is not None:
        w = z3.And(w, upto(PTOF(a_)))
    yield 'the agents within the box are listed', qall(a_, z3.Implies(w, A.has(a_)), [PTOF(a_)])
    yield 'and no others', qall(a_, z3.Implies(A.has(a_), z3.Or(A0.has(a_), w)), [A.mem[a_]])
    yield 'those listed stay', qall(a_, z3.Implies(A0.has(a_), A.has(a_)), [A0.mem[a_]])


class Kids:
    def __init__(self, t):
        self.t = t

    def __call__(self, lc):
        t = self.t
        hs = held(lc)[lc.oself.ref]
        yield from listed(lc, hs, lc.old('box'), lc.arg('agents'), lc.old('agents'), lambda p: t.index(lc.oself, PtV(lc, p)) < lc.i)


def queries(t):
    LM = t.LM

    def query(I, o, a, kw):
        e = I.eng
        c = Ctx_(I)
        hs = I.named(e.st.ghost['held'][o.t], 'hq')
        box, A = View(I, e.st.heap, I.deref(a[0])), View(I, e.st.heap, I.deref(a[2]))
        e.prove('a query box with as many dimensions', dims(t, box), 'pre')
        M = View(I, e.st.heap, I.deref(a[1]))
        for n, g in list(space(t, c, hs)) + list(locmap(t, c, hs, M, A)):
            e.prove(n, g, 'pre')
        w = wanted(c, hs, box, a_)
        e.prove('none of them is listed yet', qall(a_, z3.Implies(w, z3.Not(A.has(a_))), [A.mem[a_]]), 'pre')
        m0 = A.mem
        I.havoc([A])
        A = View(I, e.st.heap, I.deref(a[2]))
        e.assume(qall(a_, A.mem[a_] == z3.Or(m0[a_], w), [A.mem[a_]]))
        e.assume(qall(a_, z3.Implies(z3.Or(m0[a_], w), A.mem[a_]), [m0[a_]]))
        e.assume(qall(a_, z3.Implies(w, A.mem[a_]), [PTOF(a_)]))

    MODELS[t.N + '.getObjectsWithin'] = query

    def pre(c):
        hs = held(c)[c.self.ref]
        yield from composite(t, c, c.self, held(c), hs)
        yield 'counting', z3.And(CARD(hs) >= 0, qall(a_, z3.Implies(hs[a_], CARD(hs) >= 1), [hs[a_]]))
        yield from query_pre(t, lambda c: hs)(c)

    def post(c):
        hs = held(c)[c.self.ref]
        yield from listed(c, hs, c.old('box'), c.arg('agents'), c.old('agents'))
    q = 'cxx.%s.getObjectsWithin' % t.COMP
    LOOPS[(q, 0)] = Kids(t)
    con(q, args={'self': REF(t.COMP), 'box': REF('BoundingBox'), 'loc_map': LM, 'agents': DL}, requires=pre, ensures=post, setup=setup, modifies=lambda c: [c.arg('agents')], apply=False)


LOC = TUP(REAL, REAL, REAL)
for _t in TREES:
    _t.LM = DICT(LOC, DL if _t.mo else AG)
    queries(_t)


# --------------------------------------------------------------------------- component nodes

class In:
    """the points in the items of a component node"""
    def __init__(self, t, c, it, old=False):
        self.t, self.c, self.it = t, c, it
        self.pts = it.points
        if t.mo:
            self.sets = c.oldheap if old else c.heap

    def key(self, p):
        return LOC.sort().mk(*[getattr(PtV(self.c, p), a) for a in AX])

    def set(self, k):
        return View(self.c.I, self.it._h, V(SET_C, self.pts.val[k]))

    def __call__(self, p):
        if not self.t.mo:
            return self.pts.has(p)
        k = self.key(p)
        return z3.And(self.pts.has(k), self.set(k).has(p))


SET_C = DICT(LOC, AG) and None


def items_ok(t, c, it):
    top = c.I.eng.alloc_top()
    yield 'the container', z3.And(it.points.ref > 0, it.points.ref <= top)
    if t.mo:
        k, l, p = z3.Const('k!it', LOC.sort()), z3.Const('l!it', LOC.sort()), z3.Int('p!it')
        n = In(t, c, it)
        pts = it.points
        yield 'sets of points', qall(k, z3.Implies(pts.has(k), z3.And(pts.val[k] > 0, pts.val[k] <= top)), [pts.dom[k]])
        yield 'each its own', qall([k, l], z3.Implies(z3.And(pts.has(k), pts.has(l), k != l), pts.val[k] != pts.val[l]), [z3.MultiPattern(pts.val[k], pts.val[l])])
        yield 'a point is filed under its location', qall([k, p], z3.Implies(z3.And(pts.has(k), n.set(k).has(p)), z3.And(p > 0, n.key(p) == k)), [n.set(k).has(p)])
        yield 'no set is empty', qall(k, z3.Implies(pts.has(k), z3.Exists([p], n.set(k).has(p))), [pts.dom[k]])
    else:
        p = z3.Int('p!it')
        yield 'points', qall(p, z3.Implies(it.points.has(p), p > 0), [it.points.dom[p]])


def items(t):
    global SET_C
    from ..core import SET as SETT
    SET_C = SETT(PT)
    q = 'cxx.%s.' % t.items
    S = {'self': REF(t.items)}
    kw = {'setup': setup, 'apply': False}
    p = z3.Int('p!is')

    def pre(c):
        yield from items_ok(t, c, c.self)

    def post(f):
        def g(c):
            yield from items_ok(t, c, c.self)
            n, o = In(t, c, c.self), In(t, c, c.oself, True)
            yield 'the points held', qall(p, n(p) == f(c, o, p))
            if c.result is not None:
                yield 'the answer', c.res == o(c.arg('pt').ref)
        return g
    con(q + 'add', args=dict(S, pt=PT), requires=pre, ensures=post(lambda c, o, p: z3.Or(o(p), p == c.arg('pt').ref)), **kw)
    con(q + 'remove(C*)', args=dict(S, pt=PT), result=BOOL, requires=pre, ensures=post(lambda c, o, p: z3.And(o(p), p != c.arg('pt').ref)), **kw)
    con(q + 'clear', args=dict(S), requires=pre, ensures=post(lambda c, o, p: z3.BoolVal(False)), **kw)


class Seen:
    def __init__(self, t):
        self.t = t

    def __call__(self, lc):
        t, hs, me = self.t, HITEMS, View(lc.I, lc.oldheap, lc.I.deref(lc.fr.env['self']))
        key = (lambda p: In(t, lc, me, True).key(p)) if t.mo else (lambda p: p)
        yield from listed(lc, hs, lc.old('box'), lc.arg('agents'), lc.old('agents'), lambda p: lc.seen[key(p)])


HITEMS = z3.Const('points_held', SET)


def item_query(t):
    q = 'cxx.%s.getObjectsWithin' % t.items

    def pre(c):
        it = c.self
        yield from items_ok(t, c, it)
        n, p, k = In(t, c, it), z3.Int('p!iq'), z3.Const('k!iq', LOC.sort())
        yield 'what is held', qall(p, HITEMS[p] == n(p), [HITEMS[p]])
        if t.mo:
            yield 'what is held is found', qall([k, p], z3.Implies(z3.And(it.points.has(k), n.set(k).has(p)), HITEMS[p]), [n.set(k).has(p)])
        else:
            yield 'what is held is found', qall(p, z3.Implies(it.points.has(p), HITEMS[p]), [it.points.dom[p]])
        yield from query_pre(t, lambda c: HITEMS)(c)
    LOOPS[(q, 0)] = Seen(t)
    con(q, args={'self': REF(t.items), 'box': REF('BoundingBox'), 'loc_map': t.LM, 'agents': DL}, requires=pre, modifies=lambda c: [c.arg('agents')], setup=setup, apply=False,
        ensures=lambda c: listed(c, HITEMS, c.old('box'), c.arg('agents'), c.old('agents')))


items(TREES[0])
items(TREES[1])
item_query(TREES[0])
item_query(TREES[1])


def rel(t, c, it, hs):
    """hs is what the items are"""
    n, p, k = In(t, c, it), z3.Int('p!iq'), z3.Const('k!iq', LOC.sort())
    yield 'what is held', qall(p, hs[p] == n(p), [hs[p]])
    if t.mo:
        yield 'what is held is found', qall([k, p], z3.Implies(z3.And(it.points.has(k), n.set(k).has(p)), hs[p]), [n.set(k).has(p)])
    else:
        yield 'what is held is found', qall(p, z3.Implies(it.points.has(p), hs[p]), [it.points.dom[p]])


def boxed(t, c, b, hs):
    p = z3.Int('p!bx')
    yield 'a box with an extent', z3.And(isbox(t.D, b), *[lo(b, a) < hi(b, a) for a in AX[:t.D]])
    yield 'what it holds is in its box', qall(p, z3.Implies(hs[p], within(t.D, b, PtV(c, p))), [hs[p]])


class Handed:
    def __init__(self, t, inner):
        self.t, self.inner = t, inner

    def ghosts(self, I):
        return ['held']

    def __call__(self, lc):
        t, n = self.t, lc.arg('node').ref
        h, h0 = held(lc), z3.Const('held0', HS)
        hs, hs0 = h[n], h0[n]
        it = In(t, lc, lc.oself, True)
        p, m = z3.Int('p!hd'), z3.Int('m!hd')
        if self.inner:
            gk = lc.I.eng.st.ghost['__seen']
            cur = lc.loc('kv') if False else lc.I.lift(lc.fr.env['kv'].a, LOC)
            done = lambda p: z3.Or(gk[it.key(p)], z3.And(it.key(p) == cur, lc.seen[p]))
        elif t.mo:
            if lc.havocked:
                lc.I.eng.st.ghost = dict(lc.I.eng.st.ghost, __seen=lc.seen)
            done = lambda p: lc.seen[it.key(p)]
        else:
            done = lambda p: lc.seen[p]
        yield 'the points handed on', qall(p, hs[p] == z3.Or(hs0[p], z3.And(HITEMS[p], done(p))), [hs[p]])
        yield 'other nodes', qall(m, z3.Or(m == n, h[m] == h0[m]), [h[m]])


def components(t):
    D = t.D
    node = 'shared_ptr<%s>' % t.N
    q = 'cxx.%s.addToNode(%s,int)' % (t.items, node)
    nn = REF(t.N)
    LOOPS[(q, 0)] = Handed(t, False)
    LOOPS[(q, 1)] = Handed(t, True)
    p = z3.Int('p!cp')

    def to_pre(c):
        n = c.arg('node')
        yield from items_ok(t, c, c.self)
        yield from rel(t, c, c.self, HITEMS)
        yield from boxed(t, c, n.bounds_, HITEMS)
        yield 'a node', z3.And(n.ref > 0, n.ref <= c.I.eng.alloc_top())
        hs = c.I.named(held(c)[n.ref], 'hn')
        yield 'none of them is in the node', qall(p, z3.Implies(HITEMS[p], z3.Not(hs[p])), [HITEMS[p]])

    def to_post(c):
        n = c.arg('node').ref
        h, h0 = held(c), held(c, True)
        m = z3.Int('m!cp')
        hs, hs0 = c.I.named(h[n], 'hn'), c.I.named(h0[n], 'hn')
        yield 'all points are handed on', qall(p, hs[p] == z3.Or(hs0[p], HITEMS[p]), [hs[p]])
        yield 'those of the items too', qall(p, z3.Implies(HITEMS[p], hs[p]), [HITEMS[p]])
        yield 'other nodes', qall(m, z3.Or(m == n, h[m] == h0[m]), [h[m]])

    def hav(I, c, *r):
        I.eng.st.ghost = dict(I.eng.st.ghost, held=I.eng.fresh('held', HS))
    con(q, args={'self': REF(t.items), 'node': nn, 'threshold': INT}, requires=to_pre, ensures=to_post, setup=setup, modifies=[])
    CONTRACTS[q].after = hav

    S = {'self': REF(t.CN)}

    def pre(c):
        b = c.self.bounds_
        yield from items_ok(t, c, c.self.items)
        yield from rel(t, c, c.self.items, HITEMS)
        yield from boxed(t, c, b, HITEMS)
        yield 'a component node', LEAF(c.self.ref)

    def add_pre(c):
        yield from pre(c)
        yield 'a point in the box, not held', z3.And(within(D, c.self.bounds_, c.arg('pt')), z3.Not(HITEMS[c.arg('pt').ref]))

    def post(f):
        def g(c):
            yield from items_ok(t, c, c.self.items)
            n = In(t, c, c.self.items)
            yield 'the points held', qall(p, n(p) == f(c, p))
            yield 'in its box', qall(p, z3.Implies(n(p), within(D, c.self.bounds_, PtV(c, p))))
        return g
    kw = dict(setup=setup, apply=False)
    con('cxx.%s.addItem' % t.CN, args=dict(S, pt=PT, threshold=INT), result=BOOL, requires=add_pre, ensures=post(lambda c, p: z3.Or(HITEMS[p], p == c.arg('pt').ref)), **kw)

    def rm_post(c):
        yield from post(lambda c, p: z3.And(HITEMS[p], p != c.arg('pt').ref))(c)
        yield 'the answer', c.res == HITEMS[c.arg('pt').ref]
    con('cxx.%s.removeItem' % t.CN, args=dict(S, pt=PT), result=BOOL, requires=pre, ensures=rm_post, **kw)

    def q_pre(c):
        yield from pre(c)
        yield from query_pre(t, lambda c: HITEMS)(c)
    con('cxx.%s.getObjectsWithin' % t.CN, args=dict(S, box=REF('BoundingBox'), loc_map=t.LM, agents=DL), requires=q_pre, modifies=lambda c: [c.arg('agents')],
        ensures=lambda c: listed(c, HITEMS, c.old('box'), c.arg('agents'), c.old('agents')), **kw)

    def sp_setup(I, args):
        setup(I, args)
        m = z3.Int('m!su')
        h = I.eng.st.ghost['held']
        I.eng.st.pc.append(qall(m, z3.Implies(m > z3.Int('alloc0'), h[m] == z3.K(I_, z3.BoolVal(False))), [h[m]]))

    def sp_post(c):
        r, b = c.res, c.oself.bounds_
        hs = c.I.named(held(c)[r.ref], 'hr')
        yield 'a new node', r.ref > z3.Int('alloc0')
        yield 'with the same box', z3.And(isbox(D, r.bounds_), *[z3.And(lo(r.bounds_, a) == lo(b, a), hi(r.bounds_, a) == hi(b, a)) for a in AX[:D]])
        yield 'that holds the same points', qall(p, hs[p] == HITEMS[p])
    con('cxx.%s.split' % t.CN, args=S, result=nn, requires=pre, ensures=sp_post, setup=sp_setup, apply=False)


for _t in TREES:
    components(_t)


# --------------------------------------------------------------------------- the tree

def whole_tree(t, impl=False):
    """the root is a composite node; its own functions are verified above, calls on it use what they were verified against"""
    D, CN = t.D, t.COMP
    TR = REF('CPSpatialTreeImpl<%s>' % t.TREE if impl else t.TREE)

    def tr(s):
        return s.delegate if impl else s

    def inbox(c, o, p):
        return within(D, View(c.I, c.I.eng.st.heap, c.I.getattr(o, 'bounds_')), PtV(c, p))

    def add(I, o, a, kw):
        e, p, c = I.eng, I.lift(a[0], PT), Ctx_(I)
        h = e.st.ghost['held'][o.t]
        e.prove('a point added is not held', z3.Not(h[p]), 'pre')
        hput(I, o.t, z3.If(inbox(c, o, p), z3.Store(h, p, True), h))
        return V(BOOL, z3.BoolVal(False))

    def remove(I, o, a, kw):
        p, c = I.lift(a[0], PT), Ctx_(I)
        h, ok = I.eng.st.ghost['held'][o.t], inbox(c, o, p)
        hput(I, o.t, z3.If(ok, z3.Store(h, p, False), h))
        return V(BOOL, z3.And(ok, h[p]))
    MODELS.update({'virtual:' + CN + '.addItem': add, 'virtual:' + CN + '.removeItem': remove, 'virtual:' + CN + '.getObjectsWithin': MODELS[t.N + '.getObjectsWithin']})
    S = {'self': TR, 'item': REF('SpaceItem<C>')}
    kw = {'setup': setup, 'apply': False}
    p = z3.Int('p!tr')

    def root(c):
        if impl:
            yield 'a tree', z3.And(c.self.delegate.ref > 0, c.self.delegate.ref <= c.I.eng.alloc_top())
        r = tr(c.self).root
        yield 'a root', z3.And(r.ref > 0, r.ref <= c.I.eng.alloc_top())
        return r

    def pre(want):
        def f(c):
            yield from root(c)
            pt, r = c.arg('item').pt, tr(c.self).root
            hs = held(c)[r.ref]
            yield 'a point', pt.ref > 0
            if want:
                yield 'not held yet', z3.Not(hs[pt.ref])
                yield 'in the space', within(D, r.bounds_, PtV(c, pt.ref))
            else:
                yield 'points held are in the space', qall(p, z3.Implies(hs[p], within(D, r.bounds_, PtV(c, p))), [hs[p]])
        return f

    def post(val):
        def f(c):
            r, pt = tr(c.self).root, c.old('item').pt.ref
            h0 = held(c, True)[r.ref]
            yield 'the point is %s' % ('held' if val else 'gone'), qall(p, held(c)[r.ref][p] == (z3.Or(h0[p], p == pt) if val else z3.And(h0[p], p != pt)))
            if not val:
                yield 'the answer', c.res == h0[pt]
        return f
    q = 'cxx.%s.' % TR.args[0]
    con(q + 'addItem', args=S, requires=pre(True), ensures=post(True), modifies=[], **kw)
    con(q + 'removeItem', args=S, result=BOOL, requires=pre(False), ensures=post(False), modifies=[], **kw)

    def hs_(c):
        return held(c)[tr(c.self).root.ref]

    def qpre(c):
        yield from root(c)
        hs = c.I.named(hs_(c), 'hr')
        yield 'a query box with as many dimensions', dims(t, c.arg('box'))
        yield from space(t, c, hs)
        yield from locmap(t, c, hs, tr(c.self).loc_map_, c.arg('agents'))
        A = c.arg('agents')
        yield 'the vector', z3.And(A.ref > 0, A.ref <= c.I.eng.alloc_top())
        yield 'none of them is listed yet', qall(a_, z3.Implies(wanted(c, hs, c.arg('box'), a_), z3.Not(A.has(a_))), [A.mem[a_]])
    con(q + 'getObjectsWithin', args={'self': TR, 'box': REF('BoundingBox'), 'agents': DL}, requires=qpre, modifies=lambda c: [c.arg('agents')],
        ensures=lambda c: listed(c, hs_(c), c.old('box'), c.arg('agents'), c.old('agents')), **kw)

    def ctor(c):
        r, b = tr(c.self).root, c.old('box')
        yield 'a root', r.ref != 0
        yield 'that covers the space', z3.And(isbox(D, r.bounds_), *[z3.And(lo(r.bounds_, a) == real(getattr(b, a + 'min_')), hi(r.bounds_, a) == real(getattr(b, a + 'min_') + getattr(b, a + '_extent_'))) for a in AX[:D]])
        n = View(c.I, c.heap, V(REF(CN), r.ref))
        for i, x in enumerate(t.kids(c, n)):
            yield 'the children share out the box %d' % i, x
        yield 'empty', n.size == 0
        yield 'over the map of the space', z3.And(tr(c.self).loc_map_.ref == c.old('loc_map').ref, tr(c.self).threshold_ == c.old('threshold'))
    con(q + '__init__(int,BoundingBox&,%s)' % (IMPL[t.mo] if impl else 'LMType*'), args={'self': TR, 'threshold': INT, 'box': REF('BoundingBox'), 'loc_map': t.LM}, requires=lambda c: [('a box with as many dimensions', dims(t, c.arg('box'))), ('with a depth', c.arg('box').z_extent_ > 0 if D == 3 else z3.BoolVal(True))],
        ensures=ctor, **kw)


IMPL = {True: 'map<Point<C>,shared_ptr<list<Agent*>>>*', False: 'map<Point<C>,Agent*>*'}
for _t in TREES:
    whole_tree(_t)
    whole_tree(_t, True)
