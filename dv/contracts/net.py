"""Contracts for repast4py/network.py (N01): the edges of a network, the tables of shared and pending edges, and what is exchanged about them.

The networkx graph is an assumed contract: a set of nodes and a map from pairs of nodes to attribute dictionaries (of an
undirected graph both orientations map to the same dictionary).  Every unit is a lemma over one of the two concrete classes.
"""
import z3
from ..core import *
from ..pyfront import *
from ..pyfront import Contract, View, Ctx, qall
from ..pybuiltins import METHODS, d_update
from . import agents as AG_
from .agents import AG, AM

EK = TUP(AG, AG)
ATTR = DICT(STR, ANY)
GE, GRAPH = REF('GhostedEdge'), REF('Graph')
FIELDS = {'name': ANY, 'comm': REF('Comm'), 'graph': GRAPH, 'rank': INT, 'edges_to_update': SET(EK), 'ghosted_edges': DICT(EK, GE), 'new_edges': DICT(EK, GE),
          'edges_to_remove': DICT(EK, INT), 'ghosts_to_ref': LIST(AG)}
SCHEMA = dict(AG_.SCHEMA)
SCHEMA.update({'UndirectedSharedNetwork': dict(FIELDS, canonical_edge_keys=DICT(EK, EK)), 'DirectedSharedNetwork': dict(FIELDS),
               'Graph': {'nodes_': SET(AG), 'edges_': DICT(EK, ATTR), 'directed_': BOOL}, 'EdgeView': {},
               'GhostedEdge': {'local_agent': AG, 'ghost_agent': AG, 'edge_attr': ATTR}})
CONTRACTS, LOOPS, MODELS = {}, {}, {}
UNITS = []
mk = EK.sort().mk
F0, F1 = EK.sort().accessor(0, 0), EK.sort().accessor(0, 1)


def swap(k):
    return mk(F1(k), F0(k))


# ---- the assumed contract of the graph

def attr(fn):
    fn.is_attr = True
    return fn


def parts(I, g):
    return I.getfield(g, 'Graph', 'nodes_'), I.getfield(g, 'Graph', 'edges_')


def directed(I):
    return I.eng.st.ghost['directed']


def agent(I, a):
    return I.lift(I.deref(a), AG)


def g_edges(I, g):
    """the edge view of the graph: a map, and a function to the edges (of a node)"""
    return V(REF('EdgeView'), I.deref(g).t)


def ev_get(I, o, a, kw):
    k = I.deref(a[0])
    if isinstance(k, tuple):
        k = V(EK, mk(*[agent(I, x) for x in k]))
    return I.getitem(parts(I, V(GRAPH, o.t))[1], k)


def edge_list(I, g, cond):
    """a fresh list without repetitions of exactly the pairs with the condition; the ghost array says where a pair is"""
    ty = LIST(EK)
    r = V(ty, I.eng.alloc())
    el, ix = I.list_fresh(ty)
    n, pos = I.eng.fresh('n', z3.IntSort()), I.eng.fresh('pos', z3.ArraySort(EK.sort(), z3.IntSort()))
    dom = I.named(View(I, I.eng.st.heap, parts(I, g)[1]).dom, 'edom')
    k, j = z3.Const('k!ed', EK.sort()), z3.Int('j!ed')
    I.eng.assume(n >= 0)
    I.eng.assume(qall(k, z3.Implies(z3.And(dom[k], cond(k)), z3.And(0 <= pos[k], pos[k] < n, el[pos[k]] == k)), [dom[k]]))
    I.eng.assume(qall(j, z3.Implies(z3.And(0 <= j, j < n), z3.And(dom[el[j]], cond(el[j]), pos[el[j]] == j)), [el[j]]))
    I.list_put(r, n, el, ix)
    I.eng.st.ghost['pos'] = pos
    return r


def chain(I, a, kw):
    """one list after the other"""
    if len(a) != 2:
        raise Unsupported('chain')
    x, y = [I.deref(v) for v in a]
    (n1, e1, _), (n2, e2, _) = I.L(x), I.L(y)
    p1, p2 = I.eng.st.ghost['chained'].get(str(x.t)), I.eng.st.ghost['chained'].get(str(y.t))
    ty = LIST(EK)
    r = V(ty, I.eng.alloc())
    el, ix = I.list_fresh(ty)
    j, k = z3.Int('j!ch'), z3.Const('k!ch', EK.sort())
    pos = I.eng.fresh('pos', p1.sort())
    I.eng.assume(qall(j, z3.Implies(z3.And(0 <= j, j < n1 + n2), el[j] == z3.If(j < n1, e1[j], e2[j - n1])), [el[j]]))
    I.eng.assume(qall(k, pos[k] == z3.If(z3.And(0 <= p1[k], p1[k] < n1, e1[p1[k]] == k), p1[k], n1 + p2[k]), [pos[k]]))
    I.list_put(r, n1 + n2, el, ix)
    I.eng.st.ghost['pos'] = pos
    return r


def nodata(I, kw):
    if any(v is not False for v in kw.values()):
        raise Unsupported('edges with their data')


def ev_call(I, o, a, kw):
    g = V(GRAPH, o.t)
    nodata(I, kw)
    if a:
        # the edges that start at a node
        x = agent(I, a[0])
        return edge_list(I, g, lambda k: F0(k) == x)
    if directed(I):
        return edge_list(I, g, lambda k: z3.BoolVal(True))
    # each undirected edge in one of its directions
    pick = I.eng.fresh('pick', z3.ArraySort(EK.sort(), z3.BoolSort()))
    k = z3.Const('k!pk', EK.sort())
    I.eng.assume(qall(k, z3.If(k == swap(k), pick[k], pick[k] != pick[swap(k)]), [pick[k]]))
    return edge_list(I, g, lambda k: pick[k])


def node_edges(incoming):
    def f(I, g, a, kw):
        nodata(I, kw)
        x = agent(I, a[0])
        r = edge_list(I, I.deref(g), lambda k: (F1 if incoming else F0)(k) == x)
        I.eng.st.ghost['chained'] = dict(I.eng.st.ghost.get('chained', {}), **{str(r.t): I.eng.st.ghost['pos']})
        return r
    return f


def g_has_node(I, g, a, kw):
    return V(BOOL, View(I, I.eng.st.heap, parts(I, I.deref(g))[0]).dom[agent(I, a[0])])


def g_has_edge(I, g, a, kw):
    return V(BOOL, View(I, I.eng.st.heap, parts(I, I.deref(g))[1]).dom[mk(agent(I, a[0]), agent(I, a[1]))])


def g_add_node(I, g, a, kw):
    I.set_add(parts(I, I.deref(g))[0], V(AG, agent(I, a[0])))


def g_add_edge(I, g, a, kw):
    g = I.deref(g)
    N, E = parts(I, g)
    u, v = agent(I, a[0]), agent(I, a[1])
    k = V(EK, mk(u, v))
    kw = dict(kw)
    more = kw.pop('**', None)
    I.set_add(N, V(AG, u))
    I.set_add(N, V(AG, v))
    h = I.dict_has(E, k)
    if I.eng.branch(h.t if isv(h) else h):
        d = I.dict_get(E, k)
    else:
        d = V(ATTR, I.eng.alloc())
        I.dict_init(d)
        I.dict_set(E, k, d)
        if not directed(I):
            I.dict_set(E, V(EK, mk(v, u)), d)
    d_update(I, d, [more] if more is not None else [], kw)


def drop(I, g, gone):
    """the edges with the condition are gone"""
    E = parts(I, g)[1]
    d, v, n = I.D(E)
    d2 = I.eng.fresh('dom', d.sort())
    k = z3.Const('k!dr', EK.sort())
    I.eng.assume(qall(k, d2[k] == z3.And(d[k], z3.Not(gone(k))), [d2[k]]))
    I.eng.assume(qall(k, d2[k] == z3.And(d[k], z3.Not(gone(k))), [d[k]]))
    I.dict_put(E, d2, v, I.eng.fresh('n', z3.IntSort()))


def g_remove_edge(I, g, a, kw):
    g = I.deref(g)
    E = parts(I, g)[1]
    u, v = agent(I, a[0]), agent(I, a[1])
    h = I.dict_has(E, V(EK, mk(u, v)))
    if not I.eng.branch(h.t if isv(h) else h):
        raise PyExc('NetworkXError')
    I.dict_del(E, V(EK, mk(u, v)))
    if not directed(I):
        if I.eng.branch(u != v):
            I.dict_del(E, V(EK, mk(v, u)))


def g_remove_node(I, g, a, kw):
    g = I.deref(g)
    N, E = parts(I, g)
    x = agent(I, a[0])
    if not I.eng.branch(View(I, I.eng.st.heap, N).dom[x]):
        raise PyExc('NetworkXError')
    I.set_discard(N, V(AG, x)) if hasattr(I, 'set_discard') else METHODS['Set', 'discard'](I, N, [V(AG, x)], {})
    drop(I, g, lambda k: z3.Or(F0(k) == x, F1(k) == x))


def g_clear_edges(I, g, a, kw):
    drop(I, I.deref(g), lambda k: z3.BoolVal(True))


MODELS.update({'itertools.chain': chain, 'Graph.edges': attr(g_edges), 'EdgeView.__getitem__': ev_get, 'EdgeView.__call__': ev_call, 'Graph.in_edges': node_edges(True), 'Graph.out_edges': node_edges(False),
               'Graph.has_node': g_has_node, 'Graph.has_edge': g_has_edge, 'Graph.add_node': g_add_node, 'Graph.add_edge': g_add_edge, 'Graph.remove_edge': g_remove_edge,
               'Graph.remove_node': g_remove_node, 'Graph.clear_edges': g_clear_edges})


# ---- the invariant

class Net:
    def __init__(self, c, s, old=False):
        I = c.I
        self.c, self.s, self.old = c, s, old
        self.D = s.ty.args[0].startswith('Directed')
        nm = I.named
        self.E, self.Ev = nm(s.graph.edges_.dom, 'E'), nm(s.graph.edges_.val, 'Ev')
        self.N = nm(s.graph.nodes_.dom, 'N')
        self.gh, self.ghv = nm(s.ghosted_edges.dom, 'gh'), nm(s.ghosted_edges.val, 'ghv')
        self.nw, self.nwv = nm(s.new_edges.dom, 'nw'), nm(s.new_edges.val, 'nwv')
        self.rm, self.rmv = nm(s.edges_to_remove.dom, 'rm'), nm(s.edges_to_remove.val, 'rmv')
        self.up = nm(s.edges_to_update.dom, 'up')
        if not self.D:
            self.C, self.Cv = nm(s.canonical_edge_keys.dom, 'C'), nm(s.canonical_edge_keys.val, 'Cv')
        self.lr = nm(c.arr('Agent', 'local_rank', old), 'lr')
        self.top = I.eng.alloc_top() if not old else c.oldtop

    def key(self, k):
        """the key under which the edge is in the tables"""
        return k if self.D else self.Cv[k]

    def loc(self, a):
        return self.lr[a] == self.s.rank

    def cross(self, k):
        return self.loc(F0(k)) != self.loc(F1(k))

    def entry(self, r, k):
        """the record of a shared edge"""
        c, o = self.c, self.old
        la, ga, at = [c.arr('GhostedEdge', f, o) for f in ('local_agent', 'ghost_agent', 'edge_attr')]
        l0 = self.loc(F0(k))
        return z3.And(r > 0, r <= self.top, la[r] == z3.If(l0, F0(k), F1(k)), ga[r] == z3.If(l0, F1(k), F0(k)), at[r] == self.Ev[k])

    def inv(self, tables=True):
        s, top = self.s, self.top
        k, l = z3.Const('k!n', EK.sort()), z3.Const('l!n', EK.sort())
        tabs = [s.ghosted_edges, s.new_edges]
        yield 'the tables are different objects', z3.And(*[z3.And(p.ref > 0, p.ref <= top) for p in tabs + [s.graph, s.graph.nodes_, s.graph.edges_, s.edges_to_update, s.edges_to_remove, s.ghosts_to_ref]],
                                                         s.ghosted_edges.ref != s.new_edges.ref, s.graph.nodes_.ref != 0)
        E, Ev = self.E, self.Ev
        yield 'the ends of an edge are nodes', qall(k, z3.Implies(E[k], z3.And(self.N[F0(k)], self.N[F1(k)], F0(k) > 0, F0(k) <= top, F1(k) > 0, F1(k) <= top, Ev[k] > 0, Ev[k] <= top)), [E[k]])
        if self.D:
            yield 'each edge has its own attributes', qall([k, l], z3.Implies(z3.And(E[k], E[l], Ev[k] == Ev[l]), k == l), [z3.MultiPattern(Ev[k], Ev[l])])
        else:
            yield 'an undirected edge goes both ways', qall(k, z3.And(E[k] == E[swap(k)], z3.Implies(E[k], Ev[k] == Ev[swap(k)])), [E[k]])
            yield 'each edge has its own attributes', qall([k, l], z3.Implies(z3.And(E[k], E[l], Ev[k] == Ev[l]), z3.Or(k == l, k == swap(l))), [z3.MultiPattern(Ev[k], Ev[l])])
            yield 'exactly the edges have a key', qall(k, self.C[k] == E[k], [self.C[k]])
            yield 'exactly the edges have a key', qall(k, self.C[k] == E[k], [E[k]])
            yield 'the key is the edge in one of its directions, the same for both', qall(k, z3.Implies(self.C[k], z3.And(z3.Or(self.Cv[k] == k, self.Cv[k] == swap(k)), self.Cv[swap(k)] == self.Cv[k])), [self.Cv[k]])
        yield 'a shared edge is an edge between a local agent and a ghost, under its key', qall(k, z3.Implies(self.gh[k], z3.And(E[k], self.key(k) == k, self.cross(k), self.entry(self.ghv[k], k))), [self.gh[k]])
        yield 'so is a new one, and it is not shared yet', qall(k, z3.Implies(self.nw[k], z3.And(E[k], self.key(k) == k, self.cross(k), z3.Not(self.gh[k]), self.entry(self.nwv[k], k))), [self.nw[k]])
        yield 'every edge between a local agent and a ghost is shared or new', qall(k, z3.Implies(z3.And(E[k], self.cross(k)), z3.Or(self.gh[self.key(k)], self.nw[self.key(k)])), [E[k]])
        yield 'an updated edge is shared or new', qall(k, z3.Implies(self.up[k], z3.Or(self.gh[k], self.nw[k])), [self.up[k]])
        yield 'a removed edge was one between a local agent and a ghost and is not shared', qall(k, z3.Implies(self.rm[k], z3.And(
            self.cross(k), F0(k) > 0, F1(k) > 0, self.rmv[k] == z3.If(self.loc(F0(k)), 1, 0), z3.Not(self.gh[k]), True if self.D else z3.Not(self.gh[swap(k)]))), [self.rm[k]])


def net(c, old=False):
    s = c.oself if old else c.self
    return Net(c, s, old)


def setup(D):
    def f(I, args):
        I.eng.st.ghost['directed'] = D
    return f


def other_tables(n, o, names):
    for t in names:
        yield 'nothing else changes (%s)' % t, z3.And(getattr(n, t) == getattr(o, t), getattr(n, t + 'v') == getattr(o, t + 'v') if hasattr(n, t + 'v') else True)


def unit(D, name, args, code, ensures, requires=None, **kw):
    cls = ('D' if D else 'Und') + 'irectedSharedNetwork'
    cls = 'DirectedSharedNetwork' if D else 'UndirectedSharedNetwork'
    q = 'network.%s_%s' % ('DIRECTED' if D else 'UNDIRECTED', name)

    def req(c):
        yield from net(c).inv()
        if requires:
            yield from requires(c)
    a = dict({'self': REF(cls)}, **args)
    CONTRACTS[q] = Contract(q, args=a, setup=setup(D), requires=req, ensures=ensures, apply=False, code='def lemma(%s):\n    %s\n' % (', '.join(a), code), **kw)
    UNITS.append(q)


def ends(c):
    u, v = c.arg('u_agent').ref, c.arg('v_agent').ref
    return u, v, mk(u, v)


def is_edge(D, x, k):
    """x is that edge (in either direction, of an undirected network)"""
    return x == k if D else z3.Or(x == k, x == swap(k))


def attrs(c, ref, old=False):
    a = c.view(ATTR, ref, old)
    return a.dom, a.val


def upd_attr(c, ref, oref, had, kw):
    """the attributes are those there were, with the new ones over them"""
    d, v = attrs(c, ref)
    d0, v0 = attrs(c, oref, True)
    s = z3.String('s!at')
    return qall(s, z3.And(d[s] == z3.Or(kw.dom[s], z3.And(had, d0[s])), z3.Implies(d[s], v[s] == z3.If(kw.dom[s], kw.val[s], v0[s]))), [d[s]])


def others_keep(D, c, n, o, k):
    """no other edge appears, goes or changes its attributes"""
    x = z3.Const('x!ok', EK.sort())
    dk_, vk_ = dom_arr(c), val_arr(c)
    do, vo = dom_arr(c, True), val_arr(c, True)
    yield 'no other edge appears or goes', qall(x, z3.Implies(z3.Not(is_edge(D, x, k)), z3.And(n.E[x] == o.E[x], z3.Implies(n.E[x], n.Ev[x] == o.Ev[x]))), [n.E[x]])
    yield 'no other edge changes its attributes', qall(x, z3.Implies(z3.And(z3.Not(is_edge(D, x, k)), o.E[x]), z3.And(dk_[o.Ev[x]] == do[o.Ev[x]], vk_[o.Ev[x]] == vo[o.Ev[x]])), [o.Ev[x]])


def _part(c, part, old):
    key = dk(ATTR, part)
    rng = z3.ArraySort(z3.StringSort(), z3.BoolSort() if part == 'dom' else z3.IntSort())
    a = (old if isinstance(old, dict) else c.oldheap if old else c.heap).get(key)
    if a is None:
        a = z3.Const('H_' + key, z3.ArraySort(z3.IntSort(), rng))
        Eng.heap_sorts[key] = rng
    return a


def dom_arr(c, old=False):
    return _part(c, 'dom', old)


def val_arr(c, old=False):
    return _part(c, 'val', old)


def define(D):
    UV = {'u_agent': AG, 'v_agent': AG}

    def kwok(c):
        k = c.arg('kwattr')
        x = z3.Const('k!kw', EK.sort())
        o = net(c)
        yield 'the keywords are a dictionary of the call', qall(x, z3.Implies(o.E[x], o.Ev[x] != k.ref), [o.E[x]])

    def add_post(c):
        n, o = net(c), net(c, True)
        u, v, k = ends(c)
        x = z3.Const('x!a', EK.sort())
        yield from n.inv()
        yield 'the edge is there', n.E[k]
        yield 'with its old attributes and the new ones', upd_attr(c, n.Ev[k], o.Ev[k], o.E[k], c.old('kwattr'))
        yield from others_keep(D, c, n, o, k)
        key, cr = n.key(k), n.cross(k)
        yield 'no node but the ends is added', qall(z3.Int('a!n'), n.N[z3.Int('a!n')] == z3.Or(o.N[z3.Int('a!n')], z3.Int('a!n') == u, z3.Int('a!n') == v), [n.N[z3.Int('a!n')]])
        was = z3.And(o.E[k], o.gh[o.key(k)])
        yield 'an edge the other rank has is sent as an update', z3.Implies(z3.And(cr, was), z3.And(n.up[key], n.gh[key], key == o.key(k)))
        yield 'any other edge to a ghost is sent as a new one', z3.Implies(z3.And(cr, z3.Not(was)), n.nw[key])
        yield 'nothing else is to be sent', qall(x, z3.Implies(x != key, z3.And(n.nw[x] == o.nw[x], z3.Implies(n.nw[x], n.nwv[x] == o.nwv[x]), n.up[x] == o.up[x])), [n.nw[x]])
        yield 'a local edge is not sent', z3.Implies(z3.Not(cr), z3.And(n.nw == o.nw, n.up == o.up))
        yield from other_tables(n, o, ['gh', 'rm'])
        g0, g1 = c.oself.ghosts_to_ref, c.self.ghosts_to_ref
        ghost = z3.If(n.loc(u), v, u)
        j = z3.Int('j!gr')
        newg = z3.And(cr, z3.Not(o.N[ghost]))
        yield 'a ghost that becomes a node is to be counted', z3.Implies(newg, z3.And(g1.len == g0.len + 1, g1.el[g0.len] == ghost))
        yield 'nothing else is to be counted', z3.Implies(z3.Not(newg), g1.len == g0.len)
        yield 'those to be counted stay', qall(j, z3.Implies(z3.And(0 <= j, j < g0.len), g1.el[j] == g0.el[j]), [g1.el[j]])
    unit(D, 'add_edge', dict(UV, kwattr=ATTR), 'self.add_edge(u_agent, v_agent, **kwattr)', add_post, requires=kwok)

    def upd_post(c):
        n, o = net(c), net(c, True)
        u, v, k = ends(c)
        x = z3.Const('x!a', EK.sort())
        yield from n.inv()
        yield 'the edges and nodes stay', z3.And(n.E == o.E, n.Ev == o.Ev, n.N == o.N)
        yield 'the edge has the new attributes over its old ones', upd_attr(c, n.Ev[k], o.Ev[k], z3.BoolVal(True), c.old('kwattr'))
        yield from others_keep(D, c, n, o, k)
        yield 'exactly an edge to a ghost is to be sent', z3.And(n.up == z3.If(n.cross(k), z3.Store(o.up, n.key(k), True), o.up))
        yield from other_tables(n, o, ['gh', 'nw', 'rm'])

    class Upd:
        def __call__(self, lc):
            n, o = Net(lc, lc.loc('self')), Net(lc, lc.at0(lc.loc('self')), True)
            k = mk(lc.loc('u_agent').ref, lc.loc('v_agent').ref)
            kw = lc.loc('kwattr')
            D1, V1 = dom_arr(lc), val_arr(lc)
            D0, V0 = _part(lc, 'dom', lc.h0), _part(lc, 'val', lc.h0)
            at = n.Ev[k]
            s, r = z3.String('s!up'), z3.Int('r!up')
            yield 'same objects', z3.And(n.E == o.E, n.Ev == o.Ev, kw.ref == lc.at0(kw).ref, kw.ref != at)
            yield 'attributes written so far', qall(s, z3.And(D1[at][s] == z3.Or(lc.seen[s], D0[at][s]), z3.Implies(D1[at][s], V1[at][s] == z3.If(lc.seen[s], V0[kw.ref][s], V0[at][s]))), [D1[at][s]])
            yield 'no other dictionary', qall(r, z3.Implies(r != at, z3.And(D1[r] == D0[r], V1[r] == V0[r])), [D1[r]])
    LOOPS[('network.SharedNetwork.update_edge', 0)] = Upd()
    unit(D, 'update_edge', dict(UV, kwattr=ATTR), 'self.update_edge(u_agent, v_agent, **kwattr)', upd_post,
         requires=lambda c: list(kwok(c)) + [('the edge is there', net(c).E[ends(c)[2]])])

    def rem_post(c):
        n, o = net(c), net(c, True)
        u, v, k = ends(c)
        x = z3.Const('x!a', EK.sort())
        ok, cr = o.key(k), o.cross(k)
        yield from n.inv()
        yield 'the edge is gone', z3.Not(n.E[k])
        yield 'the nodes stay', n.N == o.N
        yield from others_keep(D, c, n, o, k)
        yield 'an edge the other rank has is to be removed there', z3.Implies(o.gh[ok], n.rm[ok])
        yield 'nothing else is', qall(x, z3.Implies(z3.Not(z3.And(x == ok, o.gh[ok])), z3.And(n.rm[x] == o.rm[x], n.rmv[x] == o.rmv[x])), [n.rm[x]])
        yield 'the edge is in no other table and the other edges stay in theirs', z3.And(n.gh == z3.Store(o.gh, ok, False), n.nw == z3.Store(o.nw, ok, False), n.up == z3.Store(o.up, ok, False), n.ghv == o.ghv, n.nwv == o.nwv)
    unit(D, 'remove_edge', UV, 'self.remove_edge(u_agent, v_agent)', rem_post, raises={'NetworkXError': lambda c: z3.Not(net(c, True).E[ends(c)[2]])})

    # ---- removal of agents and of all edges
    def passed(lc, L, x):
        pos = lc.ghost['pos']
        one = lambda y: z3.And(0 <= pos[y], pos[y] < lc.i, L.el[pos[y]] == y)
        return one(x) if D else z3.Or(one(x), one(swap(x)))

    def emptied(c, gone, keep_rm=True):
        """the entries of the edges with the condition are gone from the tables, all others stay"""
        n, o = net(c), net(c, True)
        x = z3.Const('x!em', EK.sort())
        for t in ('gh', 'nw', 'up') + (('C',) if not D else ()):
            a, b = getattr(n, t), getattr(o, t)
            yield 'exactly these are dropped (%s)' % t, qall(x, a[x] == z3.And(b[x], z3.Not(gone(x))), [a[x]])
        yield 'the others stay as they are', z3.And(n.ghv == o.ghv, n.nwv == o.nwv, n.Ev == o.Ev)
        yield 'exactly these edges are dropped', qall(x, n.E[x] == z3.And(o.E[x], z3.Not(gone(x))), [n.E[x]])

    def rm_post(c):
        n, o = net(c), net(c, True)
        a = c.arg('agent').ref
        x = z3.Const('x!rm', EK.sort())
        inc = lambda k: z3.Or(F0(k) == a, F1(k) == a)
        yield 'the agent is no node any more', n.N == z3.Store(o.N, a, False)
        yield from emptied(c, inc)
        yield 'none of its edges is to be removed elsewhere', qall(x, n.rm[x] == z3.And(o.rm[x], z3.Not(inc(x))), [n.rm[x]])
        yield 'the others still are', n.rmv == o.rmv
        yield from n.inv()
    unit(D, 'remove', {'agent': AG}, 'self.remove(agent)', rm_post, raises={'NetworkXError': lambda c: z3.Not(net(c, True).N[c.arg('agent').ref])})

    def clear_post(c):
        n, o = net(c), net(c, True)
        x = z3.Const('x!cl', EK.sort())
        yield 'no edge is left, the nodes stay', z3.And(qall(x, z3.Not(n.E[x]), [n.E[x]]), n.N == o.N)
        yield 'the edges the other ranks have are to be removed there', qall(x, n.rm[x] == z3.Or(o.rm[x], o.gh[x]), [n.rm[x]])
        yield from emptied(c, lambda k: z3.BoolVal(True))
        yield from n.inv()
    unit(D, 'clear_edges', {}, 'self.clear_edges()', clear_post)

    # ---- queries
    def same(c):
        n, o = net(c), net(c, True)
        yield 'nothing changes', z3.And(n.E == o.E, n.Ev == o.Ev, n.N == o.N, n.gh == o.gh, n.nw == o.nw, n.rm == o.rm, n.up == o.up)

    def ce_post(c):
        n = net(c)
        yield 'whether it is an edge', c.I.lift(c.result, BOOL) == n.E[ends(c)[2]]
        yield from same(c)
    unit(D, 'contains_edge', UV, 'return self.contains_edge(u_agent, v_agent)', ce_post)

    def an_post(c):
        n, o = net(c), net(c, True)
        yield from n.inv()
        yield 'the agent is a node', n.N == z3.Store(o.N, c.arg('agent').ref, True)
        yield 'the edges stay', z3.And(n.E == o.E, n.Ev == o.Ev, n.gh == o.gh, n.nw == o.nw, n.rm == o.rm, n.up == o.up)
    unit(D, 'add', {'agent': AG}, 'self.add(agent)', an_post)

    def he_post(c):
        n = net(c)
        x = z3.Const('x!he', EK.sort())
        a = c.arg('agent').ref
        yield 'no edge of the agent if the answer is no', z3.Implies(z3.Not(c.I.lift(c.result, BOOL)), qall(x, z3.Implies(n.E[x], z3.And(F0(x) != a, F1(x) != a)), [n.E[x]]))
        yield 'an edge of the agent if it is yes', z3.Implies(c.I.lift(c.result, BOOL), z3.Not(qall(x, z3.Implies(n.E[x], z3.And(F0(x) != a, F1(x) != a)), [n.E[x]])))
        yield from same(c)
    unit(D, '_has_edge', {'agent': AG}, 'return self._has_edge(agent)', he_post)


class Forget:
    """the loops that forget the edges of a list: exactly those passed are gone from the tables"""
    def __init__(self, which):
        self.which = which

    def __call__(self, lc):
        s = lc.loc('self')
        n, o = Net(lc, s), Net0(lc, s)
        pos = lc.ghost['pos']
        L = lc.it
        one = lambda y: z3.And(0 <= pos[y], pos[y] < lc.i, L.el[pos[y]] == y)
        passed = (lambda x: one(x)) if n.D else (lambda x: z3.Or(one(x), one(swap(x))))
        x = z3.Const('x!fg', EK.sort())
        for t in ('gh', 'nw', 'up') + (('C',) if not n.D else ()):
            a, b = getattr(n, t), getattr(o, t)
            yield 'exactly those passed are gone (%s)' % t, qall(x, a[x] == z3.And(b[x], z3.Not(passed(x))), [a[x]])
        yield 'the others stay as they are', z3.And(n.ghv == o.ghv, n.nwv == o.nwv)
        if not n.D:
            yield 'keys stay', qall(x, z3.Implies(n.C[x], n.Cv[x] == o.Cv[x]), [n.Cv[x]])
        yield 'same', z3.And(n.E == o.E, n.Ev == o.Ev, n.N == o.N, n.rm == o.rm, n.rmv == o.rmv)


def Net0(lc, s):
    """the network when the loop began"""
    c = Ctx(lc.I, lc.h0, lc.h0, {})
    v = View(lc.I, lc.h0, V(s.ty, s.ref))
    return Net(c, v)


LOOPS[('network.SharedNetwork.remove', 0)] = Forget('remove')
LOOPS[('network.SharedNetwork.clear_edges', 1)] = Forget('clear')


def marks(lc):
    s = lc.loc('self')
    n, o = Net(lc, s), Net0(lc, s)
    x = z3.Const('x!mk', EK.sort())
    yield 'those seen are to be removed elsewhere', qall(x, z3.And(n.rm[x] == z3.Or(o.rm[x], lc.seen[x]), z3.Implies(n.rm[x], n.rmv[x] == z3.If(lc.seen[x], z3.If(n.loc(F0(x)), 1, 0), o.rmv[x]))), [n.rm[x]])
    yield 'same', z3.And(n.gh == o.gh, n.E == o.E)


LOOPS[('network.SharedNetwork.clear_edges', 0)] = marks


def unmark(lc):
    s = lc.loc('self')
    n, o = Net(lc, s), Net0(lc, s)
    L = lc.it
    x = z3.Const('x!um', EK.sort())
    yield 'those passed are not to be removed any more', qall(x, n.rm[x] == z3.And(o.rm[x], z3.Not(z3.And(L.mem[x], L.ix[x] < lc.i))), [n.rm[x]])
    yield 'the values stay', n.rmv == o.rmv


LOOPS[('network.SharedNetwork.remove', 1)] = unmark

define(True)
define(False)
