"""N02 network files: what write_network writes and what read_network makes of it. Under mpirun a case uses the first n ranks."""
import json, os, re, shutil, tempfile, warnings
import common
from common import Spec, Fail, check
from mpi4py import MPI
import networkx as nx
import numpy as np
from topo_mpi import sub, both, guard
from repast4py import core, context, random as R
from repast4py import network as N


class Node(core.Agent):
    def __init__(self, nid, t, rank, attrs):
        super().__init__(nid, t, rank)
        self.attrs = attrs

    def save(self):
        return (self.uid, self.attrs)

    def update(self, attrs):
        self.attrs = attrs


def make(nid, t, rank, **attrs):
    return Node(nid, t, rank, attrs)


def restore(data):
    return Node(*data[0], data[1])


def key(directed, u, v):
    return (u, v) if directed or u <= v else (v, u)


def graph_of(case):
    g = nx.DiGraph() if case['directed'] else nx.Graph()
    for nid, t, attrs in case['nodes']:
        g.add_node(nid, **(attrs if t is None else dict(attrs, agent_type=t)))
    for u, v, attrs in case['edges']:
        g.add_edge(u, v, **attrs)
    return g


def written(case, path):
    """the file against the graph; node id -> rank"""
    lines = open(path).read().split('\n')
    check(lines[-1] == '', 'N02: the file does not end with a new line')
    lines.pop()
    check(lines[0] == 'net %d' % case['directed'], 'N02: the first line is %r', lines[0])
    check(lines.count('EDGES') == 1, 'N02: %d EDGES lines', lines.count('EDGES'))
    cut = lines.index('EDGES')
    want = {nid: (0 if t is None else t, attrs) for nid, t, attrs in case['nodes']}
    ranks = {}
    for l in lines[1:cut]:
        f = l.split(' ', 3)
        nid = int(f[0])
        check(nid in want and nid not in ranks, 'N02: node line %r', l)
        check((int(f[1]), json.loads(f[3]) if len(f) > 3 else {}) == want[nid], 'N02: node line %r for a node of type and attributes %s', l, want[nid])
        ranks[nid] = int(f[2])
    check(set(ranks) == set(want), 'N02: nodes %s are not in the file', set(want) - set(ranks))
    want = {key(case['directed'], u, v): a for u, v, a in case['edges']}
    seen = set()
    for l in lines[cut + 1:]:
        f = l.split(' ', 2)
        k = key(case['directed'], int(f[0]), int(f[1]))
        check(k in want and k not in seen, 'N02: edge line %r', l)
        seen.add(k)
        check((json.loads(f[2]) if len(f) > 2 else {}) == want[k], 'N02: edge line %r for an edge with attributes %s', l, want[k])
    check(seen == set(want), 'N02: edges %s are not in the file', set(want) - seen)
    return ranks


def read_check(case, comm, path, ranks):
    ctx = context.SharedContext(comm)
    N.read_network(path, ctx, make, restore)
    g = ctx.get_projection('net')
    me = comm.rank
    d = case['directed']
    if comm.size == 1:
        home = {n: 0 for n in ranks}
    else:
        home = ranks
    want = {nid: ((nid, 0 if t is None else t, ranks[nid]), attrs) for nid, t, attrs in case['nodes']}

    def f():
        check(g.is_directed == bool(d), 'N02: the network is %sdirected', '' if g.is_directed else 'un')
        loc = {a.uid: a.attrs for a in ctx.agents()}
        w = {want[n][0]: want[n][1] for n in want if home[n] == me}
        check(loc == w, 'N02: rank %d has the agents %s, expected %s', me, loc, w)
        es = {key(d, u, v): a for u, v, a in case['edges'] if me in (home[u], home[v])}
        got = {}
        for u, v, a in g.graph.edges(data=True):
            k = key(d, u.uid[0], v.uid[0])
            check(k not in got, 'N02: rank %d has the edge %s twice', me, k)
            got[k] = dict(a)
            for x in (u, v):
                check(x.uid == want[x.uid[0]][0] and x.attrs == want[x.uid[0]][1], 'N02: rank %d has node %s with %s', me, x.uid, x.attrs)
                if home[x.uid[0]] == me:
                    check(x is ctx.agent(x.uid), 'N02: an edge of rank %d does not use its agent %s', me, x.uid)
                else:
                    check(x is ctx.ghost_agent(x.uid) and x.local_rank == home[x.uid[0]], 'N02: an edge of rank %d does not use the ghost of %s', me, x.uid)
        check(got == es, 'N02: rank %d has the edges %s, expected %s', me, got, es)
        nodes = {x.uid[0] for x in g.graph.nodes}
        wn = {n for n in want if home[n] == me} | {x for e in es for x in e}
        check(nodes == wn, 'N02: rank %d has the nodes %s, expected %s', me, nodes, wn)
    both(comm, f)


def run_n02(case):
    comm = sub(case['n'])
    if comm == MPI.COMM_NULL:
        return
    tmp = comm.bcast(tempfile.mkdtemp(prefix='vpnet') if comm.rank == 0 else None, 0)
    path = os.path.join(tmp, 'net.txt')
    try:
        ranks = {}
        if case['mode'] == 'write':
            def w():
                if comm.rank:
                    return
                g = graph_of(case)
                before = json.dumps([list(g.nodes(data=True)), list(g.edges(data=True))])
                R.init(case['seed'])
                kw = {}
                if case['rng'] == 1:
                    kw = {'partition_method': 'random', 'rng': 'default'}
                elif case['rng'] == 2:
                    kw = {'rng': np.random.default_rng(case['seed'])}
                N.write_network(g, 'net', path, case['parts'], **kw)
                check(before == json.dumps([list(g.nodes(data=True)), list(g.edges(data=True))]), 'N02: writing changed the graph')
                ranks.update(written(case, path))
                c = [list(ranks.values()).count(r) for r in range(case['parts'])]
                check(sum(c) == len(ranks), 'N02: ranks outside 0..%d: %s', case['parts'] - 1, ranks)
                check(max(c) <= -(-len(ranks) // case['parts']), 'N02: %d nodes over %d ranks as %s', len(ranks), case['parts'], c)
            both(comm, w)
        elif comm.rank == 0:
            ranks = {n[0]: r for n, r in zip(case['nodes'], case['ranks'])}
            with open(path, 'w') as f:
                f.write('net %d\n' % case['directed'])
                for (nid, t, a), r in zip(case['nodes'], case['ranks']):
                    f.write('%d %d %d%s\n' % (nid, t or 0, r, ' ' + json.dumps(a, ensure_ascii=case['ascii']) if a or case['empty'] else ''))
                f.write('EDGES\n')
                for u, v, a in case['edges']:
                    f.write('%d %d%s\n' % (u, v, ' ' + json.dumps(a) if a or case['empty'] else ''))
                for l in case.get('bad', []):
                    f.write(l + '\n')
        ranks = comm.bcast(ranks, 0)
        if case.get('bad') or case.get('badnode'):
            def b():
                if case.get('badnode'):
                    s = open(path).read().replace('EDGES', case['badnode'] + '\nEDGES')
                    open(path, 'w').write(s)
                try:
                    N.read_network(path, context.SharedContext(comm), make, restore)
                except ValueError:
                    return
                check(False, 'N02: the line %r is accepted', case.get('badnode') or case['bad'][0])
            b()
            return
        read_check(case, comm, path, ranks)
    except Fail:
        comm.Barrier()
        raise
    else:
        comm.Barrier()
    finally:
        if comm.rank == 0:
            shutil.rmtree(tmp, ignore_errors=True)


VALS = [0, 1, -3, 0.5, 1e300, True, None, '', 'a', 'two words', 'q"uote', "it's", 'brace } and {', '{', '}', '{}', 'é☃', 'back\\slash', 'tab\tnl\n', [], [1, 2], {}, {'x': 1}, {'y': {'z': []}}, [{'a': 'b c'}, {}]]


def attrs(rng):
    return {rng.choice(['w', 'age', 'x_y', 'k1']): rng.choice(VALS) for _ in range(rng.choice([0, 0, 1, 1, 2, 3]))}


BADNODE = ['1 0', 'x 0 0', '900 a 0', '900 0 b', '900 0 0 {"a": 1} 5', '900 0 0 {"a": }', '900 0 0 [1]', '', '900 0 0 1']
BADEDGE = ['0', '0 x', '0 0 {"a": 1} 3', '0 0 {"a"}', '0 99999', '99999 0', '99998 99999', '', '0 0 [1]']


def gen(nprocs):
    def g(rng, i):
        n = rng.randrange(1, nprocs + 1)
        k = rng.choice([0, 1, 2, 3, 5, 8, 13])
        ids = rng.sample(range(0, 60), k)
        rng.shuffle(ids)
        directed = rng.random() < 0.5
        nodes = [[x, rng.choice([None, 0, 1, 3]), attrs(rng)] for x in ids]
        edges, seen = [], set()
        for _ in range(rng.choice([0, 1, k, 2 * k]) if k else 0):
            u, v = rng.choice(ids), rng.choice(ids)
            kk = key(directed, u, v)
            if u == v or kk in seen:
                continue
            seen.add(kk)
            edges.append([u, v, attrs(rng)])
        case = {'n': n, 'directed': int(directed), 'nodes': nodes, 'edges': edges}
        m = rng.random()
        if m < 0.6:
            case.update(mode='write', parts=n if n > 1 else rng.randrange(1, 6), rng=rng.randrange(3), seed=rng.randrange(1000))
        else:
            case.update(mode='hand', ranks=[rng.randrange(n) for _ in ids], ascii=rng.random() < 0.7, empty=rng.random() < 0.3)
            if n == 1 and m > 0.9:
                if not any(x[0] == 0 for x in nodes):
                    nodes.append([0, 1, {}])
                    case['ranks'].append(0)
                if rng.random() < 0.5:
                    case['badnode'] = rng.choice(BADNODE)
                else:
                    case['bad'] = [rng.choice(BADEDGE)]
        return case
    return g


NP = int(os.environ.get('OMPI_COMM_WORLD_SIZE', '1'))
SMALL = {'n': 1, 'directed': 0, 'mode': 'hand', 'nodes': [[0, 0, {}], [1, 1, {}]], 'edges': [], 'ranks': [0, 0], 'ascii': True, 'empty': False}
FIXED = [dict(SMALL, badnode=b) for b in BADNODE] + [dict(SMALL, bad=[b]) for b in BADEDGE]
FIXED += [dict(SMALL, nodes=[[0, 0, {'a': v}], [1, 1, {'b': v, 'a': 1}]], edges=[[0, 1, {'w': v}]]) for v in VALS]
FIXED += [dict(SMALL, edges=[[0, 1, {}]], empty=True)]
PROPS = {'N02': Spec(gen(NP), guard('N02', run_n02), fixed=FIXED, mpi=True, cases=400, thorough=6000)}
if __name__ == '__main__':
    warnings.simplefilter('ignore')
    common.main(PROPS)
