"""G01 borders, G02 placement/occupancy, G03 single occupancy, G07 box queries, G08 neighbourhoods, I01 identities.
One process; shared spaces are made on COMM_SELF."""
import itertools
import math
from fractions import Fraction
import common
from common import Spec, Fail, check
from mpi4py import MPI
import numpy as np
from repast4py import core, space
from repast4py import geometry as geo
from repast4py.geometry import BoundingBox
from repast4py.space import DiscretePoint as DP, ContinuousPoint as CP, BorderType, OccupancyType

comm = MPI.COMM_SELF


def box_of(case):
    b = []
    for i in range(3):
        b += [case['min'][i], case['ext'][i]] if i < case['dims'] else [case['min'][i] if case.get('zmin') else 0, 0]
    return BoundingBox(*b)


def expect(case, p, disc):
    """the location p is mapped to: per dimension a set of admissible values as a predicate"""
    box = box_of(case)
    mins, exts = (box.xmin, box.ymin, box.zmin), (box.xextent, box.yextent, box.zextent)
    out = []
    for i in range(3):
        mn, ex = mins[i], exts[i]
        mx = mn + ex
        v = p[i]
        if ex == 0:
            out.append(lambda r, mn=mn: r == mn)
        elif case['periodic']:
            if mn <= v < mx:
                out.append(lambda r, v=v: r == v)
            elif disc:
                out.append(lambda r, w=mn + (v - mn) % ex: r == w)
            else:
                w = Fraction(mn) + (Fraction(v) - mn) % ex
                tol = Fraction(max(abs(v), abs(mn), abs(mx)) * 2e-15)

                def ok(r, w=w, tol=tol, mn=mn, mx=mx, ex=ex):
                    d = abs(Fraction(r) - w)
                    return mn <= r < mx and min(d, ex - d) <= tol
                out.append(ok)
        else:
            if disc:
                out.append(lambda r, w=max(mn, min(mx - 1, v)): r == w)
            else:
                top = mx - 1e-8 if mx - 1e-8 < mx else math.nextafter(mx, -math.inf)
                if v < mn:
                    out.append(lambda r, mn=mn: r == mn)
                elif v <= top:
                    out.append(lambda r, v=v: r == v)
                else:
                    out.append(lambda r, mn=mn, mx=mx, top=top: mn <= r < mx and r >= top)
    return out


def matches(case, p, got, disc, tag):
    e = expect(case, p, disc)
    for i in range(3):
        check(e[i](got[i]), '%s: point %s goes to %s (dimension %d) with %s borders %s', tag, tuple(p), tuple(got), i,
              'periodic' if case['periodic'] else 'sticky', box_of(case))


# ---------------------------------------------------------------- G01
def run_g01(case):
    box = box_of(case)
    disc = case['disc']
    bt = BorderType.Periodic if case['periodic'] else BorderType.Sticky
    if disc:
        b = (space.GridPeriodicBorders if case['periodic'] else space.GridStickyBorders)(box)
        g = space.Grid('g', box, bt, OccupancyType.Multiple)
        a = core.Agent(1, 0, 0)
        g.add(a)
        r = DP(0, 0, 0)
        for p in case['pts']:
            q = DP(*p)
            b._transform(q, r)
            got = tuple(int(x) for x in r.coordinates)
            matches(case, p, got, True, 'G01')
            check((q.x, q.y, q.z) == tuple(p), 'G01: the given point was changed')
            m = g.move(a, DP(*p))
            check((m.x, m.y, m.z) == got, 'G01: a grid moves to %s, its borders give %s', m, got)
            b._transform(r, r)
            check(tuple(int(x) for x in r.coordinates) == got, 'G01: a point inside is changed')
    else:
        s = space.ContinuousSpace('s', box, bt, OccupancyType.Multiple, 4)
        a = core.Agent(1, 0, 0)
        s.add(a)
        for p in case['pts']:
            m = s.move(a, CP(*[float(x) for x in p]))
            got = (m.x, m.y, m.z)
            matches(case, [float(x) for x in p], got, False, 'G01')
            m = s.move(a, CP(*got))
            check((m.x, m.y, m.z) == got, 'G01: a point inside is changed')


def gen_box(rng, big=False):
    d = rng.choice([1, 2, 2, 3, 3])
    sz = lambda: rng.choice([1, 2, 3, 5, 7, 10, 17, rng.randint(1, 40)] + ([rng.randint(1, 10**9), 10**12] if big else []))
    mn = lambda: rng.choice([0, 0, -1, 1, -7, 5, rng.randint(-50, 50)] + ([rng.randint(-10**9, 10**9), 2**27] if big else []))
    return {'dims': d, 'ext': [sz() for _ in range(3)], 'min': [mn() for _ in range(3)]}


def gen_g01(rng, i):
    c = gen_box(rng, True)
    c['periodic'] = rng.random() < 0.5
    c['disc'] = rng.random() < 0.5
    pts = []
    for _ in range(12):
        p = []
        for k in range(3):
            mn, ex = c['min'][k], c['ext'][k]
            v = rng.choice([mn, mn - 1, mn + ex, mn + ex - 1, mn + ex + 1, mn - ex, mn - ex - 1, mn + 2 * ex, mn - 5 * ex, mn + 7 * ex + 1,
                            rng.randint(mn - 3 * ex - 5, mn + 4 * ex + 5), rng.randint(mn, mn + ex - 1), 0])
            if not c['disc']:
                v = float(v)
                w = rng.random()
                v = v + rng.choice([0, 0.5, 0.25, 1e-9, -1e-9, 1e-8, -1e-8, rng.random()]) if w < 0.6 else math.nextafter(v, -math.inf if w < 0.8 else math.inf)
                if w > 0.9:
                    v = rng.choice([-1e-17, -1e-300, -0.0, mn - 1e-17])
            p.append(v)
        pts.append(p)
    c['pts'] = pts
    return c


# ---------------------------------------------------------------- G02, G03, G07
class W:
    def __init__(self, case):
        self.case = case
        box = box_of(case)
        self.box = box
        bt = BorderType.Periodic if case['periodic'] else BorderType.Sticky
        oc = OccupancyType.Single if case['single'] else OccupancyType.Multiple
        self.disc = case['kind'] == 'grid'
        if case['kind'] == 'grid':
            self.s = space.SharedGrid('s', box, bt, oc, 1, comm) if case['shared'] else space.Grid('s', box, bt, oc)
        else:
            self.s = space.SharedCSpace('s', box, bt, oc, 1, comm, case['thr']) if case['shared'] else space.ContinuousSpace('s', box, bt, oc, case['thr'])
        self.P = DP if self.disc else CP
        ids = [(0, 0, 0), (0, 0, 1), (0, 1, 0), (1, 0, 0), (1, 1, 0), (2, 0, 0), (0, 2, 1), (3, 0, 0), (4, 0, 0), (5, 0, 0), (6, 0, 0), (7, 1, 1)]
        self.ag = [core.Agent(*u) for u in ids]
        self.loc = {}        # index of each agent in the space -> location or None
        self.seen = set()
        self.tag = '?'

    def at(self, l, but=None):
        return [k for k, v in self.loc.items() if v == l and k != but]

    def move(self, k, p, f):
        a = self.ag[k]
        if k not in self.loc:
            try:
                f(a, self.P(*p))
            except Exception as ex:
                if type(ex).__name__ not in ('RuntimeError', 'ValueError'):
                    raise
                return
            raise Fail('%s: an agent that is not in the space was moved' % self.tag)
        before = self.loc[k]
        arg = self.P(*p)
        m = f(a, arg)
        if m is None:
            # refused: allowed only when the target is taken by another agent
            check(self.case['single'], '%s: a multiple occupancy space refused a move to %s', self.tag, p)
            tgt = [l for l in set(self.loc.values()) if l is not None and all(e(x) for e, x in zip(expect(self.case, p, self.disc), l))]
            check(any(self.at(t, k) for t in tgt), '%s: the move of an agent to the free location %s was refused', self.tag, p)
            return
        got = (m.x, m.y, m.z)
        matches(self.case, p, got, self.disc, self.tag)
        if self.case['single']:
            check(not self.at(got, k), '%s: agent %s moved onto %s at %s', self.tag, a.uid, [self.ag[j].uid for j in self.at(got, k)], got)
        self.loc[k] = got
        self.seen.add(got)

    def op(self, op):
        t, k = op[0], op[1] % len(self.ag)
        s = self.s
        if t == 'add':
            s.add(self.ag[k])
            if k not in self.loc:
                self.loc[k] = None
        elif t == 'rm':
            s.remove(self.ag[k])
            self.loc.pop(k, None)
        elif t == 'mv':
            self.move(k, op[2], s.move)
        elif t == 'to':                  # onto the location of another agent
            j = sorted(self.loc)
            j = j[op[2] % len(j)] if j else None
            if j is not None and self.loc[j] is not None:
                self.move(k, self.loc[j], s.move)
        elif t == 'near':                # a hair away from the location of an agent, possibly its own
            j = sorted(x for x in self.loc if self.loc[x] is not None)
            if k in self.loc and self.loc[k] is not None and op[2] % 2:
                j = [k]
            j = j[op[2] % len(j)] if j else None
            if j is not None:
                q, d = list(self.loc[j]), op[3] % self.case['dims']
                q[d] = math.nextafter(q[d], math.inf if op[4] > 0 else -math.inf) if abs(op[4]) == 1 else q[d] + op[4]
                self.move(k, q, s.move)
        elif t == 'oob' and self.case['shared']:
            self.move(k, op[2], lambda a, p: s.move(a, p))
        elif t == 'alias':               # the point handed in is the agent's own location object
            if k in self.loc and self.loc[k] is not None:
                q = s.get_location(self.ag[k])
                m = s.move(self.ag[k], q)
                check((m.x, m.y, m.z) == self.loc[k], '%s: a move to its own location took the agent elsewhere', self.tag)

    def verify(self, op):
        T, s = self.tag, self.s
        for k, a in enumerate(self.ag):
            l = s.get_location(a)
            want = self.loc.get(k)
            check((l is None) == (want is None), '%s: after %s agent %s is at %s, expected %s', T, op, a.uid, l, want)
            if l is not None:
                check((l.x, l.y, l.z) == want, '%s: after %s agent %s is at %s, expected %s', T, op, a.uid, l, want)
            inn = s.contains(a) if not hasattr(s, '__contains__') else (a in s)
            check(inn == (k in self.loc), '%s: after %s containment of agent %s is %s', T, op, a.uid, inn)
        for l in self.seen:
            here = sorted(self.ag[k].uid for k in self.at(l))
            got = sorted(x.uid for x in s.get_agents(self.P(*l)))
            check(got == here, '%s: after %s the agents at %s are %s, expected %s', T, op, l, got, here)
            check(all(any(x is self.ag[k] for k in self.at(l)) for x in s.get_agents(self.P(*l))), '%s: another object at %s', T, l)
            g = s.get_agent(self.P(*l))
            check((g is None) == (not here) and (g is None or g.uid in here), '%s: after %s get_agent(%s) is %s with %s there', T, op, l, g and g.uid, here)
            if self.case['shared']:
                n = s.get_num_agents(self.P(*l))
                check(n == len(here), '%s: after %s get_num_agents(%s) is %d, with %d there', T, op, l, n, len(here))
                for ty in (0, 1, 2):
                    n = s.get_num_agents(self.P(*l), ty)
                    check(n == sum(u[1] == ty for u in here), '%s: after %s get_num_agents(%s, %d) is %d', T, op, l, ty, n)
        check(len(list(s.get_agents(self.P(self.box.xmin - 77, 0, 0)))) == 0, '%s: agents outside the bounds', T)

    def query(self, b):
        # b: (lo, ext) per dimension
        v = []
        for i in range(3):
            v += [b[i][0], b[i][1]] if i < self.case['dims'] else [0, 0]
        q = BoundingBox(*v)
        got = [x.uid for x in self.s.get_agents_within(q)]
        want = sorted(self.ag[k].uid for k, l in self.loc.items() if l is not None
                      and all(b[i][0] <= l[i] < b[i][0] + b[i][1] for i in range(self.case['dims'])))
        check(len(set(got)) == len(got), 'G07: agents %s are returned more than once by %s', [u for u in got if got.count(u) > 1], q)
        check(sorted(got) == want, 'G07: the agents within %s are %s, expected %s', q, sorted(got), want)


def runner(tag):
    def run(case):
        w = W(case)
        w.tag = tag
        for op in case['ops']:
            if op[0] == 'q':
                w.query(op[1])
                continue
            w.op(op)
            if tag != 'G07':
                w.verify(op)
        if tag == 'G07':
            d = w.case['dims']
            for b in case['boxes']:
                w.query(b)
            w.verify('the last operation')
    return run


def gen_pt(rng, c, disc):
    p = []
    for i in range(3):
        mn, ex = (c['min'][i], c['ext'][i]) if i < c['dims'] else (0, 1)
        v = rng.randint(mn, mn + ex - 1) if rng.random() < 0.8 or not c.get('out', True) else rng.randint(mn - ex - 1, mn + 2 * ex)
        if rng.random() < 0.15:
            v = rng.choice([mn, mn + ex - 1, mn + ex, mn - 1])
        if not disc and i < c['dims'] and rng.random() < 0.4:
            v += rng.choice([0.5, 0.25, 0.125, -0.0625, 0.75, 0.1, 1e-3, 1e-10, -1e-10])
        p.append(v if disc else float(v))
    return p if c['dims'] == 3 else p[:c['dims']] + [0] * (3 - c['dims'])


def gen_ops(rng, c, n, disc):
    ops = []
    for k in range(12):
        if rng.random() < 0.75:
            ops.append(['add', k])
    for _ in range(n):
        x = rng.random()
        k = rng.randrange(12)
        if x < 0.08:
            ops.append(['add', k])
        elif x < 0.2:
            ops.append(['rm', k])
        elif x < 0.35:
            ops.append(['to', k, rng.randrange(12)])
        elif x < 0.39:
            ops.append(['alias', k])
        elif x < 0.47 and not disc:
            ops.append(['near', k, rng.randrange(12), rng.randrange(3), rng.choice([1, -1, 1e-12, -1e-12, 1e-10, -1e-10, 1e-9, 1e-7, -1e-7, 1e-5])])
        else:
            ops.append(['mv', k, gen_pt(rng, c, disc)])
    return ops


def gen_space(single):
    def gen(rng, i):
        c = gen_box(rng)
        c['kind'] = rng.choice(['grid', 'cs'])
        c['ext'] = [rng.randint(1, 4) for _ in range(3)] if rng.random() < 0.7 else c['ext']
        c['periodic'] = rng.random() < 0.5
        c['single'] = rng.random() < (1 if single else 0.3)
        c['shared'] = rng.random() < 0.5
        c['thr'] = rng.choice([1, 2, 3, 8])
        c['ops'] = gen_ops(rng, c, rng.randint(3, 35), c['kind'] == 'grid')
        return c
    return gen


def gen_g07(rng, i):
    c = gen_box(rng)
    c['dims'] = rng.choice([2, 2, 3, 3, 1])
    c['ext'] = [rng.choice([2, 3, 5, 8, 16, 10]) for _ in range(3)]
    c['kind'] = 'cs'
    c['periodic'] = rng.random() < 0.4
    c['single'] = rng.random() < 0.35
    c['shared'] = rng.random() < 0.3
    c['thr'] = rng.choice([1, 1, 2, 3])
    c['ops'] = gen_ops(rng, c, rng.randint(5, 60), False)

    def bx():
        b = []
        for k in range(3):
            mn, ex = c['min'][k], c['ext'][k]
            lo = rng.randint(mn - 2, mn + ex + 1)
            b.append([lo, rng.choice([1, 1, 2, 3, ex, ex + 4])])
        return b
    for _ in range(4):
        c['ops'].insert(rng.randint(0, len(c['ops'])), ['q', bx()])
    c['boxes'] = [bx() for _ in range(6)] + [[[c['min'][k] - 1, c['ext'][k] + 2] for k in range(3)], [[c['min'][k], c['ext'][k]] for k in range(3)]]
    return c


# ---------------------------------------------------------------- G08
def run_g08(case):
    d = case['dims']
    mm = []
    for i in range(d):
        mm += [case['min'][i], case['min'][i] + case['ext'][i] - 1]
    mm = np.array(mm)
    fs = getattr(geo, 'find_%dd_nghs_sticky' % d)
    fp = getattr(geo, 'find_%dd_nghs_periodic' % d)
    for cell in case['cells']:
        orders = [None] if d == 1 else [False, True]
        for po in orders:
            for per in (False, True):
                f = fp if per else fs
                pt = np.array(cell[:d])
                got = f(pt, mm) if po is None else f(pt, mm, pytorch_order=po)
                check(list(pt) == list(cell[:d]), 'G08: the cell was changed')
                cols = [np.asarray(got)] if d == 1 else [np.asarray(x) for x in got]
                if d == 1 and cols[0].ndim > 1:
                    cols = [cols[0].reshape(-1)]
                check(len(cols) == d and len(set(len(x) for x in cols)) == 1, 'G08: %s returns %s', f.__name__, got)
                res = list(zip(*[[int(v) for v in x] for x in cols]))
                if po is False or po is None:
                    pass
                if po:
                    res = [t[::-1] for t in res]
                want = []
                for off in itertools.product((-1, 0, 1), repeat=d):
                    c = [cell[i] + off[i] for i in range(d)]
                    if per:
                        c = [case['min'][i] + (c[i] - case['min'][i]) % case['ext'][i] for i in range(d)]
                    elif not all(mm[2 * i] <= c[i] <= mm[2 * i + 1] for i in range(d)):
                        continue
                    want.append(tuple(c))
                check(sorted(res) == sorted(want), 'G08: %s(%s, %s%s) gives %s, expected %s', f.__name__, cell[:d], list(mm), '' if po is None else ', %s' % po, sorted(res), sorted(want))


def gen_g08(rng, i):
    c = gen_box(rng)
    if rng.random() < 0.4:
        c['ext'] = [rng.choice([1, 2, 3, 4]) for _ in range(3)]
    cells = []
    for _ in range(6):
        cells.append([rng.choice([c['min'][k], c['min'][k] + c['ext'][k] - 1, rng.randint(c['min'][k], c['min'][k] + c['ext'][k] - 1)]) for k in range(3)])
    c['cells'] = cells
    return c


# ---------------------------------------------------------------- I01
def run_i01(case):
    """agents and locations used as keys of the spaces' indices"""
    ids = [tuple(u) for u in case['ids']]
    box = BoundingBox(-2**40, 2**41, -2**40, 2**41, -2**40, 2**41)
    for kind in ('grid', 'cs', 'sgrid', 'scs'):
        P = DP if 'grid' in kind else CP
        a1 = [BoundingBox, None]
        s = {'grid': lambda: space.Grid('s', box, BorderType.Sticky, OccupancyType.Multiple),
             'cs': lambda: space.ContinuousSpace('s', box, BorderType.Sticky, OccupancyType.Multiple, 2),
             'sgrid': lambda: space.SharedGrid('s', box, BorderType.Sticky, OccupancyType.Multiple, 1, comm),
             'scs': lambda: space.SharedCSpace('s', box, BorderType.Sticky, OccupancyType.Multiple, 1, comm, 2)}[kind]()
        ags = [core.Agent(*u) for u in ids]
        locs = {}
        for n, a in enumerate(ags):
            for m, b in enumerate(ags[:n]):
                check((b in s if hasattr(s, '__contains__') else s.contains(b)), 'I01: agent %s is not found any more after %s was added', b.uid, ids[n - 1])
            check(not (a in s if hasattr(s, '__contains__') else s.contains(a)), 'I01: agent %s is taken for one of %s', a.uid, ids[:n])
            s.add(a)
            p = case['locs'][n % len(case['locs'])]
            q = P(*p)
            m = s.move(a, q)
            check((m.x, m.y, m.z) == tuple(p), 'I01: agent at %s', m)
            locs[ids[n]] = tuple(p)
        for a in ags:
            same = core.Agent(*a.uid)        # another object with the same identity
            l = s.get_location(same)
            check(l is not None and (l.x, l.y, l.z) == locs[a.uid], 'I01: identity %s is at %s, expected %s', a.uid, l, locs[a.uid])
            check(a.uid == same.uid and a.uid_rank == a.uid[2] and a.id == a.uid[0] and a.type == a.uid[1], 'I01: uid of %s', a.uid)
        for p in set(locs.values()):
            got = sorted(x.uid for x in s.get_agents(P(*p)))
            want = sorted(u for u, l in locs.items() if l == p)
            check(got == want, 'I01: location %s holds %s, expected %s', p, got, want)
        for n, a in enumerate(ags):
            if n % 2 == 0:
                s.remove(core.Agent(*a.uid) if case['byid'] and 'grid' not in kind and False else a)
        for n, a in enumerate(ags):
            l = s.get_location(a)
            if n % 2 == 0:
                check(l is None, 'I01: removed agent %s is at %s', a.uid, l)
            else:
                check(l is not None and (l.x, l.y, l.z) == locs[a.uid], 'I01: agent %s is at %s after others were removed', a.uid, l)


def gen_i01(rng, i):
    vals = [0, 1, 2, -1, 3, 2**31, 2**33 + 1] if rng.random() < 0.5 else [0, 1]
    ts = [0, 1, 2, 7] if rng.random() < 0.5 else [0, 1]
    rs = [0, 1, 2, 5]
    ids = set()
    for _ in range(rng.randint(2, 14)):
        ids.add((rng.choice(vals), rng.choice(ts), rng.choice(rs)))
    ids = sorted(ids)
    rng.shuffle(ids)
    cs = [0, 1, -1, 2, 2**33, -2**33 - 1] if rng.random() < 0.5 else [0, 1]
    locs = [[rng.choice(cs) for _ in range(3)] for _ in range(rng.randint(1, 10))]
    return {'ids': [list(u) for u in ids], 'locs': locs, 'byid': False}


PROPS = {'G01': Spec(gen_g01, run_g01, ops='pts', cases=3000, thorough=60000),
         'G02': Spec(gen_space(False), runner('G02'), ops='ops', cases=800, thorough=10000),
         'G03': Spec(gen_space(True), runner('G03'), ops='ops', cases=800, thorough=10000),
         'G07': Spec(gen_g07, runner('G07'), ops='ops', cases=1200, thorough=15000),
         'G08': Spec(gen_g08, run_g08, ops='cells', cases=400, thorough=8000),
         'I01': Spec(gen_i01, run_i01, ops='ids', cases=400, thorough=6000)}

if __name__ == '__main__':
    common.main(PROPS)
