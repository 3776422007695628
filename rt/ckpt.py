"""C01 saving and restoring the schedule, on one rank: what is restored, and that it runs like the original."""
import math, pickle, warnings
import common
from common import Spec, Fail, check
from mpi4py import MPI
from repast4py import checkpoint as C
from repast4py import schedule as S
from repast4py import random as R

comm = MPI.COMM_SELF
PT = [S.PriorityType.FIRST, S.PriorityType.LAST, S.PriorityType.RANDOM, S.PriorityType.BY_PRIORITY]


def same(a, b):
    return a == b or (isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b))


class World:
    def __init__(self, case):
        self.case, self.log, self.evs, self.ck = case, [], [], None
        R.init(case['seed'])
        self.runner = S.init_schedule_runner(comm)

    def fire(self, k):
        def f():
            self.log.append((k, self.runner.tick()))
        return f

    def add(self, op):
        k = len(self.evs)
        tick = self.runner.tick()
        e = {'k': k, 'op': op, 'void': False, 'ev': None, 'order': None}
        meta = {'name': 'e%d' % k, 'val': [k, {'a': k}]}
        if op.get('tag'):
            meta['tag'] = op['tag']
        if op.get('fn'):
            meta['by'] = lambda evt: ('from', k)
        t, p = op['k'], PT[op['p']]
        kw = {'priority_type': p, 'metadata': meta}
        if p == S.PriorityType.BY_PRIORITY:
            kw['priority'] = op['q']
        e['at'] = op['t'] + (max(tick, 0) if op.get('rel') else 0)
        fn = self.fire(k)
        if t == 'one':
            e['ev'] = self.runner.schedule_event(e['at'], fn, **kw)
        elif t == 'rep':
            e['ev'] = self.runner.schedule_repeating_event(e['at'], op['iv'], fn, **kw)
        elif t == 'end':
            e['ev'] = self.runner.schedule_end_event(fn, metadata=meta)
        elif t == 'stop':
            e['ev'] = self.runner.schedule_stop(e['at'])
            stop = e['ev'].evt
            e['ev'].evt = lambda: (e.__setitem__('ran', True), stop())
        elif t == 'save':
            e['ev'] = self.runner.schedule_event(e['at'], (lambda: (e.__setitem__('ran', True), [self.add({'k': 'one', 't': 0, 'rel': True, 'p': x, 'q': 1}) for x in op.get('pre', [])], self.save())), priority_type=p, priority=kw.get('priority', float('nan')), metadata=meta)
        e['past'] = t != 'end' and e['at'] < tick
        e['meta'] = meta
        self.evs.append(e)

    def save(self):
        if self.ck is not None:
            return
        self.ck = C.Checkpoint()
        self.ck.save_random()
        self.ck.save_schedule()
        self.at_save = len(self.log)
        tick = self.runner.tick()
        self.save_tick = tick
        self.save_go = self.runner.go
        self.pending = {}
        for e in self.evs:
            op = e['op']
            if e['void'] or e['past']:
                continue
            runs = [t for (k, t) in self.log if k == e['k']]
            if op['k'] == 'end':
                self.pending[e['k']] = math.inf
            elif op['k'] == 'rep':
                at = e['at']
                for _ in runs:
                    at += op['iv']
                self.pending[e['k']] = at
            elif op['k'] == 'stop':
                if 'ran' not in e:
                    self.pending[e['k']] = e['at']
            elif op['k'] == 'one':
                if not runs:
                    self.pending[e['k']] = e['at']
            elif 'ran' not in e:       # another save event
                self.pending[e['k']] = e['at']
        self.mid = any(v == tick for v in self.pending.values()) or self.runner.schedule.executing_group.executing

    def steps(self, n):
        for _ in range(n):
            if self.runner.schedule.next_tick() == -1 or not self.runner.go:
                break
            self.runner.schedule.execute()


def run_c01(case):
    w = World(case)
    for op in case['ops']:
        if op['k'] == 'exec':
            w.steps(op['n'])
        elif op['k'] == 'void':
            if op['i'] < len(w.evs) and w.evs[op['i']]['ev'] is not None and w.evs[op['i']]['op']['k'] != 'stop':
                w.evs[op['i']]['ev'].void()
                w.evs[op['i']]['void'] = True
        else:
            w.add(op)
    if w.ck is None:
        w.save()
    # the original continues
    n_before = w.at_save
    w.steps(case['more'])
    orig = w.log[n_before:]
    orig_go, orig_tick = w.runner.go, w.runner.tick()
    ck = w.ck
    if case['pickle']:
        ck = pickle.loads(pickle.dumps(ck))
    # restoring
    by = {e['k']: e for e in w.evs}
    declined = {k for k in w.pending if k % 5 == 4} if case['decline'] else set()
    log, box, made, seen = [], {}, [], []

    def mk(meta):
        k = int(meta['name'][1:])
        check(k not in made, 'C01: the creator is asked for event %s twice', k)
        made.append(k)
        if k in declined:
            return C.IGNORE_EVT
        return lambda: log.append((k, box['r'].tick()))

    def proc(meta, ev):
        seen.append((meta, ev))

    groups = {}
    for k, at in w.pending.items():
        groups.setdefault(w.evs[k]['op'].get('tag') or C.DEFAULT_TAG, []).append(k)
    tags = case['tags'] or [None]
    R.init(99)
    ck.restore_random()
    first = True
    later = []
    for t in tags:
        kw = {} if t is None else {'tag': t}
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            r = ck.restore_schedule(comm, mk, proc, initialize=first, restore_stop_at=case['stop'], **kw)
        box['r'] = r
        check(r is S.runner(), 'C01: the runner returned is not the current runner')
        if first:
            check(r.tick() == w.save_tick, 'C01: the tick is %s, saved at %s', r.tick(), w.save_tick)
        first = False
        for j in range(case['after']):
            k = 1000 + len(later)
            at = max(r.tick(), 0) + [0, 1, 2, 2.5][j % 4]
            later.append((k, at))
            r.schedule_event(at, (lambda k=k: log.append((k, r.tick()))), priority_type=S.PriorityType.FIRST, metadata={'name': 'e%d' % k})
    want = [k for t in dict.fromkeys(tags) for k in groups.get(t or C.DEFAULT_TAG, [])]
    wstop = [k for k in want if by[k]['op']['k'] == 'stop']
    wcall = [k for k in want if by[k]['op']['k'] != 'stop']
    check(sorted(made) == sorted(wcall), 'C01: the creator was asked for the events %s, pending are %s (tick %s)', sorted(made), sorted(wcall), w.save_tick)
    got = {}
    stops = []
    for meta, ev in seen:
        if meta['__type'] == S.EvtType.STOP:
            stops.append(ev.at)
            continue
        k = int(meta['name'][1:])
        check(k not in got, 'C01: event %s restored twice', k)
        got[k] = ev
        e, op = by[k], by[k]['op']
        check(ev.at == w.pending[k], 'C01: event %s is restored at %s, pending at %s', k, ev.at, w.pending[k])
        if op['k'] != 'end':
            check(ev.priority_type == PT[op['p']] and same(ev.priority, op['q'] if op['p'] == 3 else math.nan), 'C01: event %s is restored with priority %s %s', k, ev.priority_type, ev.priority)
        if op['k'] == 'rep':
            check(getattr(ev, 'interval', None) == op['iv'], 'C01: event %s is restored with interval %s', k, getattr(ev, 'interval', None))
        m = {x: y for x, y in ev.metadata.items() if x != '__type'}
        wm = dict(e['meta'])
        if op.get('fn'):
            wm['by'] = ('from', k)
        check(m == wm, 'C01: event %s is restored with metadata %s, scheduled with %s', k, m, wm)
        check(ev.metadata['__type'] == e['ev'].metadata['__type'] or e['ev'].metadata['__type'] == S.EvtType.VOID, 'C01: event %s is restored as %s', k, ev.metadata['__type'])
    check(set(got) == set(wcall) - declined, 'C01: the restored events are %s, expected %s', sorted(got), sorted(set(wcall) - declined))
    if case['stop']:
        check(sorted(stops) == sorted(w.pending[k] for k in wstop), 'C01: stops restored at %s, pending at %s', stops, [w.pending[k] for k in wstop])
    else:
        check(not stops, 'C01: stops are restored at %s though not asked for', stops)
    qstops = sum(1 for x in r.schedule.queue if x[2].metadata['__type'] == S.EvtType.STOP)
    check(qstops == (len(wstop) if case['stop'] else 0), 'C01: %d stops are scheduled after restoring', qstops)
    # running
    n = 0
    while n < case['more'] and r.schedule.next_tick() != -1 and r.go:
        r.schedule.execute()
        n += 1
    horizon = r.tick()
    full = set(want) == set(w.pending) and not declined and not later and (case['stop'] or not wstop) and len(tags) == 1
    if full and not w.mid and w.save_go and not any(e['void'] for e in w.evs) and not any(by[k]['op']['k'] == 'save' for k in w.pending):
        m = min(orig_tick, r.tick())      # voided events of the original count as ticks
        a, b = [x for x in log if x[1] <= m and by[x[0]]['op']['k'] != 'save'], [x for x in orig if x[1] <= m]
        check(a == b, 'C01: the restored schedule ran %s, the original %s', a, b)
    ex = {}
    for k in set(wcall) - declined:
        op = by[k]['op']
        at, ts = w.pending[k], []
        while at <= horizon and n > 0:
            ts.append(at)
            if op['k'] != 'rep' or op['iv'] == 0:
                break
            at += op['iv']
        ex[k] = ts
    for k, at in later:
        ex[k] = [at] if at <= horizon and n > 0 else []
    for k in set(ex) | {k for k, _ in log}:
        ran = [t for (j, t) in log if j == k]
        check(ran == ex.get(k, []), 'C01: restored event %s ran at %s, expected %s', k, ran, ex.get(k, []))
    ticks = [t for _, t in log]
    check(ticks == sorted(ticks), 'C01: ticks ran in the order %s', ticks)
    order = {k: i for i, k in enumerate(w.pending)}
    for t in set(ticks):
        ks = [k for k, x in log if x == t]
        typ = [(0 if k >= 1000 else by[k]['op']['p']) for k in ks]
        rank = [{0: 0, 3: 1, 2: 1, 1: 2}[x] for x in typ]
        check(rank == sorted(rank), 'C01: at tick %s the restored events ran as %s', t, ks)
        for p in (0, 1):
            sub = [order.get(k, k) for k, x in zip(ks, typ) if x == p]
            check(sub == sorted(sub), 'C01: at tick %s the %s events ran in the order %s', t, PT[p].name, [k for k, x in zip(ks, typ) if x == p])
        pr = [by[k]['op']['q'] for k in ks if k < 1000 and by[k]['op']['p'] == 3]
        check(pr == sorted(pr), 'C01: at tick %s priorities ran as %s', t, pr)


def gen(rng, i):
    ops = []
    tags = [None, None, 'x', 'y'] if i % 3 == 0 else [None]
    for _ in range(rng.randint(1, 12)):
        x = rng.random()
        o = {'t': rng.choice([0, 1, 1, 2, 3, 2.5]), 'p': rng.randrange(4), 'q': rng.choice([0, 1, 1.5, -2, 7]), 'tag': rng.choice(tags), 'rel': rng.random() < 0.6}
        if x < 0.3:
            o['k'] = 'one'
        elif x < 0.55:
            o.update(k='rep', iv=rng.choice([1, 1, 2, 0.5, 3]))
        elif x < 0.62:
            o['k'] = 'end'
        elif x < 0.68:
            o.update(k='stop', t=o['t'] + 2, tag=None)
        elif x < 0.85:
            o = {'k': 'exec', 'n': rng.choice([1, 1, 2])}
        elif x < 0.95:
            o = {'k': 'void', 'i': rng.randrange(10)}
        elif i % 4 == 1:
            o.update(k='save', t=max(1, o['t']), tag=None, pre=[rng.randrange(4) for _ in range(rng.choice([0, 0, 1, 2]))])
        else:
            o['k'] = 'one'
        if o['k'] in ('one', 'rep') and rng.random() < 0.2:
            o['fn'] = True
        ops.append(o)
    c = {'ops': ops, 'seed': rng.randrange(1 << 20), 'more': rng.choice([0, 2, 4, 6]), 'pickle': rng.random() < 0.3, 'decline': rng.random() < 0.2,
         'tags': [], 'stop': rng.random() < 0.6, 'after': rng.choice([0, 0, 0, 1, 4])}
    if any(o.get('fn') for o in ops):
        c['pickle'] = False
    if i % 3 == 0:
        c['tags'] = rng.choice([['x'], ['x', 'y'], ['__default', 'x'], ['__default', 'y', 'x'], ['zz']])
    return c


PROPS = {'C01': Spec(gen, run_c01, cases=1500, thorough=40000, ops='ops')}
if __name__ == '__main__':
    common.main(PROPS)
