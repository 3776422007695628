"""Runtime contracts for the schedule: S01 (order within a tick), S02 (each event when and as often as it should),
S03 (several ranks; the communicator is a stand-in that performs the reduction between threads)."""
import math, threading, warnings
import common
from common import Spec, Fail, check
from repast4py import schedule as S
from repast4py import random as R

FIRST, LAST, RANDOM, BY = S.PriorityType.FIRST, S.PriorityType.LAST, S.PriorityType.RANDOM, S.PriorityType.BY_PRIORITY
PT = [FIRST, LAST, RANDOM, BY]


class Comm1:
    rank, size = 0, 1

    def allreduce(self, v, op=None):
        return v

    def Get_rank(self):
        return 0

    def Get_size(self):
        return 1


# a case: ops = [{t: tick, p: priority type, q: priority, iv: interval or 0, void: index of an op to void when run or -1,
#  adds: [op...] scheduled when run (t is relative to the running tick)}], end: stop tick
def gen_op(rng, depth, base=True):
    op = {'t': rng.choice([0, 0, 1, 1, 1, 2, 2.5, 3]) if base else rng.choice([0, 0, 0, 0, 1, 0.5, -1, 2]),
          'p': rng.choice([0, 1, 2, 3, 3]), 'q': rng.choice([0, 1, 1, 2, 3, -1.5]),
          'iv': rng.choice([0, 0, 0, 1, 2, 0.5]) if base else rng.choice([0, 0, 0, 0, 1]), 'void': -1, 'adds': []}
    if rng.random() < 0.12:
        op['void'] = rng.randrange(8)
    if depth > 0:
        for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
            op['adds'].append(gen_op(rng, depth - 1, False))
    return op


def gen(rng, i):
    ops = [gen_op(rng, 2 if i % 2 else 1) for _ in range(rng.randint(1, 9))]
    if i % 3 == 0:
        for o in ops:
            o['t'] = 1
    return {'ops': ops, 'end': rng.choice([3, 4, 5.5]), 'runner': rng.random() < 0.6, 'seed': rng.randrange(1 << 30),
            'split': rng.random() < 0.3}


class Ev:
    """the oracle's record of one scheduled event"""

    def __init__(self, k, at, p, q, iv, order):
        self.k, self.at, self.p, self.q, self.iv, self.order = k, at, p, q, iv, order
        self.voided = False
        self.runs = []


class World:
    def __init__(self, case):
        R.init(case['seed'])
        self.case = case
        self.runner = S.SharedScheduleRunner(Comm1()) if case['runner'] else None
        self.sch = self.runner.schedule if self.runner else S.Schedule()
        self.evs = []
        self.pending = []          # events the oracle says are still to run: (at, ev)
        self.objs = []
        self.now = -1
        self.log = []
        self.n = 0
        self.limit = 4000
        self.order_fail = None

    def add(self, op, at):
        k = len(self.evs)
        ev = Ev(k, at, op['p'], op['q'], op['iv'], self.n)
        self.n += 1
        self.evs.append(ev)
        target = self.runner if self.runner else self.sch

        def cb():
            self.ran(ev, op)
        first = len(self.evs) == 1 and False
        kw = {'priority_type': PT[op['p']]}
        if op['p'] == 3:
            kw['priority'] = op['q']
        if op['iv']:
            o = target.schedule_repeating_event(at, op['iv'], cb, **kw)
        else:
            o = target.schedule_event(at, cb, **kw)
        self.objs.append(o)
        if at >= self.now:
            self.pending.append([at, ev])
        return o

    def ran(self, ev, op):
        self.limit -= 1
        if self.limit < 0:
            raise Fail('S02: events run without end')
        t = self.sch.tick
        if self.order_fail is None:
            self.order_fail = self.judge(ev, t)
        me = [p for p in self.pending if p[1] is ev]
        if me:
            self.pending.remove(me[0])
        if t > self.now:
            self.now = t
        # the event's own effects
        v = op['void']
        if 0 <= v < len(self.objs) and not self.evs[v].voided:
            self.objs[v].void()
            self.evs[v].voided = True
        for a in op['adds']:
            self.add(a, t + a['t'])
        if ev.iv and not ev.voided:
            self.pending.append([t + ev.iv, ev])      # it keeps its place: the order of scheduling calls

    def judge(self, ev, t):
        """S02: ev is due now; S01: nothing pending for this tick comes before it"""
        if t < self.now:
            return 'S02: tick %s is executed after tick %s' % (t, self.now)
        if ev.voided:
            return 'S02: event %d ran at tick %s after it was voided' % (ev.k, t)
        me = [p for p in self.pending if p[1] is ev]
        if not me or me[0][0] != t:
            return 'S02: event %d ran at tick %s but was due at %s' % (ev.k, t, me[0][0] if me else 'no tick')
        for at, o in self.pending:
            if o is ev or o.voided:
                continue
            if at < t:
                return 'S02: event %d due at tick %s was skipped; tick %s is running' % (o.k, at, t)
            if at != t:
                continue
            ro, re = self.cls(o), self.cls(ev)
            if ro < re or (ro == re and ro in (0, 2) and o.order < ev.order) or (o.p == 3 and ev.p == 3 and o.q < ev.q):
                return ('S01: at tick %s event %d (%s, priority %s, scheduled as number %d) ran before event %d (%s, priority %s, scheduled as number %d)'
                        % (t, ev.k, PT[ev.p].name, ev.q, ev.order, o.k, PT[o.p].name, o.q, o.order))
        return None

    @staticmethod
    def cls(e):
        return 0 if e.p == 0 else 2 if e.p == 1 else 1


def run_world(case, want):
    w = World(case)
    ops = case['ops']
    half = len(ops) // 2 if case['split'] and not case['runner'] else len(ops)
    for op in ops[:half]:
        w.add(op, op['t'])
    end = case['end']
    if w.runner:
        w.runner.schedule_stop(end)
        if case['split']:
            pass
        w.runner.execute()
    else:
        rest = ops[half:]
        steps = 0
        while True:
            nt = w.sch.next_tick()
            due = [at for at, e in w.pending if not e.voided]
            live = min(due) if due else None
            if live is not None and (nt == -1 or nt > live):
                raise Fail('S02: the next tick is %s but an event is due at %s' % (nt, live)) if want == 'S02' else StopIteration
            if nt == -1 or nt > end:
                break
            w.sch.execute()
            steps += 1
            if rest:
                # more events, scheduled between two executions
                op = rest.pop(0)
                w.add(op, w.sch.tick + op['t'])
            if steps > 300:
                break
    if w.order_fail and w.order_fail.startswith(want):
        raise Fail(w.order_fail)
    if want == 'S02':
        for at, e in w.pending:
            if not e.voided and at <= end and not (w.runner is None and at > w.now and at > end):
                raise Fail('S02: event %d due at tick %s never ran (execution ended at %s)' % (e.k, at, end))


def run_s(want):
    def run(case):
        try:
            run_world(case, want)
        except StopIteration:
            pass
    return run


# ---------------------------------------------------------------- S03
class Ring:
    """an intracommunicator between threads; only what SharedScheduleRunner needs"""

    def __init__(self, n):
        self.n = n
        self.bar = threading.Barrier(n, timeout=20)
        self.vals = [None] * n
        self.hist = []


class TComm:
    def __init__(self, ring, rank):
        self.ring, self.rank, self.size = ring, rank, ring.n

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def _all(self, v):
        r = self.ring
        r.vals[self.rank] = v
        r.bar.wait()
        out = list(r.vals)
        r.bar.wait()
        return out

    def allreduce(self, v, op=None):
        from mpi4py import MPI
        vs = self._all(v)
        if op == MPI.MIN:
            return min(vs)
        if op == MPI.MAX:
            return max(vs)
        if op is None or op == MPI.SUM:
            return sum(vs)
        if op == MPI.LAND:
            return all(vs)
        if op == MPI.LOR:
            return any(vs)
        raise NotImplementedError('allreduce op')

    def allgather(self, v):
        return self._all(v)

    def barrier(self):
        self._all(None)

    Barrier = barrier

    def Allreduce(self, send, recv, op=None):
        s = send[0] if isinstance(send, (list, tuple)) else send
        r = recv[0] if isinstance(recv, (list, tuple)) else recv
        vs = self._all([x for x in s])
        from mpi4py import MPI
        f = min if op == MPI.MIN else max if op == MPI.MAX else sum
        for i in range(len(s)):
            r[i] = f(v[i] for v in vs)


def gen3(rng, i):
    n = rng.choice([2, 2, 3])
    stop = rng.choice([None, None, 3, 4, 2.5])
    ranks = []
    for r in range(n):
        evs = []
        for _ in range(rng.choice([0, 1, 2, 4])):
            iv = rng.choice([0, 0, 1, 2, 1.5]) if stop is not None else 0
            adds = [[rng.choice([0, 1, 2, 0.5]), rng.choice([0, 1, 2, 3])] for _ in range(rng.choice([0, 0, 0, 1, 2]))]
            evs.append({'t': rng.choice([0, 1, 1, 2, 3, 5]), 'iv': iv, 'p': rng.choice([0, 1, 2]), 'adds': adds})
        ranks.append({'evs': evs, 'ends': rng.choice([0, 1, 2])})
    return {'ranks': ranks, 'stop': stop, 'how': rng.choice(['schedule', 'event'])}


def run3(case):
    n = len(case['ranks'])
    ring = Ring(n)
    hist = [[] for _ in range(n)]       # (tick, 'ev'|'end'|'stop', k)
    errs = [None] * n
    due = [[] for _ in range(n)]        # per rank ticks the oracle expects, in a multiset with run counts
    R.init(1)

    def body(r):
        try:
            spec = case['ranks'][r]
            run = S.SharedScheduleRunner(TComm(ring, r))

            def mk(k, e):
                def cb():
                    t = run.tick()
                    hist[r].append((t, 'ev', k))
                    for j, (dt, p) in enumerate(e['adds']):
                        if t <= 6:
                            due[r].append(t + dt)
                            run.schedule_event(t + dt, (lambda: hist[r].append((run.tick(), 'ev', -1))), PT[p] if p != 3 else BY, **({'priority': 1} if p == 3 else {}))
                    if e['iv']:
                        due[r].append(t + e['iv'])
                return cb
            for k, e in enumerate(spec['evs']):
                due[r].append(e['t'])
                if e['iv']:
                    run.schedule_repeating_event(e['t'], e['iv'], mk(k, e), PT[e['p']])
                else:
                    run.schedule_event(e['t'], mk(k, e), PT[e['p']])
            if case['stop'] is not None:
                if case['how'] == 'schedule':
                    run.schedule_stop(case['stop'])
                else:
                    run.schedule_event(case['stop'], run.stop, FIRST)
            for k in range(spec['ends']):
                run.schedule_end_event(lambda k=k: hist[r].append((run.tick(), 'end', k)))
            run.execute()
        except threading.BrokenBarrierError:
            errs[r] = errs[r] or 'S03: a rank waits for ever for the others'
        except Fail as ex:
            errs[r] = str(ex)
            ring.bar.abort()
        except BaseException as ex:
            errs[r] = 'S03: unexpected %s: %s' % (type(ex).__name__, ex)
            ring.bar.abort()

    ring.bar = threading.Barrier(n, timeout=4)
    ths = [threading.Thread(target=body, args=(r,), daemon=True) for r in range(n)]
    for t in ths:
        t.start()
    for t in ths:
        t.join(30)
        if t.is_alive():
            ring.bar.abort()
            raise Fail('S03: execution does not end')
    # an execution that stopped without the others leaves them waiting
    bad = [e for e in errs if e]
    if bad:
        raise Fail(next((e for e in bad if 'unexpected' in e), bad[0]))
    stop = case['stop']
    for r in range(n):
        h = hist[r]
        ends = [x for x in h if x[1] == 'end']
        check([x[2] for x in ends] == list(range(case['ranks'][r]['ends'])), 'S03: the end events of rank %d ran %s', r, [x[2] for x in ends])
        check(all(x[1] == 'end' for x in h[len(h) - len(ends):]), 'S03: an event of rank %d ran after an end event', r)
        got = sorted(x[0] for x in h if x[1] == 'ev')
        want = sorted(t for t in due[r] if stop is None or t <= stop)
        check(got == want, 'S03: rank %d executed events at ticks %s but they were due at %s (stop at %s)', r, got, want, stop)
        ticks = [x[0] for x in h if x[1] == 'ev']
        check(ticks == sorted(ticks), 'S03: the ticks of rank %d decrease', r)


# no rank may run tick t while another still has something to do at an earlier tick: recorded with a global clock
def run3_order(case):
    glob = []
    lock = threading.Lock()
    n = len(case['ranks'])
    ring = Ring(n)
    ring.bar = threading.Barrier(n, timeout=4)
    errs = []
    R.init(1)

    def body(r):
        try:
            run = S.SharedScheduleRunner(TComm(ring, r))

            def cb():
                with lock:
                    glob.append((run.tick(), r))
            for e in case['ranks'][r]['evs']:
                run.schedule_event(e['t'], cb)
            run.execute()
        except BaseException as ex:
            errs.append('%s: %s' % (type(ex).__name__, ex))
            ring.bar.abort()
    ths = [threading.Thread(target=body, args=(r,), daemon=True) for r in range(n)]
    for t in ths:
        t.start()
    for t in ths:
        t.join(30)
    check(not errs, 'S03: a rank failed or waits for ever: %s', errs[:1])
    ts = [t for t, r in glob]
    check(ts == sorted(ts), 'S03: a rank ran ahead of the globally earliest tick: %s', glob)


def s03(case):
    run3(case)
    run3_order(case)


F1 = {'ops': [{'t': 1, 'p': 3, 'q': 2, 'iv': 0, 'void': -1, 'adds': [{'t': 0, 'p': 3, 'q': 5, 'iv': 0, 'void': -1, 'adds': []}]},
              {'t': 1, 'p': 2, 'q': 0, 'iv': 0, 'void': -1, 'adds': []}, {'t': 1, 'p': 2, 'q': 0, 'iv': 0, 'void': -1, 'adds': []},
              {'t': 1, 'p': 3, 'q': 6, 'iv': 0, 'void': -1, 'adds': []}, {'t': 1, 'p': 3, 'q': 4, 'iv': 0, 'void': -1, 'adds': []}],
      'end': 3, 'runner': True, 'seed': 5, 'split': False}
PROPS = {'S01': Spec(gen, run_s('S01'), fixed=[F1], cases=3000, thorough=40000, ops='ops'),
         'S02': Spec(gen, run_s('S02'), fixed=[F1], cases=3000, thorough=40000, ops='ops'),
         'S03': Spec(gen3, s03, cases=500, thorough=6000)}

if __name__ == '__main__':
    common.main(PROPS)
