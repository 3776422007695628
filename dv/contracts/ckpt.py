"""Contracts for repast4py/checkpoint.py (C01): what is saved of an event and what restoring the schedule schedules."""
import z3
from ..core import *
from ..pyfront import *
from ..pyfront import Contract, Ctx, View, qall
from . import schedule as S
from .schedule import EV, QE, QUEUE, CALL, META, RUN, SCH, INF

DATA = REF('EvtData')
DATAS = DLIST(DATA)
CK = REF('Checkpoint')
SCHEMA = dict(S.SCHEMA)
SCHEMA.update({'EvtData': {'at': REAL, 'order_idx': INT, 'priority_type': INT, 'priority': REAL, 'interval': REAL, 'metadata': META},
               'Checkpoint': {'schedule_state': REF('ScheduleState')}, 'ScheduleState': {'last_count': INT, 'tick': REAL, 'evts': DATAS}})
# the methods of the schedule are executed, not replaced by their contracts: those ask for insertion numbers below the counter
CONTRACTS, LOOPS = {}, {}
CONTRACTS['schedule.ScheduleGroup.add_evt'] = S.CONTRACTS['schedule.ScheduleGroup.add_evt']
LOOPS.update(S.LOOPS)
MODELS = dict(S.MODELS)
UNITS = []
STOP, REP, ONE, END, VOID = 0, 1, 2, 3, 4
A_ = ANY.sort()
CALLABLE = z3.Function('is_callable', A_, z3.BoolSort())
RESULT = z3.Function('result_of_call', A_, z3.IntSort(), A_)
CREATED = z3.Function('created_callable', z3.IntSort(), z3.IntSort())


def con(q, unit=True, **kw):
    CONTRACTS[q] = Contract(q, **kw)
    if unit:
        UNITS.append(q)


def is_callable(I, a, kw):
    """isinstance, of a value of unknown type against Callable"""
    raise Unsupported('isinstance')


def any_call(I, f, a, kw):
    """a callable in the metadata: a function of the event's callable, without effects"""
    return V(ANY, RESULT(f.t, I.lift(a[0], CALL)))


def state_get(I, o, a, kw):
    return I.getfield(o, 'ScheduleState', a[0])


def state_set(I, o, a, kw):
    I.setfield(o, a[0], a[1])


def one_number(I, a, kw):
    """an iterator over one number, used as the schedule's counter: the next number is that one"""
    t = I.deref(a[0])
    if not isinstance(t, tuple) or len(t) != 1:
        raise Unsupported('iterator')
    return S.count_new(I, [t[0]], {})


def nothing(I, *a):
    return None


MODELS.update({'Any.__call__': any_call, 'ScheduleState.__getitem__': state_get, 'ScheduleState.__setitem__': state_set, 'checkpoint.iter': one_number, 'dataclasses.field': lambda I, a, kw: I.newconc('dict', []),
               'warnings.warn': nothing})


# ---- what is saved of an event

def meta_map(c, ref, old=False):
    v = c.view(META, ref, old)
    return v.dom, v.val


def saved_meta(c, d, e_meta, evt):
    """the metadata of the event, with the results of the callables in it"""
    d0, v0 = e_meta
    d1, v1 = d
    s = z3.String('s!sm')
    return qall(s, z3.And(d1[s] == d0[s], z3.Implies(d0[s], v1[s] == z3.If(CALLABLE(v0[s]), RESULT(v0[s], evt), v0[s]))), [d1[s]])


TYPE = z3.StringVal('__type')


def te_pre(c):
    e = c.arg('evt')
    yield 'the event has metadata with its type', z3.And(e.metadata.ref > 0, e.metadata.dom[TYPE], z3.Not(CALLABLE(e.metadata.val[TYPE])))


def te_post(c):
    e, d = c.arg('evt'), c.res
    yield 'the data are new', z3.And(d.ref > c.oldtop, d.ref <= c.I.eng.alloc_top(), d.metadata.ref > c.oldtop, d.metadata.ref <= c.I.eng.alloc_top())
    yield 'tick, order and priority are those of the event', z3.And(d.at == e.at, d.order_idx == e.order_idx, d.priority_type == e.priority_type, d.priority == e.priority)
    yield 'so is the interval of a repeating event', z3.Implies(e.metadata.val[TYPE] == c.I.lift(REP, ANY), d.interval == e.interval)
    yield 'and the metadata, with callables replaced by their results', saved_meta(c, (d.metadata.dom, d.metadata.val), (e.metadata.dom, e.metadata.val), e.evt.ref)


def te_loop(lc):
    if isinstance(lc.I.deref(lc.fr.env['meta']), Conc):
        return          # not typed yet
    e, m = lc.arg('evt'), lc.loc('meta')
    s = z3.String('s!tl')
    yield 'entries so far', qall(s, z3.And(m.dom[s] == lc.seen[s], z3.Implies(m.dom[s], m.val[s] == z3.If(CALLABLE(e.metadata.val[s]), RESULT(e.metadata.val[s], e.evt.ref), e.metadata.val[s]))), [m.dom[s]])


LOOPS[('checkpoint.Checkpoint._to_evt_data', 0)] = te_loop
def data_ghost(I, c):
    g = I.eng.st.ghost = dict(I.eng.st.ghost)
    if 'dataof' in g:
        x, d = c.args['evt'].t, c.result.t
        g['dataof'], g['evtof'] = z3.Store(g['dataof'], x, d), z3.Store(g['evtof'], d, x)


con('checkpoint.Checkpoint._to_evt_data', args={'self': CK, 'evt': EV}, requires=te_pre, ensures=te_post, result=DATA, modifies=lambda c: [])
CONTRACTS['checkpoint.Checkpoint._to_evt_data'].after = data_ghost


def isinst(I, v, k):
    v = I.deref(v)
    if isinstance(v, V) and v.ty is ANY and getattr(k, 'name', '').endswith('Callable'):
        return V(BOOL, CALLABLE(v.t))
    return NotImplemented


MODELS['isinstance'] = isinst


# ---- scheduling one saved event again

def fields(c, e, old=False):
    return {f: c.arr('ScheduledEvent', f, old)[e] for f in ('evt', 'at', 'order_idx', 'priority_type', 'priority', 'interval', 'metadata', '__kind', '__inst_reschedule')}


def run_ok(c, r):
    """the runner and its schedule between executions; the insertion numbers are whatever they are"""
    s = r.schedule
    g = s.executing_group
    top = c.I.eng.alloc_top()
    yield 'parts', z3.And(*[z3.And(x > 0, x <= top) for x in (r.ref, s.ref, s.queue.ref, g.ref, s.counter.ref, r.end_evts.ref)])
    t, x = z3.Const('t!ro', QE.sort()), z3.Int('x!ro')
    yield 'queued events exist', qall(t, z3.Implies(s.queue.has(t), z3.And(S.q2(t) > 0, S.q2(t) <= top)), [s.queue.mem[t]])
    yield 'end events exist', qall(x, z3.Implies(r.end_evts.has(x), z3.And(x > 0, x <= top)), [r.end_evts.mem[x]])
    yield 'not executing', z3.Not(g.executing)


def sv_pre(c):
    r, d = c.arg('runner'), c.arg('evt_data')
    yield from run_ok(c, r)
    yield 'the data', z3.And(d.ref > 0, d.metadata.ref > 0, d.at != S.NAN)
    ty = c.arg('evt_type').ref
    yield 'a type of event, the one in its metadata', z3.And(z3.Or(*[ty == T(c, k) for k in (ONE, REP, END, STOP)]), d.metadata.dom[TYPE], d.metadata.val[TYPE] == ty)
    yield 'the events are different from the data', c.arg('evt').ref >= 0


def T(c, k):
    return c.I.lift(k, ANY)


def restored(c, e, d, ty, evt):
    """e is the event of the data again"""
    f = fields(c, e)
    is_ = lambda k: ty == T(c, k)
    typed = z3.Or(is_(ONE), is_(REP))
    m = c.view(META, f['metadata'])
    s = z3.String('s!rs')
    yield 'same callable', z3.Implies(z3.Not(is_(STOP)), f['evt'] == evt)
    yield 'same tick and order', z3.Implies(z3.Not(is_(END)), z3.And(f['at'] == d.at, f['order_idx'] == d.order_idx))
    yield 'same priority', z3.Implies(typed, z3.And(f['priority_type'] == d.priority_type, f['priority'] == d.priority))
    yield 'same interval', z3.Implies(is_(REP), f['interval'] == d.interval)
    yield 'same kind, not voided', z3.And(z3.If(is_(REP), f['__kind'] == 1, f['__kind'] == 0), f['__inst_reschedule'] == 0)
    yield 'same metadata', z3.Implies(z3.Not(is_(STOP)), qall(s, z3.And(m.dom[s] == d.metadata.dom[s], z3.Implies(m.dom[s], m.val[s] == d.metadata.val[s])), [m.dom[s]]))
    yield 'still known as a stop', z3.Implies(is_(STOP), z3.And(m.dom[TYPE], m.val[TYPE] == T(c, STOP)))


def sv_post(c):
    r, o, d = c.arg('runner'), c.old('runner'), c.old('evt_data')
    e, ty = c.res.ref, c.arg('evt_type').ref
    s, os = r.schedule, o.schedule
    top = c.I.eng.alloc_top()
    end = ty == T(c, END)
    past = d.at < os.tick
    yield 'the event is new', z3.And(e > c.oldtop, e <= top)
    for n, f in restored(c, e, d, ty, c.arg('evt').ref):
        yield n, z3.Implies(z3.Or(end, z3.Not(past)), f)
    yield 'parts stay', z3.And(r.schedule.ref == o.schedule.ref, s.queue.ref == os.queue.ref, s.executing_group.ref == os.executing_group.ref, s.tick == os.tick, r.end_evts.ref == o.end_evts.ref)
    cs = c.ghost.get('callables', {})
    ks = [k for k, v in cs.items() if isinstance(v, BoundMethod) and v.func.qual == 'schedule.SharedScheduleRunner.stop' and z3.eq(v.obj.t, r.ref)]
    if c.I.top == 'checkpoint.Checkpoint._schedule_evt':
        yield 'a stop stops this runner', z3.Implies(z3.And(ty == T(c, STOP), z3.Not(past)), z3.Or(*[z3.Int(k) == c.arr('ScheduledEvent', 'evt')[e] for k in ks]))
    entry = QE.sort().mk(d.at, d.order_idx, e)
    yield 'queued for its tick in its old place', z3.Implies(z3.Not(end), s.queue.mem == z3.If(past, os.queue.mem, z3.Store(os.queue.mem, entry, True)))
    yield 'an end event joins the end events', z3.Implies(end, z3.And(s.queue.mem == os.queue.mem, r.end_evts.mem == z3.Store(o.end_evts.mem, e, True)))
    yield 'and nothing else does', z3.Implies(z3.Not(end), r.end_evts.mem == o.end_evts.mem)
    yield from run_ok(c, r)


def sv_mods(c):
    r = c.arg('runner')
    s = r.schedule
    return [s.queue, r.end_evts, ('Schedule.last_count', s.ref), ('Schedule.counter', s.ref), ('SharedScheduleRunner.next_tick', r.ref)]


def made_ghost(I, c):
    g = I.eng.st.ghost = dict(I.eng.st.ghost)
    d, e = c.args['evt_data'].t, c.result.t
    g['made'], g['orig'] = z3.Store(g['made'], d, e), z3.Store(g['orig'], e, d)


con('checkpoint.Checkpoint._schedule_evt', args={'self': CK, 'runner': RUN, 'evt_type': ANY, 'evt_data': DATA, 'evt': CALL}, requires=sv_pre, ensures=sv_post, result=EV, modifies=sv_mods)
CONTRACTS['checkpoint.Checkpoint._schedule_evt'].after = made_ghost


# ---- restoring the schedule

CREATE = z3.Function('creator_result', z3.IntSort(), A_)
SCHEMA.update({'Creator': {}, 'Processor': {}})
MODELS.update({'Creator.__call__': lambda I, f, a, kw: V(ANY, CREATE(I.lift(a[0], META))), 'Processor.__call__': nothing})
TAG = z3.StringVal('tag')


class Rest:
    """what is known of the runner when the data before position i have been looked at"""
    def __init__(self, c, r, cut, old=None):
        self.c, self.r, self.cut = c, r, cut
        self.D = c.oself.schedule_state.evts
        self.tag, self.stops = c.arg('tag'), c.arg('restore_stop_at')
        self.made, self.orig = c.ghost['made'], c.ghost['orig']

    def data(self, d):
        return View(self.c.I, self.c.oldheap, V(DATA, d))

    def type(self, d):
        return self.data(d).metadata.val[TYPE]

    def sel(self, d):
        """to be restored"""
        c, m = self.c, self.data(d).metadata
        tag = z3.If(m.dom[TAG], m.val[TAG], c.I.lift('__default', ANY))
        return z3.And(self.D.has(d), tag == c.I.lift(V(STR, self.tag), ANY), z3.If(self.type(d) == T(c, STOP), self.stops, CREATE(m.ref) != c.I.lift(0, ANY)))

    def clauses(self, base, tick, fresh):
        c, r = self.c, self.r
        s = r.schedule
        d, t, x = z3.Int('d!rs'), z3.Const('t!rs', QE.sort()), z3.Int('x!rs')
        done = lambda d: z3.And(self.sel(d), self.cut(d))
        e = self.made[d]
        V_ = self.data(d)
        ty = self.type(d)
        end = ty == T(c, END)
        live = z3.And(done(d), z3.Or(end, V_.at >= tick))
        yield 'restored events are new', qall(d, z3.Implies(live, z3.And(e > fresh, e <= c.I.eng.alloc_top(), self.orig[e] == d)), [self.made[d]])
        yield 'each is queued for its tick in its old place', qall(d, z3.Implies(z3.And(live, z3.Not(end)), s.queue.mem[QE.sort().mk(V_.at, V_.order_idx, e)]), [self.made[d]])
        yield 'each end event is one of the end events', qall(d, z3.Implies(z3.And(live, end), r.end_evts.mem[e]), [self.made[d]])
        ev = lambda f: c.arr('ScheduledEvent', f)[e]
        yield 'each has its callable', qall(d, z3.Implies(z3.And(live, ty != T(c, STOP)), ev('evt') == CREATE(V_.metadata.ref)), [self.made[d]])
        yield 'each has its priority', qall(d, z3.Implies(z3.And(live, z3.Or(ty == T(c, ONE), ty == T(c, REP))), z3.And(ev('at') == V_.at, ev('order_idx') == V_.order_idx, ev('priority_type') == V_.priority_type, ev('priority') == V_.priority)), [self.made[d]])
        yield 'each repeating event has its interval', qall(d, z3.Implies(z3.And(live, ty == T(c, REP)), z3.And(ev('interval') == V_.interval, ev('__kind') == 1)), [self.made[d]])
        k = z3.String('s!rs')
        m = c.view(META, ev('metadata'))
        yield 'each has its metadata', qall([d, k], z3.Implies(z3.And(live, ty != T(c, STOP)), z3.And(m.dom[k] == V_.metadata.dom[k], z3.Implies(m.dom[k], m.val[k] == V_.metadata.val[k]))), [z3.MultiPattern(self.made[d], m.dom[k])])
        o = self.orig[S.q2(t)]
        od = self.data(o)
        yield 'nothing else is queued', qall(t, z3.Implies(s.queue.mem[t], z3.Or(base(t), z3.And(done(o), self.type(o) != T(c, END), self.made[o] == S.q2(t), S.q0(t) == od.at, S.q1(t) == od.order_idx))), [s.queue.mem[t]])
        yield 'what was queued stays', qall(t, z3.Implies(base(t), s.queue.mem[t]), [s.queue.mem[t]])


def rs_pre(c):
    S_ = c.self.schedule_state
    D = S_.evts
    d = z3.Int('d!rp')
    V_ = View(c.I, c.heap, V(DATA, d))
    top = c.I.eng.alloc_top()
    yield 'saved state', z3.And(S_.ref > 0, D.ref > 0, S_.tick != S.NAN)
    ty = V_.metadata.val[TYPE]
    yield 'saved data', qall(d, z3.Implies(D.has(d), z3.And(d > 0, d <= top, V_.metadata.ref > 0, V_.metadata.ref <= top, V_.at != S.NAN, V_.order_idx >= 0, V_.order_idx <= S_.last_count,
                                                            V_.metadata.dom[TYPE], z3.Or(*[ty == T(c, k) for k in (ONE, REP, END, STOP)]))), [D.mem[d]])
    r = View(c.I, c.heap, c.I.eng.st.ghost[('glob', 'schedule', '__runner')])
    t = z3.Const('t!rp', QE.sort())
    yield from run_ok(c, r)
    yield 'insertion numbers so far', qall(t, z3.Implies(r.schedule.queue.has(t), S.q1(t) <= r.schedule.last_count), [r.schedule.queue.mem[t]])
    yield 'creators give callables', qall(d, CREATE(d) >= 0, [CREATE(d)])


def rs_post(c):
    r = c.res
    s, st = r.schedule, c.oself.schedule_state
    old = View(c.I, c.oldheap, V(RUN, z3.Int('the_runner')))
    init = c.arg('initialize')
    oq = old.schedule.queue
    t = z3.Const('t!po', QE.sort())
    yield 'the runner', z3.If(init, r.ref > c.oldtop, r.ref == z3.Int('the_runner'))
    yield 'the saved tick is the current one', s.tick == z3.If(init, st.tick, old.schedule.tick)
    rest = Rest(c, r, lambda d: z3.BoolVal(True))
    yield from rest.clauses(lambda t: z3.And(z3.Not(init), oq.mem[t]), s.tick, c.oldtop)
    yield 'events scheduled later come after all of them', z3.And(qall(t, z3.Implies(s.queue.mem[t], S.q1(t) < s.counter.n), [s.queue.mem[t]]), s.counter.n == s.last_count + 1)


def rs_loop(lc):
    r = lc.loc('runner')
    D = lc.oself.schedule_state.evts
    if r.ty.args[0] != 'SharedScheduleRunner':
        return
    r0 = lc.at0(r)
    yield from run_ok(lc, r)
    yield 'parts stay', z3.And(r.schedule.ref == r0.schedule.ref, r.schedule.queue.ref == r0.schedule.queue.ref, r.schedule.tick == r0.schedule.tick, r.schedule.executing_group.ref == r0.schedule.executing_group.ref,
                               r.end_evts.ref == r0.end_evts.ref)
    rest = Rest(lc, r, lambda d: D.pos(d) < lc.i)
    yield from rest.clauses(lambda t: r0.schedule.queue.mem[t], r.schedule.tick, lc.top0)


class RsLoop:
    def ghosts(self, I):
        return ['made', 'orig']

    def __call__(self, lc):
        yield from rs_loop(lc)


LOOPS[('checkpoint.Checkpoint.restore_schedule', 0)] = RsLoop()


def rs_setup(I, args):
    g = I.eng.st.ghost
    r = V(RUN, z3.Int('the_runner'))
    I.eng.assume(z3.And(r.t > 0, r.t <= I.eng.st.alloc_base))
    g[('glob', 'schedule', '__runner')] = r
    g['made'], g['orig'] = z3.Const('made0', z3.ArraySort(z3.IntSort(), z3.IntSort())), z3.Const('orig0', z3.ArraySort(z3.IntSort(), z3.IntSort()))


con('checkpoint.Checkpoint.restore_schedule', args={'self': CK, 'comm': REF('Comm'), 'evt_creator': REF('Creator'), 'evt_processor': REF('Processor'), 'initialize': BOOL, 'tag': STR, 'restore_stop_at': BOOL},
    requires=rs_pre, ensures=rs_post, setup=rs_setup, result=RUN, apply=False)


# ---- saving the schedule

def voided(c, x):
    return c.view(META, c.arr('ScheduledEvent', 'metadata')[x]).val[TYPE] == T(c, VOID)


def entry(c, x):
    A = lambda f: c.arr('ScheduledEvent', f)[x]
    return QE.sort().mk(A('at'), A('order_idx'), x)


def as_saved(c, d, x):
    """the data of the event"""
    D = lambda f: c.arr('EvtData', f)[d]
    X = lambda f: c.arr('ScheduledEvent', f)[x]
    m, n = c.view(META, D('metadata')), c.view(META, X('metadata'))
    k = z3.String('k!as')
    yield 'tick, order and priority', z3.And(*[D(f) == X(f) for f in ('at', 'order_idx', 'priority_type', 'priority')])
    yield 'interval', z3.Implies(n.val[TYPE] == T(c, REP), D('interval') == X('interval'))
    yield 'keys of the metadata', m.dom == n.dom
    yield 'metadata', qall(k, z3.Implies(m.dom[k], m.val[k] == z3.If(CALLABLE(n.val[k]), RESULT(n.val[k], X('evt')), n.val[k])), [m.val[k]])


def unrun(g, x):
    """the event is in the part of the lists, one after the other, that has not run"""
    a, b, n = g.first.len, g.prioritized.len, g.first.len + g.prioritized.len + g.last.len
    at = n - g.size_
    return z3.Or(z3.And(g.first.has(x), g.first.pos(x) >= at), z3.And(g.prioritized.has(x), a + g.prioritized.pos(x) >= at), z3.And(g.last.has(x), a + b + g.last.pos(x) >= at),
                 g.evts_added_during_execution.has(x))


def runner_of(c):
    return View(c.I, c.heap, V(RUN, z3.Int('the_runner')))


def ss_pre(c):
    r = runner_of(c)
    s, g, q, E_ = r.schedule, r.schedule.executing_group, r.schedule.queue, r.end_evts
    top = c.I.eng.alloc_top()
    x, t = z3.Int('x!sp'), z3.Const('t!sp', QE.sort())
    yield 'parts', z3.And(*[z3.And(y > 0, y <= top) for y in (r.ref, s.ref, q.ref, g.ref, E_.ref, c.self.schedule_state.ref)])
    yield 'the lists of the group', S.separate(g)
    yield 'hold different events', z3.And(*[qall(x, z3.Not(z3.And(a.has(x), b.has(x)))) for i, a in enumerate(GL(g)) for b in GL(g)[i + 1:]])
    m = c.arr('ScheduledEvent', 'metadata')
    ok = lambda x: z3.And(x > 0, x <= top, m[x] > 0, m[x] <= top, c.view(META, m[x]).dom[TYPE], z3.Not(CALLABLE(c.view(META, m[x]).val[TYPE])))
    yield 'events have metadata with their type', z3.And(qall(x, z3.Implies(z3.Or(E_.has(x), *[l.has(x) for l in GL(g)]), ok(x))), qall(t, z3.Implies(q.mem[t], ok(S.q2(t))), [q.mem[t]]))
    yield 'what has not run', z3.And(g.size_ >= 0, g.size_ <= g.first.len + g.prioritized.len + g.last.len)
    yield 'queue entries are those of their events', qall(t, z3.Implies(q.mem[t], t == entry(c, S.q2(t))), [q.mem[t]])
    yield 'insertion numbers so far', qall(x, z3.Implies(pending(c, r, x), z3.And(c.arr('ScheduledEvent', 'order_idx')[x] >= 0, c.arr('ScheduledEvent', 'order_idx')[x] <= s.last_count)))
    yield 'an event waits in one place', qall(x, z3.And(z3.Not(z3.And(unrun(g, x), q.mem[entry(c, x)])), z3.Not(z3.And(unrun(g, x), E_.has(x))), z3.Not(z3.And(E_.has(x), q.mem[entry(c, x)]))))


def GL(g):
    return [g.first, g.prioritized, g.last, g.evts_added_during_execution]


def pending(c, r, x):
    return z3.Or(r.end_evts.has(x), unrun(r.schedule.executing_group, x), r.schedule.queue.mem[entry(c, x)])


def ss_post(c):
    r = View(c.I, c.oldheap, V(RUN, z3.Int('the_runner')))
    o = Ctx(c.I, c.oldheap, c.oldheap, c.args, ghost=c.ghost)
    st = c.self.schedule_state
    D = st.evts
    of, ev = c.ghost['dataof'], c.ghost['evtof']
    x, d = z3.Int('x!so'), z3.Int('d!so')
    yield 'the tick', z3.And(st.tick == r.schedule.tick, st.last_count == r.schedule.last_count)
    yield 'every pending event is saved', qall(x, z3.Implies(z3.And(pending(o, r, x), z3.Not(voided(o, x))), z3.And(D.has(of[x]), ev[of[x]] == x)), [of[x]])
    yield 'only pending events are, each once', qall(d, z3.Implies(D.has(d), z3.And(pending(o, r, ev[d]), z3.Not(voided(o, ev[d])), of[ev[d]] == d)), [D.mem[d]])
    for n, f in as_saved(c, d, ev[d]):
        yield 'saved: ' + n, qall(d, z3.Implies(D.has(d), f), [D.mem[d]])
    yield 'numbered up to the saved count', qall(d, z3.Implies(D.has(d), z3.And(c.arr('EvtData', 'order_idx')[d] >= 0, c.arr('EvtData', 'order_idx')[d] <= st.last_count)), [D.mem[d]])


class SsLoop:
    list_type = DATAS

    def __init__(self, k):
        self.k = k

    def ghosts(self, I):
        return ['dataof', 'evtof']

    def __call__(self, lc):
        out, it, g0, g = lc.loc('__comp%d' % self.k), lc.it, lc.g0, lc.ghost
        of, ev, of0, ev0 = g['dataof'], g['evtof'], g0['dataof'], g0['evtof']
        x, d = z3.Int('x!sl'), z3.Int('d!sl')
        at = (lambda x: entry(lc, x)) if it.ty is QUEUE else (lambda x: x)
        done = lambda x: z3.And(it.has(at(x)), it.pos(at(x)) < lc.i, z3.Not(voided(lc, x)))
        top = lc.I.eng.alloc_top()
        yield 'those so far are saved', qall(x, z3.Implies(done(x), z3.And(out.has(of[x]), ev[of[x]] == x)), [of[x]])
        yield 'and only those', qall(d, z3.Implies(out.has(d), z3.And(d > lc.top0, d <= top, done(ev[d]), of[ev[d]] == d)), [out.mem[d]])
        yield 'the data of others are what they were', z3.And(qall(x, z3.Implies(z3.Not(done(x)), of[x] == of0[x]), [of[x]]), qall(d, z3.Implies(d <= lc.top0, ev[d] == ev0[d]), [ev[d]]))
        m = lc.arr('EvtData', 'metadata')
        yield 'their metadata are new', qall(d, z3.Implies(out.has(d), z3.And(m[d] > lc.top0, m[d] <= top)), [out.mem[d]])
        for n, f in as_saved(lc, d, ev[d]):
            yield 'saved: ' + n, qall(d, z3.Implies(out.has(d), f), [out.mem[d]])


for _k in range(3):
    LOOPS[('checkpoint.Checkpoint.save_schedule', 'comp%d' % _k)] = SsLoop(_k)


def ss_setup(I, args):
    g = I.eng.st.ghost
    r = V(RUN, z3.Int('the_runner'))
    I.eng.assume(z3.And(r.t > 0, r.t <= I.eng.st.alloc_base))
    g[('glob', 'schedule', '__runner')] = r
    g['dataof'], g['evtof'] = z3.Const('dataof0', z3.ArraySort(z3.IntSort(), z3.IntSort())), z3.Const('evtof0', z3.ArraySort(z3.IntSort(), z3.IntSort()))


con('checkpoint.Checkpoint.save_schedule', args={'self': CK}, requires=ss_pre, ensures=ss_post, setup=ss_setup, apply=False)
CONTRACTS['checkpoint.Checkpoint.save_schedule'].feas_ms = 60
CONTRACTS['checkpoint.Checkpoint.save_schedule'].explore_s = 240
