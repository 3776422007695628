"""Contracts for repast4py/schedule.py (properties S01, S02, S03).

View: the pending events of the tick being executed are the members of the five lists of the group, minus those
already run (ghost set done).  The queue is a duplicate-free list of (tick, order, event) entries.
"""
import z3
from ..core import *
from ..pyfront import *
from ..pyfront import Contract, Ctx, View, qall, lk, dk

EV = REF('ScheduledEvent')
EVL = DLIST(EV)
QE = TUP(REAL, INT, EV)
QUEUE = DLIST(QE)
CALL = REF('Callable')
META = DICT(STR, ANY)

SCHEMA = {
    'ScheduledEvent': {'evt': CALL, 'at': REAL, 'order_idx': INT, 'priority_type': INT, 'priority': REAL,
                       'metadata': META, 'interval': REAL, '__inst_reschedule': CALL,
                       '__kind': INT},
    'RepeatingEvent': {'__base__': 'ScheduledEvent'},
    'OneTimeEvent': {'__base__': 'ScheduledEvent'},
    'ScheduleGroup': {'first': EVL, 'last': EVL, 'random': EVL, 'prioritized': EVL, 'evts_to_execute': EVL,
                      'evts_added_during_execution': EVL, 'executing': BOOL, 'interrupted': BOOL, 'size_': INT},
    'Schedule': {'queue': QUEUE, 'tick': REAL, 'counter': REF('count'), 'last_count': INT,
                 'executing_group': REF('ScheduleGroup')},
    'SharedScheduleRunner': {'comm': REF('Comm'), 'schedule': REF('Schedule'), 'next_tick': REAL, 'end_evts': EVL,
                             'go': BOOL},
    'count': {'n': INT},
    'RNG': {},
    'Comm': {'rank': INT, 'size': INT},
    'Callable': {},
}

FIRST, LAST, RANDOM, BY = 0, 1, 2, 3
LISTS = ('first', 'prioritized', 'last', 'random', 'evts_added_during_execution')


def q0(t): return QE.sort().f0(t)
def q1(t): return QE.sort().f1(t)
def q2(t): return QE.sort().f2(t)


def E(name='e'):
    return z3.Int(name)


# ---------------------------------------------------------------- models of what surrounds the module

def heappush(I, a, kw):
    q = I.deref(a[0])
    t = I.lift(a[1], q.ty.args[0])
    ln, el, ix = I.L(q)
    mem = I.M(q)
    e = I.eng
    hp = e.hget(lk(q.ty, 'hp'), z3.BoolSort(), q.t)
    e.prove('the queue entry is not already in the queue', z3.Not(mem[t]), 'distinct')
    el3, ix3 = I.list_fresh(q.ty)
    I.list_put(q, z3.simplify(ln + 1), el3, ix3, z3.Store(mem, t, True))
    e.hset(lk(q.ty, 'hp'), z3.BoolSort(), q.t, hp)


def lexle(a, b):
    return z3.Or(q0(a) < q0(b), z3.And(q0(a) == q0(b), q1(a) <= q1(b)))


def head_fact(I, q, pos, t):
    """a heap's first entry is its least one (tick, then order)"""
    if q.ty is QUEUE and z3.is_int_value(pos) and pos.as_long() == 0:
        hp = I.eng.hget(lk(q.ty, 'hp'), z3.BoolSort(), q.t)
        x = z3.Const('x!x', QE.sort())
        mem = I.M(q)
        if not z3.is_K(mem):
            I.eng.st.pc.append(z3.Implies(hp, qall(x, z3.Implies(mem[x], lexle(t, x)), [mem[x]])))


def heappop(I, a, kw):
    q = I.deref(a[0])
    ln, el, ix = I.L(q)
    e = I.eng
    if not e.branch(ln > 0):
        raise PyExc('IndexError')
    hp = e.hget(lk(q.ty, 'hp'), z3.BoolSort(), q.t)
    e.prove('heappop is applied to a heap', hp, 'pre')
    t = I.elem(q, z3.IntVal(0))
    mem = I.M(q)
    el3, ix3 = I.list_fresh(q.ty)
    I.list_put(q, z3.simplify(ln - 1), el3, ix3, z3.Store(mem, t, False))
    e.hset(lk(q.ty, 'hp'), z3.BoolSort(), q.t, hp)
    return V(QE, t)


def count_new(I, a, kw):
    c = V(REF('count'), I.eng.alloc())
    I.setfield(c, 'n', a[0] if a else 0)
    return c


def count_next(I, o, a, kw):
    n = I.getfield(o, 'count', 'n')
    I.setfield(o, 'n', I.binop(__import__('ast').Add(), n, 1))
    return n


def rng_integers(I, o, a, kw):
    lo, hi = (a[0], a[1]) if len(a) > 1 else (0, a[0])
    r = I.eng.fresh('rnd', z3.IntSort())
    l, h = I.lift(lo, INT), I.lift(hi, INT)
    top = h if kw.get('endpoint') is True else h - 1
    I.eng.st.pc.append(z3.And(l <= r, r <= top))
    return V(INT, r)


def rng_shuffle(I, o, a, kw):
    v = I.deref(a[0])
    if isinstance(v, Conc):
        raise Unsupported('shuffle of a concrete list')
    I.list_perm(v)


def rng_default(I, o):
    return V(REF('RNG'), z3.Int('default_rng'))


rng_default.is_attr = True


def method_type(I, a, kw):
    return BoundMethod(a[1], a[0])


def before(c, p, e):
    """p must run before e when both are pending for the same tick"""
    pt, pr, oi = (c.arr('ScheduledEvent', f) for f in ('priority_type', 'priority', 'order_idx'))
    def rank(x):
        return z3.If(pt[x] == FIRST, 0, z3.If(pt[x] == LAST, 2, 1))
    return z3.Or(rank(p) < rank(e),
                 z3.And(pt[p] == FIRST, pt[e] == FIRST, oi[p] < oi[e]),
                 z3.And(pt[p] == LAST, pt[e] == LAST, oi[p] < oi[e]),
                 z3.And(pt[p] == BY, pt[e] == BY, pr[p] < pr[e]))


def members(g):
    r = getattr(g, LISTS[0]).mem
    for l in LISTS[1:]:
        r = z3.SetUnion(r, getattr(g, l).mem)
    return r


def member(g, p, lists=LISTS):
    return z3.Or(*[getattr(g, l).has(p) for l in lists])


def callback(I, f, args, kw):
    """An arbitrary user callback.  It may schedule events (through the public API, whose effects are proved below) and
    void events; it changes nothing else of the schedule."""
    e = I.eng
    st = e.st
    gs = st.ghost.get('group')
    if gs is None:
        if st.ghost.get('oncall'):
            st.ghost['oncall'](I, f)
            return None
        st.ghost['calls'] = st.ghost.get('calls', ()) + (f.t,)
        return None
    # the event whose callable this is
    t = z3.simplify(f.t)
    ev = None
    if z3.is_select(t):
        ev = t.arg(1)
    if ev is None:
        raise Unsupported('callback that is not the callable of an event')
    c = Ctx(I, dict(st.heap))
    g = c.v(gs)
    done = st.ghost['done']
    p = e.fresh('pend', z3.IntSort())
    def pending(x):
        return z3.And(member(g, x), z3.Not(done[x]))
    e.prove('an event that runs is pending for this tick and has not run yet', pending(ev), 'post')
    e.prove('no pending event should have run before the chosen one',
            z3.Implies(pending(p), z3.Not(before(c, p, ev))), 'post')
    e.prove('the running event is scheduled for the current tick', c.arr('ScheduledEvent', 'at')[ev] == st.ghost['tick'], 'post')
    e.prove('events added to the running tick are recognised as such while a callback runs', g.executing, 'post')
    st.ghost['done'] = z3.Store(done, ev, True)
    rely(I, gs, st.ghost.get('queue'))
    return None


def rely(I, gs, q):
    """effects of schedule_event / schedule_repeating_event / void called by a running event"""
    e = I.eng
    st = e.st
    c0 = Ctx(I, dict(st.heap))
    g0 = c0.v(gs)
    al = g0.evts_added_during_execution
    lst = V(EVL, al.ref)
    ln, el, ix = I.L(lst)
    top0 = e.alloc_top()
    nb = e.fresh('allocC', z3.IntSort())
    st.pc.append(nb >= top0)
    # new events
    el3, ix3 = I.list_fresh(EVL)
    mem, mem3 = I.M(lst), I.mem_fresh(EVL)
    ln3 = e.fresh('ln', z3.IntSort())
    x, y = z3.Int('x!c'), z3.Int('y!c')
    pc = st.pc
    pc.append(ln3 >= ln)
    pc.append((ln3 == ln) == (mem3 == mem))
    new = I.mem_fresh(EVL)
    pc.append(new == z3.SetDifference(mem3, mem))
    pc.append(z3.IsSubset(mem, mem3))
    pc.append(qall(x, z3.Implies(mem[x], ix3[x] == ix[x]), [ix3[x]]))
    pc.append(qall(x, z3.Implies(new[x], z3.And(x > top0, x <= nb, ix3[x] >= ln)), [new[x]]))
    I.list_put(lst, ln3, el3, ix3, mem3)
    st.alloc_base, st.alloc_n = nb, 0
    for f in ('evt', 'at', 'order_idx', 'priority_type', 'priority', 'metadata', 'interval', '__kind', '__inst_reschedule'):
        k, ft = I.field('ScheduledEvent', f)
        old = e.harr(k, ft.sort())
        newf = e.fresh('H_' + k, old.sort())
        if f not in ('evt', 'metadata', '__inst_reschedule'):
            pc.append(qall(x, z3.Implies(x <= top0, newf[x] == old[x]), [newf[x]]))
        st.heap[k] = newf
    c = Ctx(I, dict(st.heap))
    A = lambda f: c.arr('ScheduledEvent', f)
    newev = lambda v: new[v]
    cnt = st.ghost['counter']
    cnt2 = e.fresh('cnt', z3.IntSort())
    pc.append(cnt2 >= cnt)
    pc.append(qall(x, z3.Implies(newev(x), z3.And(A('at')[x] == st.ghost['tick'], A('order_idx')[x] >= cnt, A('order_idx')[x] < cnt2,
                                                  valid_event(c, x))), [new[x]]))
    pc.append(qall([x, y], z3.Implies(z3.And(newev(x), newev(y), x != y), A('order_idx')[x] != A('order_idx')[y]),
                   [z3.MultiPattern(new[x], new[y])]))
    set_counter(I, cnt2)
    k, ft = I.field('ScheduleGroup', 'interrupted')
    ni = z3.Or(g0.interrupted, ln3 > ln)
    e.hset(k, ft.sort(), gs.t, z3.simplify(ni))
    # queue: entries for later ticks, for new events
    if q is not None:
        qv = V(QUEUE, q.t)
        ln, el, ixq = I.L(qv)
        el3, ixq3 = I.list_fresh(QUEUE)
        memq, memq3, newq = I.M(qv), I.mem_fresh(QUEUE), I.mem_fresh(QUEUE)
        ln3q = e.fresh('lnq', z3.IntSort())
        t = z3.Const('t!c', QE.sort())
        pc.append(ln3q >= ln)
        pc.append(newq == z3.SetDifference(memq3, memq))
        pc.append(z3.IsSubset(memq, memq3))
        pc.append(qall(t, z3.Implies(newq[t],
                                     z3.And(q2(t) > top0, q2(t) <= nb, q0(t) > st.ghost['tick'], q0(t) == A('at')[q2(t)],
                                            q1(t) == A('order_idx')[q2(t)], q1(t) >= cnt, q1(t) < cnt2,
                                            valid_event(c, q2(t)), z3.Not(mem3[q2(t)]))), [newq[t]]))
        t2 = z3.Const('t2!c', QE.sort())
        pc.append(qall([t, t2], z3.Implies(z3.And(newq[t], newq[t2], q1(t) == q1(t2)), t == t2), [z3.MultiPattern(newq[t], newq[t2])]))
        pc.append(qall([x, t], z3.Implies(z3.And(new[x], newq[t]), A('order_idx')[x] != q1(t)),
                       [z3.MultiPattern(new[x], newq[t])]))
        hp = e.hget(lk(QUEUE, 'hp'), z3.BoolSort(), q.t)
        I.list_put(qv, ln3q, el3, ixq3, memq3)
        e.hset(lk(QUEUE, 'hp'), z3.BoolSort(), q.t, hp)
        st.ghost['born'] = st.ghost.get('born')


def set_counter(I, v):
    """the next insertion number (also the value of the schedule's counter object, when there is one)"""
    st = I.eng.st
    st.ghost['counter'] = v
    if st.ghost.get('cobj') is not None:
        I.eng.hset('count.n', z3.IntSort(), st.ghost['cobj'], v)


def valid_event(c, x):
    A = lambda f: c.arr('ScheduledEvent', f)
    return z3.And(A('priority_type')[x] >= FIRST, A('priority_type')[x] <= BY,
                  z3.Implies(A('priority_type')[x] == BY, A('priority')[x] != NAN),
                  z3.Implies(A('__kind')[x] == 1, A('interval')[x] >= 0),
                  A('__kind')[x] >= 0, A('__kind')[x] <= 1)


MODELS = {
    'heapq.heappush': heappush, 'heapq.heappop': heappop,
    'itertools.count': count_new, 'count.__next__': count_next,
    'RNG.integers': rng_integers, 'RNG.shuffle': rng_shuffle, 'random.default_rng': rng_default,
    'elem': head_fact,
    'types.MethodType': method_type,
    'Callable.__call__': callback,
}


# ---------------------------------------------------------------- invariants

def separate(g):
    rs = [getattr(g, l).ref for l in LISTS] + [g.evts_to_execute.ref]
    top = g._I.eng.alloc_top()
    return z3.And(z3.Distinct(*rs), *[z3.And(r > 0, r <= top) for r in rs])


def group_inv(c, g, tick=None, added=True):
    """representation invariant of a group: (name, formula) pairs"""
    x, y = z3.Int('x!g'), z3.Int('y!g')
    A = lambda f: c.arr('ScheduledEvent', f)
    pt = A('priority_type')
    yield 'the lists are separate', separate(g)
    yield 'first holds FIRST events', qall(x, z3.Implies(g.first.has(x), pt[x] == FIRST))
    yield 'last holds LAST events', qall(x, z3.Implies(g.last.has(x), pt[x] == LAST))
    yield 'random holds RANDOM events', qall(x, z3.Implies(g.random.has(x), pt[x] == RANDOM))
    yield 'prioritized holds BY_PRIORITY and RANDOM events', qall(x, z3.Implies(g.prioritized.has(x), z3.Or(pt[x] == BY, pt[x] == RANDOM)))
    yield 'an event is in at most one list', qall(x, z3.Not(z3.And(g.random.has(x), g.prioritized.has(x))))
    if added:
        yield 'a set-aside event is in no other list', qall(x, z3.And(
            *[z3.Not(z3.And(g.evts_added_during_execution.has(x), getattr(g, l).has(x))) for l in ('first', 'last', 'random', 'prioritized')]))
    yield 'members are events', qall(x, z3.Implies(member(g, x), z3.And(x > 0, valid_event(c, x))))
    yield 'insertion numbers are unique', qall([x, y], z3.Implies(z3.And(member(g, x), member(g, y), x != y),
                                                               A('order_idx')[x] != A('order_idx')[y]))
    if tick is not None:
        yield 'members are scheduled for this tick', qall(x, z3.Implies(member(g, x), A('at')[x] == tick))


def size_is(g):
    return g.size_ == g.first.len + g.last.len + g.random.len + g.prioritized.len


def sorted_group(c, g):
    x, y = z3.Int('x!s'), z3.Int('y!s')
    A = lambda f: c.arr('ScheduledEvent', f)
    oi, pt, pr = A('order_idx'), A('priority_type'), A('priority')
    for l in ('first', 'last'):
        L = getattr(g, l)
        yield l + ' is in scheduling order', qall([x, y], z3.Implies(z3.And(L.has(x), L.has(y), L.pos(x) < L.pos(y)), oi[x] <= oi[y]))
    L = g.prioritized
    yield 'BY_PRIORITY events are in priority order', qall([x, y], z3.Implies(
        z3.And(L.has(x), L.has(y), pt[x] == BY, pt[y] == BY, L.pos(x) < L.pos(y)), pr[x] <= pr[y]))
    yield 'RANDOM events have been merged', g.random.len == 0


def alloc_ok(c, g):
    """every member is an allocated event"""
    x = z3.Int('x!a')
    yield 'members are allocated', qall(x, z3.Implies(member(g, x), x <= c.I.eng.alloc_top()))


# ---------------------------------------------------------------- contracts: ScheduleGroup

def ev_arg(c):
    return c.arg('evt').ref


CONTRACTS = {}


def con(qual, **kw):
    CONTRACTS[qual] = Contract(qual, **kw)
    return CONTRACTS[qual]


G = REF('ScheduleGroup')


def add_pre(c):
    g, e = c.self, ev_arg(c)
    yield from group_inv(c, g)
    yield 'event is valid', valid_event(c, e)
    yield 'event is not yet in the group', z3.Not(member(g, e))
    x = z3.Int('x!p')
    yield 'insertion number is new', qall(x, z3.Implies(member(g, x), c.arr('ScheduledEvent', 'order_idx')[x] != c.arr('ScheduledEvent', 'order_idx')[e]))


def add_post(c):
    g, o, e = c.self, c.oself, ev_arg(c)
    x = z3.Int('x!q')
    yield from group_inv(c, g)
    yield 'the event becomes a member and nothing else changes', members(g) == z3.Store(members(o), e, True)
    adl, oadl = g.evts_added_during_execution, o.evts_added_during_execution
    yield 'while executing the event is set aside', z3.Implies(o.executing, z3.And(
        adl.has(e), g.interrupted, g.size_ == o.size_, adl.len == oadl.len + 1,
        *[getattr(g, l).len == getattr(o, l).len for l in ('first', 'last', 'random', 'prioritized')]))
    yield 'otherwise it joins its list and is counted', z3.Implies(z3.Not(o.executing), z3.And(
        adl.len == oadl.len, g.interrupted == o.interrupted, g.size_ == o.size_ + 1,
        z3.Implies(size_is(o), size_is(g))))
    yield 'list membership follows the priority type', z3.Implies(z3.Not(o.executing), qall(x, z3.And(
        adl.has(x) == oadl.has(x),
        *[getattr(g, l).has(x) == z3.Or(getattr(o, l).has(x), z3.And(x == e, c.arr('ScheduledEvent', 'priority_type')[e] == k))
          for l, k in (('first', FIRST), ('last', LAST), ('random', RANDOM), ('prioritized', BY))])))
    yield 'executing flag untouched', g.executing == o.executing


def group_mods(c):
    g = c.self
    return [getattr(g, l) for l in LISTS] + [('ScheduleGroup.' + f, g.ref) for f in ('interrupted', 'size_')]


con('schedule.ScheduleGroup.add_evt', args={'self': G, 'evt': EV}, requires=add_pre, ensures=add_post, modifies=group_mods)


def reset_post(c):
    g, o = c.self, c.oself
    yield 'all lists are empty', z3.And(*[getattr(g, l).len == 0 for l in LISTS])
    x = z3.Int('x!q')
    yield 'no members', qall(x, z3.Not(member(g, x)))
    yield 'size is zero', g.size_ == 0
    yield 'not interrupted', z3.Not(g.interrupted)
    yield 'lists stay separate', separate(g)
    yield 'executing flag untouched', g.executing == o.executing


con('schedule.ScheduleGroup.reset', args={'self': G}, requires=lambda c: [('lists are separate', separate(c.self))],
    ensures=reset_post, modifies=group_mods)


def sort_pre(c):
    yield from group_inv(c, c.self, added=False)


def sort_post(c):
    g, o = c.self, c.oself
    yield from group_inv(c, g, added=False)
    yield from sorted_group(c, g)
    x = z3.Int('x!q')
    yield 'no event is lost or gained', members(g) == members(o)
    yield 'events stay in their class', (z3.And(
        g.first.mem == o.first.mem, g.last.mem == o.last.mem,
        g.prioritized.mem == z3.SetUnion(o.prioritized.mem, o.random.mem),
        g.evts_added_during_execution.mem == o.evts_added_during_execution.mem))
    yield 'the count is untouched', z3.And(g.size_ == o.size_, g.interrupted == o.interrupted, g.executing == o.executing,
                                           g.first.len == o.first.len, g.last.len == o.last.len,
                                           g.evts_added_during_execution.len == o.evts_added_during_execution.len)
    yield 'list lengths add up', g.prioritized.len == o.prioritized.len + o.random.len


con('schedule.ScheduleGroup.sort', args={'self': G}, requires=sort_pre, ensures=sort_post,
    modifies=lambda c: [getattr(c.self, l) for l in ('first', 'last', 'random', 'prioritized')])


def sort_loop(lc):
    """the RANDOM events are inserted one by one into the prioritized list"""
    g, o = lc.self, lc.at0(lc.self)
    x, y = z3.Int('x!l'), z3.Int('y!l')
    L, OL = g.prioritized, o.prioritized
    R = o.random
    A = lambda f: lc.arr('ScheduledEvent', f)
    yield 'same list objects', z3.And(*[getattr(g, l).ref == getattr(o, l).ref for l in LISTS])
    yield 'merged exactly the first i', qall(x, L.has(x) == z3.Or(OL.has(x), z3.And(R.has(x), R.pos(x) < lc.i)))
    yield 'relative order kept', qall([x, y], z3.Implies(z3.And(OL.has(x), OL.has(y)), (L.pos(x) < L.pos(y)) == (OL.pos(x) < OL.pos(y))))
    yield 'length', L.len == OL.len + lc.i
    yield 'random untouched', z3.And(g.random.len == R.len, g.random.ix == R.ix, g.random.mem == R.mem)


LOOPS = {('schedule.ScheduleGroup.sort', 0): sort_loop}


def addex_post(c):
    g, o = c.self, c.oself
    x = z3.Int('x!q')
    yield from group_inv(c, g)
    yield from sorted_group(c, g)
    yield 'no event is lost or gained', members(g) == members(o)
    yield 'nothing is left aside', g.evts_added_during_execution.len == 0
    yield 'size counts the members', size_is(g)
    yield 'flags untouched', z3.And(g.interrupted == o.interrupted, g.executing == o.executing)


con('schedule.ScheduleGroup._add_during_ex_evts', args={'self': G},
    requires=lambda c: list(group_inv(c, c.self)) + [('size', size_is(c.self))],
    ensures=addex_post, modifies=lambda c: [getattr(c.self, l) for l in LISTS] + [('ScheduleGroup.size_', c.self.ref)])


def addex_loop(lc):
    g, o = lc.self, lc.at0(lc.self)
    x = z3.Int('x!l')
    A = lambda f: lc.arr('ScheduledEvent', f)
    ad = o.evts_added_during_execution
    pt = A('priority_type')
    yield 'same list objects', z3.And(*[getattr(g, l).ref == getattr(o, l).ref for l in LISTS])
    for l, k in (('first', FIRST), ('last', LAST), ('random', RANDOM), ('prioritized', BY)):
        yield 'first i events are in ' + l, qall(x, getattr(g, l).has(x) == z3.Or(getattr(o, l).has(x), z3.And(
            ad.has(x), ad.pos(x) < lc.i, pt[x] == k)))
    yield 'size', size_is(g)
    yield 'set-aside list untouched', z3.And(*[getattr(g.evts_added_during_execution, f) == getattr(ad, f) for f in ('len', 'ix', 'mem')])


LOOPS[('schedule.ScheduleGroup._add_during_ex_evts', 0)] = addex_loop


# ---- execution of a group

def exec_setup(I, args):
    g = args['self']
    st = I.eng.st
    st.ghost['group'] = g
    st.ghost['queue'] = args.get('queue')
    st.ghost['done'] = z3.Const('done0', z3.ArraySort(z3.IntSort(), z3.BoolSort()))
    st.ghost['tick'] = z3.Real('curtick')
    st.ghost['counter'] = z3.Int('counter0')
    if 'evts' in args:
        # the three classes are the three cases of the precondition
        args['evts'] = I.getfield(g, 'ScheduleGroup', ('first', 'prioritized', 'last')[I.eng.choose(3)])


def queue_inv(c, q, g, tick, ghost):
    """queue entries are consistent, for events that are not pending in the group, and not before the tick"""
    t, t2 = z3.Const('t!qi', QE.sort()), z3.Const('t2!qi', QE.sort())
    A = lambda f: c.arr('ScheduledEvent', f)
    x = z3.Int('x!qi')
    yield 'queue entries agree with their events', qall(t, z3.Implies(q.has(t), z3.And(
        q0(t) == A('at')[q2(t)], q1(t) == A('order_idx')[q2(t)], q2(t) > 0, q2(t) <= c.I.eng.alloc_top(), valid_event(c, q2(t)))))
    yield 'queue insertion numbers are unique', qall([t, t2], z3.Implies(z3.And(q.has(t), q.has(t2), q1(t) == q1(t2)), t == t2))
    if g is not None:
        yield 'queue entries are not in the past', qall(t, z3.Implies(q.has(t), q0(t) >= tick))
        pend = lambda v: z3.And(member(g, v), z3.Not(ghost['done'][v]))
        yield 'pending events are not queued', qall([t, x], z3.Implies(z3.And(q.has(t), pend(x)), z3.And(
            q2(t) != x, A('order_idx')[x] != q1(t))))
    yield 'queue is a heap', q.hp


def counters(c, g, q, ghost):
    A = lambda f: c.arr('ScheduledEvent', f)
    x = z3.Int('x!k')
    t = z3.Const('t!k', QE.sort())
    yield 'numbers below the counter', qall(x, z3.Implies(member(g, x), A('order_idx')[x] < ghost['counter']))
    yield 'queued numbers below the counter', qall(t, z3.Implies(q.has(t), q1(t) < ghost['counter']))


def exec_common(c, g, q, ghost):
    yield from group_inv(c, g, None)
    yield from alloc_ok(c, g)
    yield from queue_inv(c, q, g, ghost['tick'], ghost)
    yield from counters(c, g, q, ghost)
    x = z3.Int('x!ec')
    yield 'what has run was allocated', qall(x, z3.Implies(ghost['done'][x], x <= c.I.eng.alloc_top()))
    yield 'pending events are scheduled for this tick', qall(x, z3.Implies(z3.And(member(g, x), z3.Not(ghost['done'][x])),
        c.arr('ScheduledEvent', 'at')[x] == ghost['tick']))


def idle(g, ghost):
    """between callbacks: nothing set aside, nobody in the lists has run"""
    x = z3.Int('x!i')
    yield 'nothing set aside', z3.And(g.evts_added_during_execution.len == 0, z3.Not(g.interrupted))
    yield 'members have not run', qall(x, z3.Implies(member(g, x), z3.Not(ghost['done'][x])))
    yield 'size counts the members', size_is(g)


def evts_pre(c):
    g, q, ghost = c.self, c.arg('queue'), c.ghost
    ev = c.arg('evts')
    yield from exec_common(c, g, q, ghost)
    yield from idle(g, ghost)
    yield from sorted_group(c, g)
    yield 'executing', g.executing
    yield 'the list is the next class to run', z3.Or(
        ev.ref == g.first.ref,
        z3.And(ev.ref == g.prioritized.ref, g.first.len == 0),
        z3.And(ev.ref == g.last.ref, g.first.len == 0, g.prioritized.len == 0))


def grows(c, g, o, q, ghost, og):
    x = z3.Int('x!gr')
    yield 'the queue keeps its entries', z3.IsSubset(c.old('queue').mem, q.mem)
    yield 'only pending or new events run', qall(x, z3.Implies(ghost['done'][x], z3.Or(og['done'][x], member(o, x), x > c.oldtop)))
    yield 'only new events are added', qall(x, z3.Implies(member(g, x), z3.Or(member(o, x), x > c.oldtop)))


def evts_post(c):
    g, o, q, ghost = c.self, c.oself, c.arg('queue'), c.ghost
    ev, oev = c.arg('evts'), c.old('evts')
    og = c.oldghost
    x = z3.Int('x!q')
    yield from exec_common(c, g, q, ghost)
    yield from idle(g, ghost)
    yield from sorted_group(c, g)
    yield 'executing flag untouched', g.executing == o.executing
    yield 'same list objects', z3.And(*[getattr(g, l).ref == getattr(o, l).ref for l in LISTS])
    yield 'not interrupted: every event of the class ran, the other classes are untouched', z3.Implies(z3.Not(c.res), z3.And(
        ev.len == 0, *[z3.Implies(getattr(o, l).ref != oev.ref, getattr(g, l).len == getattr(o, l).len) for l in ('first', 'prioritized', 'last')]))
    yield 'no pending event is lost', qall(x, z3.Implies(z3.And(member(o, x), z3.Not(ghost['done'][x])), member(g, x)))
    yield 'an interrupted class has run at least one event and left at least one', z3.Implies(c.res, z3.And(oev.len > 0, g.size_ > 0))
    yield 'what has run stays run', z3.IsSubset(og['done'], ghost['done'])
    yield from grows(c, g, o, q, ghost, og)


def exec_mods(c):
    g, q = c.self, c.arg('queue')
    return ([getattr(g, l) for l in LISTS] + [('ScheduleGroup.' + f, g.ref) for f in ('interrupted', 'size_')] + [q] +
            ['ScheduledEvent.' + f for f in ('evt', 'at', 'order_idx', 'priority_type', 'priority', 'metadata', 'interval', '__kind', '__inst_reschedule')])


def exec_ghost(I, c):
    st = I.eng.st
    st.ghost['done'] = I.eng.fresh('done', st.ghost['done'].sort())
    set_counter(I, I.eng.fresh('cnt', z3.IntSort()))
    nb = I.eng.fresh('allocC', z3.IntSort())
    I.eng.st.pc.append(nb >= I.eng.alloc_top())
    st.alloc_base, st.alloc_n = nb, 0


con('schedule.ScheduleGroup.execute_evts', args={'self': G, 'evts': EVL, 'queue': QUEUE}, requires=evts_pre, ensures=evts_post,
    modifies=exec_mods, result=BOOL, setup=exec_setup, ghost=exec_ghost)


class EvtsLoop:
    def ghosts(self, I):
        return ['done', 'counter']

    def __call__(self, lc):
        g, o = lc.self, lc.at0(lc.self)
        q = lc.arg('queue')
        ev, oev = lc.now(lc.arg('evts')), lc.at0(lc.arg('evts'))
        ghost, g0 = lc.ghost, lc.g0
        x = z3.Int('x!l')
        A = lambda f: lc.arr('ScheduledEvent', f)
        yield 'same list objects', z3.And(*[getattr(g, l).ref == getattr(o, l).ref for l in LISTS])
        yield 'the first i events have run', qall(x, ghost['done'][x] == z3.Or(g0['done'][x], z3.And(oev.has(x), oev.pos(x) < lc.i)))
        yield 'lists untouched', z3.And(*[getattr(g, l).len == getattr(o, l).len for l in LISTS],
                                        *[getattr(g, l).ix == getattr(o, l).ix for l in LISTS[:4]],
                                        *[getattr(g, l).mem == getattr(o, l).mem for l in LISTS])
        yield 'count', g.size_ == o.size_ - lc.i
        yield 'not interrupted', z3.Not(g.interrupted)
        yield 'executing', g.executing
        yield from exec_common(lc, g, q, ghost)
        yield 'the queue keeps its entries', z3.IsSubset(lc.at0(q).mem, q.mem)
        yield 'order data untouched', qall(x, z3.Implies(member(o, x), z3.And(*[A(f)[x] == z3.Select(arr0(lc, f), x) for f in ('priority_type', 'priority', 'order_idx')])))


def arr0(lc, f):
    k, ft = lc.I.field('ScheduledEvent', f)
    return lc.h0.get(k) if lc.h0.get(k) is not None else z3.Const('H_' + k, z3.ArraySort(z3.IntSort(), ft.sort()))


LOOPS[('schedule.ScheduleGroup.execute_evts', 0)] = EvtsLoop()


# reschedule: dispatched on the event's class; each override is verified against it
def resched_post(c):
    e, q, oq = c.self.ref, c.arg('queue'), c.old('queue')
    at, oat = c.arr('ScheduledEvent', 'at'), c.arr('ScheduledEvent', 'at', True)
    oi = c.arr('ScheduledEvent', 'order_idx', True)
    t = z3.Const('t!r', QE.sort())
    kind, voided = c.arr('ScheduledEvent', '__kind', True)[e], c.arr('ScheduledEvent', '__inst_reschedule', True)[e] != 0
    iv = c.arr('ScheduledEvent', 'interval', True)[e]
    rep = z3.And(kind == 1, z3.Not(voided))
    new = QE.sort().mk(oat[e] + iv, oi[e], e)
    yield 'a live repeating event is queued for its next tick and no other entry changes', z3.Implies(rep, z3.And(
        at[e] == oat[e] + iv, q.len == oq.len + 1, qall(t, q.has(t) == z3.Or(oq.has(t), t == new))))
    yield 'any other event is not queued again', z3.Implies(z3.Not(rep), z3.And(
        at[e] == oat[e], q.len == oq.len, qall(t, q.has(t) == oq.has(t))))
    yield 'the queue stays a heap', q.hp == oq.hp


def resched_pre(c):
    q = c.arg('queue')
    e = c.self.ref
    t = z3.Const('t!r', QE.sort())
    yield 'the event is not queued', qall(t, z3.Implies(q.has(t), q2(t) != e))


RESCHED = Contract('schedule.ScheduledEvent.reschedule', args={'self': EV, 'queue': QUEUE}, requires=resched_pre, ensures=resched_post,
                   modifies=lambda c: [c.arg('queue'), ('ScheduledEvent.at', c.self.ref)])
CONTRACTS['schedule.ScheduledEvent.reschedule'] = RESCHED


def resched_unit(cls, kind):
    def setup(I, args):
        e = args['self'].t
        k, ft = I.field('ScheduledEvent', '__kind')
        I.eng.st.pc.append(z3.Select(I.eng.harr(k, ft.sort()), e) == kind)
        k, ft = I.field('ScheduledEvent', '__inst_reschedule')
        I.eng.st.pc.append(z3.Select(I.eng.harr(k, ft.sort()), e) == 0)
    return Contract('schedule.%s.reschedule' % cls, args={'self': REF(cls), 'queue': QUEUE}, requires=resched_pre, ensures=resched_post,
                    modifies=lambda c: [c.arg('queue'), ('ScheduledEvent.at', c.self.ref)], setup=setup)


UNIT_RESCHED_REP = resched_unit('RepeatingEvent', 1)
UNIT_RESCHED_ONE = resched_unit('OneTimeEvent', 0)


def gexec_pre(c):
    g, q, ghost = c.self, c.arg('queue'), c.ghost
    yield from exec_common(c, g, q, ghost)
    yield from idle(g, ghost)
    yield from sorted_group(c, g)


def gexec_post(c):
    g, o, q, ghost = c.self, c.oself, c.arg('queue'), c.ghost
    x = z3.Int('x!q')
    yield from exec_common(c, g, q, ghost)
    yield from idle(g, ghost)
    yield from sorted_group(c, g)
    yield 'same list objects', z3.And(*[getattr(g, l).ref == getattr(o, l).ref for l in LISTS])
    yield 'no pending event is lost', qall(x, z3.Implies(z3.And(member(o, x), z3.Not(ghost['done'][x])), member(g, x)))
    yield 'what has run stays run', z3.IsSubset(c.oldghost['done'], ghost['done'])
    yield from grows(c, g, o, q, ghost, c.oldghost)
    yield 'execution is over exactly when no event is left', g.executing == (g.size_ > 0)


con('schedule.ScheduleGroup.execute', args={'self': G, 'queue': QUEUE}, requires=gexec_pre, ensures=gexec_post,
    modifies=lambda c: exec_mods(c) + [('ScheduleGroup.executing', c.self.ref)], setup=exec_setup, ghost=exec_ghost)


# ---------------------------------------------------------------- Schedule

def new_event(kind):
    def f(I, obj):
        I.setfield(obj, '__kind', kind)
        I.setfield(obj, '__inst_reschedule', None)
    return f


MODELS['alloc:OneTimeEvent'] = new_event(0)
MODELS['alloc:RepeatingEvent'] = new_event(1)
SCH = REF('Schedule')


def sched_inv(c, s, tick=None):
    """the schedule between executions or during a callback"""
    q, g = s.queue, s.executing_group
    tick = s.tick if tick is None else tick
    x = z3.Int('x!si')
    t = z3.Const('t!si', QE.sort())
    yield 'schedule parts exist', z3.And(q.ref > 0, g.ref > 0, s.counter.ref > 0, q.ref <= c.I.eng.alloc_top(), g.ref <= c.I.eng.alloc_top(),
                                         s.counter.ref <= c.I.eng.alloc_top())
    yield from queue_inv(c, q, None, None, None)
    yield 'nothing queued is in the past', qall(t, z3.Implies(q.has(t), q0(t) >= tick))
    yield 'queued numbers below the counter', qall(t, z3.Implies(q.has(t), q1(t) < s.counter.n))


def group_live(c, s):
    g = s.executing_group
    x = z3.Int('x!gl')
    yield from group_inv(c, g)
    yield from alloc_ok(c, g)
    yield 'numbers below the counter', qall(x, z3.Implies(member(g, x), c.arr('ScheduledEvent', 'order_idx')[x] < s.counter.n))


def push_pre(c):
    s, e = c.self, c.arg('evt').ref
    t = z3.Const('t!p', QE.sort())
    yield from sched_inv(c, s)
    yield from group_live(c, s)
    yield 'the event is new', z3.And(e > 0, e <= c.I.eng.alloc_top(), z3.Not(member(s.executing_group, e)),
                                     qall(t, z3.Implies(s.queue.has(t), q2(t) != e)), valid_event(c, e))
    yield 'the tick is a number', c.arg('at') != NAN
    yield 'the event knows its tick', c.arr('ScheduledEvent', 'at')[e] == c.arg('at')


def accepted(c, s, o, e, at, n0):
    """where an event pushed at tick at ends up"""
    q, oq, g, og = s.queue, o.queue, s.executing_group, o.executing_group
    past = at < o.tick
    now = z3.And(z3.Not(past), at == o.tick, og.executing)
    later = z3.And(z3.Not(past), z3.Not(now))
    entry = QE.sort().mk(at, n0, e)
    yield 'an event for a past tick is ignored', z3.Implies(past, z3.And(q.mem == oq.mem, members(g) == members(og), s.counter.n == n0))
    yield 'an event for the running tick joins the running group', z3.Implies(now, z3.And(
        q.mem == oq.mem, members(g) == z3.Store(members(og), e, True), g.evts_added_during_execution.has(e), g.interrupted))
    yield 'any other event is queued for its tick', z3.Implies(later, z3.And(
        q.mem == z3.Store(oq.mem, entry, True), z3.Not(oq.mem[entry]), members(g) == members(og), g.interrupted == og.interrupted))
    yield 'insertion numbers grow', z3.Implies(z3.Not(past), z3.And(c.arr('ScheduledEvent', 'order_idx')[e] == n0, s.counter.n == n0 + 1))
    yield 'the schedule keeps its parts', z3.And(s.queue.ref == o.queue.ref, s.executing_group.ref == o.executing_group.ref,
                                                 s.counter.ref == o.counter.ref, s.tick == o.tick, g.executing == og.executing)


def push_post(c):
    s, o, e, at = c.self, c.oself, c.arg('evt').ref, c.arg('at')
    yield from accepted(c, s, o, e, at, o.counter.n)
    yield from sched_inv(c, s)
    yield from group_live(c, s)


def push_mods(c):
    s = c.self
    g = s.executing_group
    return [getattr(g, l) for l in LISTS] + [('ScheduleGroup.' + f, g.ref) for f in ('interrupted', 'size_')] + [
        s.queue, ('Schedule.last_count', s.ref), ('count.n', s.counter.ref), ('ScheduledEvent.order_idx', c.arg('evt').ref)]


con('schedule.Schedule._push_event', args={'self': SCH, 'at': REAL, 'evt': EV}, requires=push_pre, ensures=push_post, modifies=push_mods)


def sev_pre(c):
    s = c.self
    yield from sched_inv(c, s)
    yield from group_live(c, s)
    yield 'the tick is a number', c.arg('at') != NAN
    yield 'a priority type', z3.And(c.arg('priority_type') >= FIRST, c.arg('priority_type') <= BY)
    yield 'a BY_PRIORITY event has a priority', z3.Implies(c.arg('priority_type') == BY, c.arg('priority') != NAN)
    if 'interval' in c.args:
        yield 'a non-negative interval', c.arg('interval') >= 0


def sev_post(kind):
    def f(c):
        s, o, at = c.self, c.oself, c.arg('at')
        e = c.res.ref
        A = lambda n: c.arr('ScheduledEvent', n)
        yield 'the returned event is new', z3.And(e > c.oldtop, e <= c.I.eng.alloc_top())
        yield 'the event carries what was asked for', z3.And(
            A('at')[e] == at, A('priority_type')[e] == c.arg('priority_type'), A('priority')[e] == c.arg('priority'),
            A('evt')[e] == c.arg('evt').ref, A('__kind')[e] == kind, A('__inst_reschedule')[e] == 0,
            *([A('interval')[e] == c.arg('interval')] if kind == 1 else []))
        yield from accepted(c, s, o, e, at, o.counter.n)
        yield from sched_inv(c, s)
        yield from group_live(c, s)
    return f


def sev_mods(c):
    s = c.self
    g = s.executing_group
    return [getattr(g, l) for l in LISTS] + [('ScheduleGroup.' + f, g.ref) for f in ('interrupted', 'size_')] + [
        s.queue, ('Schedule.last_count', s.ref), ('count.n', s.counter.ref)]


def sev_setup(I, args):
    pass


EVARGS = {'self': SCH, 'at': REAL, 'evt': CALL, 'priority_type': INT, 'priority': REAL, 'metadata': META}
con('schedule.Schedule.schedule_event', args=EVARGS, requires=sev_pre, ensures=sev_post(0), modifies=sev_mods, result=EV, setup=sev_setup)
con('schedule.Schedule.schedule_repeating_event', args={**EVARGS, 'interval': REAL}, requires=sev_pre, ensures=sev_post(1),
    modifies=sev_mods, result=EV, setup=sev_setup)


def head(q):
    t = z3.Const('t!hd', QE.sort())
    return t


def next_post(c):
    q = c.self.queue
    t = z3.Const('t!n', QE.sort())
    yield 'minus one when nothing is scheduled', z3.Implies(q.len == 0, c.res == -1)
    yield 'no queued event is earlier', z3.Implies(q.len > 0, qall(t, z3.Implies(q.has(t), c.res <= q0(t))))
    w = z3.Const('w!n', QE.sort())
    yield 'it is the tick of a queued event', z3.Implies(q.len > 0, z3.Not(qall(w, z3.Implies(q.has(w), q0(w) != c.res))))


con('schedule.Schedule.next_tick', args={'self': SCH}, requires=lambda c: list(sched_inv(c, c.self)), ensures=next_post, modifies=lambda c: [],
    result=REAL)


def new_post(c):
    s = c.res
    x = z3.Int('x!n')
    yield 'nothing is scheduled', s.queue.len == 0
    yield 'tick 0 is not in the past', z3.And(s.tick <= 0)
    yield 'a fresh schedule starts before every tick from 0 on', s.tick < 0
    yield from sched_inv(c, s)
    yield from group_live(c, s)
    yield 'no members', qall(x, z3.Not(member(s.executing_group, x)))
    yield 'not executing', z3.Not(s.executing_group.executing)


con('schedule.Schedule.__new__', args={}, ensures=new_post, result=SCH, apply=False)


def ex_setup(I, args):
    st = I.eng.st
    s = args['self']
    g = I.getfield(s, 'Schedule', 'executing_group')
    q = I.getfield(s, 'Schedule', 'queue')
    co = I.getfield(s, 'Schedule', 'counter')
    st.ghost['group'], st.ghost['queue'], st.ghost['cobj'] = g, q, co.t
    st.ghost['counter'] = I.eng.hget('count.n', z3.IntSort(), co.t)
    st.ghost['done'] = z3.K(z3.IntSort(), z3.BoolVal(False))
    # the tick about to run: that of the head of the queue
    tick = z3.Real('curtick')
    ln, el, ix = I.L(q)
    h = I.elem(q, z3.IntVal(0))
    st.pc.append(z3.Implies(ln > 0, tick == q0(h)))
    st.ghost['tick'] = tick
    st.ghost['memq0'] = I.M(q)


def sexec_pre(c):
    s = c.self
    g = s.executing_group
    yield from sched_inv(c, s)
    yield 'the lists are separate', separate(g)
    yield 'not executing', z3.Not(g.executing)


def sexec_post(c):
    s, o, gh = c.self, c.oself, c.ghost
    q, oq, g = s.queue, o.queue, s.executing_group
    t = z3.Const('t!x', QE.sort())
    x = z3.Int('x!x')
    tick = gh['tick']
    yield 'an empty schedule does nothing', z3.Implies(oq.len == 0, z3.And(s.tick == o.tick, q.len == 0))
    yield 'the tick moves to the earliest queued one', z3.Implies(oq.len > 0, z3.And(s.tick == tick, s.tick >= o.tick))
    yield 'every event queued for the tick has run', qall(t, z3.Implies(z3.And(oq.has(t), q0(t) == tick), gh['done'][q2(t)]))
    yield 'no event queued for a later tick is lost', qall(t, z3.Implies(z3.And(oq.has(t), q0(t) != tick), q.has(t)))
    yield 'no event queued for a later tick has run', qall(t, z3.Implies(z3.And(oq.has(t), q0(t) != tick), z3.Not(gh['done'][q2(t)])))
    yield from sched_inv(c, s)
    yield 'the lists are separate', separate(g)
    yield 'not executing', z3.Not(g.executing)
    yield 'the schedule keeps its parts', z3.And(s.queue.ref == o.queue.ref, s.executing_group.ref == o.executing_group.ref, s.counter.ref == o.counter.ref)


def sexec_mods(c):
    s = c.self
    g = s.executing_group
    return ([getattr(g, l) for l in LISTS] + [('ScheduleGroup.' + f, g.ref) for f in ('interrupted', 'size_', 'executing')] + [s.queue] +
            [('count.n', s.counter.ref), ('Schedule.tick', s.ref)] +
            ['ScheduledEvent.' + f for f in ('evt', 'at', 'order_idx', 'priority_type', 'priority', 'metadata', 'interval', '__kind', '__inst_reschedule')])


con('schedule.Schedule.execute', args={'self': SCH}, requires=sexec_pre, ensures=sexec_post, modifies=sexec_mods, setup=ex_setup)


def collect_loop(lc):
    """the entries for the tick move from the queue to the group"""
    s = lc.self
    q, g = s.queue, s.executing_group
    m0 = lc.ghost['memq0']
    t = z3.Const('t!cl', QE.sort())
    x = z3.Int('x!cl')
    tick = lc.ghost['tick']
    A = lambda f: lc.arr('ScheduledEvent', f)
    ent = lambda v: QE.sort().mk(A('at')[v], A('order_idx')[v], v)
    yield 'parts', z3.And(q.ref == lc.oself.queue.ref, g.ref == lc.oself.executing_group.ref, s.counter.ref == lc.oself.counter.ref,
                          *[getattr(g, l).ref == getattr(lc.oself.executing_group, l).ref for l in LISTS])
    yield 'tick', s.tick == tick
    yield 'counter', s.counter.n == lc.ghost['counter']
    yield from sched_inv(lc, s, tick)
    yield from group_live(lc, s)
    yield 'not executing', z3.And(z3.Not(g.executing), z3.Not(g.interrupted), g.evts_added_during_execution.len == 0)
    yield 'the queue only shrinks', z3.IsSubset(q.mem, m0)
    yield 'a collected entry is for this tick and its event is a member', qall(t, z3.Implies(z3.And(m0[t], z3.Not(q.mem[t])), z3.And(
        q0(t) == tick, member(g, q2(t)))))
    yield 'a member comes from a collected entry', qall(x, z3.Implies(member(g, x), z3.And(m0[ent(x)], z3.Not(q.mem[ent(x)]))))
    yield 'size', size_is(g)
    go = lc.loc('go')
    go = go if not isinstance(go, bool) else z3.BoolVal(go)
    e = lc.loc('evt').ref
    yield 'the next entry', z3.Implies(go, z3.And(q.len > 0, qall(t, z3.Implies(z3.And(q.mem[t], q.ix[t] == 0), z3.And(q0(t) == tick, q2(t) == e)))))
    yield 'all entries for the tick are collected at the end', z3.Implies(z3.Not(go), qall(t, z3.Implies(q.mem[t], q0(t) != tick)))


LOOPS[('schedule.Schedule.execute', 0)] = collect_loop


class RunLoop:
    def ghosts(self, I):
        return ['done', 'counter']

    def __call__(self, lc):
        s, gh = lc.self, lc.ghost
        q, g = s.queue, s.executing_group
        m0 = gh['memq0']
        t = z3.Const('t!rl', QE.sort())
        tick = gh['tick']
        yield 'parts', z3.And(q.ref == lc.oself.queue.ref, g.ref == lc.oself.executing_group.ref, s.counter.ref == lc.oself.counter.ref,
                              *[getattr(g, l).ref == getattr(lc.oself.executing_group, l).ref for l in LISTS])
        yield 'tick', s.tick == tick
        yield 'counter', s.counter.n == gh['counter']
        yield from exec_common(lc, g, q, gh)
        yield from idle(g, gh)
        yield from sorted_group(lc, g)
        yield 'executing only while events are left', z3.Implies(g.size_ == 0, z3.Not(g.executing))
        yield 'entries for the tick are members or have run', qall(t, z3.Implies(z3.And(m0[t], q0(t) == tick), z3.Or(gh['done'][q2(t)], member(g, q2(t)))))
        yield 'events queued for later have not run', qall(t, z3.Implies(z3.And(m0[t], q0(t) != tick), z3.And(z3.Not(gh['done'][q2(t)]), z3.Not(member(g, q2(t))), q2(t) <= lc.top0)))
        yield 'later entries stay queued', qall(t, z3.Implies(z3.And(m0[t], q0(t) != tick), q.mem[t]))


LOOPS[('schedule.Schedule.execute', 1)] = RunLoop()


# ---------------------------------------------------------------- events: void and call

def void_post(c):
    e = c.self.ref
    A = lambda n, old=False: c.arr('ScheduledEvent', n, old)
    noop = z3.Int('fn_' + safe('schedule._noop_evt'))
    yield 'the callable is replaced by one that does nothing', A('evt')[e] == noop
    yield 'the rest of the event is untouched', z3.And(*[A(f)[e] == A(f, True)[e] for f in ('at', 'order_idx', 'priority_type', 'priority')])


def live(kind):
    def setup(I, args):
        e = args['self'].t
        for f, v in (('__kind', kind), ('__inst_reschedule', 0)):
            k, ft = I.field('ScheduledEvent', f)
            I.eng.st.pc.append(z3.Select(I.eng.harr(k, ft.sort()), e) == v)
        k, ft = I.field('ScheduledEvent', 'metadata')
        m = z3.Select(I.eng.harr(k, ft.sort()), e)
        I.eng.st.pc.append(z3.And(m > 0, m <= I.eng.st.alloc_base))
    return setup


def void_mods(c):
    return [('ScheduledEvent.evt', c.self.ref), ('ScheduledEvent.__inst_reschedule', c.self.ref), c.self.metadata]


UNIT_VOID_REP = Contract('schedule.RepeatingEvent.void', args={'self': REF('RepeatingEvent')}, ensures=void_post, modifies=void_mods, setup=live(1))
UNIT_VOID_ONE = Contract('schedule.OneTimeEvent.void', args={'self': REF('OneTimeEvent')}, ensures=void_post, modifies=void_mods, setup=live(0))


def lemma_void(cls, kind):
    """voiding, then being run and asked to reschedule: no callback, no new queue entry (Callable.__call__ is never reached)"""
    def setup(I, args):
        live(kind)(I, args)
        I.eng.st.ghost['oncall'] = lambda I, f: I.eng.prove('a voided event never reaches a user callback', z3.BoolVal(False), 'post')
    def post(c):
        q, oq = c.arg('queue'), c.old('queue')
        yield 'a voided event is not queued again', z3.And(q.len == oq.len, q.mem == oq.mem)
    return Contract('schedule.lemma_void_' + cls, args={'self': REF(cls), 'queue': QUEUE}, ensures=post, setup=setup, apply=False,
                    code='def lemma(self, queue):\n    self.void()\n    self()\n    self.reschedule(queue)\n    self()\n    self.reschedule(queue)\n')


LEMMA_VOID_REP = lemma_void('RepeatingEvent', 1)
LEMMA_VOID_ONE = lemma_void('OneTimeEvent', 0)


def lemma_call():
    def setup(I, args):
        st = I.eng.st
        st.ghost['ncalls'] = z3.IntVal(0)
        def on(I, f):
            k, ft = I.field('ScheduledEvent', 'evt')
            I.eng.prove('the callable that runs is the one of the event', f.t == I.eng.hget(k, ft.sort(), args['self'].t), 'post')
            I.eng.st.ghost['ncalls'] = I.eng.st.ghost['ncalls'] + 1
        st.ghost['oncall'] = on
    return Contract('schedule.ScheduledEvent.__call__', args={'self': EV}, setup=setup, apply=False, modifies=lambda c: [],
                    ensures=lambda c: [('calling an event calls its callable once', c.ghost['ncalls'] == 1)])


UNIT_CALL = lemma_call()

# ---------------------------------------------------------------- SharedScheduleRunner

INF = z3.Real('INF')
RUN = REF('SharedScheduleRunner')


def earliest(c, q, v):
    """v is the earliest queued tick, INF when nothing is queued"""
    t, w = z3.Const('t!ea', QE.sort()), z3.Const('w!ea', QE.sort())
    return z3.And(z3.Implies(q.len == 0, v == INF),
                  z3.Implies(q.len > 0, z3.And(qall(t, z3.Implies(q.has(t), v <= q0(t))), z3.Not(qall(w, z3.Implies(q.has(w), q0(w) != v))))))


def allreduce(I, o, a, kw):
    """assumed: the minimum over the ranks of what they contribute is agreed by all"""
    op = kw.get('op', a[1] if len(a) > 1 else None)
    e = I.eng
    loc = I.lift(a[0], REAL)
    c = Ctx(I, dict(e.st.heap))
    sch = e.st.ghost['schedule']
    q = c.view(SCH, sch).queue
    e.prove('a rank contributes its next tick, or infinity when it has nothing scheduled', earliest(c, q, loc), 'post')
    g = e.fresh('gmin', z3.RealSort())
    if isinstance(op, Ext) and op.name.endswith('.MIN'):
        e.st.pc.append(g <= loc)
    elif isinstance(op, Ext) and op.name.endswith('.MAX'):
        e.st.pc.append(g >= loc)
    e.prove('the ranks agree on the minimum', z3.BoolVal(isinstance(op, Ext) and op.name.endswith('.MIN')), 'post')
    e.st.ghost['gmin'] = g
    e.st.ghost['due'] = z3.And(q.len > 0, loc == g)
    e.st.ghost['ran'] = z3.BoolVal(False)
    return V(REAL, g)


MODELS['Comm.allreduce'] = allreduce

_pre0, _mods0, _post0 = sexec_pre, sexec_mods, sexec_post


def sexec_pre_r(c):
    yield from _pre0(c)
    if 'gmin' in c.ghost:
        yield 'a rank runs a tick only when all ranks agreed on it', z3.And(c.self.queue.len > 0, earliest(c, c.self.queue, c.ghost['gmin']))


def sexec_mods_r(c):
    return _mods0(c) + ['SharedScheduleRunner.go', 'SharedScheduleRunner.next_tick']


def sexec_post_r(c):
    yield from _post0(c)
    oq = c.oself.queue
    yield 'the tick that ran is the earliest queued one', z3.Implies(oq.len > 0, earliest(c, oq, c.ghost['tick']))


def sexec_ghost(I, c):
    st = I.eng.st
    st.ghost['done'] = I.eng.fresh('done', z3.ArraySort(z3.IntSort(), z3.BoolSort()))
    st.ghost['tick'] = I.eng.fresh('tick', z3.RealSort())
    st.ghost['ran'] = z3.BoolVal(True)
    nb = I.eng.fresh('allocC', z3.IntSort())
    st.pc.append(nb >= I.eng.alloc_top())
    st.alloc_base, st.alloc_n = nb, 0
    # rely on the callbacks: what they schedule (and the intervals) keeps queued ticks finite and not negative
    if 'schedule' in st.ghost:
        for n, f in finite(Ctx(I, st.heap), Ctx(I, st.heap).view(SCH, st.ghost['schedule']).queue):
            st.pc.append(f)
    # callbacks can only stop the runner, never restart it
    k, ft = I.field('SharedScheduleRunner', 'go')
    x = z3.Int('x!go')
    new = st.heap[k]
    old = c.oldheap.get(k)
    if old is not None:
        st.pc.append(qall(x, z3.Implies(new[x], old[x]), [new[x]]))


con('schedule.Schedule.execute', args={'self': SCH}, requires=sexec_pre_r, ensures=sexec_post_r, modifies=sexec_mods_r, setup=ex_setup, ghost=sexec_ghost)


def run_inv(c, r):
    s = r.schedule
    g = s.executing_group
    yield 'the runner has a schedule', z3.And(s.ref > 0, s.ref <= c.I.eng.alloc_top(), r.end_evts.ref > 0, r.end_evts.ref <= c.I.eng.alloc_top(), r.comm.ref > 0)
    yield from sched_inv(c, s)
    yield 'the lists are separate', z3.And(separate(g), *[getattr(g, l).ref != r.end_evts.ref for l in LISTS])
    yield 'not executing', z3.Not(g.executing)


def finite(c, q):
    t = z3.Const('t!fi', QE.sort())
    yield 'queued ticks are finite and not negative', z3.And(INF > 0, qall(t, z3.Implies(q.has(t), z3.And(q0(t) < INF, q0(t) >= 0))))


def rexec_pre(c):
    yield from run_inv(c, c.self)
    yield from finite(c, c.self.schedule.queue)


def rexec_setup(I, args):
    st = I.eng.st
    r = args['self']
    st.ghost['schedule'] = I.getfield(r, 'SharedScheduleRunner', 'schedule').t
    st.ghost['due'] = st.ghost['ran'] = z3.BoolVal(False)
    st.ghost['gmin'] = z3.Real('gmin0')
    st.ghost['ended'] = z3.K(z3.IntSort(), z3.BoolVal(False))
    st.ghost['done'] = z3.Const('done0', z3.ArraySort(z3.IntSort(), z3.BoolSort()))
    st.ghost['tick'] = z3.Real('tick0')
    def on(I, f):
        t = z3.simplify(f.t)
        ev = t.arg(1) if z3.is_select(t) else None
        if ev is None:
            raise Unsupported('callback that is not the callable of an event')
        st = I.eng.st
        I.eng.prove('an end event runs once', z3.Not(st.ghost['ended'][ev]), 'post')
        I.eng.prove('end events run when the schedule has ended', over(Ctx(I, st.heap), Ctx(I, st.heap).v(r), st.ghost), 'post')
        st.ghost['ended'] = z3.Store(st.ghost['ended'], ev, True)
    st.ghost['oncall'] = on


def over(c, r, gh):
    """stopped, or nothing is scheduled on any rank"""
    return z3.Or(z3.Not(r.go), gh['gmin'] == INF)


def rexec_post(c):
    r, o, gh = c.self, c.oself, c.ghost
    x = z3.Int('x!re')
    yield 'every end event has run', qall(x, gh['ended'][x] == o.end_evts.has(x))
    yield 'it ends only when stopped or when no rank has anything scheduled', z3.Or(z3.Not(r.go), gh['gmin'] == INF)


con('schedule.SharedScheduleRunner.execute', args={'self': RUN}, requires=rexec_pre, ensures=rexec_post, setup=rexec_setup, apply=False)


class RunnerLoop:
    def ghosts(self, I):
        return ['due', 'ran', 'gmin', 'done', 'tick']

    def __call__(self, lc):
        r, o = lc.self, lc.oself
        yield 'parts', z3.And(r.schedule.ref == o.schedule.ref, r.comm.ref == o.comm.ref, r.end_evts.ref == o.end_evts.ref,
                              r.end_evts.len == o.end_evts.len, r.end_evts.mem == o.end_evts.mem,
                              r.schedule.queue.ref == o.schedule.queue.ref, r.schedule.executing_group.ref == o.schedule.executing_group.ref)
        yield from run_inv(lc, r)
        yield from finite(lc, r.schedule.queue)
        yield 'a rank whose next tick was agreed on has run it', z3.Implies(lc.ghost['due'], lc.ghost['ran'])
        yield 'no end event has run', lc.ghost['ended'] == z3.K(z3.IntSort(), z3.BoolVal(False))


LOOPS[('schedule.SharedScheduleRunner.execute', 0)] = RunnerLoop()


class EndLoop:
    def ghosts(self, I):
        return ['ended']

    def __call__(self, lc):
        r, o = lc.self, lc.oself
        ev = o.end_evts
        x = z3.Int('x!el')
        yield 'the first i end events have run', qall(x, lc.ghost['ended'][x] == z3.And(ev.has(x), ev.pos(x) < lc.i))
        yield 'ended', over(lc, r, lc.ghost)


LOOPS[('schedule.SharedScheduleRunner.execute', 1)] = EndLoop()


def on_runner(f, **more):
    """the same contract, for the runner's schedule"""
    class R:
        pass
    def g(c):
        c2 = Ctx(c.I, c.heap, c.oldheap, dict(c.args), c.result, c.exc, ghost=c.ghost, oldghost=c.oldghost)
        c2.oldtop = c.oldtop
        a = c.args['self']
        k, ft = c.I.field('SharedScheduleRunner', 'schedule')
        c2.args['self'] = V(SCH, View(c.I, c.oldheap, a).schedule.ref)
        yield from f(c2)
        for k, v in more.items():
            yield from v(c)
    return g


def rsev_pre(c):
    r = c.self
    yield 'the runner has a schedule', z3.And(r.schedule.ref > 0, r.schedule.ref <= c.I.eng.alloc_top())


def next_ok(c):
    r = c.self
    q = r.schedule.queue
    yield 'the schedule is still the runner\'s', r.schedule.ref == c.oself.schedule.ref


def rmods(c):
    r = c.self
    s = r.schedule
    g = s.executing_group
    return [getattr(g, l) for l in LISTS] + [('ScheduleGroup.' + f, g.ref) for f in ('interrupted', 'size_')] + [
        s.queue, ('Schedule.last_count', s.ref), ('count.n', s.counter.ref), ('SharedScheduleRunner.next_tick', r.ref)]


RARGS = {k: v for k, v in EVARGS.items() if k != 'self'}
con('schedule.SharedScheduleRunner.schedule_event', args={'self': RUN, **RARGS}, requires=on_runner(sev_pre, a=rsev_pre),
    ensures=on_runner(sev_post(0), a=next_ok), modifies=rmods, result=EV)
con('schedule.SharedScheduleRunner.schedule_repeating_event', args={'self': RUN, **RARGS, 'interval': REAL}, requires=on_runner(sev_pre, a=rsev_pre),
    ensures=on_runner(sev_post(1), a=next_ok), modifies=rmods, result=EV)


def sstop_post(c):
    e = c.res.ref
    A = lambda n: c.arr('ScheduledEvent', n)
    t = z3.simplify(z3.Select(A('evt'), e))
    cl = c.ghost.get('stopfn')
    yield 'a stop is scheduled at the tick asked for', A('at')[e] == c.arg('at')
    yield from accepted(c, c.self.schedule, c.oself.schedule, e, c.arg('at'), c.oself.schedule.counter.n)
    cs = c.ghost.get('callables', {})
    ks = [k for k, v in cs.items() if isinstance(v, BoundMethod) and v.func.qual == 'schedule.SharedScheduleRunner.stop' and z3.eq(v.obj.t, c.self.ref)]
    yield 'its callable is the stop of this runner', z3.Or(*[z3.Int(k) == A('evt')[e] for k in ks]) if ks else z3.BoolVal(False)


def sstop_pre(c):
    s = c.self.schedule
    yield from rsev_pre(c)
    yield from sched_inv(c, s)
    yield from group_live(c, s)
    yield 'the tick is a number', c.arg('at') != NAN


con('schedule.SharedScheduleRunner.schedule_stop', args={'self': RUN, 'at': REAL}, requires=sstop_pre, ensures=sstop_post, modifies=rmods, result=EV)
con('schedule.SharedScheduleRunner.stop', args={'self': RUN}, ensures=lambda c: [('execution is asked to stop', z3.Not(c.self.go))],
    modifies=lambda c: [('SharedScheduleRunner.go', c.self.ref)])
con('schedule.SharedScheduleRunner.tick', args={'self': RUN}, requires=rsev_pre, ensures=lambda c: [('the current tick', c.res == c.self.schedule.tick)],
    modifies=lambda c: [], result=REAL)


def send_post(c):
    e = c.res.ref
    L, O = c.self.end_evts, c.oself.end_evts
    A = lambda n: c.arr('ScheduledEvent', n)
    yield 'the end event is new and carries the callable', z3.And(e > c.oldtop, A('evt')[e] == c.arg('evt').ref)
    yield 'it is the last of the end events', z3.And(L.ref == O.ref, L.mem == z3.Store(O.mem, e, True), L.len == O.len + 1, L.pos(e) == O.len)


def send_pre(c):
    x = z3.Int('x!sp')
    L = c.self.end_evts
    yield 'end events are allocated', z3.And(L.ref > 0, L.ref <= c.I.eng.alloc_top(), qall(x, z3.Implies(L.has(x), x <= c.I.eng.alloc_top())))


con('schedule.SharedScheduleRunner.schedule_end_event', args={'self': RUN, 'evt': CALL, 'metadata': META}, requires=send_pre, ensures=send_post,
    modifies=lambda c: [c.self.end_evts], result=EV)


def rnew_post(c):
    r = c.res
    yield 'not stopped', r.go
    yield 'no end events', r.end_evts.len == 0
    yield from run_inv(c, r)
    yield 'nothing is scheduled', r.schedule.queue.len == 0


con('schedule.SharedScheduleRunner.__new__', args={'comm': REF('Comm')}, ensures=rnew_post, result=RUN, apply=False)
