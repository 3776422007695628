"""Engine shared by the two front ends (pyfront: Python AST, cppfront: clang AST).

Path exploration is by deterministic re-execution: the front end interprets the function directly; every
symbolic branch asks Eng.branch(), which follows a decision prefix and, beyond it, asks the solver which sides
are feasible.  Every path of the function is visited.  Obligations (pc => goal) are collected and discharged
afterwards, each by z3 (then cvc5 when z3 does not answer).
"""
import time, hashlib, os, sys
import z3

# --------------------------------------------------------------------------- exceptions

class PathEnd(Exception):
    pass

class Unsupported(Exception):
    pass

class Restart(Exception):
    pass

class TooMany(Exception):
    pass

# --------------------------------------------------------------------------- types

class Ty:
    __slots__ = ('name', 'args', 'opt', '_sort')
    _cache = {}

    def __new__(cls, name, args=(), opt=None):
        key = (name, tuple(args), opt)
        t = cls._cache.get(key)
        if t is None:
            t = object.__new__(cls)
            t.name, t.args, t.opt, t._sort = name, tuple(args), opt, None
            cls._cache[key] = t
        return t

    def __repr__(self):
        if self.args:
            return self.name + '<' + ','.join(map(str, self.args)) + ('!' if self.opt else '') + '>'
        return self.name

    @property
    def isref(self):
        return self.name in ('Ref', 'List', 'Dict', 'Set', 'Arr')

    def sort(self):
        if self._sort is None:
            self._sort = self._mk()
        return self._sort

    def _mk(self):
        n = self.name
        if n == 'Int' or self.isref:
            return z3.IntSort()
        if n == 'Real':
            return z3.RealSort()
        if n == 'Bool':
            return z3.BoolSort()
        if n == 'Str':
            return z3.StringSort()
        if n == 'Tup':
            dt = z3.Datatype('Tup_' + '_'.join(safe(str(a)) for a in self.args))
            dt.declare('mk', *[('f%d' % i, a.sort()) for i, a in enumerate(self.args)])
            return dt.create()
        if n == 'Op':
            return z3.DeclareSort(self.args[0])
        raise Unsupported('sort of type %s' % self)


def safe(s):
    return ''.join(ch if ch.isalnum() else '_' for ch in s)

INT, REAL, BOOL, STR = Ty('Int'), Ty('Real'), Ty('Bool'), Ty('Str')
def REF(c): return Ty('Ref', (c,))
def LIST(t): return Ty('List', (t,))
def DLIST(t): return Ty('List', (t,), 'distinct')
def DICT(k, v): return Ty('Dict', (k, v))
def SET(t): return Ty('Set', (t,))
def TUP(*ts): return Ty('Tup', ts)
def OPQ(n): return Ty('Op', (n,))
UID = TUP(INT, INT, INT)
ANY = REF('Any')

# NaN: one designated real that no ordinary value is assumed to equal; comparisons with it are False
NAN = z3.Real('NaN')


class V:
    """A typed symbolic value."""
    __slots__ = ('ty', 't')

    def __init__(self, ty, t):
        self.ty, self.t = ty, t

    def __repr__(self):
        return 'V(%s, %s)' % (self.ty, self.t)


def isv(x):
    return isinstance(x, V)


def fresh_default(ty):
    return None

# --------------------------------------------------------------------------- obligations

class Ob:
    __slots__ = ('unit', 'name', 'kind', 'pc', 'goal', 'path', 'status', 'backend', 'time', 'model', 'cand', 'where')

    def __init__(self, unit, name, kind, pc, goal, path, cand=None, where=None):
        self.unit, self.name, self.kind, self.pc, self.goal, self.path = unit, name, kind, pc, goal, path
        self.status, self.backend, self.time, self.model, self.cand, self.where = None, None, 0.0, None, cand, where

    def text(self):
        return self.goal.sexpr() if not isinstance(self.goal, bool) else ''


# --------------------------------------------------------------------------- state

class State:
    def __init__(self):
        self.pc = []
        self.heap = {}          # field key -> z3 array
        self.conc = {}          # id -> concrete container payload
        self.ghost = {}         # free-form ghost state of the contracts
        self.alloc_n = 0
        self.alloc_base = None

    def snapshot(self):
        s = State()
        s.pc = self.pc
        s.heap = dict(self.heap)
        s.conc = {k: (list(v) if isinstance(v, list) else dict(v) if isinstance(v, dict) else v) for k, v in self.conc.items()}
        s.ghost = dict(self.ghost)
        s.alloc_n, s.alloc_base = self.alloc_n, self.alloc_base
        return s


class Eng:
    MAX_PATHS = 4000

    def __init__(self, unit, bound=None, feas_ms=400):
        self.unit = unit
        self.bound = bound            # None: invariants; k: loops unrolled k times
        self.feas_ms = feas_ms
        self.modsets = {}             # loop key -> set of (field, refkey)
        self.locty = {}               # loop key -> {local: type}
        self.matty = {}               # loop key -> {conc id: type}
        self.cands_off = set()        # houdini: dropped candidates
        self.obs = []
        self.paths = 0
        self.notes = []
        self.cut = False              # a bounded loop was cut
        self.coverage = set()
        self.rets = 0
        self.deadline = None
        self.axioms = []
        self.dcache = {}
        self.apart = {}
        self.papart, self.dkeys, self.dkeep = set(), {}, []     # papart: known on the present path
        self.temp = 0         # hypotheses that will be dropped again are in force
        self.cc = {}

    # ---- exploration
    def explore(self, run):
        for attempt in range(40):
            try:
                self._explore(run)
                return
            except Restart:
                continue
        raise Unsupported('loop frame inference did not converge')

    def _explore(self, run):
        _BO.clear()
        _SIMP.clear()
        _ST.clear()
        self.obs, self.paths, self.cut, self.rets = [], 0, False, 0
        stack = [[]]
        while stack:
            prefix = stack.pop()
            self.prefix, self.pos, self.taken = prefix, 0, []
            self.fresh_n = 0
            self.alts = []
            self.st = State()
            self.st.alloc_base = z3.Int('alloc0')
            self.st.pc = [self.st.alloc_base >= 1] + list(self.axioms)
            self.papart, self.temp, self.pcidx = set(), 0, []
            self.wlog = []            # write logs (stack) for loop frames
            self.trace = []
            self.paths += 1
            if self.paths > self.MAX_PATHS:
                raise TooMany('more than %d paths' % self.MAX_PATHS)
            if self.deadline and time.time() > self.deadline:
                raise TooMany('exploration time limit')
            try:
                run(self)
            except PathEnd:
                pass
            stack.extend(self.alts)

    @property
    def live(self):
        return self.pos >= len(self.prefix)

    def branch(self, cond, hint=''):
        """Returns a Python bool; explores both sides of cond when both are feasible."""
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.taken.append(d)
            self.st.pc.append(cond if d else z3.Not(cond))
            return d
        t = self.feasible(cond)
        f = self.feasible(z3.Not(cond)) if t else True
        if not t and not self.feasible(z3.Not(cond)):
            raise PathEnd()
        d = t
        if t and f:
            self.alts.append(self.taken + [False])
        self.taken.append(d)
        self.pos += 1
        self.prefix = self.prefix + [d]
        self.st.pc.append(cond if d else z3.Not(cond))
        return d

    def choose(self, n, hint=''):
        """Nondeterministic choice among n alternatives."""
        for i in range(n - 1):
            if self.pos < len(self.prefix):
                d = self.prefix[self.pos]
                self.pos += 1
                self.taken.append(d)
            else:
                d = True
                self.alts.append(self.taken + [False])
                self.taken.append(d)
                self.pos += 1
                self.prefix = self.prefix + [d]
            if d:
                return i
        return n - 1

    def feasible(self, cond):
        s = z3.SimpleSolver()
        s.set('rlimit', 4000 * self.feas_ms)     # a limit on work, not on time: the same on a loaded machine
        s.set('timeout', 10 * self.feas_ms)
        s.set('mbqi', False)
        s.set('auto_config', False)
        s.add(*self.st.pc)
        s.add(cond)
        return s.check() != z3.unsat

    def assume(self, f):
        if isinstance(f, bool):
            if not f:
                raise PathEnd()
            return
        self.st.pc.append(f)

    def prove(self, name, goal, kind='assert', cand=None, where=None):
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        if self.live:
            self.obs.append(Ob(self.unit, name, kind, list(self.st.pc), goal, list(self.taken), cand, where))
        if cand is None:
            self.st.pc.append(goal)

    # ---- names
    def fresh(self, name, sort):
        self.fresh_n += 1
        return z3.Const('%s!%d' % (name, self.fresh_n), sort)

    def freshv(self, name, ty):
        return V(ty, self.fresh(name, ty.sort()))

    # ---- heap
    def heap_sort(self, key):
        return self.heap_sorts[key]

    heap_sorts = {}

    def harr(self, key, rng):
        h = self.st.heap
        a = h.get(key)
        if a is None:
            a = z3.Const('H_' + key, z3.ArraySort(z3.IntSort(), rng))
            h[key] = a
            Eng.heap_sorts[key] = rng
        return a

    def hget(self, key, rng, ref):
        return self.resolve(self.harr(key, rng), ref)

    def resolve(self, a, ref):
        """a[ref], looking through stores at references known to be different"""
        ref = simp(ref)
        ri = ref.get_id()
        while True:
            e = store_parts(a)
            if e is None:
                break
            if e[1] == ri:
                return simp(e[3])
            if not self.distinct(e[2], ref):
                break
            a = e[4]
        return z3.simplify(z3.Select(a, ref))

    def distinct(self, r1, r2):
        k = (r1.get_id(), r2.get_id())
        if k in self.apart:
            return True
        r = self._distinct(r1, r2)
        return r

    def _distinct(self, r1, r2):
        if z3.is_int_value(r1) and z3.is_int_value(r2):
            return r1.as_long() != r2.as_long()
        (b1, n1), (b2, n2) = base_offset(r1), base_offset(r2)
        if b1 is not None and b2 is not None:
            i1, i2 = b1.get_id(), b2.get_id()
            if i1 == i2:
                if n1 != n2:
                    self.apart[r1.get_id(), r2.get_id()] = (r1, r2)
                return n1 != n2
            if self.later(i1, n1, i2, n2) or self.later(i2, n2, i1, n1):
                return True
        pk = (r1.get_id(), r2.get_id())
        if pk in self.papart:
            return True
        key = self.dkeys.get(pk)
        if key is None:
            key = tuple(sorted((r1.sexpr(), r2.sexpr())))
            self.dkeys[pk] = key
            self.dkeep.append((r1, r2))
        tk = self.taken
        ent = self.dcache.setdefault(key, ([], []))
        for p in ent[0]:
            if p == tk[:len(p)]:
                if not self.temp:
                    self.papart.add(pk)
                return True
        npc = len(self.st.pc)
        for p, n in reversed(ent[1]):
            if n == npc and p == tk:
                return False
        s = z3.SimpleSolver()
        s.set('rlimit', 400000)
        s.set('timeout', 1000)
        s.set('mbqi', False)
        s.set('auto_config', False)
        want = consts(r1) | consts(r2)
        pc, ix = self.st.pc, self.pcidx
        for f in pc[len(ix):]:
            ix.append(None if has_quant(f) else f_refs(self, f))
        want = want | {'alloc0'}
        s.add(*[h[0] for h in ix if h is not None and (h[2] or h[1] & want)])
        s.add(r1 == r2)
        if s.check() == z3.unsat:
            if not self.temp:
                ent[0].append(list(tk))
                self.papart.add(pk)
            return True
        ent[1].append((list(tk), npc))
        return False

    def later(self, b1, n1, b2, n2):
        """is b2 + n2 allocated after everything up to b1 + n1"""
        ch = self.st.ghost.get('__chain')
        if ch is None or n2 < 1:
            return False
        while b2 in ch:
            par, n, _ = ch[b2]
            if par == b1:
                return n1 <= n
            b2 = par
        return False

    def newtop(self, nb):
        """allocation goes on above nb, which is known to be at least the present top"""
        ob, on = self.st.alloc_base, self.st.alloc_n
        self.st.ghost['__chain'] = dict(self.st.ghost.get('__chain') or {}, **{})
        self.st.ghost['__chain'][nb.get_id()] = (ob.get_id(), on, (nb, ob))
        self.st.alloc_base, self.st.alloc_n = nb, 0

    def hset(self, key, rng, ref, val):
        a = self.harr(key, rng)
        self.st.heap[key] = z3.Store(a, ref, val)
        for log in self.wlog:
            log.add((key, ref))

    def alloc(self, cls='obj'):
        """a fresh reference, different from every earlier one (all are <= alloc0 + n)"""
        self.st.alloc_n += 1
        return z3.simplify(self.st.alloc_base + self.st.alloc_n)

    def alloc_block(self, n):
        """n consecutive fresh references; returns the first."""
        b = z3.simplify(self.st.alloc_base + self.st.alloc_n + 1)
        nb = self.fresh('alloc', z3.IntSort())
        self.st.pc.append(nb == b + z3.If(n > 0, n, 0))
        self.newtop(nb)
        return b

    def alloc_top(self):
        return self.st.alloc_base + self.st.alloc_n


_SIMP, _ST = {}, {}


def simp(t):
    """t simplified (kept: terms are shared between paths)"""
    i = t.get_id()
    r = _SIMP.get(i)
    if r is None:
        n = z3.simplify(t)
        r = _SIMP[i] = (t, n)
        _SIMP.setdefault(n.get_id(), (n, n))
    return r[1]


def store_parts(a):
    """for a store: (itself, id of the index, index, value, array)"""
    i = a.get_id()
    r = _ST.get(i)
    if r is None:
        if z3.is_store(a):
            x = simp(a.arg(1))
            r = (a, x.get_id(), x, a.arg(2), a.arg(0))
        else:
            r = (a, None)
        _ST[i] = r
    return r if r[1] is not None else None


_BO = {}


def base_offset(t):
    """t as base + integer"""
    i = t.get_id()
    r = _BO.get(i)
    if r is None:
        r = _BO[i] = (t, _base_offset(t))
    return r[1]


def _base_offset(t):
    if z3.is_int_value(t):
        return None, t.as_long()
    if z3.is_add(t) and t.num_args() == 2:
        for i in (0, 1):
            if z3.is_int_value(t.arg(i)):
                return t.arg(1 - i), t.arg(i).as_long()
    return t, 0


# --------------------------------------------------------------------------- solving

def _consts(e, acc, seen):
    stack = [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                acc.add(x.decl().name())
            stack.extend(x.children())


def consts(e):
    acc = set()
    _consts(e, acc, set())
    return acc


def attempt(ob, timeout_ms, simple, shuffle=None):
    if simple:
        s = z3.SimpleSolver()
        s.set('mbqi', False)
        s.set('auto_config', False)
    else:
        s = z3.Solver()
    s.set('timeout', int(timeout_ms))
    pc = list(ob.pc)
    if shuffle:
        import random
        random.Random(shuffle).shuffle(pc)
        s.set('random_seed', shuffle)
    s.add(*pc)
    s.add(z3.Not(ob.goal))
    return s.check(), s


def retry_ob(ob, timeout_ms):
    """how soon instantiation finds a proof depends on the order of the hypotheses"""
    t0 = time.time()
    for k in (1, 2, 3, 4):
        if attempt(ob, timeout_ms / 3, True, k)[0] == z3.unsat:
            ob.status = 'proved'
            break
    ob.time += time.time() - t0


def solve_ob(ob, timeout_ms=20000, want_model=True):
    t0 = time.time()
    r, s = attempt(ob, timeout_ms / 3, True)
    if r != z3.unsat:
        r2, s2 = attempt(ob, timeout_ms, False)
        if r2 != z3.unknown:
            r, s = r2, s2
        elif r == z3.sat:
            r = z3.unknown
    ob.time = time.time() - t0
    ob.backend = 'z3 ' + z3.get_version_string()
    if r == z3.unsat:
        ob.status = 'proved'
    elif r == z3.sat:
        ob.status = 'refuted'
        if want_model:
            ob.model = s.model()
    else:
        ob.status = 'unknown'
        ob.model = None
    return ob.status


_HQ = {}


def has_quant(f):
    i = f.get_id()
    h = _HQ.get(i)
    if h is not None and z3.eq(h[0], f):
        return h[1]
    stack, seen, r = [f], set(), False
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            r = True
            break
        stack.extend(x.children())
    _HQ[i] = (f, r)
    return r


def f_refs(eng, f):
    """relevance for the quick disequality test: small ground facts over the symbols of the two references"""
    i = f.get_id()
    h = eng.cc.get(i)
    if h is None or not z3.eq(h[0], f):
        small = len(f.sexpr()) < 4000
        c = consts(f) if small else set()
        h = eng.cc[i] = (f, c, any(x.startswith('alloc') for x in c), small)
    return h if h[3] else None


def to_smt2(ob):
    s = z3.Solver()
    s.add(*ob.pc)
    s.add(z3.Not(ob.goal))
    return s.to_smt2()


def solve_cvc5(ob, timeout_ms=20000):
    import subprocess, tempfile
    t0 = time.time()
    txt = '(set-logic ALL)\n' + to_smt2(ob)
    try:
        p = subprocess.run(['cvc5', '--lang', 'smt2', '--tlimit=%d' % timeout_ms, '-'], input=txt, text=True,
                           capture_output=True, timeout=timeout_ms / 1000 + 5)
        out = p.stdout.strip().splitlines()
        res = out[-1] if out else ''
    except Exception:
        res = ''
    ob.time += time.time() - t0
    if res == 'unsat':
        ob.status, ob.backend = 'proved', 'cvc5'
    elif res == 'sat' and ob.status == 'unknown':
        ob.status, ob.backend = 'refuted', 'cvc5'
    return ob.status
