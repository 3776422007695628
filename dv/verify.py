"""Runs the verifier on one unit (a function of the repository against its contract)."""
import os, time, traceback, multiprocessing as mp
import z3
from .core import *
from . import core
from .pyfront import *

TIMEOUT_MS = 15000


_OBS = None


def _solve_idx(args):
    i, to, cvc = args
    ob = _OBS[i]
    try:
        if cvc == 'again':
            retry_ob(ob, to)
            return i, ob.status, ob.backend, ob.time, None
        solve_ob(ob, to, want_model=True)
        model = None
        if ob.status == 'refuted' and ob.model is not None:
            model = model_text(ob.model)
        if ob.status != 'proved' and cvc:
            st = ob.status
            if st == 'unknown':
                solve_cvc5(ob, to)
    except Exception as ex:   # solver crash: undecided
        return i, 'unknown', 'error %s' % ex, ob.time, None
    return i, ob.status, ob.backend, ob.time, model


def model_text(m, limit=60):
    out = []
    for d in m.decls()[:400]:
        try:
            s = '%s = %s' % (d.name(), m[d])
        except Exception:
            continue
        s = s.replace('\n', ' ')
        if len(s) < 300:
            out.append(s)
    return sorted(out)[:limit]


def immediate(o):
    """the goal simplifies to true, or is one of the hypotheses"""
    if z3.is_true(z3.simplify(o.goal)):
        return True
    i = o.goal.get_id()
    return any(p.get_id() == i for p in o.pc)


def solve_all(obs, timeout_ms=TIMEOUT_MS, cvc=True, workers=None):
    global _OBS
    for o in obs:
        if o.status is None and immediate(o):
            o.status, o.backend, o.time = 'proved', 'simplifier', 0.0
    todo = [i for i, o in enumerate(obs) if o.status is None]
    if not todo:
        return
    _OBS = obs
    workers = workers or min(8, max(1, len(todo)))
    if workers == 1 or len(todo) <= 3:
        res = [_solve_idx((i, timeout_ms, cvc)) for i in todo]
    else:
        with mp.get_context('fork').Pool(workers) as p:
            res = p.map(_solve_idx, [(i, timeout_ms, cvc) for i in todo], chunksize=1)
    for i, st, be, t, model in res:
        o = obs[i]
        o.status, o.backend, o.time, o.model = st, be, t, model
    again = [i for i in todo if obs[i].status == 'unknown']
    if cvc and 0 < len(again) <= 16 and not any(o.status == 'refuted' for o in obs):
        with mp.get_context('fork').Pool(min(8, len(again))) as p:
            for i, st, be, t, model in p.map(_solve_idx, [(i, timeout_ms, 'again') for i in again], chunksize=1):
                obs[i].status, obs[i].time = st, t


class UnitResult:
    def __init__(self, name):
        self.name = name
        self.obs = []
        self.status = None        # proved | refuted | undecided | unsupported
        self.mode = None
        self.why = ''
        self.paths = 0
        self.returns = 0
        self.called, self.inlined, self.models = set(), set(), set()
        self.time = 0.0
        self.notes = []
        self.failed = []

    def summary(self):
        return '%s: %s (%s) obligations=%d paths=%d %.1fs %s' % (self.name, self.status, self.mode, len(self.obs), self.paths, self.time, self.why)


AUX = ('inv-entry', 'inv-preserve', 'cand')


class PyUnit:
    """contract + function of the Python source"""
    INTERP = Interp

    def __init__(self, name, con, repo, schema, contracts, loops, models, inline=(), timeout=TIMEOUT_MS, bound=3, maxpaths=4000, bounded_s=40):
        self.name, self.con, self.repo, self.schema = name, con, repo, schema
        self.contracts, self.loops, self.models, self.inline = contracts, loops, models, inline
        self.timeout, self.bound, self.maxpaths, self.bounded_s = timeout, bound, maxpaths, bounded_s

    def mkrun(self, holder):
        con = self.con

        def run(eng):
            I = self.INTERP(eng, self.repo, self.schema, self.contracts, self.loops, self.models, con.qual, self.inline + (con.qual,))
            I.dynfields = holder.setdefault('dyn', {})
            holder['I'] = I
            args = {}
            for n, ty in con.args.items():
                if callable(ty) and not isinstance(ty, Ty):
                    args[n] = ty(I)
                    continue
                opt = False
                if isinstance(ty, tuple) and ty and ty[0] == 'opt':
                    ty, opt = ty[1], True
                v = V(ty, z3.Const('arg_' + n, ty.sort()))
                if ty.isref:
                    eng.st.pc.append(z3.And(v.t >= (0 if opt else 1), v.t <= eng.st.alloc_base))
                args[n] = v
            I.entry_args = args
            if con.setup:
                con.setup(I, args)
            pre = Ctx(I, dict(eng.st.heap), None, args)
            for n, f in (con.requires(pre) if con.requires else []):
                eng.assume(f)
            I.entry_heap = dict(eng.st.heap)
            I.entry_ghost = dict(eng.st.ghost)
            if not holder.get('cover'):
                holder['cover'] = list(eng.st.pc)
            if con.code:
                # a lemma: a short driver over the real code
                import ast as _ast
                mod = self.repo.mods.get(con.qual.split('.')[0]) or self.repo.module(con.qual.split('.')[0])
                f = FuncVal(mod, _ast.parse(con.code).body[0], con.qual)
            else:
                f = self.repo.find(con.qual) if not con.qual.endswith('.__new__') else None
                if f is None and not con.qual.endswith('.__new__'):
                    raise Unsupported('function %s is no longer there' % con.qual)
            exc = None
            res = None
            try:
                if f is None:
                    c = self.repo.module(con.qual.split('.')[0]).env[con.qual.split('.')[1]]
                    res = I.construct(c, [args[k] for k in con.args], {})
                else:
                    env = {}
                    callargs, kw = [], {}
                    pnames = [x.arg for x in f.node.args.args]
                    for n in con.args:
                        if n in pnames or f.node.args.kwarg:
                            kw[n] = args[n]
                        elif n == 'self' and f.cls is not None and pnames:
                            kw[pnames[0]] = args[n]
                        elif f.node.args.vararg is not None and n == f.node.args.vararg.arg:
                            callargs = list(args[n])
                        else:
                            raise Unsupported('%s has no parameter %s' % (con.qual, n))
                    if callargs:
                        callargs = [kw.pop(p) for p in pnames if p in kw] + callargs
                    env = I.bind(f, callargs, kw)
                    res = I.run_func(f, env)
            except PyExc as ex:
                exc = ex
            finally:
                for k in ('called', 'inlined', 'used_models'):
                    holder.setdefault(k, set()).update(getattr(I, k))
            if exc is not None and exc.cls not in con.raises and exc.cls not in con.exc_ok:
                eng.prove('%s does not raise %s' % (con.qual, exc.cls), False, 'safety', where=getattr(eng, 'cur', None))
                return
            oldc = Ctx(I, I.entry_heap, I.entry_heap, args, ghost=I.entry_ghost)
            if exc is not None:
                if exc.cls in con.raises:
                    eng.prove('%s raises %s only as specified' % (con.qual, exc.cls), con.raises[exc.cls](oldc), 'post')
                if getattr(con, 'exc_ensures', None):
                    post = Ctx(I, dict(eng.st.heap), I.entry_heap, args, None, exc, ghost=eng.st.ghost, oldghost=I.entry_ghost)
                    for n, g in con.exc_ensures(post):
                        eng.prove('%s on %s ensures %s' % (con.qual, exc.cls, n), g, 'post')
                return
            eng.rets += 1
            for ecls, cond in con.raises.items():
                eng.prove('%s raises %s when specified' % (con.qual, ecls), mknot(cond(oldc)), 'post')
            if con.result is not None and not isinstance(res, V) and not (isinstance(res, Conc)) and res is not None:
                pass
            rv = res
            if con.result is not None:
                if res is UNDEF:
                    raise Unsupported('result')
                rv = V(con.result, I.lift(res, con.result))
            post = Ctx(I, dict(eng.st.heap), I.entry_heap, args, rv, None, ghost=eng.st.ghost, oldghost=I.entry_ghost)
            for n, g in (con.ensures(post) if con.ensures else []):
                eng.prove('%s ensures %s' % (con.qual, n), g, 'post')
            if con.modifies is not None:
                for n, g in frame(I, con, post):
                    eng.prove('%s frame: %s' % (con.qual, n), g, 'frame')
        return run

    def explore(self, bound):
        eng = Eng(self.name, bound)
        eng.MAX_PATHS = self.maxpaths
        eng.deadline = time.time() + (getattr(self.con, "explore_s", 120) if bound is None else self.bounded_s)
        eng.feas_ms = getattr(self.con, "feas_ms", eng.feas_ms)
        holder = {}
        run = self.mkrun(holder)
        eng.explore(run)
        if bound is None:
            # Houdini over the automatic candidates
            for _ in range(8):
                cobs = [o for o in eng.obs if o.kind == 'cand']
                if not cobs:
                    break
                solve_all(cobs, 5000, cvc=False)
                bad = {o.cand for o in cobs if o.status != 'proved'}
                bad -= eng.cands_off
                if not bad:
                    break
                eng.cands_off |= bad
                eng.explore(run)
        eng.obs = [o for o in eng.obs if o.kind != 'cand']
        return eng, holder

    def run(self):
        r = UnitResult(self.name)
        t0 = time.time()
        try:
            self._run(r)
        except Exception:
            r.status, r.why = 'unsupported', 'internal: ' + traceback.format_exc()[-1500:]
        r.time = time.time() - t0
        return r

    def _run(self, r):
        try:
            eng, holder = self.explore(None)
            r.mode = 'full'
            self.finish(r, eng, holder)
            if r.status == 'proved':
                return
            full_failed, full_obs = r.failed, r.obs
            r.full_failed = full_failed
            if self.bound == 0:
                return
        except (Unsupported, TooMany) as ex:
            r.status, r.why, r.mode = 'unsupported', str(ex), 'full'
            full_failed = None
            full_obs = []
        # bounded: loops unrolled
        try:
            eng, holder = self.explore(self.bound)
        except (Unsupported, TooMany) as ex:
            if full_failed is None:
                r.why += ' / bounded: ' + str(ex)
                return
            r.failed, r.obs = full_failed, full_obs
            # a failed obligation without any loop annotation involved stands on its own
            aux = any(o.kind in AUX for o in full_failed)
            r.status = 'undecided' if aux else 'refuted' if any(o.status == 'refuted' for o in full_failed) else 'undecided'
            r.why = 'bounded mode: ' + str(ex)
            return
        rb = UnitResult(self.name)
        self.finish(rb, eng, holder)
        r.bounded = rb
        if not getattr(eng, 'boundedloops', None) and not eng.cut and full_failed is not None:
            # no loop was involved: the bounded run is the same run
            r.failed, r.obs, r.mode = full_failed, full_obs, 'full'
            r.status = 'refuted' if any(o.status == 'refuted' for o in full_failed) else 'undecided'
            return
        if rb.status == 'proved' and not eng.cut:
            r.__dict__.update({k: v for k, v in rb.__dict__.items() if k not in ('time',)})
            r.status, r.mode = 'proved', 'full (loops fully unrolled)'
            return
        r.called, r.inlined, r.models, r.paths = rb.called, rb.inlined, rb.models, rb.paths
        if rb.status == 'proved':
            r.status, r.mode = 'bounded-ok', 'bounded %d' % self.bound
            r.failed = full_failed or []
            r.obs = full_obs
            return
        r.failed, r.mode, r.obs = rb.failed, 'bounded %d' % self.bound, rb.obs
        r.status = 'refuted' if any(o.status == 'refuted' for o in rb.failed) else 'undecided'

    def finish(self, r, eng, holder):
        obs = eng.obs
        r.paths, r.returns, r.notes = eng.paths, eng.rets, eng.notes
        solve_all(obs, self.timeout)
        r.obs = obs
        r.called, r.inlined, r.models = (holder.get(k, set()) for k in ('called', 'inlined', 'used_models'))
        for o in obs:
            # a text the interpreter does not model: no refutation
            if o.status == 'refuted' and any(t in o.text() for t in ('fmt!', 'joined!')):
                o.status = 'unknown'
        r.failed = [o for o in obs if o.status != 'proved']
        if not obs:
            r.status, r.why = 'undecided', 'no obligation was generated'
            return
        # vacuity: the precondition must be satisfiable (not refuted), and some path must end normally
        s = z3.Solver()
        s.set('timeout', 2000)
        s.add(*holder.get('cover', []))
        c = s.check()
        r.cover = str(c)
        if c == z3.unsat:
            r.status, r.why = 'undecided', 'contradictory precondition'
            return
        r.status = 'proved' if not r.failed else 'refuted' if any(o.status == 'refuted' for o in r.failed) else 'undecided'


def frame(I, con, post):
    """every heap location not in modifies is unchanged for references allocated before the call"""
    e = I.eng
    oldc = Ctx(I, I.entry_heap, I.entry_heap, post.args, ghost=I.entry_ghost)
    items = con.modifies(oldc) if callable(con.modifies) else con.modifies
    allk, cells = set(), {}
    for it in items:
        if isinstance(it, View):
            ty = it.ty
            for p in (('len', 'el', 'ix', 'mem', 'hp') if ty.name == 'List' else ('dom', 'val', 'n')):
                cells.setdefault(lk(ty, p) if ty.name == 'List' else dk(ty, p), []).append(it.ref)
        elif isinstance(it, tuple):
            cls, fld = it[0].split('.')
            kk, ft = I.field(cls, fld)
            cells.setdefault(kk, []).append(it[1])
        elif isinstance(it, Ty):
            for p in (('len', 'el', 'ix', 'mem', 'hp') if it.name == 'List' else ('dom', 'val', 'n')):
                allk.add(lk(it, p) if it.name == 'List' else dk(it, p))
        else:
            cls, fld = it.split('.')
            kk, ft = I.field(cls, fld)
            allk.add(kk)
    for k, a in e.st.heap.items():
        if k in allk or k.endswith('.hp'):
            continue
        o = I.entry_heap.get(k)
        if o is None:
            o = z3.Const('H_' + k, a.sort())
        if o is a or z3.eq(o, a):
            continue
        r = e.fresh('fr', z3.IntSort())
        yield k, z3.Implies(z3.And(r >= 1, r <= z3.Int('alloc0'), *[r != c for c in cells.get(k, [])]),
                            z3.Select(a, r) == z3.Select(o, r))
