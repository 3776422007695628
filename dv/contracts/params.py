"""Contracts for repast4py/parameters.py and random.py (P01; the dump of L02)."""
import z3
from ..core import *
from ..pyfront import *
from ..pyfront import Contract
from . import files as F
from .files import attr, parts, opened

PD = DICT(STR, ANY)
SCHEMA = dict(F.SCHEMA)
SCHEMA.update({'Generator': {'seeded_with': ANY}})
CONTRACTS = {'util.find_free_filename': F.CONTRACTS['util.find_free_filename']}
LOOPS = dict(F.LOOPS)
MODELS = dict(F.MODELS)


def yaml_load(I, a, kw):
    """what the file holds: a new dictionary, or None for an empty file"""
    I.mutating()
    f = I.deref(a[0])
    r = V(PD, I.eng.alloc())
    I.eng.st.ghost['yaml_read'] = I.eng.st.ghost.get('yaml_read', ()) + (f,)
    d = z3.Const('file_dom', z3.ArraySort(z3.StringSort(), z3.BoolSort()))
    v = z3.Const('file_val', z3.ArraySort(z3.StringSort(), z3.IntSort()))
    n = z3.Int('file_n')
    I.dict_put(r, d, v, n)
    I.eng.assume(z3.And(n >= 0, (n == 0) == (d == z3.K(z3.StringSort(), False))))
    empty = z3.Bool('file_is_empty')
    I.eng.assume(z3.Implies(empty, n == 0))
    return None if I.eng.branch(empty) else r


def json_loads(I, a, kw):
    s = I.lift(a[0], STR)
    if I.eng.branch(s == z3.StringVal('')):
        raise PyExc('JSONDecodeError')
    I.mutating()
    r = V(PD, I.eng.alloc())
    J = I.eng.st.ghost.get('json_read', ())
    I.eng.st.ghost['json_read'] = J + (s,)
    d = z3.Const('json_dom', z3.ArraySort(z3.StringSort(), z3.BoolSort()))
    v = z3.Const('json_val', z3.ArraySort(z3.StringSort(), z3.IntSort()))
    n = z3.Int('json_n')
    I.eng.assume(z3.And(n >= 0, (n == 0) == (d == z3.K(z3.StringSort(), False))))
    I.dict_put(r, d, v, n)
    return r


def new_rng(I, a, kw):
    I.mutating()
    g = V(REF('Generator'), I.eng.alloc())
    s = I.deref(a[0]) if a else kw.get('seed')
    I.eng.st.ghost['rng_seed'] = I.eng.st.ghost.get('rng_seed', ()) + ((g, s),)
    return g


def torch_seed(I, a, kw):
    I.mutating()
    I.eng.st.ghost['torch_seed'] = I.eng.st.ghost.get('torch_seed', ()) + (I.deref(a[0]),)
    return None


def yaml_dump(I, a, kw):
    I.mutating()
    f = I.deref(a[1] if len(a) > 1 else kw['stream'])
    d = I.deref(a[0])
    if isinstance(d, Conc):
        d = I.materialize(d, PD)
    I.eng.st.ghost['dumped'] = I.eng.st.ghost.get('dumped', ()) + ((d, f, I.D(d)),)
    return None


def now(I, a, kw):
    t = I.eng.fresh('now', z3.RealSort())
    I.eng.assume(t >= 0)
    return V(REAL, t)


MODELS.update({'yaml.load': yaml_load, 'yaml.safe_load': yaml_load, 'json.loads': json_loads, 'numpy.random.default_rng': new_rng, 'torch.manual_seed': torch_seed,
               'yaml.dump': yaml_dump, 'yaml.safe_dump': yaml_dump, 'time.time': now})


def same(I, a, b):
    """are two values of the interpreter the same value"""
    a, b = I.deref(a), I.deref(b)
    if isinstance(a, V) and isinstance(b, V) and a.ty is b.ty:
        return a.t == b.t
    if not isinstance(a, V) and not isinstance(b, V):
        return z3.BoolVal(a is b or (type(a) is type(b) and a == b))
    if a is None or b is None:
        x = b if a is None else a
        return x.t == 0 if x.ty.isref else z3.BoolVal(False)
    return I.lift(a, ANY) == I.lift(b, ANY)


def glob(I, m, n):
    return I.eng.st.ghost.get(('glob', m, n))


def seeded(I, s):
    """the state of random after init with the value s (None: some value)"""
    g, t = I.eng.st.ghost.get('rng_seed', ()), I.eng.st.ghost.get('torch_seed', ())
    yield 'both generators are seeded', z3.BoolVal(len(g) >= 1 and len(t) >= 1)
    if not (g and t):
        return
    gen, gs = g[-1]
    yield 'the published generator is the one just seeded', same(I, glob(I, 'random', 'default_rng'), gen)
    cur = glob(I, 'random', 'seed')
    yield 'the published seed is the one of the generators', z3.And(same(I, cur, gs), same(I, cur, t[-1]))
    if s is not None:
        yield 'it is exactly the value given', same(I, gs, s)


def init_post(c):
    I = c.I
    s = c.args['rng_seed']
    given = s.t != 0
    for n, g in seeded(I, None):
        yield n, g
    gs = I.eng.st.ghost.get('rng_seed', ())
    if gs:
        yield 'it is exactly the value given', z3.Implies(given, same(I, gs[-1][1], s))


CONTRACTS['random.init'] = Contract('random.init', args={'rng_seed': ('opt', ANY)}, ensures=init_post, apply=False)


def params_post(c):
    I = c.I
    gh = I.eng.st.ghost
    r = I.deref(c.result)
    pub = I.deref(glob(I, 'parameters', 'params'))
    if isinstance(r, Conc):
        one = pub is r
        r = I.materialize(r, PD)
        pub = r if one else pub
    d3, v3, n3 = I.D(r)
    k = z3.String('any_key')
    d1, v1 = z3.Const('file_dom', z3.ArraySort(z3.StringSort(), z3.BoolSort())), z3.Const('file_val', z3.ArraySort(z3.StringSort(), z3.IntSort()))
    d2, v2 = z3.Const('json_dom', d1.sort()), z3.Const('json_val', v1.sort())
    js = gh.get('json_read', ())
    ys = gh.get('yaml_read', ())
    ov = I.lift(c.args['parameters'], STR) != z3.StringVal('')
    empty = z3.Bool('file_is_empty')
    yield 'the file is read once, the override string at most once', z3.BoolVal(len(ys) == 1 and len(js) <= 1)
    op = opened(c)
    rd = [o for o in op if o[2] in ('r', 'rt')]
    p0, n0 = parts(I, c.args['parameters_file'])
    yield 'the parameters come from the file given', z3.And(z3.BoolVal(len(rd) == 1), rd[0][0] == p0, rd[0][1] == n0, same(I, ys[0], rd[0][3])) if rd and ys else z3.BoolVal(False)
    yield 'the override is what the string says', z3.And(*[j == I.lift(c.args['parameters'], STR) for j in js]) if js else z3.Not(ov)
    inf = z3.And(z3.Not(empty), d1[k])
    ino = z3.And(ov, d2[k])
    yield 'exactly the keys of the file and of the override', d3[k] == z3.Or(inf, ino)
    yield 'the override wins', z3.Implies(ino, v3[k] == v2[k])
    yield 'no other value is changed', z3.Implies(z3.And(inf, z3.Not(ino)), v3[k] == v1[k])
    yield 'the published dictionary is the returned one', same(I, pub, r)
    sk = z3.StringVal('random.seed')
    has = d3[sk]
    gs = gh.get('rng_seed', ())
    yield 'the generators are seeded if a seed is given', z3.Implies(has, z3.BoolVal(len(gs) == 1))
    yield 'and not otherwise', z3.Implies(z3.Not(has), z3.BoolVal(len(gs) == 0))
    if gs:
        sv = V(ANY, v3[sk])
        for n, g in seeded(I, None):
            yield n, g
        yield 'the seed is exactly the parameter', z3.Implies(sv.t != 0, same(I, gs[-1][1], sv))
    # the dump
    du = gh.get('dumped', ())
    wr = [o for o in op if o[2] not in ('r', 'rt')]
    dumpf = c.args['dump_file']
    asked = dumpf.t != 0 if isinstance(dumpf, V) and dumpf.ty.isref else z3.BoolVal(dumpf is not None)
    yield 'a dump if one is asked for', z3.BoolVal(len(du) == len(wr) and len(wr) <= 1) if dumpf is not None else z3.BoolVal(not du and not wr)
    if dumpf is not None:
        yield 'one dump', z3.BoolVal(len(wr) == 1)
    for pre, nm, md, f in wr:
        yield 'the file written is new', z3.Not(F.EX(pre, nm))
        q0, m0 = parts(I, dumpf)
        yield 'it is the free name for the request', z3.And(pre == q0, nm == F.FREE(q0, m0))
    for d, f, D in du:
        yield 'the resolved parameters are dumped to it', z3.And(same(I, d, r), z3.And(D[0] == d3, D[1] == v3), *([same(I, f, wr[0][3])] if wr else []))


A = {'parameters_file': STR, 'parameters': STR}
CONTRACTS['parameters.init_params'] = Contract('parameters.init_params', args=dict(A, dump_file=lambda I: None if I.eng.choose(2) else V(STR, z3.String('arg_dump_file'))),
                                               ensures=params_post, exc_ok=None, apply=False)
UNITS_P01 = ['random.init', 'parameters.init_params']
UNITS_L02 = ['parameters.init_params']
