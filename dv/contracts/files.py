"""Files and paths, shared by the contracts of the logging, parameter and checkpoint functions (L01, L02, P01).

A path is a prefix (its directory) and a name; whether it exists is an uninterpreted predicate of both, fixed while the function runs
except for the files it opens for writing itself.  pathlib's normalisation of a path string is not modelled.
"""
import ast
import z3
from ..core import *
from ..pyfront import *
from ..pyfront import Contract

S = z3.StringSort()
EX = z3.Function('fs_exists', S, S, z3.BoolSort())
PRE = z3.Function('path_dir', S, S)
NAME = z3.Function('path_name', S, S)
STEM = z3.Function('path_stem', S, S)
SUF = z3.Function('path_suffix', S, S)
FREE = z3.Function('free_name', S, S, S)          # the name find_free_filename chooses (the files existing at that time are fixed)
PATH = REF('Path')
FILE = REF('File')
SCHEMA = {'Path': {'pre': STR, 'nm': STR}, 'File': {'path': PATH, 'text': STR}}
MODELS = {}


def attr(f):
    f.is_attr = True
    return f


def mkpath(I, pre, nm):
    p = V(PATH, I.eng.alloc())
    I.setfield(p, 'pre', V(STR, pre))
    I.setfield(p, 'nm', V(STR, nm))
    return p


def parts(I, p):
    p = I.deref(p)
    if isinstance(p, V) and p.ty is PATH:
        return I.getfield(p, 'Path', 'pre').t, I.getfield(p, 'Path', 'nm').t
    t = I.lift(p, STR)
    return PRE(t), NAME(t)


def new_path(I, a, kw):
    if len(a) != 1:
        raise Unsupported('Path of several parts')
    return mkpath(I, *parts(I, a[0]))


def split_name(I, nm):
    I.eng.assume(z3.Concat(STEM(nm), SUF(nm)) == nm)


@attr
def p_suffix(I, o):
    nm = parts(I, o)[1]
    split_name(I, nm)
    return V(STR, SUF(nm))


@attr
def p_stem(I, o):
    nm = parts(I, o)[1]
    split_name(I, nm)
    return V(STR, STEM(nm))


@attr
def p_name(I, o):
    return V(STR, parts(I, o)[1])


class DirVal(ObjVal):
    pyname = 'directory'

    def __init__(self, pre):
        self.pre = pre

    def binop(self, I, op, other, swapped):
        if isinstance(op, ast.Div) and not swapped:
            return mkpath(I, self.pre, I.lift(other, STR))
        raise Unsupported('operator on a path')

    def getattr(self, I, name):
        if name in ('mkdir',):
            return Builtin('Path.mkdir', lambda I, a, kw: None)
        if name == 'joinpath':
            return Builtin('Path.joinpath', lambda I, a, kw: mkpath(I, self.pre, I.lift(a[0], STR)))
        raise Unsupported('attribute %s of a directory' % name)


@attr
def p_parent(I, o):
    return DirVal(parts(I, o)[0])


def p_with_name(I, o, a, kw):
    return mkpath(I, parts(I, o)[0], I.lift(a[0], STR))


def p_exists(I, o, a, kw):
    return V(BOOL, EX(*parts(I, o)))


def os_exists(I, a, kw):
    return V(BOOL, EX(*parts(I, a[0])))


def os_dirname(I, a, kw):
    return V(STR, parts(I, a[0])[0])


MODELS.update({'pathlib.Path': new_path, 'Path.suffix': p_suffix, 'Path.stem': p_stem, 'Path.name': p_name, 'Path.parent': p_parent, 'Path.with_name': p_with_name,
               'Path.exists': p_exists, 'os.path.exists': os_exists, 'os.path.lexists': os_exists, 'os.path.dirname': os_dirname,
               'os.makedirs': lambda I, a, kw: None})


def do_open(I, a, kw):
    """open: a file object; what is opened and how is recorded"""
    mode = a[1] if len(a) > 1 else kw.get('mode', 'r')
    if not isinstance(mode, str):
        raise Unsupported('open mode')
    I.mutating()
    pre, nm = parts(I, a[0])
    f = V(FILE, I.eng.alloc())
    I.setfield(f, 'text', '')
    I.eng.st.ghost['opened'] = I.eng.st.ghost.get('opened', ()) + ((pre, nm, mode, f),)
    return f


def f_write(I, o, a, kw):
    t = I.getfield(o, 'File', 'text')
    I.setfield(o, 'text', V(STR, z3.Concat(I.lift(t, STR), I.lift(a[0], STR))))
    return None


def do_with(I, s, fr):
    for it in s.items:
        v = I.eval(it.context_expr, fr)
        if not (isinstance(v, V) and v.ty is FILE):
            raise Unsupported('with %r' % (v,))
        if it.optional_vars is not None:
            I.assign(it.optional_vars, v, fr)
    I.block(s.body, fr)


MODELS.update({'File.write': f_write, 'File.close': lambda I, o, a, kw: None, 'with': do_with})
for _m in ('logging', 'parameters', 'util', 'checkpoint', 'network'):
    MODELS[_m + '.open'] = do_open


def opened(c):
    return c.I.eng.st.ghost.get('opened', ())


# ---------------------------------------------------------------- find_free_filename
CONTRACTS, LOOPS = {}, {}


def nth(nm, k):
    """the k-th alternative of a name"""
    return z3.Concat(STEM(nm), z3.StringVal('_'), z3.IntToStr(k), SUF(nm))


def free_spec(req, pre, nm, J=None, k=None):
    """(pre, nm) is the free name for the requested path"""
    p0, n0 = req
    J = z3.Int('any_number') if J is None else J
    return p0, n0, J


def ff_post(c):
    p0, n0 = parts(c.I, c.args['file_path'])
    r = c.res
    if c.I.top != 'util.find_free_filename':
        yield 'no file of that name exists', z3.Not(EX(r.pre, r.nm))
        yield 'it is the free name for the request', z3.And(r.pre == p0, r.nm == FREE(p0, n0))
        return
    J, k = z3.Int('any_number'), z3.Int('chosen')
    yield 'no file of that name exists', z3.Not(EX(r.pre, r.nm))
    yield 'it lies in the requested directory', r.pre == p0
    yield 'the requested name if that is free', z3.Implies(z3.Not(EX(p0, n0)), r.nm == n0)
    g = c.I.eng.st.ghost.get('ff_infix')
    if g is None:
        ks = range(1, 7)
        yield 'otherwise the first free numbered name', z3.Implies(EX(p0, n0), z3.Or(*[z3.And(r.nm == nth(n0, z3.IntVal(k)), *[EX(p0, nth(n0, z3.IntVal(j))) for j in range(1, k)]) for k in ks]))
        return
    yield 'otherwise the name with a positive number before the suffix', z3.Implies(EX(p0, n0), z3.And(g >= 1, r.nm == nth(n0, g)))
    yield 'no smaller number is free', z3.Implies(z3.And(1 <= J, J < g), EX(p0, nth(n0, J)))


def ff_setup(I, args):
    I.ffreq = parts(I, args['file_path'])


def ff_loop(lc):
    I = lc.I
    p0, n0 = I.ffreq
    env = {n: I.deref(v) for n, v in lc.fr.env.items() if isinstance(I.deref(v), (V, int)) and not isinstance(v, bool)}
    ints = [n for n in env if n != 'file_path' and (isinstance(env[n], int) or env[n].ty is INT)]
    paths = [n for n in lc.fr.env if isinstance(env.get(n), V) and env[n].ty is PATH]
    moving = [n for n in paths if n in assigned_in_loop(lc)]
    if len(ints) != 1 or len(moving) != 1:
        raise Unsupported('the loop over numbered names has another form')
    k = I.lift(env[ints[0]], INT)
    pv = lc.v(env[moving[0]])
    J = z3.Int('any_number')
    yield 'counts from one', k >= 1
    yield 'same directory', pv.pre == p0
    yield 'the first candidate is the requested name', z3.Implies(k == 1, pv.nm == n0)
    yield 'later candidates carry the number', z3.Implies(k > 1, pv.nm == nth(n0, k - 1))
    yield 'the requested name was taken', z3.Implies(k > 1, EX(p0, n0))
    yield 'all smaller numbers were taken', z3.Implies(z3.And(1 <= J, J < k - 1), EX(p0, nth(n0, J)))
    for n in paths:
        if n not in moving:
            v = lc.v(env[n])
            yield 'the requested path is kept', z3.And(v.pre == p0, v.nm == n0)
    I.eng.st.ghost['ff_infix'] = k - 1


def assigned_in_loop(lc):
    out = set()
    for n in ast.walk(lc.fr.func.node):
        if isinstance(n, (ast.While, ast.For)):
            for m in ast.walk(n):
                if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store):
                    out.add(m.id)
    return out


LOOPS[('util.find_free_filename', 0)] = ff_loop
CONTRACTS['util.find_free_filename'] = Contract('util.find_free_filename', args={'file_path': STR}, setup=ff_setup, ensures=ff_post, result=PATH)
