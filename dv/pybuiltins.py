"""Models of Python builtins and of the standard-library calls the package makes (all listed as trusted)."""
import ast
import z3
from .core import *
from .pyfront import *
from .pyfront import BUILTINS, METHODS, Iter, Conc, mkand, mkor, mknot, qall, Builtin, ClassVal, Ext, Slice, SymFresh


def B(name):
    def d(f):
        BUILTINS[name] = f
        return f
    return d


def M(kind, name):
    def d(f):
        METHODS[(kind, name)] = f
        return f
    return d


@B('slice')
def _slice(I, a, kw):
    a = [I.deref(x) for x in a]
    return Slice(None, a[0], None) if len(a) == 1 else Slice(a[0], a[1], a[2] if len(a) > 2 else None)


@B('len')
def _len(I, a, kw):
    v = I.deref(a[0])
    if isinstance(v, ObjVal):
        return v.length(I)
    if isinstance(v, Conc):
        return len(I.payload(v))
    if isinstance(v, (tuple, str)):
        return len(v)
    if isinstance(v, V):
        if v.ty.name == 'List':
            return I.norm(V(INT, I.L(v)[0]))
        if v.ty.name in ('Dict', 'Set'):
            return I.norm(V(INT, I.dict_len(v)))
        if v.ty.name == 'Tup':
            return len(v.ty.args)
        if v.ty.name == 'Str':
            return V(INT, z3.Length(v.t))
        if v.ty.name == 'Ref':
            return I.call(I.getattr(v, '__len__'), [], {})
    if isinstance(v, Iter) and v.kind in ('keys', 'values', 'items'):
        return _len(I, [v.a[0]], {})
    raise Unsupported('len of %r' % (v,))


@B('range')
def _range(I, a, kw):
    a = [I.norm(I.deref(x)) for x in a]
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else tuple(a)
    return Iter('range', lo, hi, st)


@B('enumerate')
def _enum(I, a, kw):
    return Iter('enumerate', a[0], a[1] if len(a) > 1 else kw.get('start', 0))


@B('zip')
def _zip(I, a, kw):
    return Iter('zip', *a)


@B('reversed')
def _rev(I, a, kw):
    return Iter('reversed', a[0])


@B('iter')
def _iter(I, a, kw):
    return Iter('iter', a[0])


@B('isinstance')
def _isinst(I, a, kw):
    h = I.models.get('isinstance')
    if h:
        r = h(I, a[0], a[1])
        if r is not NotImplemented:
            return r
    v, c = I.deref(a[0]), a[1]
    cs = c if isinstance(c, tuple) else (c,)
    out = []
    for k in cs:
        nm = k.name if isinstance(k, (Builtin, Ext, ClassVal)) else None
        if isinstance(v, V) and v.ty.name == 'Ref' and isinstance(k, ClassVal):
            kk = I.repo.cls(v.ty.args[0])
            if kk is None:
                raise Unsupported('isinstance')
            out.append(k in I.repo.mro(kk))
            continue
        kind = I.kindname(v)
        tbl = {'int': ('Int',), 'float': ('Real',), 'str': ('Str',), 'bool': ('Bool',), 'tuple': ('Tup',), 'list': ('List',), 'dict': ('Dict',)}
        if nm in tbl:
            if isinstance(v, bool):
                kind = 'Bool'
            elif isinstance(v, int):
                kind = 'Int'
            elif isinstance(v, float):
                kind = 'Real'
            out.append(kind in tbl[nm] or (nm == 'int' and kind == 'Bool'))
            continue
        raise Unsupported('isinstance of %r' % (k,))
    return any(out)


@B('hasattr')
def _hasattr(I, a, kw):
    raise Unsupported('hasattr')


@B('print')
def _print(I, a, kw):
    return None


@B('id')
def _id(I, a, kw):
    v = I.deref(a[0])
    return V(INT, v.t)


def cast_int(I, a, kw):
    if not a:
        return 0
    v = I.norm(I.deref(a[0]))
    if isinstance(v, (bool, int, float)):
        return int(v)
    if isinstance(v, V):
        if v.ty is INT:
            return v
        if v.ty is REAL:
            return V(INT, z3.If(v.t >= 0, z3.ToInt(v.t), -z3.ToInt(-v.t)))
        if v.ty is BOOL:
            return V(INT, z3.If(v.t, 1, 0))
        if v.ty is STR:
            f = z3.Function('parse_int', z3.StringSort(), z3.IntSort())
            return V(INT, f(v.t))
    if isinstance(v, str):
        try:
            return int(v)
        except ValueError:
            raise PyExc('ValueError')
    raise Unsupported('int()')


BUILTINS['int'] = cast_int


@B('float')
def _float(I, a, kw):
    v = I.norm(I.deref(a[0]))
    if isinstance(v, str):
        return float(v)
    if isinstance(v, (bool, int, float)):
        return float(v)
    if isinstance(v, V):
        if v.ty is REAL:
            return v
        if v.ty is INT:
            return V(REAL, z3.ToReal(v.t))
        if v.ty is STR:
            f = z3.Function('parse_float', z3.StringSort(), z3.RealSort())
            return V(REAL, f(v.t))
    raise Unsupported('float()')


@B('bool')
def _bool(I, a, kw):
    t = I.truth(a[0])
    return t if isinstance(t, bool) else V(BOOL, t)


@B('str')
def _str(I, a, kw):
    v = I.norm(I.deref(a[0])) if a else ''
    if isinstance(v, str):
        return v
    if isinstance(v, int) and not isinstance(v, bool):
        return str(v)
    if isinstance(v, V) and v.ty is STR:
        return v
    if isinstance(v, V) and v.ty is INT:
        return V(STR, z3.If(v.t >= 0, z3.IntToStr(v.t), z3.Concat(z3.StringVal('-'), z3.IntToStr(-v.t))))
    if isinstance(v, V):
        f = z3.Function('str_' + safe(str(v.ty)), v.ty.sort(), z3.StringSort())
        return V(STR, f(v.t))
    raise Unsupported('str()')


@B('abs')
def _abs(I, a, kw):
    v = I.deref(a[0])
    if isinstance(v, (int, float)):
        return abs(v)
    ty, t = I.num(v)
    return V(ty, z3.If(t >= 0, t, -t))


def minmax(ismin):
    def f(I, a, kw):
        items = a
        if len(a) == 1:
            k = I.iteration(a[0])
            if k[0] != 'conc':
                raise Unsupported('min/max of a symbolic sequence')
            items = k[1]
        if kw:
            raise Unsupported('min/max key')
        r = items[0]
        for x in items[1:]:
            c = I.lt(x, r) if ismin else I.lt(r, x)
            if isinstance(c, bool):
                r = x if c else r
            else:
                ta, xa = I.num(x)
                tb, xb = I.num(r)
                ty = REAL if REAL in (ta, tb) else INT
                if ty is REAL:
                    xa, xb = toreal(ta, xa), toreal(tb, xb)
                r = V(ty, z3.If(c, xa, xb))
        return r
    return f


BUILTINS['min'] = minmax(True)
BUILTINS['max'] = minmax(False)


@B('sum')
def _sum(I, a, kw):
    k = I.iteration(a[0])
    if k[0] != 'conc':
        raise Unsupported('sum of a symbolic sequence')
    r = 0
    for x in k[1]:
        r = I.binop(ast.Add(), r, x)
    return r


def anyall(isany):
    def f(I, a, kw):
        k = I.iteration(a[0])
        if k[0] != 'conc':
            raise Unsupported('any/all of a symbolic sequence')
        cs = [I.truth(x) for x in k[1]]
        t = mkor(cs) if isany else mkand(cs)
        return t if isinstance(t, bool) else V(BOOL, t)
    return f


BUILTINS['any'] = anyall(True)
BUILTINS['all'] = anyall(False)


@B('list')
def _list(I, a, kw):
    if not a:
        return I.newconc('list', [])
    v = I.untup(I.deref(a[0]))
    if isinstance(v, V) and v.ty.name == 'List':
        return I.list_slice(v, Slice(None, None, None))
    it = I.iteration(v)
    if it[0] == 'conc':
        return I.newconc('list', list(it[1]))
    if it[0] == 'set':
        return set_to_list(I, it)
    raise Unsupported('list() of a symbolic iterable')


def set_to_list(I, it):
    """a list holding every key/value/item of a dict or set exactly once, in unspecified order"""
    e = I.eng
    d = it[1]
    dom, val, n = I.D(d)
    n = I.dict_len(d)
    kt = d.ty.args[0]
    probe = V(kt, e.fresh('k', kt.sort()))
    vv = V(d.ty.args[1], z3.Select(val, probe.t)) if d.ty.name == 'Dict' else None
    item = it[2]((probe, vv))
    ty = I.ty_of(item)
    t = I.lift(item, ty)
    r = V(LIST(ty), e.alloc())
    el = e.fresh('el', z3.ArraySort(z3.IntSort(), ty.sort()))
    kof = e.fresh('keyat', z3.ArraySort(z3.IntSort(), kt.sort()))
    pos = e.fresh('posof', z3.ArraySort(kt.sort(), z3.IntSort()))
    i = z3.Int('i!x')
    k = z3.Const('k!x', kt.sort())
    pc = e.st.pc
    pc.append(qall(i, z3.Implies(z3.And(0 <= i, i < n), z3.And(dom[kof[i]], pos[kof[i]] == i,
              el[i] == z3.substitute(t, (probe.t, kof[i])))), [el[i]]))
    pc.append(qall(k, z3.Implies(dom[k], z3.And(0 <= pos[k], pos[k] < n, kof[pos[k]] == k)), [pos[k]]))
    pc.append(qall(k, z3.Implies(dom[k], el[pos[k]] == z3.substitute(t, (probe.t, k)))))
    I.list_put(r, n, el)
    I.eng.st.ghost[('listof', str(r.t))] = (kof, pos)
    return r


@B('tuple')
def _tuple(I, a, kw):
    if not a:
        return ()
    k = I.iteration(a[0])
    if k[0] == 'conc':
        return tuple(k[1])
    raise Unsupported('tuple() of a symbolic iterable')


@B('dict')
def _dict(I, a, kw):
    d = I.newconc('dict', [])
    if a:
        v = I.deref(a[0])
        if isinstance(v, Conc) and v.kind == 'dict':
            I.eng.st.conc[d.id] = list(I.payload(v))
        elif isinstance(v, V) and v.ty.name == 'Dict':
            r = V(v.ty, I.eng.alloc())
            dom, val, n = I.D(v)
            I.dict_put(r, dom, val, n)
            return r
        else:
            raise Unsupported('dict()')
    for k, v in kw.items():
        I.setitem(d, k, v)
    return d


@B('set')
def _set(I, a, kw):
    if not a:
        return I.newconc('set', [])
    k = I.iteration(a[0])
    if k[0] == 'conc':
        return I.newconc('set', dedup(I, k[1]))
    if k[0] == 'set':
        d = I.deref(a[0])
        if isv(d):
            r = V(SET(d.ty.args[0]), I.eng.alloc())
            dom, val, n = I.D(d)
            I.dict_put(r, dom, None, n)
            return r
    raise Unsupported('set() of a symbolic iterable')


def dedup(I, items):
    out = []
    for x in items:
        if not any(I.eng.branch(I.eq(x, y)) for y in out):
            out.append(x)
    return out


@B('sorted')
def _sorted(I, a, kw):
    v = I.deref(a[0])
    if isinstance(v, V) and v.ty.name == 'List':
        r = I.list_slice(v, Slice(None, None, None))
        METHODS[('List', 'sort')](I, r, [], kw)
        return r
    k = I.iteration(v)
    if k[0] == 'conc':
        c = I.newconc('list', list(k[1]))
        METHODS[('List', 'sort')](I, c, [], kw)
        return c
    raise Unsupported('sorted() of a symbolic iterable')


@B('getattr')
def _getattr(I, a, kw):
    return I.getattr(a[0], a[1])


@B('next')
def _next(I, a, kw):
    v = I.deref(a[0])
    if isinstance(v, V) and v.ty.name == 'Ref':
        return I.call(I.getattr(v, '__next__'), [], {})
    raise Unsupported('next()')


@B('object')
def _object(I, a, kw):
    return V(REF('object'), I.eng.alloc())


# ---- list methods

@M('List', 'append')
def l_append(I, o, a, kw):
    o = I.deref(o)
    x = a[0]
    if isinstance(o, Conc):
        I.eng.st.conc[o.id] = list(I.payload(o)) + [x]
    else:
        I.list_append(o, x)


@M('List', 'extend')
def l_extend(I, o, a, kw):
    o = I.deref(o)
    if isinstance(o, Conc):
        it = I.iteration(a[0])
        if it[0] != 'conc':
            v = I.deref(a[0])
            if isv(v) and v.ty.name == 'List':
                r = I.materialize(o, v.ty)
                I.list_extend(r, v)
                return
            raise Unsupported('extend')
        I.eng.st.conc[o.id] = list(I.payload(o)) + list(it[1])
    else:
        v = I.untup(I.deref(a[0]))
        I.list_extend(o, v)


@M('List', 'insert')
def l_insert(I, o, a, kw):
    o = I.deref(o)
    if isinstance(o, Conc):
        p = list(I.payload(o))
        if not isinstance(a[0], int):
            raise Unsupported('insert at a symbolic index of a concrete list')
        p.insert(a[0], a[1])
        I.eng.st.conc[o.id] = p
    else:
        I.list_insert(o, a[0], a[1])


@M('List', 'clear')
def l_clear(I, o, a, kw):
    o = I.deref(o)
    if isinstance(o, Conc):
        I.eng.st.conc[o.id] = []
    else:
        I.list_clear(o)


@M('List', 'copy')
def l_copy(I, o, a, kw):
    o = I.deref(o)
    if isinstance(o, Conc):
        return I.newconc('list', list(I.payload(o)))
    return I.list_slice(o, Slice(None, None, None))


@M('List', 'pop')
def l_pop(I, o, a, kw):
    o = I.deref(o)
    if isinstance(o, Conc):
        p = list(I.payload(o))
        if not p:
            raise PyExc('IndexError')
        i = a[0] if a else -1
        if not isinstance(i, int):
            raise Unsupported('pop')
        x = p.pop(i)
        I.eng.st.conc[o.id] = p
        return x
    pos, ln, el, ix = I.list_index(o, a[0] if a else -1)
    x = I.wrapv(o.ty.args[0], I.elem(o, pos))
    I.list_cut(o, pos, pos + 1)
    return x


@M('List', 'remove')
def l_remove(I, o, a, kw):
    o = I.deref(o)
    if isinstance(o, Conc):
        p = list(I.payload(o))
        for j, x in enumerate(p):
            if I.eng.branch(I.eq(x, a[0])):
                del p[j]
                I.eng.st.conc[o.id] = p
                return
        raise PyExc('ValueError')
    ln, el, ix = I.L(o)
    if ix is None:
        t = I.lift(a[0], o.ty.args[0])
        j = I.eng.fresh('j', z3.IntSort())
        i = z3.Int('i!x')
        if not I.eng.branch(z3.Exists([i], z3.And(0 <= i, i < ln, el[i] == t))):
            raise PyExc('ValueError')
        I.eng.st.pc.append(z3.And(0 <= j, j < ln, el[j] == t, qall(i, z3.Implies(z3.And(0 <= i, i < j), el[i] != t))))
        I.list_cut(o, j, j + 1)
        return
    t = I.lift(a[0], o.ty.args[0])
    if not I.eng.branch(I.M(o)[t]):
        raise PyExc('ValueError')
    p = I.eng.fresh('p', z3.IntSort())
    I.eng.st.pc.append(p == ix[t])
    I.list_cut(o, p, p + 1)


@M('List', 'index')
def l_index(I, o, a, kw):
    o = I.deref(o)
    if isinstance(o, Conc):
        for j, x in enumerate(I.payload(o)):
            if I.eng.branch(I.eq(x, a[0])):
                return j
        raise PyExc('ValueError')
    ln, el, ix = I.L(o)
    if ix is None:
        raise Unsupported('index')
    t = I.lift(a[0], o.ty.args[0])
    if not I.eng.branch(I.M(o)[t]):
        raise PyExc('ValueError')
    return I.norm(V(INT, ix[t]))


@M('List', 'sort')
def l_sort(I, o, a, kw):
    o = I.deref(o)
    key = kw.get('key')
    rev = kw.get('reverse', False)
    if not isinstance(rev, bool):
        raise Unsupported('sort reverse')
    if isinstance(o, Conc):
        p = list(I.payload(o))
        ks = [I.call(key, [x], {}) if key else x for x in p]
        # insertion sort with symbolic comparisons
        out = []
        for x, k in zip(p, ks):
            j = len(out)
            while j > 0 and I.eng.branch(I.lt(k, out[j - 1][1]) if not rev else I.lt(out[j - 1][1], k)):
                j -= 1
            out.insert(j, (x, k))
        I.eng.st.conc[o.id] = [x for x, _ in out]
        return
    kf = (lambda v: I.call(key, [v], {})) if key is not None else (lambda v: v)
    I.list_perm(o, kf, rev)


@M('List', '__iter__')
def l_iter(I, o, a, kw):
    return Iter('iter', o)


# ---- dict methods

@M('Dict', 'get')
def d_get(I, o, a, kw):
    o = I.deref(o)
    d = a[1] if len(a) > 1 else None
    if isinstance(o, Conc):
        for k, v in I.payload(o):
            if I.eng.branch(I.eq(k, a[0])):
                return v
        return d
    if I.eng.branch(I.dict_has(o, a[0]).t):
        return I.dict_get(o, a[0])
    return d


@M('Dict', 'setdefault')
def d_setdefault(I, o, a, kw):
    o = I.deref(o)
    d = a[1] if len(a) > 1 else None
    if isinstance(o, Conc):
        for k, v in I.payload(o):
            if I.eng.branch(I.eq(k, a[0])):
                return v
        I.setitem(o, a[0], d)
        return d
    if I.eng.branch(I.dict_has(o, a[0]).t):
        return I.dict_get(o, a[0])
    I.dict_set(o, a[0], d)
    return I.deref(d)


@M('Dict', 'pop')
def d_pop(I, o, a, kw):
    o = I.deref(o)
    if isinstance(o, Conc):
        p = list(I.payload(o))
        for j, (k, v) in enumerate(p):
            if I.eng.branch(I.eq(k, a[0])):
                del p[j]
                I.eng.st.conc[o.id] = p
                return v
    elif I.eng.branch(I.dict_has(o, a[0]).t):
        v = I.dict_get(o, a[0])
        I.dict_del(o, a[0])
        return v
    if len(a) > 1:
        return a[1]
    raise PyExc('KeyError')


@M('Dict', 'update')
def d_update(I, o, a, kw):
    o = I.deref(o)
    v = I.deref(a[0]) if a else None
    if isinstance(v, Conc) and v.kind == 'dict':
        for k, x in list(I.payload(v)):
            I.setitem(o, k, x)
    elif isinstance(v, V) and v.ty.name == 'Dict':
        if isinstance(o, Conc):
            o = I.materialize(o, v.ty)
        d1, v1, n1 = I.D(o)
        d2, v2, n2 = I.D(v)
        e = I.eng
        k = z3.Const('k!u', v.ty.args[0].sort())
        d3, v3, n3 = e.fresh('dom', d1.sort()), e.fresh('val', v1.sort()), e.fresh('n', z3.IntSort())
        e.st.pc.append(qall(k, d3[k] == z3.Or(d1[k], d2[k]), [d3[k]]))
        e.st.pc.append(qall(k, v3[k] == z3.If(d2[k], v2[k], v1[k]), [v3[k]]))
        I.dict_put(o, d3, v3, n3)
    elif v is not None:
        raise Unsupported('dict.update')
    for k, x in kw.items():
        I.setitem(o, k, x)


@M('Dict', 'keys')
def d_keys(I, o, a, kw):
    return Iter('keys', o)


@M('Dict', 'values')
def d_values(I, o, a, kw):
    return Iter('values', o)


@M('Dict', 'items')
def d_items(I, o, a, kw):
    return Iter('items', o)


@M('Dict', 'clear')
def d_clear(I, o, a, kw):
    o = I.deref(o)
    if isinstance(o, Conc):
        I.eng.st.conc[o.id] = []
    else:
        I.dict_init(o)


@M('Dict', 'copy')
def d_copy(I, o, a, kw):
    return _dict(I, [o], {})


@M('Iter', '__iter__')
def i_iter(I, o, a, kw):
    return o


# ---- set methods

@M('Set', 'add')
def s_add(I, o, a, kw):
    o = I.deref(o)
    if isinstance(o, Conc):
        p = I.payload(o)
        if not any(I.eng.branch(I.eq(x, a[0])) for x in p):
            I.eng.st.conc[o.id] = list(p) + [a[0]]
    else:
        I.set_add(o, a[0])


def s_del(I, o, x, must):
    o = I.deref(o)
    if isinstance(o, Conc):
        p = list(I.payload(o))
        for j, y in enumerate(p):
            if I.eng.branch(I.eq(x, y)):
                del p[j]
                I.eng.st.conc[o.id] = p
                return
        if must:
            raise PyExc('KeyError')
        return
    if I.eng.branch(I.dict_has(o, x).t):
        I.dict_del(o, x)
    elif must:
        raise PyExc('KeyError')


@M('Set', 'remove')
def s_remove(I, o, a, kw):
    s_del(I, o, a[0], True)


@M('Set', 'discard')
def s_discard(I, o, a, kw):
    s_del(I, o, a[0], False)


@M('Set', 'clear')
def s_clear(I, o, a, kw):
    d_clear(I, o, a, kw)


@M('Set', 'update')
def s_update(I, o, a, kw):
    for x in a:
        it = I.iteration(x)
        if it[0] != 'conc':
            raise Unsupported('set.update')
        for y in it[1]:
            s_add(I, o, [y], {})


def int_str(I, v):
    if isinstance(v, int):
        return str(v)
    return V(STR, z3.If(v.t >= 0, z3.IntToStr(v.t), z3.Concat(z3.StringVal('-'), z3.IntToStr(-v.t))))


@M('Str', 'format')
def str_format(I, o, a, kw):
    if isinstance(o, str) and not kw:
        parts = o.split('{}')
        xs = [I.deref(x) for x in a]
        if len(parts) == len(xs) + 1 and '{' not in ''.join(parts) and all(isinstance(x, str) or (isinstance(x, int) and not isinstance(x, bool)) or (isinstance(x, V) and x.ty in (STR, INT)) for x in xs):
            r = parts[0]
            for x, q in zip(xs, parts[1:]):
                r = I.binop(ast.Add(), I.binop(ast.Add(), r, x if isinstance(x, str) or (isinstance(x, V) and x.ty is STR) else int_str(I, x)), q)
            return r
    return V(STR, I.eng.fresh('fmt', z3.StringSort()))


@M('Str', 'join')
def str_join(I, o, a, kw):
    it = I.iteration(a[0])
    if isinstance(o, str) and it[0] == 'conc':
        r = ''
        for k, x in enumerate(it[1]):
            x = I.deref(x)
            if not (isinstance(x, str) or (isinstance(x, V) and x.ty is STR)):
                break
            r = I.binop(ast.Add(), I.binop(ast.Add(), r, o), x) if k else x
        else:
            return r
    return V(STR, I.eng.fresh('joined', z3.StringSort()))


@M('Str', 'split')
def str_split(I, o, a, kw):
    if isinstance(o, str) and all(isinstance(x, str) for x in a):
        return I.newconc('list', o.split(*a))
    raise Unsupported('split')


@M('Str', 'strip')
def str_strip(I, o, a, kw):
    if isinstance(o, str):
        return o.strip()
    raise Unsupported('strip')
