"""Scenario runner: abstract client programs over the public operator API and their denotational specification."""
import ast
from .values import *
from .terms import Poly, ZERO, declare, Stack, Concat, ckey
from .interp import Interp, Budget
from .npmodel import vecnorm, trnorm
from .ctx import Client, Outcome

T0 = Sc(Poly.scalar('t'), 'float64')
declare('t', 'real')


class Undecided(Exception):
    pass


def one(gen, what='call'):
    outs = list(gen)
    if len(outs) != 1:
        raise Undecided('%s: %d partitions' % (what, len(outs)))
    return outs[0]


def content(S, v):
    if not (isinstance(v, Ref) and isinstance(S.g(v), Arr)):
        raise Undecided('not an array: %r' % (v,))
    c = S.content(v)
    if c is None:
        raise Undecided('unknown array content')
    return c


def ham_value(I, S, h, t=T0):
    """denotation of a hamiltonian object at time t: static + sum_k f_k(t) D_k, read through the public attributes"""
    S = S.fork()
    S, st = one(I.getattr(h, 'static', S, None))
    S, dy = one(I.getattr(h, 'dynamic', S, None))
    tot = content(S, st)
    if not (isinstance(dy, Ref) and isinstance(S.g(dy), Dct)):
        raise Undecided('dynamic is not a dict')
    for k, v in S.g(dy).items:
        S, f = one(I.call(k, [t], {}, S, None))
        if isinstance(f, Exc):
            return f
        p = I.np.spoly(f)
        if p is None:
            raise Undecided('drive value')
        c = content(S, v)
        if not isinstance(c, Poly) or not isinstance(tot, Poly):
            raise Undecided('composite content')
        tot = tot + c * p
    return tot


def qop_terms(client, S, name, keys):
    """denotation of a parameter-dependent operator: {key: matrix content}, read through the public accessor (missing key: zero)"""
    out = {}
    for k in keys:
        S1 = S.fork()
        res = client.run(S1, "_q = %s.get_operators('%s')" % (name, k))
        if len(res) != 1:
            raise Undecided('get_operators: %d partitions' % len(res))
        o = res[0]
        if o.exc is not None:
            if o.exc.name != 'KeyError':
                raise Undecided('get_operators raises %s' % o.exc.name)
            out[k] = ZERO
        else:
            out[k] = content(o.S, o.var('_q'))
    return out


def deep(S, v, seen=None):
    """structural snapshot of everything reachable from v (identity of storages kept)"""
    seen = {} if seen is None else seen
    if isinstance(v, Ref):
        if v.id in seen:
            return ('seen', seen[v.id])
        seen[v.id] = len(seen)
        o = S.g(v)
        if isinstance(o, Arr):
            c = S.content(v)
            return ('arr', o.kind, o.shape, o.dtype, ckey(c) if c is not None else ('?', o.stor))
        if isinstance(o, Inst):
            return ('inst', o.ci.qual) + tuple(sorted((k, deep(S, x, seen)) for k, x in o.f.items()))
        if isinstance(o, (Lst, SetO)):
            return (type(o).__name__,) + tuple(deep(S, x, seen) for x in o.items)
        if isinstance(o, Dct):
            return ('dct',) + tuple((deep(S, k, seen), deep(S, x, seen)) for k, x in o.items)
        if isinstance(o, Opaque):
            return ('opq', o.kind) + tuple(sorted((k, deep(S, x, seen)) for k, x in o.f.items()))
        return (type(o).__name__,)
    if isinstance(v, Tup):
        return ('tup',) + tuple(deep(S, x, seen) for x in v.items)
    if isinstance(v, Part):
        return ('part', v.fn.key()) + tuple(deep(S, x, seen) for x in v.args)
    if isinstance(v, Sc):
        return v.key()
    if isinstance(v, Top):
        return ('top',)
    if v is None:
        return None
    return v.key()


def diff(a, b, path=''):
    """first difference of two snapshots, as a path string"""
    if a == b:
        return None
    if isinstance(a, tuple) and isinstance(b, tuple) and a[:1] == b[:1] and len(a) == len(b) and a and a[0] in (
            'inst', 'Lst', 'SetO', 'dct', 'opq', 'tup', 'part'):
        for i, (x, y) in enumerate(zip(a[1:], b[1:])):
            if x != y:
                if a[0] in ('inst', 'opq') and isinstance(x, tuple) and isinstance(y, tuple) and len(x) == 2 and len(y) == 2:
                    if x[0] != y[0]:
                        return path + '.' + str(x[0])
                    return diff(x[1], y[1], path + '.' + str(x[0]))
                if a[0] == 'dct':
                    if x[0] != y[0]:
                        return path + '[key]'
                    return diff(x[1], y[1], path + '[]')
                return diff(x, y, path + '[%d]' % i)
    return path or '.'


def find_top(S, v):
    return isinstance(v, Top)


def run_script(client, setup, script):
    """setup(client,S) binds the inputs; returns (S0snapshot fn, outcomes)"""
    S = client.start()
    setup(client, S)
    return client.run(S, script)


OBS = {'hamiltonian': ('static', 'dynamic', 'dtype', 'get_shape', 'Ns', 'is_dense', 'ndim'),
       'quantum_operator': ('shape', 'dtype', 'get_shape', 'Ns', 'is_dense', 'ndim',
                            "operator('a')", "operator('b')", "operator('c')")}
PROBE = {'hamiltonian': '_w = %s.dot(_probe,time=t)', 'quantum_operator': '_w = %s.dot(_probe)'}


def obs_code(i, name, a):
    if a.startswith('operator('):
        return 'try:\n    _o%d = %s.get_%s\nexcept KeyError:\n    _o%d = None' % (i, name, a.replace('operator', 'operators'), i)
    return '_o%d = %s.%s' % (i, name, a)


def observe(client, S, name, default=None):
    """what a user can observe of the object bound to `name`: array contents, or public attributes and the action on a state"""
    v = S.g(S.env).d.get(name)
    if isinstance(v, Ref) and isinstance(S.g(v), Inst):
        cn = S.g(v).ci.name
        attrs = OBS.get(cn)
        if attrs is None:
            return deep(S, v)
        src = [obs_code(i, name, a) for i, a in enumerate(attrs)]
        S1 = S.fork()
        out = []
        res = client.run(S1, '\n'.join(src))
        if len(res) != 1 or res[0].exc is not None:
            return default
        o = res[0]
        d = {a: deep(o.S, o.var('_o%d' % i)) for i, a in enumerate(attrs)}
        S2 = S.fork()
        n = S.g(v).f.get('_Ns')
        for o in client.run(S2, PROBE[cn] % name):
            if o.exc is not None:
                d['dot(v)'] = ('raises', o.exc.name)
            else:
                w = deep(o.S, o.var('_w'))
                d['dot(v)'] = w if not has_top(w) else (default or {}).get('dot(v)', w) if isinstance(default, dict) else w
        return d
    return deep(S, v)


def has_top(t):
    if isinstance(t, tuple):
        return t[:1] == ('top',) or t[:1] == ('?',) or any(has_top(x) for x in t)
    return False


_diff0 = diff


def diff(a, b, path=''):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in a:
            if k in b and a[k] != b[k] and not has_top(a[k]) and not has_top(b[k]):
                return path + '.' + k
        return None
    if has_top(a) or has_top(b):
        return None
    return _diff0(a, b, path)


STRONG = {'expm', 'diag', 'dgv', 'object_array_of_sparse', 're', 'T', 'eigh.val', 'eigh.vec', 'eigsh.val', 'eigsh.vec'}


def deep_atoms(x, out):
    """all atoms occurring anywhere inside a content"""
    if isinstance(x, Poly):
        for (s, w) in x.d:
            for a, p in s:
                if p < 0:
                    out.add(('power', repr(a), p))
                deep_atoms(a, out)
            for a in w:
                deep_atoms(a, out)
    elif isinstance(x, (Stack,)):
        for p in x.parts:
            deep_atoms(p, out)
    elif isinstance(x, Concat):
        out.add(('concat',) + tuple(n for n, _ in x.parts))
        for _, p in x.parts:
            deep_atoms(p, out)
    elif isinstance(x, tuple):
        if x and x[0] in ('fn', 'sfn', 'app', 'inv', 'tr', 's', 'm', 'sel'):
            out.add((x[0], x[1]) if x[0] in ('fn', 'sfn', 'app') else (x[0],))
        for y in x:
            deep_atoms(y, out)
    return out


def weak(atoms):
    return {a for a in atoms if a[0] == 'fn' and a[1] not in STRONG or a[0] == 'sfn' and a[1] not in ('re', 'im', 'abs') or a[0] in ('inv', 'power')}


def compare(got, want):
    """'eq', 'ne' (definitely different in general position) or 'unk'"""
    if got is None or want is None:
        return 'unk'
    if got == want:
        return 'eq'
    if isinstance(got, Poly) and isinstance(want, Poly) and trnorm(got) == trnorm(want):
        return 'eq'
    g, w = weak(deep_atoms(got, set())), weak(deep_atoms(want, set()))
    if g - w or w - g and not isinstance(got, Poly):
        return 'unk'
    if type(got) is not type(want):
        return 'unk'
    return 'ne'


def split(c, shape, axis):
    """list of sub-contents along axis"""
    from .values import apply_op
    return [apply_op(('ix', axis, i), c, shape) for i in range(shape[axis])]


def compare_shaped(g, w, shape):
    if isinstance(g, Poly) and isinstance(w, Poly):
        if len(shape) == 1 and g != w:
            g, w = vecnorm(g), vecnorm(w)
        return compare(g, w)
    if g is None or w is None:
        return 'unk'
    if g == w:
        return 'eq'
    ax = next((c.axis for c in (g, w) if isinstance(c, (Stack, Concat))), 0)
    if ax >= len(shape):
        return 'unk'
    sub = shape[:ax] + shape[ax + 1:]
    res = set()
    for x, y in zip(split(g, shape, ax), split(w, shape, ax)):
        res.add(compare_shaped(x, y, sub) if x is not None and y is not None else 'unk')
    return 'ne' if 'ne' in res else 'unk' if 'unk' in res else 'eq'


def compare_values(S, got, want):
    """compare two abstract results (arrays, scalars, tuples); returns (verdict, printable got, printable want)"""
    if isinstance(got, Top) or isinstance(want, Top):
        return 'unk', got, want
    if isinstance(want, Tup) or isinstance(got, Tup):
        if not (isinstance(got, Tup) and isinstance(want, Tup) and len(got.items) == len(want.items)):
            return ('ne' if isinstance(got, (Tup, Sc, K)) or isinstance(got, Ref) and isinstance(S.g(got), Arr) else 'unk'), got, want
        vs = [compare_values(S, a, b) for a, b in zip(got.items, want.items)]
        for v in vs:
            if v[0] == 'ne':
                return v
        for v in vs:
            if v[0] == 'unk':
                return v
        return 'eq', '', ''
    ga, wa = (isinstance(x, Ref) and isinstance(S.g(x), Arr) for x in (got, want))
    if wa and ga:
        a, b = S.g(got), S.g(want)
        if a.shape != b.shape:
            return 'ne', 'shape %s' % (a.shape,), 'shape %s' % (b.shape,)
        x, y = S.content(got), S.content(want)
        return compare_shaped(x, y, a.shape), x, y
    if wa:
        if isinstance(got, Ref) and not isinstance(S.g(got), (Lst, Inst)):
            return 'unk', got, want
        return 'ne', got, 'an array'
    if ga:
        o = S.g(got)
        if o.shape == ():
            x, y = S.content(got), spoly(want)
            return compare(x, y), x, y
        return 'ne', 'an array of shape %s' % (o.shape,), want
    p, q = spoly(got), spoly(want)
    if p is not None and q is not None:
        return compare(p, q), p, q
    if q is not None and isinstance(got, K):
        return 'ne', got, want
    if isinstance(got, K) and isinstance(want, K):
        return ('eq' if got.key() == want.key() else 'ne'), got, want
    return 'unk', got, want


def spoly(v):
    if isinstance(v, Sc):
        return v.p
    if isinstance(v, K) and isinstance(v.v, (int, float, complex)) and not isinstance(v.v, bool):
        return Poly.const(v.v)
    return None
