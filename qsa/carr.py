"""Constant folding of numpy operations on small arrays of known integers, truth values and characters (CArr)."""
import operator
from .values import *

BOPS = {'+': operator.add, '-': operator.sub, '*': operator.mul, '%': operator.mod, '//': operator.floordiv, '&': operator.and_,
        '|': operator.or_, '^': operator.xor}
CMPS = {'==': operator.eq, '!=': operator.ne, '<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge}
INTS = ('int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64')


def prod(sh):
    n = 1
    for x in sh:
        n *= x
    return n


def kind(vals):
    if all(isinstance(x, bool) for x in vals) and vals:
        return 'bool'
    if all(isinstance(x, int) for x in vals):
        return 'int64'
    if all(isinstance(x, str) for x in vals):
        return 'str'
    return None


class Folder(object):
    def __init__(self, I):
        self.I = I

    def on(self):
        return bool(self.I.hooks.get('carr'))

    def isc(self, v, S):
        return isinstance(v, Ref) and isinstance(S.g(v), CArr)

    def new(self, S, vals, shape=None, dtype=None):
        vals = list(vals)
        return S.new(CArr(vals, (len(vals),) if shape is None else shape, dtype or kind(vals) or 'int64'))

    def nested(self, v, S):
        """python nested lists of known scalars, or None"""
        if isinstance(v, K) and isinstance(v.v, (int, str)) and not (isinstance(v.v, str) and len(v.v) != 1):
            return v.v
        if self.isc(v, S):
            o = S.g(v)
            return self.unflat(o.items, o.shape)
        if isinstance(v, K) and isinstance(v.v, range):
            return list(v.v)
        if isinstance(v, Tup) or isinstance(v, Ref) and isinstance(S.g(v), Lst):
            it = self.I.seq(v, S)
            r = [self.nested(x, S) for x in it]
            return None if any(x is None for x in r) else r
        return None

    def unflat(self, items, shape):
        if len(shape) == 1:
            return list(items)
        if not shape:
            return items[0]
        n = prod(shape[1:])
        return [self.unflat(items[i * n:(i + 1) * n], shape[1:]) for i in range(shape[0])]

    def flat(self, n):
        """(items, shape) or None for ragged"""
        if not isinstance(n, list):
            return [n], ()
        if not n:
            return [], (0,)
        sub = [self.flat(x) for x in n]
        if any(s is None for s in sub) or len(set(s[1] for s in sub)) != 1:
            return None
        return [x for s in sub for x in s[0]], (len(n),) + sub[0][1]

    def asarr(self, v, S):
        """(items, shape) of an array-like of known scalars"""
        n = self.nested(v, S)
        return None if n is None else self.flat(n)

    def dt(self, d):
        return d if d in INTS or d == 'bool' else None

    def conv(self, items, d):
        if d == 'bool':
            return [bool(x) for x in items]
        if d in INTS:
            if not all(isinstance(x, int) for x in items):
                return None
            return [int(x) for x in items]
        return None

    # ---------------------------------------------------------------- library calls
    def call(self, path, a, kw, S, node):
        """value/Exc, or None when not applicable"""
        if not path.startswith('numpy.'):
            if path == 'builtins.len' and a and self.isc(a[0], S):
                return K(S.g(a[0]).shape[0])
            if path in ('builtins.abs',) and a and self.isc(a[0], S):
                o = S.g(a[0])
                return self.new(S, [abs(x) for x in o.items], o.shape, o.dtype)
            return None
        f = getattr(self, 'f_' + path[6:].replace('.', '_'), None)
        if f is None or not a:
            return None
        return f(a, kw, S, node)

    def mk(self, a, kw, S, node, i=1):
        d, ok = self.I.np._dt(a, kw, i)
        if not ok:
            return None
        if d is not None and self.dt(d) is None:
            return None
        if isinstance(a[0], K) and not isinstance(a[0].v, range):
            return None
        r = self.asarr(a[0], S)
        if r is None or not r[1]:
            return None
        items, sh = r
        if d is not None:
            items = self.conv(items, d)
            if items is None:
                return None
        elif not items:
            return None
        k = d or kind(items)
        if k is None:
            return None
        return self.new(S, items, sh, k)

    def f_array(self, a, kw, S, node):
        return self.mk(a, kw, S, node)

    def f_asarray(self, a, kw, S, node):
        if self.isc(a[0], S):
            d, ok = self.I.np._dt(a, kw)
            if ok and d in (None, S.g(a[0]).dtype):
                return a[0]
        return self.mk(a, kw, S, node)

    f_asanyarray = f_ascontiguousarray = f_asarray

    def f_arange(self, a, kw, S, node):
        vs = [x.v if isinstance(x, K) and isinstance(x.v, int) else None for x in a]
        if None in vs or len(vs) > 3 or len(range(*vs)) > 4096:
            return None
        return self.new(S, range(*vs), None, self.dt(self.I.np._dt(a, kw, 3)[0]) or 'int64')

    def f_sort(self, a, kw, S, node):
        r = self.asarr(a[0], S)
        return None if r is None or len(r[1]) != 1 else self.new(S, sorted(r[0]))

    def f_unique(self, a, kw, S, node):
        r = self.asarr(a[0], S)
        return None if r is None or kw else self.new(S, sorted(set(r[0])))

    def f_any(self, a, kw, S, node):
        r = self.asarr(a[0], S) if self.isc(a[0], S) or not isinstance(a[0], K) else None
        return None if r is None or len(a) > 1 or kw else K(any(r[0]))

    def f_all(self, a, kw, S, node):
        r = self.asarr(a[0], S) if self.isc(a[0], S) or not isinstance(a[0], K) else None
        return None if r is None or len(a) > 1 or kw else K(all(r[0]))

    def red(f):
        def g(self, a, kw, S, node):
            if not self.isc(a[0], S) or len(a) > 1 or kw:
                return None
            o = S.g(a[0])
            if not o.items:
                return None
            return K(f(o.items))
        return g
    f_max = f_amax = red(max)
    f_min = f_amin = red(min)
    f_sum = red(sum)
    f_prod = f_multiply_reduce = red(prod)
    f_count_nonzero = red(lambda xs: sum(1 for x in xs if x))

    def f_array_equal(self, a, kw, S, node):
        x, y = self.asarr(a[0], S), self.asarr(a[1], S)
        return None if x is None or y is None else K(x == y)

    def f_abs(self, a, kw, S, node):
        if self.isc(a[0], S):
            o = S.g(a[0])
            return self.new(S, [abs(x) for x in o.items], o.shape, o.dtype)
    f_absolute = f_abs

    def stack(self, a, S):
        it = self.I.seq(a[0], S)
        if it is None or not any(self.isc(x, S) for x in it):
            return None
        rs = [self.asarr(x, S) for x in it]
        return None if any(r is None for r in rs) else rs

    def f_hstack(self, a, kw, S, node):
        rs = self.stack(a, S)
        if rs is None or any(len(r[1]) != 1 for r in rs):
            return None
        return self.new(S, [x for r in rs for x in r[0]])

    f_concatenate = f_hstack

    def f_vstack(self, a, kw, S, node):
        rs = self.stack(a, S)
        if rs is None:
            return None
        if any(len(r[1]) != 1 for r in rs):
            return None
        if len(set(r[1] for r in rs)) != 1:
            return self.I.exc('ValueError', 'all the input array dimensions must match', node, S)
        return self.new(S, [x for r in rs for x in r[0]], (len(rs),) + rs[0][1])

    def f_where(self, a, kw, S, node):
        if len(a) == 1 and self.isc(a[0], S) and len(S.g(a[0]).shape) == 1:
            return Tup([self.new(S, [i for i, x in enumerate(S.g(a[0]).items) if x], None, 'int64')])
        if len(a) == 3 and self.isc(a[0], S):
            c, x, y = S.g(a[0]), self.asarr(a[1], S), self.asarr(a[2], S)
            if x is None or y is None or any(r[1] not in ((), c.shape) for r in (x, y)):
                return None
            n = len(c.items)
            xs, ys = [(r[0] * n if r[1] == () else r[0]) for r in (x, y)]
            return self.new(S, [p if q else r for q, p, r in zip(c.items, xs, ys)], c.shape)

    def f_min_scalar_type(self, a, kw, S, node):
        if isinstance(a[0], K) and isinstance(a[0].v, int) and a[0].v >= 0:
            return K(DT(next(d for d, m in (('uint8', 255), ('uint16', 65535), ('uint32', 2**32 - 1), ('uint64', 2**64)) if a[0].v <= m)))

    def f_logical_not(self, a, kw, S, node):
        if self.isc(a[0], S):
            o = S.g(a[0])
            return self.new(S, [not x for x in o.items], o.shape, 'bool')

    def f_isin(self, a, kw, S, node):
        x, y = self.asarr(a[0], S), self.asarr(a[1], S)
        if x is None or y is None or kw or not self.isc(a[0], S):
            return None
        return self.new(S, [v in y[0] for v in x[0]], x[1], 'bool')

    # ---------------------------------------------------------------- operators
    def binop(self, op, l, r, S, node):
        f = BOPS.get(op)
        x, y = self.asarr(l, S), self.asarr(r, S)
        if f is None or x is None or y is None:
            return self.I.top('constant array ' + op)
        return self.elt(f, x, y, S, node, None)

    def elt(self, f, x, y, S, node, dt):
        if x[1] != y[1] and x[1] != () and y[1] != ():
            if len(x[1]) == len(y[1]) == 1 and 1 not in (x[1][0], y[1][0]):
                return self.I.exc('ValueError', 'operands could not be broadcast together', node, S)
            return self.I.top('broadcast')
        sh = x[1] or y[1]
        n = prod(sh)
        xs = x[0] * n if x[1] == () else x[0]
        ys = y[0] * n if y[1] == () else y[0]
        try:
            return self.new(S, [f(p, q) for p, q in zip(xs, ys)], sh, dt)
        except Exception:
            return self.I.top('constant array operands')

    def compare(self, op, l, r, S, node):
        f = CMPS.get(op)
        x, y = self.asarr(l, S), self.asarr(r, S)
        if f is None or x is None or y is None:
            return self.I.top('constant array ' + op)
        return self.elt(f, x, y, S, node, 'bool')

    def unop(self, op, v, S, node):
        o = S.g(v)
        if op == 'neg' and o.dtype != 'bool':
            return self.new(S, [-x for x in o.items], o.shape, o.dtype)
        if op == 'invert':
            return self.new(S, [(not x) if o.dtype == 'bool' else ~x for x in o.items], o.shape, o.dtype)
        return self.I.top('constant array ' + op)

    def ibinop(self, op, l, r, S, node):
        v = self.binop(op, l, r, S, node)
        if self.isc(v, S) and S.g(v).shape == S.g(l).shape:
            if S.g(l).sub:
                return self.I.top('in-place on a slice')
            S.w(l).items = list(S.g(v).items)
            return l
        return v

    # ---------------------------------------------------------------- indexing
    def positions(self, o, k, S, node):
        """(list of flat row positions, scalar?) along the first axis, or Exc / None"""
        n = o.shape[0]
        if isinstance(k, K) and isinstance(k.v, int) and not isinstance(k.v, bool):
            if not -n <= k.v < n:
                return self.I.exc('IndexError', 'index out of bounds', node, S)
            return [k.v % n], True
        if isinstance(k, Slc) and all(isinstance(x, K) for x in (k.a, k.b, k.c)):
            return list(range(n))[slice(k.a.v, k.b.v, k.c.v)], False
        if isinstance(k, K) and k.v is Ellipsis:
            return list(range(n)), False
        m = self.asarr(k, S) if isinstance(k, Ref) else None
        if m is not None and len(m[1]) == 1:
            if self.isc(k, S) and S.g(k).dtype == 'bool':
                if m[1][0] != n:
                    return self.I.exc('IndexError', 'boolean index did not match', node, S)
                return [i for i, b in enumerate(m[0]) if b], False
            if all(isinstance(x, int) for x in m[0]):
                if any(not -n <= x < n for x in m[0]):
                    return self.I.exc('IndexError', 'index out of bounds', node, S)
                return [x % n for x in m[0]], False
        return None

    def getitem(self, v, k, S, node):
        o = S.g(v)
        if isinstance(k, Tup) and len(k.items) == 2 and len(o.shape) == 2:
            row = self.getitem(v, k.items[0], S, node)
            if isinstance(row, Ref) and isinstance(k.items[0], K):
                return self.getitem(row, k.items[1], S, node)
            return self.I.top('constant array index')
        p = self.positions(o, k, S, node)
        if p is None or isinstance(p, Exc):
            return p or self.I.top('constant array index')
        pos, sc = p
        m = prod(o.shape[1:])
        items = [x for i in pos for x in o.items[i * m:(i + 1) * m]]
        if sc and len(o.shape) == 1:
            return K(items[0])
        r = self.new(S, items, o.shape[1:] if sc else (len(pos),) + o.shape[1:], o.dtype)
        S.g(r).sub = isinstance(k, (Slc, K))
        return r

    def setitem(self, v, k, x, S, node):
        o = S.g(v)
        p = self.positions(o, k, S, node) if len(o.shape) == 1 else None
        if isinstance(p, Exc):
            return p
        y = self.asarr(x, S)
        if p is None or y is None or o.sub or (y[1] != () and len(y[0]) != len(p[0])):
            w = S.w(v)
            w.items = [None] * len(w.items)      # unknown from here on
            w.dtype = 'unknown'
            return None
        w = S.w(v)
        ys = y[0] * len(p[0]) if y[1] == () else y[0]
        for i, q in zip(p[0], ys):
            w.items[i] = q
        return None

    # ---------------------------------------------------------------- attributes and methods
    def attr(self, v, name, S):
        o = S.g(v)
        if name == 'shape':
            return Tup([K(n) for n in o.shape])
        if name == 'ndim':
            return K(len(o.shape))
        if name == 'size':
            return K(len(o.items))
        if name == 'dtype':
            return K(DT(o.dtype)) if o.dtype in INTS + ('bool',) else self.I.top('dtype')
        return EM(v, name)

    def method(self, v, name, a, kw, S, node):
        o = S.g(v)
        if name in ('any', 'all', 'sum', 'max', 'min', 'prod') and not a and not kw:
            if not o.items:
                return {'any': FALSE, 'all': TRUE, 'sum': K(0), 'prod': K(1)}.get(name) or self.I.exc('ValueError', 'zero-size array', node, S)
            return K({'any': any, 'all': all, 'sum': sum, 'max': max, 'min': min, 'prod': prod}[name](o.items))
        if name in ('copy', '__copy__'):
            return self.new(S, o.items, o.shape, o.dtype)
        if name == 'tolist':
            def rec(n):
                return S.new(Lst([rec(x) for x in n])) if isinstance(n, list) else K(n)
            return rec(self.unflat(o.items, o.shape))
        if name == 'astype' and a:
            d = self.I.np.as_dtype(a[0])
            it = self.conv(o.items, d) if d else None
            return self.new(S, it, o.shape, d) if it is not None else self.I.top('astype')
        if name in ('ravel', 'flatten'):
            return self.new(S, o.items, None, o.dtype)
        if name == 'sort' and len(o.shape) == 1 and not o.sub:
            S.w(v).items.sort()
            return NONE
        if name == 'item' and not a and len(o.items) == 1:
            return K(o.items[0])
        if name == 'nonzero' and len(o.shape) == 1:
            return Tup([self.new(S, [i for i, x in enumerate(o.items) if x], None, 'int64')])
        return self.I.top('constant array.%s' % name)

    def seq(self, v, S):
        o = S.g(v)
        if len(o.shape) == 1:
            return [K(x) for x in o.items] if o.dtype != 'unknown' else None
        m = prod(o.shape[1:])
        return [self.new(S, o.items[i * m:(i + 1) * m], o.shape[1:], o.dtype) for i in range(o.shape[0])]

    def truth(self, v, S):
        o = S.g(v)
        return bool(o.items[0]) if len(o.items) == 1 and o.dtype != 'unknown' else (False if not o.items else None)
