"""Abstract values, heap objects and program states."""
import itertools
from .terms import Poly, Stack, Concat, ckey, ctranspose, ZERO, vec, unvec

_ids = itertools.count(1)


class V(object):
    __slots__ = ()


class K(V):
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return repr(self.v)

    def key(self):
        return ('K', type(self.v).__name__, repr(self.v))


class DT(object):
    """a numpy dtype"""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'dtype(%s)' % self.name

    def __eq__(self, o):
        return isinstance(o, DT) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class HashVal(object):
    __slots__ = ('k',)

    def __init__(self, k):
        self.k = k

    def __repr__(self):
        return 'hash%r' % (self.k,)

    def __eq__(self, o):
        return isinstance(o, HashVal) and o.k == self.k

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.k)

    def __lt__(self, o):
        return repr(self.k) < repr(o.k)


class Ref(V):
    __slots__ = ('id',)

    def __init__(self, i):
        self.id = i

    def __repr__(self):
        return '&%d' % self.id

    def key(self):
        return ('R', self.id)


class Tup(V):
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return 'Tup%r' % (self.items,)

    def key(self):
        return ('T',) + tuple(x.key() for x in self.items)


class Sc(V):
    """symbolic scalar"""
    __slots__ = ('p', 'dt')

    def __init__(self, p, dt='complex128'):
        self.p, self.dt = p, dt

    def __repr__(self):
        return 'Sc(%s)' % (self.p,)

    def key(self):
        return ('S', self.p.key())


class Fn(V):
    __slots__ = ('node', 'mod', 'env', 'name', 'cls', 'lam')

    def __init__(self, node, mod, env, name, cls=None, lam=False):
        self.node, self.mod, self.env, self.name, self.cls, self.lam = node, mod, env, name, cls, lam

    def __repr__(self):
        return '<fn %s>' % self.name

    def key(self):
        return ('F', id(self.node), self.env)


class BM(V):
    __slots__ = ('fn', 'self_')

    def __init__(self, fn, s):
        self.fn, self.self_ = fn, s

    def __repr__(self):
        return '<bound %r>' % self.fn

    def key(self):
        return ('B', self.fn.key(), self.self_.key())


class Cls(V):
    __slots__ = ('ci',)

    def __init__(self, ci):
        self.ci = ci

    def __repr__(self):
        return '<class %s>' % self.ci.qual

    def key(self):
        return ('C', self.ci.qual)


class ModV(V):
    __slots__ = ('name',)

    def __init__(self, n):
        self.name = n

    def __repr__(self):
        return '<mod %s>' % self.name

    def key(self):
        return ('M', self.name)


class Ext(V):
    __slots__ = ('path',)

    def __init__(self, p):
        self.path = p

    def __repr__(self):
        return '<ext %s>' % self.path

    def key(self):
        return ('E', self.path)


class EM(V):
    """method of a modelled object"""
    __slots__ = ('obj', 'name')

    def __init__(self, o, n):
        self.obj, self.name = o, n

    def __repr__(self):
        return '<%r.%s>' % (self.obj, self.name)

    def key(self):
        return ('EM', self.obj.key(), self.name)


class UFn(V):
    """user supplied callable (drive function, rhs ...)"""
    __slots__ = ('name', 'dt')

    def __init__(self, name, dt='complex128'):
        self.name, self.dt = name, dt

    def __repr__(self):
        return '<user %s>' % self.name

    def key(self):
        return ('UF', self.name)


class Part(V):
    __slots__ = ('fn', 'args', 'kw')

    def __init__(self, fn, args, kw):
        self.fn, self.args, self.kw = fn, tuple(args), dict(kw)

    def key(self):
        return ('P', self.fn.key())


class Super(V):
    __slots__ = ('ci', 'self_')

    def __init__(self, ci, s):
        self.ci, self.self_ = ci, s

    def key(self):
        return ('SUP', self.ci.qual)


class Top(V):
    __slots__ = ('why',)

    def __init__(self, why=''):
        self.why = why

    def __repr__(self):
        return 'Top(%s)' % self.why

    def key(self):
        return ('TOP', id(self))


class U(V):
    """unknown boolean with an identity (same key -> same truth value on a partition)"""
    __slots__ = ('k',)

    def __init__(self, k):
        self.k = k

    def __repr__(self):
        return 'U(%s)' % (self.k,)

    def key(self):
        return ('U', self.k)


class Slc(V):
    __slots__ = ('a', 'b', 'c')

    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c

    def key(self):
        return ('SL', self.a.key(), self.b.key(), self.c.key())


class Exc(V):
    __slots__ = ('name', 'msg', 'loc', 'internal', 'val')

    def __init__(self, name, msg='', loc=None, internal=False, val=None):
        self.name, self.msg, self.loc, self.internal, self.val = name, msg, loc, internal, val

    def __repr__(self):
        return 'Exc(%s:%s @%s%s)' % (self.name, self.msg, self.loc, ' INTERNAL' if self.internal else '')

    def key(self):
        return ('X', self.name)


NONE, TRUE, FALSE = K(None), K(True), K(False)
NOTIMPL = K(NotImplemented)


# ---------------- heap objects
class Obj(object):
    origin = None

    def copy(self):
        n = self.__class__.__new__(self.__class__)
        n.__dict__.update(self.__dict__)
        for k, v in n.__dict__.items():
            if isinstance(v, dict):
                n.__dict__[k] = dict(v)
            elif isinstance(v, list):
                n.__dict__[k] = list(v)
        return n


class Inst(Obj):
    def __init__(self, ci, f=None, origin=None):
        self.ci, self.f, self.origin = ci, dict(f or {}), origin


class Lst(Obj):
    def __init__(self, items, origin=None):
        self.items, self.origin = list(items), origin


class SetO(Obj):
    def __init__(self, items, origin=None):
        self.items, self.origin = list(items), origin


class Dct(Obj):
    def __init__(self, items=(), origin=None):
        self.items, self.origin = [tuple(x) for x in items], origin   # [(key, val)]
        self.open = False        # may contain further unknown entries
        self.default = None      # value (Counter) or factory (defaultdict) of missing keys


class Env(Obj):
    def __init__(self, mod, parent=None, fname=''):
        self.d, self.mod, self.parent, self.fname = {}, mod, parent, fname
        self.nl = {}


class Stor(Obj):
    """storage of an array"""
    def __init__(self, content, shape, dtype, origin=None):
        self.content, self.shape, self.dtype, self.origin = content, tuple(shape), dtype, origin


class Arr(Obj):
    def __init__(self, stor, ops, kind, shape, dtype, wr=True, order='C'):
        self.stor, self.ops, self.kind, self.shape, self.dtype = stor, tuple(ops), kind, tuple(shape), dtype
        self.wr = wr
        self.order = order


class GenO(Obj):
    def __init__(self, items, exc=None):
        self.items, self.pos, self.exc = list(items), 0, exc


class Opaque(Obj):
    """uninterpreted foreign object (e.g. an ode solver, a basis stub)"""
    def __init__(self, kind, f=None, origin=None):
        self.kind, self.f, self.origin = kind, dict(f or {}), origin


class State(object):
    def __init__(self):
        self.heap = {}
        self.own = set()
        self.env = None
        self.facts = {}
        self.depth = 0
        self.notes = []
        self.lastw = {}
        self.events = []
        self.defaults = {}
        self.ylist = None
        self.cls = None
        self.unsure = ()

    def fork(self):
        n = State.__new__(State)
        n.heap = dict(self.heap)
        n.own = set()
        self.own = set()
        n.env = self.env
        n.facts = dict(self.facts)
        n.depth = self.depth
        n.notes = list(self.notes)
        n.lastw = dict(self.lastw)
        n.events = list(self.events)
        n.defaults = dict(self.defaults)
        n.ylist = self.ylist
        n.cls = self.cls
        n.unsure = self.unsure
        return n

    def new(self, obj):
        i = next(_ids)
        self.heap[i] = obj
        self.own.add(i)
        return Ref(i)

    def g(self, r):
        return self.heap[r.id if isinstance(r, Ref) else r]

    def w(self, r):
        i = r.id if isinstance(r, Ref) else r
        if i not in self.own:
            self.heap[i] = self.heap[i].copy()
            self.own.add(i)
        return self.heap[i]

    # arrays
    def arr(self, content, shape, dtype, kind='nd', origin=None, order='C'):
        s = self.new(Stor(content, shape, dtype, origin))
        return self.new(Arr(s.id, (), kind, shape, dtype, True, order))

    def content(self, r):
        a = self.g(r)
        return read(self.heap[a.stor].content, a.ops, self.heap[a.stor].shape)

    def setcontent(self, r, c, loc=None):
        a = self.g(r)
        st = self.w(a.stor)
        st.content = write(st.content, a.ops, st.shape, c)
        self.lastw[(a.stor, '')] = loc


def op_shape(op, shape):
    if op[0] == 'T':
        return tuple(reversed(shape))
    if op[0] == 'perm':
        return tuple(shape[i] for i in op[1])
    if op[0] == 'ix':
        return shape[:op[1]] + shape[op[1] + 1:]
    if op[0] == 'sl':
        return shape[:op[1]] + (op[3] - op[2],) + shape[op[1] + 1:]
    if op[0] == 'shape':
        return op[1]
    if op[0] == 'ravel':
        n = 1
        for x in op[1]:
            n *= x
        return (n,)
    if op[0] == 'reshape':
        return op[2]
    return shape


def sel(a, b, n):
    if a == 0 and b == n:
        return Poly.const(1)
    return Poly({((), (('sel', a, b, n, False),)): 1})


def apply_op(op, c, shape):
    nd = len(shape)
    if c is None:
        return None
    if op[0] == 'T':
        if nd <= 2:
            return ctranspose(c, nd)
        return apply_op(('perm', tuple(reversed(range(nd)))), c, shape)
    if op[0] == 'perm':
        if isinstance(c, Poly):
            if c.is_zero():
                return c
            if nd == 2:
                return c.T() if op[1] == (1, 0) else c
            return None
        if isinstance(c, Stack):
            newax = op[1].index(c.axis)
            rest = [i for i in op[1] if i != c.axis]
            rem = sorted(rest)
            sub = tuple(rem.index(i) for i in rest)
            shp = tuple(shape[i] for i in rem)
            ps = [apply_op(('perm', sub), p, shp) if sub != tuple(range(len(sub))) else p for p in c.parts]
            return None if any(p is None for p in ps) else Stack(newax, ps)
        return None
    if op[0] == 'ix':
        _, ax, i = op
        if i < 0:
            i += shape[ax]
        if isinstance(c, Stack):
            if c.axis == ax:
                return c.parts[i] if 0 <= i < len(c.parts) else None
            # index another axis inside each part
            sub_ax = ax if ax < c.axis else ax - 1
            shp = tuple(s for k, s in enumerate(shape) if k != c.axis)
            ps = [apply_op(('ix', sub_ax, i), p, shp) for p in c.parts]
            na = c.axis if c.axis < ax else c.axis - 1
            return None if any(p is None for p in ps) else Stack(na, ps)
        if isinstance(c, Poly):
            if c.is_zero():
                return c
            if nd == 2 and ax == 1:
                return c * sel(i, i + 1, shape[1]).T()
            if nd == 2 and ax == 0:
                return (sel(i, i + 1, shape[0]) * c).T()
            if nd == 1:
                return (sel(i, i + 1, shape[0]) * c).trace()
            return None
        if isinstance(c, Concat) and c.axis == ax:
            pos = 0
            for n, p in c.parts:
                if pos <= i < pos + n:
                    return apply_op(('ix', ax, i - pos), p, shape[:ax] + (n,) + shape[ax + 1:])
                pos += n
        return None
    if op[0] == 'sl':
        _, ax, a, b = op
        if a == 0 and b == shape[ax]:
            return c
        if isinstance(c, Poly):
            if c.is_zero():
                return c
            if ax == 0 and nd in (1, 2):
                return sel(a, b, shape[0]) * c
            if ax == 1 and nd == 2:
                return c * sel(a, b, shape[1]).T()
            return None
        if isinstance(c, Stack) and c.axis == ax:
            return Stack(ax, c.parts[a:b])
        if isinstance(c, Concat) and c.axis == ax:
            pos = 0
            out = []
            for n, p in c.parts:
                lo, hi = max(a, pos), min(b, pos + n)
                if lo < hi:
                    q = apply_op(('sl', ax, lo - pos, hi - pos), p, shape[:ax] + (n,) + shape[ax + 1:])
                    if q is None:
                        return None
                    out.append((hi - lo, q))
                pos += n
            if len(out) == 1:
                return out[0][1]
            return Concat(ax, out)
        return None
    if op[0] == 'shape':
        return c if tuple(op[1]) == tuple(shape) else None
    if op[0] == 'ravel':
        return cvec(c, op[1])
    if op[0] == 'reshape':
        return creshape(c, op[1], op[2])
    if op[0] == 'real':
        return None
    if op[0] == 'diag':
        if isinstance(c, Poly):
            if c.is_zero() or tuple(shape) == (1, 1):
                return c
            return diagvec(c)
        return None
    return None


def cvec(c, shape):
    if isinstance(c, Poly):
        return vec(c, shape) if len(shape) == 2 else None
    if isinstance(c, Concat) and c.axis == 0 and len(shape) == 2:
        ps = [(n * shape[1], cvec(p, (n, shape[1]))) for n, p in c.parts]
        return None if any(p is None for _, p in ps) else Concat(0, ps)
    return None


def creshape(c, frm, to):
    if frm == to:
        return c
    if len(frm) == 2 and len(to) == 1:
        return cvec(c, frm)
    if len(frm) == 1 and len(to) == 2:
        if isinstance(c, Poly):
            return unvec(c, to)
        if isinstance(c, Concat) and c.axis == 0 and all(n % to[1] == 0 for n, _ in c.parts):
            return Concat(0, [(n // to[1], unvec(p, (n // to[1], to[1])) if isinstance(p, Poly) else None) for n, p in c.parts]) \
                if all(isinstance(p, Poly) for _, p in c.parts) else None
    return None


def diagvec(p):
    """diagonal (as vector) of a matrix polynomial: linear"""
    out = {}
    for (s, w), c in p.d.items():
        if len(w) == 1 and w[0][0] == 'fn' and w[0][1] == 'diag':
            q = Poly.from_key(w[0][2][0])
        else:
            base = Poly({((), w): 1})
            bt = base.T()
            base = min(base, bt, key=lambda x: repr(x.key()))
            q = Poly({((), (('fn', 'dgv', (base.key(),), False, False),)): 1})
        for k, cc in (q * Poly({(s, ()): c})).d.items():
            out[k] = out.get(k, 0) + cc
    return Poly(out)


def read(c, ops, shape):
    for op in ops:
        c = apply_op(op, c, shape)
        shape = op_shape(op, shape)
    return c


def write(c, ops, shape, new):
    if not ops:
        return new
    op, rest = ops[0], ops[1:]
    shp = op_shape(op, shape)
    inner = new if not rest else write(apply_op(op, c, shape), rest, shp, new)
    nd = len(shape)
    if inner is None:
        return None
    if op[0] == 'T':
        if nd <= 2:
            return ctranspose(inner, nd)
        return apply_op(('perm', tuple(reversed(range(nd)))), inner, shp)
    if op[0] == 'perm':
        inv = tuple(op[1].index(i) for i in range(nd))
        return apply_op(('perm', inv), inner, shp)
    if op[0] == 'ix':
        _, ax, i = op
        if i < 0:
            i += shape[ax]
        if isinstance(c, Stack) and c.axis == ax:
            ps = list(c.parts)
            if not 0 <= i < len(ps):
                return None
            ps[i] = inner
            return Stack(ax, ps)
        if shape[ax] <= 16:
            ps = [apply_op(('ix', ax, k), c, shape) for k in range(shape[ax])]
            if any(p is None for k, p in enumerate(ps) if k != i):
                return None
            ps[i] = inner
            return Stack(ax, ps)
        return None
    if op[0] == 'sl':
        _, ax, a, b = op
        n = shape[ax]
        if a == 0 and b == n:
            return inner
        out = []
        if a > 0:
            p = apply_op(('sl', ax, 0, a), c, shape)
            if p is None:
                return None
            out.append((a, p))
        out.append((b - a, inner))
        if b < n:
            p = apply_op(('sl', ax, b, n), c, shape)
            if p is None:
                return None
            out.append((n - b, p))
        # flatten
        flat = []
        for m, p in out:
            if isinstance(p, Concat) and p.axis == ax:
                flat.extend(p.parts)
            else:
                flat.append((m, p))
        if all(isinstance(p, Poly) and p.is_zero() for _, p in flat):
            return ZERO
        return Concat(ax, flat)
    if op[0] == 'ravel':
        return creshape(inner, shp, tuple(op[1]))
    if op[0] == 'reshape':
        return creshape(inner, tuple(op[2]), tuple(op[1]))
    if op[0] == 'shape':
        return inner if tuple(op[1]) == tuple(shape) else None
    return None


class CArr(Obj):
    """small array of fully known integers, truth values or characters (site maps, index lists)"""
    def __init__(self, items, shape, dtype):
        self.items, self.shape, self.dtype = list(items), tuple(shape), dtype
        self.sub = False       # made by slicing: shares memory with another array
