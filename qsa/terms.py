"""Term domain: commutative scalar polynomials times non-commutative matrix words.

A Poly is a mapping {(scalars, word): coefficient}.
  scalars : sorted tuple of (scalar_atom, power)
  word    : tuple of matrix atoms (matrix product, left to right)
Matrix atoms  ('m', name, T, C)            declared symbol with transpose/conjugate flag
              ('fn', fname, args, T, C)    uninterpreted matrix function of closed arguments
              ('sel', a, b, n, T)          row selector (identity rows a..b of n)
              ('diag', polykey, T?)        diagonal matrix built from a vector
Scalar atoms  ('s', name, C), ('app', name, args, C), ('tr', word), ('inv', polykey), ('sfn', ...)
The domain is a Herbrand-style (global value numbering) domain with a normal form for the ring axioms.
"""
from functools import lru_cache

PROPS = {}          # symbol name -> set of {'real','herm','sym','zero'}


def declare(name, *props):
    PROPS[name] = set(props)


EPS = 1e-9


def _norm_atom(a):
    if a[0] == 'm':
        _, n, T, C = a
        p = PROPS.get(n, ())
        if 'real' in p:
            C = False
        if 'sym' in p:
            T = False
        if 'herm' in p and T:        # A^T = conj(A), A^H = A
            T, C = False, (not C) if 'real' not in p else False
        return ('m', n, T, C)
    if a[0] == 'fn':
        return norm_fn(a)
    return a


def norm_fn(a):
    _, name, args, T, C = a
    if name in ('expm',):
        # expm(X)^T = expm(X^T), conj likewise
        X = Poly.from_key(args[0])
        if T:
            X = X.T()
        if C:
            X = X.conj()
        return ('fn', name, (X.key(),), False, False)
    if name == 'diag':
        X = Poly.from_key(args[0])
        if C:
            X = X.conj()
        return ('fn', 'diag', (X.key(),), False, False)
    if name == 'had':
        Xs = [Poly.from_key(k) for k in args]
        if T:
            Xs = [x.T() for x in Xs]
        if C:
            Xs = [x.conj() for x in Xs]
        return ('fn', 'had', tuple(sorted((x.key() for x in Xs), key=repr)), False, False)
    if name in ('re', 'im'):
        X = Poly.from_key(args[0])
        if T:
            X = X.T()
        return ('fn', name, (X.key(),), False, False)
    if name in ('vec', 'unvec'):
        if C:
            return ('fn', name, (Poly.from_key(args[0]).conj().key(),) + tuple(args[1:]), T, False)
        return a
    if name == 'colnorm':
        return ('fn', name, args, T, False)
    return a


def vec(p, shape):
    """C-order raveling of a matrix (linear)"""
    if len(shape) == 2 and 1 in shape:
        return p if shape[1] == 1 else p.T()
    return _linear(p, 'vec', 'unvec', tuple(shape))


def unvec(p, shape):
    if len(shape) == 2 and 1 in shape:
        return p if shape[1] == 1 else p.T()
    return _linear(p, 'unvec', 'vec', tuple(shape))


def _linear(p, name, inverse, shape):
    out = ZERO
    for (s, w), c in p.d.items():
        sc = Poly({(s, ()): c})
        if len(w) == 1 and w[0][0] == 'fn' and w[0][1] == inverse and w[0][2][1] == shape and not w[0][3]:
            t = Poly.from_key(w[0][2][0])
        elif len(w) == 1 and w[0][0] == 'fn' and w[0][1] in ('re', 'im') and not w[0][3]:
            t = Poly.fn(w[0][1], _linear(Poly.from_key(w[0][2][0]), name, inverse, shape))
        else:
            t = Poly.fn(name, Poly({((), w): 1}), shape)
        out = out + t * sc
    return out


def atom_T(a):
    if a[0] == 'm':
        return _norm_atom(('m', a[1], not a[2], a[3]))
    if a[0] == 'fn':
        return _norm_atom(('fn', a[1], a[2], not a[3], a[4]))
    if a[0] == 'sel':
        return ('sel', a[1], a[2], a[3], not a[4])
    return ('fn', 'T', (a,), False, False)


def atom_C(a):
    if a[0] == 'm':
        return _norm_atom(('m', a[1], a[2], not a[3]))
    if a[0] == 'fn':
        return _norm_atom(('fn', a[1], a[2], a[3], not a[4]))
    if a[0] == 'sel':
        return a
    return a


def satom_C(a):
    if a[0] == 's':
        if 'real' in PROPS.get(a[1], ()):
            return a
        return ('s', a[1], not a[2])
    if a[0] == 'app':
        if 'real' in PROPS.get(a[1], ()):
            return a
        return ('app', a[1], a[2], not a[3])
    if a[0] == 'tr':
        return ('tr', canon_trace(tuple(atom_C(x) for x in a[1])))
    if a[0] == 'inv':
        return ('inv', Poly.from_key(a[1]).conj().key())
    if a[0] == 'sfn':
        if a[1] in ('re', 'abs', 'im', 'float', 'norm'):
            return a
        return ('sfn', a[1], a[2], not a[3])
    return a


def canon_trace(w):
    best = None
    for ww in (w, tuple(atom_T(x) for x in reversed(w))):
        for i in range(max(1, len(ww))):
            r = ww[i:] + ww[:i]
            k = repr(r)
            if best is None or k < best[0]:
                best = (k, r)
    return best[1]


def _smul(a, b):
    d = dict(a)
    for k, p in b:
        d[k] = d.get(k, 0) + p
        if d[k] == 0:
            del d[k]
    return tuple(sorted(d.items(), key=repr))


def _isdiag(a):
    return a[0] == 'fn' and a[1] == 'diag'


def _simp_word(w):
    """diagonal matrices next to each other commute, and reciprocal ones cancel"""
    n = e = 0
    for a in w:
        if a[0] == 'fn':
            if a[1] == 'diag':
                n += 1
            elif a[1] == 'expm':
                e += 1
    if e > 1:
        w = _merge_expm(w)
    if n < 2:
        return w
    out, run = [], []
    for a in w + (None,):
        if a is not None and _isdiag(a):
            k = _recip_key(a[2][0])
            b = ('fn', 'diag', (k,), False, False)
            if b in run:
                run.remove(b)
            else:
                run.append(a)
            continue
        run.sort(key=repr)
        out.extend(run)
        run = []
        if a is not None:
            out.append(a)
    return tuple(out)


def _merge_expm(w):
    """exponentials of commuting arguments next to each other: exp(P).exp(Q) = exp(P+Q)"""
    out = []
    for a in w:
        if out and a[0] == 'fn' and a[1] == 'expm' and out[-1][0] == 'fn' and out[-1][1] == 'expm':
            p, q = Poly.from_key(out[-1][2][0]), Poly.from_key(a[2][0])
            if p * q == q * p:
                s = p + q
                out.pop()
                if not s.is_zero():
                    out.append(('fn', 'expm', (s.key(),), False, False))
                continue
        out.append(a)
    return tuple(out)


def _recip_key(k):
    """key of the elementwise reciprocal of a plain vector term"""
    if len(k) == 1:
        (s, w), c = k[0]
        if s == () and c == 1 and len(w) == 1 and w[0][0] == 'fn' and w[0][1] == 'recip':
            return w[0][2][0]
    return Poly({((), (('fn', 'recip', (k,), False, False),)): 1}).key()


class Poly(object):
    __slots__ = ('d', '_key')

    def __init__(self, d=None):
        self.d = {k: c for k, c in (d or {}).items() if abs(c) > EPS}
        self._key = None

    # constructors
    @staticmethod
    def const(c):
        return Poly({((), ()): complex(c)})

    @staticmethod
    def sym(name, T=False, C=False):
        return Poly({((), (_norm_atom(('m', name, T, C)),)): 1})

    @staticmethod
    def scalar(name, C=False):
        a = ('s', name, False)
        if C:
            a = satom_C(a)
        return Poly({(((a, 1),), ()): 1})

    @staticmethod
    def satom(a):
        return Poly({(((a, 1),), ()): 1})

    @staticmethod
    def atom(a):
        return Poly({((), (_norm_atom(a),)): 1})

    @staticmethod
    def fn(name, *args):
        return Poly.atom(('fn', name, tuple(a.key() if isinstance(a, Poly) else a for a in args), False, False))

    @staticmethod
    def from_key(k):
        return Poly(dict(k))

    def key(self):
        if self._key is None:
            self._key = tuple(sorted(((k, complex(round(c.real, 9), round(c.imag, 9)) if isinstance(c, complex)
                                       else complex(c)) for k, c in self.d.items()), key=repr))
        return self._key

    # ring
    def __add__(self, o):
        d = dict(self.d)
        for k, c in o.d.items():
            d[k] = d.get(k, 0) + c
        return Poly(d)

    def __neg__(self):
        return Poly({k: -c for k, c in self.d.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):          # matrix product / scalar product
        d = {}
        for (s1, w1), c1 in self.d.items():
            for (s2, w2), c2 in o.d.items():
                k = (_smul(s1, s2), _simp_word(w1 + w2))
                d[k] = d.get(k, 0) + c1 * c2
        return Poly(d)

    def scale(self, c):
        return Poly({k: v * c for k, v in self.d.items()})

    def T(self):
        return Poly({(s, tuple(atom_T(a) for a in reversed(w))): c for (s, w), c in self.d.items()})

    def conj(self):
        d = {}
        for (s, w), c in self.d.items():
            ss = ()
            for a, p in s:
                ss = _smul(ss, ((satom_C(a), p),))
            k = (ss, tuple(atom_C(a) for a in w))
            d[k] = d.get(k, 0) + complex(c).conjugate()
        return Poly(d)

    def H(self):
        return self.conj().T()

    def trace(self):
        d = {}
        for (s, w), c in self.d.items():
            k = (_smul(s, ((('tr', canon_trace(w)), 1),)), ())
            d[k] = d.get(k, 0) + c
        return Poly(d)

    def power(self, n):
        if n == 0:
            return Poly.const(1)
        if n < 0:
            return self.inverse().power(-n)
        r = self
        for _ in range(n - 1):
            r = r * self
        return r

    def inverse(self):
        """scalar inverse"""
        if len(self.d) == 1:
            (s, w), c = next(iter(self.d.items()))
            if w == ():
                return Poly({(tuple((a, -p) for a, p in s), ()): 1.0 / c})
        return Poly.satom(('inv', self.key()))

    def is_zero(self):
        return not self.d

    def is_scalar(self):
        return all(w == () for (_, w) in self.d)

    def const_value(self):
        """complex constant if the polynomial is a constant, else None"""
        if not self.d:
            return 0
        if len(self.d) == 1 and ((), ()) in self.d:
            return self.d[((), ())]
        return None

    def is_real(self):
        return self == self.conj()

    def atoms(self):
        out = set()
        for (s, w) in self.d:
            for a, _ in s:
                out.add(a)
            for a in w:
                out.add(a)
        return out

    def __eq__(self, o):
        return isinstance(o, Poly) and (self - o).is_zero()

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return fmt(self)


def fmt_atom(a):
    if a[0] == 'm':
        s = a[1]
        if a[2] and a[3]:
            return s + '^H'
        return s + ('^T' if a[2] else '') + ('^*' if a[3] else '')
    if a[0] == 'fn':
        s = '%s(%s)' % (a[1], ','.join(fmt(Poly.from_key(x)) if _iskey(x) else str(x) for x in a[2]))
        return s + ('^T' if a[3] else '') + ('^*' if a[4] else '')
    if a[0] == 'sel':
        return 'E[%s:%s/%s]%s' % (a[1], a[2], a[3], '^T' if a[4] else '')
    return str(a)


def _iskey(x):
    return isinstance(x, tuple) and all(isinstance(e, tuple) and len(e) == 2 and isinstance(e[0], tuple)
                                        and len(e[0]) == 2 for e in x)


def fmt_satom(a):
    if a[0] == 's':
        return a[1] + ('^*' if a[2] else '')
    if a[0] == 'app':
        return '%s(%s)%s' % (a[1], ','.join(fmt(Poly.from_key(x)) if _iskey(x) else str(x) for x in a[2]),
                             '^*' if a[3] else '')
    if a[0] == 'tr':
        return 'tr[%s]' % '.'.join(fmt_atom(x) for x in a[1])
    if a[0] == 'inv':
        return '1/(%s)' % fmt(Poly.from_key(a[1]))
    return str(a)


def fmt(p):
    if not p.d:
        return '0'
    out = []
    for (s, w), c in sorted(p.d.items(), key=repr):
        c = complex(c)
        parts = []
        if c.imag == 0:
            cr = c.real
            if cr == int(cr):
                cr = int(cr)
            if cr != 1 or (not s and not w):
                parts.append(str(cr))
        else:
            parts.append(str(c))
        for a, pw in s:
            parts.append(fmt_satom(a) + ('' if pw == 1 else '^%d' % pw))
        if w:
            parts.append('.'.join(fmt_atom(a) for a in w))
        out.append('*'.join(parts))
    return ' + '.join(out)


ZERO = Poly()
ONE = Poly.const(1)


# ---- array contents -------------------------------------------------------------------------
class Stack(object):
    """array of ndim d made of parts of ndim d-1 along `axis` (each part: Poly or Stack/Concat)"""
    __slots__ = ('axis', 'parts')

    def __init__(self, axis, parts):
        self.axis = axis
        self.parts = tuple(parts)

    def key(self):
        return ('stack', self.axis, tuple(ckey(p) for p in self.parts))

    def __eq__(self, o):
        return isinstance(o, Stack) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return 'stack%d[%s]' % (self.axis, '; '.join(map(str, self.parts)))


class Concat(object):
    """array made of same-ndim blocks along `axis`: parts = ((size, content), ...)"""
    __slots__ = ('axis', 'parts')

    def __init__(self, axis, parts):
        self.axis = axis
        self.parts = tuple(parts)

    def key(self):
        return ('concat', self.axis, tuple((n, ckey(p)) for n, p in self.parts))

    def __eq__(self, o):
        return isinstance(o, Concat) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return 'concat%d[%s]' % (self.axis, '; '.join('%s:%s' % (n, p) for n, p in self.parts))


def ckey(c):
    return None if c is None else c.key()


def cmap(c, f):
    """apply a linear entrywise-compatible map to every Poly leaf"""
    if c is None:
        return None
    if isinstance(c, Poly):
        return f(c)
    if isinstance(c, Stack):
        ps = [cmap(p, f) for p in c.parts]
        return None if any(p is None for p in ps) else Stack(c.axis, ps)
    ps = [(n, cmap(p, f)) for n, p in c.parts]
    return None if any(p is None for _, p in ps) else Concat(c.axis, ps)


def cadd(a, b):
    if a is None or b is None:
        return None
    if isinstance(a, Poly) and isinstance(b, Poly):
        return a + b
    if isinstance(a, Poly) and a.is_zero():
        return b
    if isinstance(b, Poly) and b.is_zero():
        return a
    if isinstance(a, Stack) and isinstance(b, Stack) and a.axis == b.axis and len(a.parts) == len(b.parts):
        ps = [cadd(x, y) for x, y in zip(a.parts, b.parts)]
        return None if any(p is None for p in ps) else Stack(a.axis, ps)
    if isinstance(a, Concat) and isinstance(b, Concat) and a.axis == b.axis \
            and [n for n, _ in a.parts] == [n for n, _ in b.parts]:
        ps = [(x[0], cadd(x[1], y[1])) for x, y in zip(a.parts, b.parts)]
        return None if any(p is None for _, p in ps) else Concat(a.axis, ps)
    return None


def ctranspose(c, ndim):
    """full reversal for ndim<=2"""
    if c is None:
        return None
    if ndim <= 1:
        return c
    if isinstance(c, Poly):
        return c.T()
    if isinstance(c, Stack):
        return Stack(1 - c.axis, c.parts)
    ps = [(n, ctranspose(p, 2)) for n, p in c.parts]
    return None if any(p is None for _, p in ps) else Concat(1 - c.axis, ps)


def cmatmul(a, b, na, nb):
    """matrix product of contents of ndim na, nb (1-D operands are columns; 1-D on the left acts as a row)"""
    if a is None or b is None:
        return None
    if isinstance(a, Poly) and isinstance(b, Poly):
        if na == 2 and nb == 2:
            return a * b
        if na == 2 and nb == 1:
            return a * b
        if na == 1 and nb == 2:
            return b.T() * a
        if na == 1 and nb == 1:
            return (a.T() * b).trace()
        return None
    if isinstance(a, Poly) and a.is_zero():
        return ZERO
    if isinstance(b, Poly) and b.is_zero():
        return ZERO
    if isinstance(a, Poly) and na == 2 and isinstance(b, Stack) and nb == 2 and b.axis == 1:
        ps = [cmatmul(a, p, 2, 1) for p in b.parts]
        return None if any(p is None for p in ps) else Stack(1, ps)
    if isinstance(b, Poly) and nb == 2 and isinstance(a, Stack) and na == 2 and a.axis == 0:
        ps = [cmatmul(p, b, 1, 2) for p in a.parts]
        return None if any(p is None for p in ps) else Stack(0, ps)
    if isinstance(a, Poly) and na == 2 and isinstance(b, Concat) and b.axis == 1:
        ps = [(n, cmatmul(a, p, 2, nb)) for n, p in b.parts]
        return None if any(p is None for _, p in ps) else Concat(1, ps)
    return None
