"""Models of numpy / scipy.sparse / builtins used by the abstract interpreter.

The operand-kind rules (which class results from `csr * ndarray`, what is done in place, what aliases its operand)
were derived once from the pinned numpy 1.26 / scipy 1.11 (tools/gen_nptable.py, nptable.json)."""
import itertools
import math
from .values import *
from .terms import Poly, Stack, Concat, ZERO, ONE, PROPS, atom_T, cadd, cmap, cmatmul, ctranspose, ckey

SP = ('csr', 'csc', 'dia', 'bsr', 'coo', 'lil')
RANK = ['bool', 'int8', 'int32', 'int64', 'float32', 'float64', 'complex64', 'complex128']
DTNAMES = {'bool': 'bool', 'bool_': 'bool', 'int8': 'int8', 'uint8': 'int8', 'int16': 'int8', 'int32': 'int32', 'int64': 'int64',
           'uint32': 'int64', 'uint64': 'int64', 'intp': 'int64', 'longlong': 'int64',
           'float32': 'float32', 'float64': 'float64', 'complex64': 'complex64', 'complex128': 'complex128',
           'float_': 'float64', 'complex_': 'complex128', 'double': 'float64', 'cdouble': 'complex128',
           'csingle': 'complex64', 'single': 'float32', 'int_': 'int64'}
ALIAS = {'scipy.sparse.linalg.isolve': 'scipy.sparse.linalg', 'six.moves': 'six.moves'}
ND_ATTRS = set('''T all any argmax argmin argpartition argsort astype base byteswap choose clip compress conj conjugate copy ctypes
cumprod cumsum data diagonal dot dtype dump dumps fill flags flat getfield imag item itemset itemsize max mean min nbytes ndim
newbyteorder nonzero partition prod ptp put ravel real repeat reshape resize round searchsorted setfield setflags shape size sort
squeeze std strides sum swapaxes take tobytes tofile tolist tostring trace transpose var view __array_interface__ __class__'''.split())
MAT_ATTRS = ND_ATTRS | set('A A1 H I getA getA1 getH getI getT'.split())
SP_ATTRS = set('''T H A asformat asfptype astype conj conjugate copy count_nonzero data diagonal dot dtype format getH get_shape getcol
getformat getmaxprint getnnz getrow imag maximum max mean min minimum multiply ndim nnz nonzero power real reshape resize set_shape
setdiag shape sum toarray tobsr tocoo tocsc tocsr todense todia todok tolil trace transpose rmatvec __class__ arcsin'''.split())
CS_ATTRS = SP_ATTRS | set('indices indptr sum_duplicates eliminate_zeros sort_indices sorted_indices has_sorted_indices has_canonical_format prune check_format argmax argmin getrow getcol'.split())
DIA_ATTRS = SP_ATTRS | set('offsets'.split())


def rt(*ds):
    """numpy result_type for arrays"""
    cs = any(d.startswith('complex') for d in ds)
    if not cs:
        best = max(ds, key=RANK.index)
        if best == 'float32' and any(d in ('int32', 'int64') for d in ds):
            return 'float64'
        return best
    dbl = any(d in ('complex128', 'float64', 'int64', 'int32') for d in ds)
    return 'complex128' if dbl else 'complex64'


def iscomplex(d):
    return d.startswith('complex')


def isreal(d):
    return not d.startswith('complex')


from .npext import NPExt


class NP(NPExt):
    def __init__(self, I):
        self.I = I
        self.calls = {}

    def canon(self, p):
        if p.startswith('scipy.sparse.') and p.count('.') >= 2:
            parts = p.split('.')
            if parts[2] in ('csr', 'csc', 'dia', 'base', '_csr', '_base', 'compressed') and len(parts) > 3:
                p = 'scipy.sparse.' + parts[-1]
        if p in ('functools.reduce',):
            return 'functools.reduce'
        return p

    # ------------------------------------------------------------ scalars / dtypes
    def as_dtype(self, v):
        """dtype name or None"""
        if isinstance(v, K):
            if isinstance(v.v, DT):
                return v.v.name
            if isinstance(v.v, str) and v.v in DTNAMES:
                return DTNAMES[v.v]
            return None
        if isinstance(v, Ext):
            p = v.path
            if p.startswith('numpy.') and p[6:] in DTNAMES:
                return DTNAMES[p[6:]]
            if p == 'builtins.complex':
                return 'complex128'
            if p == 'builtins.float':
                return 'float64'
            if p == 'builtins.int':
                return 'int64'
            if p == 'builtins.bool':
                return 'bool'
        return None

    def spoly(self, v):
        """scalar polynomial of a numeric scalar value or None"""
        if isinstance(v, Sc):
            return v.p
        if isinstance(v, K) and isinstance(v.v, (int, float, complex)) and not isinstance(v.v, bool):
            if v.v != v.v or abs(v.v) == float('inf'):
                return None
            return Poly.const(v.v)
        if isinstance(v, K) and isinstance(v.v, bool):
            return Poly.const(int(v.v))
        return None

    def dtof(self, v, S):
        """dtype name of a value or None"""
        if isinstance(v, Sc):
            return v.dt
        if isinstance(v, K):
            if isinstance(v.v, bool):
                return 'bool'
            if isinstance(v.v, int):
                return 'int64'
            if isinstance(v.v, float):
                return 'float64'
            if isinstance(v.v, complex):
                return 'complex128'
        if isinstance(v, Ref):
            o = S.g(v)
            if isinstance(o, Arr):
                return o.dtype
        return self.as_dtype(v)

    def weak(self, v):
        return isinstance(v, (K,)) or isinstance(v, Sc)

    def scbin(self, op, l, r, S, node):
        a, b = self.spoly(l), self.spoly(r)
        if a is None or b is None:
            if (isinstance(l, K) and l.v is None) or (isinstance(r, K) and r.v is None):
                return self.I.exc('TypeError', 'unsupported operand None', node, S, True)
            return self.I.top('scalar op')
        dl, dr = self.dtof(l, S) or 'complex128', self.dtof(r, S) or 'complex128'
        d = rt(dl, dr)
        if op == '+':
            return Sc(a + b, d)
        if op == '-':
            return Sc(a - b, d)
        if op == '*':
            return Sc(a * b, d)
        if op == '/':
            if b.is_zero():
                return self.I.exc('ZeroDivisionError', 'division by zero', node, S)
            return Sc(a * b.inverse(), d if d.startswith(('float', 'complex')) else 'float64')
        if op == '**':
            c = b.const_value()
            if c is not None and complex(c).imag == 0 and float(complex(c).real).is_integer() and abs(complex(c).real) <= 8:
                return Sc(a.power(int(complex(c).real)), d)
            return Sc(Poly.satom(('sfn', 'pow', (a.key(), b.key()), False)), d)
        if op in ('%', '//'):
            return Sc(Poly.satom(('sfn', op, (a.key(), b.key()), False)), d)
        return self.I.top('scalar op ' + op)

    def order(self, op, l, r, S):
        """generic ordering knowledge"""
        p = self.spoly(l)
        q = self.spoly(r)
        if p is not None and q is not None:
            d = (p - q).const_value()
            if d is not None and complex(d).imag == 0:
                d = complex(d).real
                return {'<': d < 0, '<=': d <= 0, '>': d > 0, '>=': d >= 0}[op]
            # |x| of a generic scalar exceeds every threshold
            if len(p.d) == 1:
                (s, w), c = next(iter(p.d.items()))
                if len(s) == 1 and s[0][0][0] == 'sfn' and s[0][0][1] == 'abs' and q.const_value() is not None:
                    return op in ('>', '>=')
            if len(q.d) == 1 and p.const_value() is not None:
                (s, w), c = next(iter(q.d.items()))
                if len(s) == 1 and s[0][0][0] == 'sfn' and s[0][0][1] == 'abs':
                    return op in ('<', '<=')
        return None

    def fnscalar(self, name, v, dt=None):
        p = self.spoly(v)
        if p is None:
            return None
        c = p.const_value()
        if name == 'abs':
            if c is not None:
                return K(abs(complex(c)))
            return Sc(Poly.satom(('sfn', 'abs', (p.key(),), False)), 'float64')
        return Sc(Poly.satom(('sfn', name, (p.key(),), False)), dt or 'complex128')

    # ------------------------------------------------------------ arrays
    def isarr(self, v, S):
        return isinstance(v, Ref) and isinstance(S.g(v), Arr)

    def shape_of(self, v, S):
        return S.g(v).shape

    def mk(self, S, content, shape, dtype, kind, order='C'):
        return S.arr(content, shape, dtype, kind, None, order)

    def astype_content(self, c, frm, to):
        if c is None:
            return None
        if iscomplex(frm) and isreal(to):
            return cmap(c, lambda p: p if p.is_real() else Poly.fn('re', p) if not p.is_zero() else p)
        if to.startswith('int') and not frm.startswith('int') and frm != 'bool':
            return cmap(c, lambda p: p if p.is_zero() else Poly.fn('int', p))
        return c

    def view(self, S, r, op, kind=None, wr=None):
        a = S.g(r)
        ops = a.ops + ((op,) if op is not None else ())
        # T T cancels
        if len(ops) >= 2 and ops[-1] == ('T',) and ops[-2] == ('T',):
            ops = ops[:-2]
        shp = op_shape(op, a.shape) if op is not None else a.shape
        n = Arr(a.stor, ops, kind or a.kind, shp, a.dtype, a.wr if wr is None else wr,
                ({'C': 'F', 'F': 'C'}.get(a.order, a.order) if op == ('T',) else a.order))
        return S.new(n)

    def kind_add(self, k1, k2, op):
        if k1 in SP and k2 in SP:
            if k1 == 'dia' and k2 == 'dia':
                return 'dia' if op == '+' else 'csr'
            if k1 in ('csc', 'csr'):
                return k1
            return 'csr'
        if k1 in SP or k2 in SP or 'mat' in (k1, k2):
            return 'mat'
        return 'nd'

    def kind_mul(self, k1, k2):
        """(kind, semantics)"""
        if k1 in SP and k2 in SP:
            return ('csc' if k1 == 'csc' else 'csr'), 'matmul'
        if k1 in SP or k2 in SP:
            return ('mat' if 'mat' in (k1, k2) else 'nd'), 'matmul'
        if 'mat' in (k1, k2):
            return 'mat', 'matmul'
        return 'nd', 'had'

    def bcast(self, a, b):
        """numpy broadcasting of shapes; None when incompatible"""
        n = max(len(a), len(b))
        x = (1,) * (n - len(a)) + tuple(a)
        y = (1,) * (n - len(b)) + tuple(b)
        out = []
        for p, q in zip(x, y):
            if p == q or q == 1:
                out.append(p)
            elif p == 1:
                out.append(q)
            else:
                return None
        return tuple(out)

    def had(self, S, l, r):
        """elementwise product content with broadcasting; returns (content, shape) or None on shape error"""
        a, b = S.g(l), S.g(r)
        sh = self.bcast(a.shape, b.shape)
        if sh is None:
            return None
        c, d = S.content(l), S.content(r)
        if isinstance(c, Poly) and c.is_zero() or isinstance(d, Poly) and d.is_zero():
            return ZERO, sh
        if not (isinstance(c, Poly) and isinstance(d, Poly)):
            return None_content(sh)
        if a.shape == b.shape and len(sh) in (1, 2):
            x, y = sorted([c, d], key=lambda p: repr(p.key()))
            if len(sh) == 1 or sh[1] == 1:
                return lin2(x, y, hadv), sh
            return lin2(x, y, lambda u, v: Poly.atom(('fn', 'had', tuple(sorted((u.key(), v.key()), key=repr)), False, False))), sh
        if len(a.shape) == 2 and len(b.shape) == 1:
            return c * diagmat(d), sh
        if len(a.shape) == 1 and len(b.shape) == 2:
            return d * diagmat(c), sh
        if len(a.shape) == 2 and len(b.shape) == 2:
            if b.shape[1] == 1 and a.shape[0] == b.shape[0]:
                return diagmat(d) * c, sh
            if a.shape[1] == 1 and a.shape[0] == b.shape[0]:
                return diagmat(c) * d, sh
            if b.shape[0] == 1 and a.shape[1] == b.shape[1]:
                return c * diagmat(d.T()), sh
            if a.shape[0] == 1 and a.shape[1] == b.shape[1]:
                return d * diagmat(c.T()), sh
        return None_content(sh)

    def binop(self, op, l, r, S, node):
        lo = S.g(l) if isinstance(l, Ref) else None
        ro = S.g(r) if isinstance(r, Ref) else None
        la, ra = isinstance(lo, Arr), isinstance(ro, Arr)
        I = self.I
        if la and ra:
            for x in self.arrbin(op, l, r, S, node):
                yield x
            return
        if la and isinstance(ro, Lst) or ra and isinstance(lo, Lst) or la and isinstance(r, Tup) or ra and isinstance(l, Tup):
            yield S, I.top('array op list')
            return
        arr, sc = (l, r) if la else (r, l)
        a = S.g(arr)
        p = self.spoly(sc)
        if p is None:
            if isinstance(sc, K) and sc.v is None:
                yield S, I.exc('TypeError', 'unsupported operand None', node, S, True)
                return
            yield S, I.top('array op %s' % type(sc).__name__)
            return
        dsc = self.dtof(sc, S)
        d = a.dtype
        if iscomplex(dsc) and isreal(d):
            d = 'complex64' if d == 'float32' else 'complex128'
        elif dsc.startswith('float') and d.startswith(('int', 'bool')):
            d = 'float64'
        c = S.content(arr)
        if op == '*':
            k = a.kind
            yield S, self.mk(S, cmap(c, lambda q: q * p), a.shape, d, k)
        elif op == '/' and la:
            if p.is_zero():
                yield S, I.top('division by zero')
                return
            inv = p.inverse()
            yield S, self.mk(S, cmap(c, lambda q: q * inv), a.shape, d if d.startswith(('f', 'c')) else 'float64', a.kind)
        elif op in '+-' and p.is_zero():
            if la:
                yield S, self.mk(S, c, a.shape, d, a.kind)
            else:
                yield S, self.mk(S, c if op == '+' else cmap(c, lambda q: -q), a.shape, d, a.kind)
        elif op in '+-':
            if a.kind in SP:
                yield S, I.exc('NotImplementedError', 'adding a nonzero scalar to a sparse array is not supported', node, S)
                return
            ones = Poly.fn('ones')
            if len(a.shape) == 0:
                ones = ONE
            if not isinstance(c, Poly):
                yield S, self.mk(S, None, a.shape, d, a.kind)
                return
            t = ones * p
            yield S, self.mk(S, (c + t if op == '+' else (c - t if la else t - c)), a.shape, d, a.kind)
        elif op == '**' and la:
            n = p.const_value()
            if a.kind in SP + ('mat',) and n is not None and isinstance(c, Poly) and complex(n).real in (1, 2, 3):
                q = c
                for _ in range(int(complex(n).real) - 1):
                    q = q * c
                yield S, self.mk(S, q, a.shape, d, a.kind if a.kind != 'dia' else 'csr')
                return
            if a.kind == 'nd' and n == 2:
                h = self.had(S, arr, arr)
                yield S, self.mk(S, h[0], a.shape, d, a.kind)
                return
            yield S, self.mk(S, None, a.shape, d, a.kind)
        else:
            yield S, self.mk(S, None, a.shape, d, a.kind)

    def arrbin(self, op, l, r, S, node):
        I = self.I
        a, b = S.g(l), S.g(r)
        d = rt(a.dtype, b.dtype)
        if op in '+-':
            k = self.kind_add(a.kind, b.kind, op)
            sh = self.bcast(a.shape, b.shape) if not (a.kind in SP and b.kind in SP and a.shape != b.shape) else None
            if sh is None:
                yield S, I.exc('ValueError', 'operands could not be broadcast %s %s' % (a.shape, b.shape), node, S)
                return
            c1, c2 = S.content(l), S.content(r)
            if op == '-':
                c2 = cmap(c2, lambda p: -p)
            c = cadd(c1, c2) if a.shape == b.shape else None
            yield S, self.mk(S, c, sh, d, k)
            return
        if op in '*@':
            if op == '*':
                k, sem = self.kind_mul(a.kind, b.kind)
            else:
                sem = 'matmul'
                k = self.kind_mul(a.kind, b.kind)[0] if (a.kind in SP or b.kind in SP) else ('mat' if 'mat' in (a.kind, b.kind) else 'nd')
            if sem == 'had':
                h = self.had(S, l, r)
                if h is None:
                    yield S, I.exc('ValueError', 'operands could not be broadcast %s %s' % (a.shape, b.shape), node, S)
                    return
                yield S, self.mk(S, h[0], h[1], d, k)
                return
            for x in self.matmul(l, r, S, node, k, d):
                yield x
            return
        if op == '/':
            sh = self.bcast(a.shape, b.shape)
            if sh is None:
                yield S, I.exc('ValueError', 'operands could not be broadcast %s %s' % (a.shape, b.shape), node, S)
                return
            c2 = S.content(r)
            d = d if d[0] in 'fc' else 'float64'
            if a.kind == b.kind == 'nd' and isinstance(c2, Poly) and not c2.is_zero() and len(b.shape) == 1 and len(a.shape) in (1, 2):
                q = self.mk(S, recip(c2), b.shape, d, 'nd')
                h = self.had(S, l, q)
                yield S, self.mk(S, h[0], h[1], d, 'nd')
                return
            yield S, self.mk(S, None, sh, d, 'nd' if a.kind not in SP else a.kind)
            return
        yield S, I.top('array op ' + op)

    def matmul(self, l, r, S, node, k, d):
        a, b = S.g(l), S.g(r)
        n1, n2 = len(a.shape), len(b.shape)
        if n1 == 0 or n2 == 0 or n1 > 2 or n2 > 2:
            yield S, self.I.top('matmul ndim')
            return
        if n1 == 1 and 'mat' in (a.kind, b.kind) or n2 == 1 and 'mat' in (a.kind, b.kind):
            yield S, self.I.top('matrix * vector')
            return
        if a.shape[-1] != b.shape[0]:
            yield S, self.I.exc('ValueError', 'dimension mismatch %s %s' % (a.shape, b.shape), node, S)
            return
        c = cmatmul(S.content(l), S.content(r), n1, n2)
        sh = a.shape[:-1] + b.shape[1:]
        if sh == ():
            yield S, (Sc(c, d) if isinstance(c, Poly) else self.I.top('vdot'))
            return
        yield S, self.mk(S, c, sh, d, k)

    def ibinop(self, op, l, r, S, node):
        """augmented assignment with an array on the left"""
        I = self.I
        a = S.g(l)
        if isinstance(r, Ref) and isinstance(S.g(r), Arr):
            b = S.g(r)
            inplace = False
            if op in '+-':
                inplace = a.kind in ('nd', 'mat') and b.kind in ('nd', 'mat')
            elif op == '*':
                inplace = a.kind in ('nd', 'mat') and b.kind in ('nd', 'mat') or (a.kind == 'mat')
            elif op == '/':
                inplace = True
            if a.kind == 'nd' and b.kind in SP:
                inplace = False
            if not inplace:
                for x in self.binop(op, l, r, S, node):
                    yield x
                return
            if not self.cancast(b.dtype, a.dtype):
                yield S, I.exc('UFuncTypeError', 'cannot cast %s to %s in place' % (b.dtype, a.dtype), node, S)
                return
            if not a.wr:
                yield S, I.exc('ValueError', 'output array is read-only', node, S, True)
                return
            sh = self.bcast(a.shape, b.shape)
            if sh != a.shape:
                yield S, I.exc('ValueError', 'non-broadcastable output', node, S)
                return
            if op == '*' and a.kind == 'nd':
                h = self.had(S, l, r)
                S.setcontent(l, h[0], I.loc(node, S))
                yield S, l
                return
            for S1, x in self.arrbin(op, l, r, S, node):
                if isinstance(x, Exc):
                    yield S1, x
                    continue
                S1.setcontent(l, S1.content(x) if isinstance(x, Ref) else None, I.loc(node, S1))
                yield S1, l
            return
        p = self.spoly(r)
        if p is None:
            if isinstance(r, Top):
                if a.kind in ('nd', 'mat') or op in '*/':
                    S.setcontent(l, None, I.loc(node, S))
                    yield S, l
                else:
                    yield S, I.top('iop top')
                return
            if isinstance(r, Ref) and isinstance(S.g(r), Inst):
                for x in I.binop(op, l, r, S, node):
                    yield x
                return
            for x in self.binop(op, l, r, S, node):
                yield x
            return
        if op in '+-' and a.kind in SP:
            for x in self.binop(op, l, r, S, node):
                yield x
            return
        if op == '**':
            for x in self.binop(op, l, r, S, node):
                yield x
            return
        if iscomplex(self.dtof(r, S)) and isreal(a.dtype):
            yield S, I.exc('UFuncTypeError', 'cannot cast complex scalar into real array in place', node, S)
            return
        if not a.wr:
            yield S, I.exc('ValueError', 'output array is read-only', node, S, True)
            return
        for S1, x in self.binop(op, l, r, S, node):
            if isinstance(x, Exc):
                yield S1, x
                continue
            S1.setcontent(l, S1.content(x) if isinstance(x, Ref) else None, I.loc(node, S1))
            yield S1, l

    def cancast(self, frm, to):
        if iscomplex(frm) and not iscomplex(to):
            return False
        if frm.startswith('float') and to.startswith(('int', 'bool')):
            return False
        return True

    def unop(self, op, v, S, node):
        a = S.g(v)
        if op == 'neg':
            yield S, self.mk(S, cmap(S.content(v), lambda p: -p), a.shape, a.dtype, a.kind)
        elif op == 'pos':
            yield S, self.mk(S, S.content(v), a.shape, a.dtype, a.kind)
        else:
            yield S, self.I.top('array unop')

    # ------------------------------------------------------------ attribute access on arrays
    def getattr(self, r, name, S, node):
        a = S.g(r)
        I = self.I
        sp = a.kind in SP
        ok = {'nd': ND_ATTRS, 'mat': MAT_ATTRS, 'csr': CS_ATTRS, 'csc': CS_ATTRS, 'dia': DIA_ATTRS}.get(a.kind)
        if ok is not None and name not in ok and not (name.startswith('__') and name.endswith('__')):
            # failing attribute access: internal unless the program handles it
            yield S, I.exc('AttributeError', '%s array has no attribute %s' % (a.kind, name), node, S, True)
            return
        if name == 'shape':
            yield S, Tup([K(n) for n in a.shape])
        elif name == 'ndim':
            yield S, K(len(a.shape))
        elif name == 'dtype':
            yield S, K(DT(a.dtype))
        elif name == 'size':
            n = 1
            for x in a.shape:
                n *= x
            yield S, (K(n) if not sp else I.top('nnz'))
        elif name == 'T':
            yield S, self.transpose(r, S)
        elif name == 'H':
            for x in self.callmethod(r, 'getH', [], {}, S, node):
                yield x
        elif name == 'real':
            if isreal(a.dtype):
                yield S, r
            else:
                c = S.content(r)
                yield S, self.mk(S, cmap(c, lambda p: p if p.is_real() else Poly.fn('re', p) if not p.is_zero() else p), a.shape,
                                 'float64' if a.dtype == 'complex128' else 'float32', a.kind)
        elif name == 'imag':
            c = S.content(r)
            yield S, self.mk(S, cmap(c, lambda p: ZERO if p.is_real() else Poly.fn('im', p)), a.shape,
                             a.dtype if isreal(a.dtype) else 'float64' if a.dtype == 'complex128' else 'float32', a.kind)
        elif name == '__class__':
            yield S, Ext({'nd': 'numpy.ndarray', 'mat': 'numpy.matrix'}.get(a.kind, 'scipy.sparse.%s_matrix' % a.kind))
        elif name == 'flags':
            cc = TRUE if not a.ops and a.order == 'C' else (FALSE if a.order != 'C' and not a.ops and len(a.shape) == 2 and min(a.shape) > 1 else None)
            if cc is None:
                cc = I.top('array flag')
            yield S, S.new(Opaque('flags', {'arr': r, 'writeable': K(bool(a.wr)), 'aligned': TRUE, 'behaved': K(bool(a.wr)), 'c_contiguous': cc,
                                            'carray': cc if a.wr else FALSE}))
        elif name == 'data' and sp:
            n = Arr(a.stor, a.ops + (('flat',),), 'nd', (1,), a.dtype, a.wr)
            yield S, S.new(n)
        elif name in ('indices', 'indptr', 'offsets', 'strides', 'base', 'flat', 'nbytes', 'itemsize', 'nnz', 'format', '__array_interface__', 'ctypes'):
            if name == 'format':
                yield S, K(a.kind)
            elif name in ('nbytes', 'itemsize'):
                yield S, Sc(Poly.satom(('sfn', name, (a.stor,), False)), 'int64')
            else:
                yield S, I.top('array attr ' + name)
        elif name == 'A':
            for x in self.callmethod(r, 'toarray', [], {}, S, node):
                yield x
        else:
            yield S, EM(r, name)

    def transpose(self, r, S, axes=None):
        a = S.g(r)
        if axes is not None and len(a.shape) != 2:
            return self.view(S, r, ('perm', axes))
        if axes is not None and tuple(axes) == (0, 1):
            return self.view(S, r, None)
        if len(a.shape) <= 1:
            return self.view(S, r, None)
        kind = {'csr': 'csc', 'csc': 'csr'}.get(a.kind, a.kind)
        if a.kind == 'dia':
            return self.mk(S, ctranspose(S.content(r), 2), a.shape[::-1], a.dtype, 'dia')
        return self.view(S, r, ('T',), kind)

    def setattr(self, o, name, v, S, node):
        ob = S.g(o)
        if isinstance(ob, Arr) and name == 'shape':
            yield S, None
            return
        yield S, None

    def valattr(self, o, name, S, node):
        I = self.I
        if isinstance(o, Ext):
            p = o.path
            if p.startswith('builtins.') and name == '__name__':
                yield S, K(p[9:])
                return
            if p.startswith('builtins.dict') or p.startswith('builtins.str') or p.startswith('builtins.list'):
                yield S, Ext(p + '.' + name)
                return
            full = p + '.' + name
            if missing_ext(p, name):
                yield S, I.exc('AttributeError', 'module %s has no attribute %s' % (p, name), node, S, True)
                return
            if full == 'numpy.pi':
                yield S, K(math.pi)
                return
            if full == 'numpy.euler_gamma':
                yield S, K(0.5772156649015329)
                return
            if full == 'numpy.newaxis':
                yield S, NONE
                return
            if full in ('numpy.inf', 'numpy.Inf'):
                yield S, K(float('inf'))
                return
            if full == 'scipy.__version__':
                yield S, K('1.11.4')
                return
            if full == 'numpy.__version__':
                yield S, K('1.26.4')
                return
            yield S, Ext(self.canon(full))
            return
        if isinstance(o, (Sc, K)) and (isinstance(o, Sc) or isinstance(o.v, (int, float, complex)) and not isinstance(o.v, bool)):
            if name == 'ndim':
                yield S, (K(0) if isinstance(o, Sc) else I.exc('AttributeError', 'scalar has no ndim', node, S))
                return
            if name == 'shape':
                yield S, (Tup(()) if isinstance(o, Sc) else I.exc('AttributeError', 'scalar has no shape', node, S))
                return
            if name == 'dtype':
                yield S, (K(DT(o.dt)) if isinstance(o, Sc) else I.exc('AttributeError', 'scalar has no dtype', node, S))
                return
            if name in ('conj', 'conjugate', 'astype', 'item', 'squeeze', 'copy', 'transpose', 'ravel', 'reshape', 'sum', 'all', 'any', 'is_integer', 'max', 'min', 'tolist'):
                if isinstance(o, K) and name not in ('conjugate', 'is_integer'):
                    yield S, I.exc('AttributeError', 'number has no attribute %s' % name, node, S)
                    return
                yield S, EM(o, name)
                return
            if name in ('real', 'imag') and self.spoly(o).const_value() is not None:
                yield S, K(float(getattr(complex(self.spoly(o).const_value()), name)))
                return
            if name == 'real':
                p = self.spoly(o)
                if p.is_real():
                    yield S, (Sc(p, 'float64') if isinstance(o, Sc) else K(complex(o.v).real))
                else:
                    yield S, Sc(Poly.satom(('sfn', 're', (p.key(),), False)), 'float64')
                return
            if name == 'imag':
                p = self.spoly(o)
                yield S, (K(0.0) if p.is_real() else Sc(Poly.satom(('sfn', 'im', (p.key(),), False)), 'float64'))
                return
            if name == 'T':
                yield S, o
                return
            if name == '__class__':
                yield S, self.typeof(o, S)
                return
            if name == '__call__':
                yield S, I.exc('AttributeError', 'number is not callable', node, S)
                return
            yield S, I.exc('AttributeError', 'number has no attribute %s' % name, node, S)
            return
        if isinstance(o, K):
            if isinstance(o.v, DT):
                if name == 'name':
                    yield S, K(o.v.name)
                    return
                if name == 'char':
                    yield S, K({'float32': 'f', 'float64': 'd', 'complex64': 'F', 'complex128': 'D', 'int8': 'b', 'int32': 'i', 'int64': 'l', 'bool': '?'}[o.v.name])
                    return
                if name == 'type':
                    yield S, Ext('numpy.' + o.v.name)
                    return
                if name == 'kind':
                    yield S, K(o.v.name[0] if o.v.name[0] != 'b' else 'b')
                    return
                yield S, I.top('dtype attr')
                return
            if isinstance(o.v, str):
                if name == '__class__':
                    yield S, Ext('builtins.str')
                    return
                if not hasattr('', name):
                    yield S, I.exc('AttributeError', 'str has no attribute %s' % name, node, S, name not in ('shape', 'ndim', 'dtype', '__call__'))
                    return
                yield S, EM(o, name)
                return
            if o.v is None:
                if name == '__class__':
                    yield S, Ext('builtins.NoneType')
                else:
                    yield S, I.exc('AttributeError', 'None has no attribute %s' % name, node, S, True)
                return
            if isinstance(o.v, bool):
                if name == '__class__':
                    yield S, Ext('builtins.bool')
                else:
                    yield S, I.exc('AttributeError', 'bool has no attribute %s' % name, node, S, name not in ('shape', 'ndim', 'dtype', '__call__'))
                return
            yield S, EM(o, name)
            return
        if isinstance(o, Tup):
            if name in ('index', 'count'):
                yield S, EM(o, name)
            elif name == '__class__':
                yield S, Ext('builtins.tuple')
            else:
                yield S, I.exc('AttributeError', 'tuple has no attribute %s' % name, node, S, name not in ('shape', 'ndim', 'dtype', '__call__'))
            return
        if isinstance(o, (Fn, BM, UFn, Part)):
            if name in ('__name__',):
                yield S, K('f')
                return
            if name == '__call__':
                yield S, o
                return
            yield S, I.exc('AttributeError', 'function has no attribute %s' % name, node, S, name not in ('shape', 'ndim', 'dtype', '_shape'))
            return
        yield S, I.top('attr %s of %s' % (name, type(o).__name__))

    # ------------------------------------------------------------ indexing
    def norm_index(self, k, shape, S):
        """list of view ops, or None"""
        ks = list(k.items) if isinstance(k, Tup) else [k]
        out = []
        nd = len(shape)
        n_real = sum(1 for x in ks if not (isinstance(x, K) and x.v is Ellipsis))
        exp = []
        for x in ks:
            if isinstance(x, K) and x.v is Ellipsis:
                exp.extend([None] * (nd - n_real))
            else:
                exp.append(x)
        if len(exp) > nd:
            return 'err'
        ax = 0
        cur = list(shape)
        for x in exp:
            if x is None:
                ax += 1
                continue
            if isinstance(x, K) and isinstance(x.v, int) and not isinstance(x.v, bool):
                if not -cur[ax] <= x.v < cur[ax]:
                    return 'err'
                out.append(('ix', ax, x.v % cur[ax]))
                cur.pop(ax)
                continue
            if isinstance(x, Slc):
                vals = [self.I.np.constint(y) for y in (x.a, x.b, x.c)]
                if any(v == '?' for v in vals):
                    return None
                a, b, st = slice(*vals).indices(cur[ax])
                if st != 1:
                    return None
                b = max(a, b)
                if not (a == 0 and b == cur[ax]):
                    out.append(('sl', ax, a, b))
                    cur[ax] = b - a
                ax += 1
                continue
            return None
        return out

    def constint(self, v):
        if isinstance(v, K) and (v.v is None or isinstance(v.v, int)):
            return v.v
        if isinstance(v, Sc):
            c = v.p.const_value()
            if c is not None and complex(c).imag == 0 and float(complex(c).real).is_integer():
                return int(complex(c).real)
        return '?'

    def getitem(self, r, k, S, node):
        a = S.g(r)
        if isinstance(k, Tup):
            # a one-element index list selects a (copied) slice of width one
            lst = [i for i, x in enumerate(k.items) if isinstance(x, Ref) and isinstance(S.g(x), Lst) and len(S.g(x).items) == 1]
            if len(lst) == 1 and all(isinstance(x, Slc) for i, x in enumerate(k.items) if i != lst[0]):
                j = self.constint(S.g(k.items[lst[0]]).items[0])
                if isinstance(j, int) and -a.shape[lst[0]] <= j < a.shape[lst[0]]:
                    j %= a.shape[lst[0]]
                    k2 = Tup([Slc(K(j), K(j + 1), NONE) if i == lst[0] else x for i, x in enumerate(k.items)])
                    for S1, v in self.getitem(r, k2, S, node):
                        if isinstance(v, Ref) and isinstance(S1.g(v), Arr) and S1.g(v).kind not in SP:
                            v = self.mk(S1, S1.content(v), S1.g(v).shape, a.dtype, a.kind)
                        yield S1, v
                    return
        ops = self.norm_index(k, a.shape, S)
        if ops == 'err':
            yield S, self.I.exc('IndexError', 'index out of bounds', node, S)
            return
        if ops is None:
            if isinstance(k, (Slc,)) or isinstance(k, Tup):
                yield S, self.I.top('array slice')
            else:
                yield S, self.I.top('fancy index')
            return
        cur = r
        if a.kind in SP:
            if a.kind == 'dia':
                yield S, self.I.exc('TypeError', 'dia_matrix is not subscriptable', node, S, True)
                return
            c, shp = S.content(r), a.shape
            for op in ops:
                c = apply_op(op, c, shp)
                shp = op_shape(op, shp)
            if shp == ():
                yield S, Sc(c, a.dtype) if isinstance(c, Poly) else self.I.top('item')
            elif len(shp) == 2:
                yield S, self.mk(S, c, shp, a.dtype, a.kind)
            else:
                yield S, self.I.top('sparse row')
            return
        for op in ops:
            cur = self.view(S, cur, op)
        o = S.g(cur)
        if o.shape == () and ops:
            c = S.content(cur)
            yield S, (Sc(c, a.dtype) if isinstance(c, Poly) else self.I.top('array item'))
            return
        if a.kind == 'mat' and len(o.shape) == 1:
            yield S, self.I.top('matrix row')
            return
        if not ops:
            cur = self.view(S, r, None)
        yield S, cur

    def setitem(self, r, k, v, S, node):
        I = self.I
        a = S.g(r)
        if not a.wr:
            yield S, I.exc('ValueError', 'assignment destination is read-only', node, S, True)
            return
        ops = self.norm_index(k, a.shape, S)
        if ops == 'err':
            yield S, I.exc('IndexError', 'index out of bounds', node, S)
            return
        if ops is None or a.kind in SP:
            S.setcontent(r, None, I.loc(node, S))
            yield S, None
            return
        cur = r
        for op in ops:
            cur = self.view(S, cur, op)
        sh = S.g(cur).shape
        c = None
        if isinstance(v, Ref) and isinstance(S.g(v), Arr):
            b = S.g(v)
            if b.shape == sh:
                c = self.astype_content(S.content(v), b.dtype, a.dtype)
            elif self.bcast(sh, b.shape) != sh and not (len(b.shape) > len(sh) and b.shape[-len(sh):] == sh):
                yield S, I.exc('ValueError', 'could not broadcast %s into %s' % (b.shape, sh), node, S)
                return
        else:
            p = self.spoly(v)
            if p is not None:
                if p.is_zero():
                    c = ZERO
                elif sh == ():
                    c = p
                    if iscomplex(self.dtof(v, S)) and isreal(a.dtype):
                        c = Poly.fn('re', p)
        S.setcontent(cur, c, I.loc(node, S))
        yield S, None

    def arrseq(self, r, S):
        a = S.g(r)
        if len(a.shape) == 0 or a.kind in SP:
            return None
        c = S.content(r)
        if a.shape[0] > 16:
            return None
        out = []
        for i in range(a.shape[0]):
            v = self.view(S, r, ('ix', 0, i))
            if S.g(v).shape == ():
                cc = S.content(v)
                out.append(Sc(cc, a.dtype) if isinstance(cc, Poly) else self.I.top('array element'))
            else:
                out.append(v)
        return out

    def typeof(self, v, S):
        if isinstance(v, K):
            if v.v is None:
                return Ext('builtins.NoneType')
            if isinstance(v.v, DT):
                return Ext('numpy.dtype')
            if v.v is NotImplemented:
                return Ext('builtins.NotImplementedType')
            return Ext('builtins.' + type(v.v).__name__)
        if isinstance(v, Tup):
            return Ext('builtins.tuple')
        if isinstance(v, Sc):
            return Ext({'float64': 'numpy.float64', 'complex128': 'numpy.complex128', 'int64': 'numpy.int64'}.get(v.dt, 'numpy.float64'))
        if isinstance(v, (Fn, UFn, BM, Part)):
            return Ext('types.FunctionType')
        if isinstance(v, Ref):
            o = S.g(v)
            if isinstance(o, Lst):
                return Ext('builtins.list')
            if isinstance(o, Dct):
                return Ext('builtins.dict')
            if isinstance(o, SetO):
                return Ext('builtins.set')
            if isinstance(o, Inst):
                return Cls(o.ci)
            if isinstance(o, Arr):
                return Ext({'nd': 'numpy.ndarray', 'mat': 'numpy.matrix'}.get(o.kind, 'scipy.sparse.%s_matrix' % o.kind))
            if isinstance(o, CArr):
                return Ext('numpy.ndarray')
            if isinstance(o, GenO):
                return Ext('types.GeneratorType')
        return None

    # ------------------------------------------------------------ user callables
    def calluser(self, f, args, kw, S, node):
        ks = []
        for x in args:
            p = self.spoly(x)
            if p is not None:
                ks.append(p.key())
            elif isinstance(x, Ref) and isinstance(S.g(x), Arr):
                c = S.content(x)
                ks.append(('arr', ckey(c)) if c is not None else ('arr?', x.id))
            elif isinstance(x, Ref):
                ks.append(('ref', x.id))
            else:
                ks.append(x.key())
        for k in sorted(kw):
            ks.append((k, kw[k].key()))
        S.events.append(('user', f.name, tuple(args), self.I.loc(node, S)))
        yield S, Sc(Poly.satom(('app', f.name, tuple(ks), False)), f.dt)

    # ------------------------------------------------------------ method calls
    def callmethod(self, o, name, args, kw, S, node):
        I = self.I
        if isinstance(o, Ref):
            ob = S.g(o)
            if isinstance(ob, CArr):
                yield S, I.ca.method(o, name, args, kw, S, node)
                return
            t = type(ob).__name__
            fn = getattr(self, 'm_%s_%s' % (t, name), None)
            if fn is not None:
                r = fn(o, ob, args, kw, S, node)
                if r is None:
                    yield S, I.top('%s.%s' % (t, name))
                    return
                if isinstance(r, V):
                    yield S, r
                else:
                    for x in r:
                        yield x
                return
            if isinstance(ob, Opaque) and ob.kind == 'instdict':
                yield S, self.instdict(ob, name, args, kw, S, node)
                return
            if isinstance(ob, Opaque):
                for x in self.opaque(o, ob, name, args, kw, S, node):
                    yield x
                return
            if isinstance(ob, Arr):
                self.calls['Arr.' + name] = self.calls.get('Arr.' + name, 0) + 1
                if name in ('sort', 'fill', 'resize', 'put', 'partition', 'setdiag', 'itemset', 'byteswap'):
                    S.setcontent(o, None, I.loc(node, S))
                    yield S, NONE
                    return
                yield S, I.top('Arr.%s' % name)
                return
            yield S, I.top('%s.%s' % (t, name))
            return
        if isinstance(o, K) and isinstance(o.v, str):
            if all(isinstance(x, K) for x in args) and not kw and name not in ('format', 'join', 'encode'):
                try:
                    r = getattr(o.v, name)(*[x.v for x in args])
                    if isinstance(r, list):
                        yield S, S.new(Lst([K(x) for x in r]))
                    elif isinstance(r, tuple):
                        yield S, Tup([K(x) for x in r])
                    else:
                        yield S, K(r)
                    return
                except Exception as e:
                    yield S, I.exc(type(e).__name__, str(e), node, S)
                    return
            if name in ('format', 'join'):
                if name == 'join' and len(args) == 1:
                    it = I.seq(args[0], S)
                    if it is not None and all(isinstance(x, K) and isinstance(x.v, str) for x in it):
                        yield S, K(o.v.join(x.v for x in it))
                        return
                yield S, (K('<str>') if name == 'format' else I.top('join'))
                return
            yield S, I.top('str.' + name)
            return
        if isinstance(o, (Sc, K)):
            p = self.spoly(o)
            if p is not None:
                d = self.dtof(o, S)
                if name in ('conj', 'conjugate'):
                    if isinstance(o, K):
                        yield S, K(o.v.conjugate())
                    else:
                        yield S, Sc(p.conj(), d)
                    return
                if name in ('item', 'squeeze', 'copy', 'transpose', 'ravel', 'sum', 'tolist'):
                    yield S, (o if name != 'ravel' else I.top('ravel scalar'))
                    return
                if name == 'astype':
                    t = self.as_dtype(args[0]) if args else None
                    if t is not None:
                        q = p
                        if iscomplex(d) and isreal(t) and not p.is_real():
                            q = Poly.satom(('sfn', 're', (p.key(),), False))
                        yield S, Sc(q, t)
                        return
        if isinstance(o, Tup):
            if name == 'index' and args:
                for i, x in enumerate(o.items):
                    if I.veq(x, args[0], S) is True:
                        yield S, K(i)
                        return
        yield S, I.top('method %s of %s' % (name, type(o).__name__))

    # ---- list/dict/set methods
    def touch(self, o, S, node):
        S.lastw[(o.id, '')] = self.I.loc(node, S)

    def m_Lst_append(self, o, ob, args, kw, S, node):
        S.w(o).items.append(args[0])
        self.touch(o, S, node)
        return NONE

    def m_Lst_extend(self, o, ob, args, kw, S, node):
        it = self.I.seq(args[0], S)
        S.w(o).items.extend(it if it is not None else [self.I.top('extend')])
        self.touch(o, S, node)
        return NONE

    def m_Lst_insert(self, o, ob, args, kw, S, node):
        if isinstance(args[0], K):
            S.w(o).items.insert(args[0].v, args[1])
            self.touch(o, S, node)
        return NONE

    def m_Lst_pop(self, o, ob, args, kw, S, node):
        i = args[0].v if args and isinstance(args[0], K) else -1
        if not ob.items:
            return self.I.exc('IndexError', 'pop from empty list', node, S)
        self.touch(o, S, node)
        return S.w(o).items.pop(i)

    def m_Lst_copy(self, o, ob, args, kw, S, node):
        return S.new(Lst(ob.items))

    def m_Lst_index(self, o, ob, args, kw, S, node):
        for i, x in enumerate(ob.items):
            if self.I.veq(x, args[0], S) is True:
                return K(i)
        return None

    def m_Lst_count(self, o, ob, args, kw, S, node):
        es = [self.I.veq(x, args[0], S) for x in ob.items]
        if any(e is None for e in es):
            return None
        return K(sum(1 for e in es if e))

    def sortby(self, items, kw, S, node):
        """items sorted by a key function with known values, or None"""
        if set(kw) - {'key', 'reverse'}:
            return None
        rev = kw.get('reverse', FALSE)
        if not isinstance(rev, K):
            return None
        ks = []

        def known(v):
            if isinstance(v, K) and isinstance(v.v, (int, float, str)):
                return v.v
            if isinstance(v, Tup):
                t = tuple(known(x) for x in v.items)
                return None if None in t else t
            return None
        for x in items:
            if 'key' in kw:
                outs = list(self.I.call(kw['key'], [x], {}, S, node))
                if len(outs) != 1 or outs[0][0] is not S:
                    return None
                x = outs[0][1]
            ks.append(known(x))
        if None in ks:
            return None
        try:
            return [items[i] for i in sorted(range(len(items)), key=lambda i: ks[i], reverse=bool(rev.v))]
        except TypeError:
            return None

    def m_Lst_sort(self, o, ob, args, kw, S, node):
        if kw and not args:
            r = self.sortby(list(ob.items), kw, S, node)
            if r is not None:
                S.w(o).items = r
                self.touch(o, S, node)
                return NONE
        items = S.w(o).items
        self.touch(o, S, node)
        if all(isinstance(x, K) for x in items) and not kw:
            try:
                items.sort(key=lambda x: x.v)
            except Exception:
                items.sort(key=lambda x: repr(x.v))
        elif items:
            S.w(o).items = [self.I.top('sorted')] * len(items)
        return NONE

    def m_Lst_reverse(self, o, ob, args, kw, S, node):
        S.w(o).items.reverse()
        self.touch(o, S, node)
        return NONE

    def m_Lst_clear(self, o, ob, args, kw, S, node):
        S.w(o).items = []
        self.touch(o, S, node)
        return NONE

    def m_Lst_remove(self, o, ob, args, kw, S, node):
        for i, x in enumerate(ob.items):
            if self.I.veq(x, args[0], S) is True:
                S.w(o).items.pop(i)
                self.touch(o, S, node)
                return NONE
        return NONE

    def m_SetO_add(self, o, ob, args, kw, S, node):
        if self.unhashable(args[0], S):
            return self.I.exc('TypeError', 'unhashable element %r' % (args[0],), node, S, True)
        if not any(self.I.veq(x, args[0], S) is True for x in ob.items):
            S.w(o).items.append(args[0])
            self.touch(o, S, node)
        return NONE

    def m_SetO_update(self, o, ob, args, kw, S, node):
        for a in args:
            for x in self.I.seq(a, S) or []:
                self.m_SetO_add(o, S.g(o), [x], {}, S, node)
        return NONE

    def m_SetO_copy(self, o, ob, args, kw, S, node):
        return S.new(SetO(ob.items))

    def m_Dct_get(self, o, ob, args, kw, S, node):
        unk = ob.open
        for k, v in ob.items:
            e = self.I.veq(k, args[0], S)
            if e is True:
                return v
            if e is None:
                unk = True
        if unk:
            return None
        return args[1] if len(args) > 1 else NONE

    def m_Dct_items(self, o, ob, args, kw, S, node):
        if ob.open:
            return None
        return S.new(Lst([Tup((k, v)) for k, v in ob.items]))

    def m_Dct_keys(self, o, ob, args, kw, S, node):
        if ob.open:
            return None
        return S.new(SetO([k for k, v in ob.items]))

    def m_Dct_values(self, o, ob, args, kw, S, node):
        if ob.open:
            return None
        return S.new(Lst([v for k, v in ob.items]))

    def m_Dct_pop(self, o, ob, args, kw, S, node):
        for i, (k, v) in enumerate(ob.items):
            if self.I.veq(k, args[0], S) is True:
                S.w(o).items.pop(i)
                self.touch(o, S, node)
                return v
        if ob.open:
            return None
        if len(args) > 1:
            return args[1]
        return self.I.exc('KeyError', 'pop %r' % (args[0],), node, S)

    def m_Dct_popitem(self, o, ob, args, kw, S, node):
        if ob.items:
            k, v = S.w(o).items.pop()
            self.touch(o, S, node)
            return Tup((k, v))
        return None

    def m_Dct_update(self, o, ob, args, kw, S, node):
        for a in args:
            if isinstance(a, Ref) and isinstance(S.g(a), Dct):
                for k, v in list(S.g(a).items):
                    for _ in self.I.setitem(o, k, v, S, node):
                        pass
            else:
                S.w(o).open = True
        for k, v in kw.items():
            for _ in self.I.setitem(o, K(k), v, S, node):
                pass
        return NONE

    def m_Dct_setdefault(self, o, ob, args, kw, S, node):
        for k, v in ob.items:
            if self.I.veq(k, args[0], S) is True:
                return v
        d = args[1] if len(args) > 1 else NONE
        for _ in self.I.setitem(o, args[0], d, S, node):
            pass
        return d

    def m_Dct_copy(self, o, ob, args, kw, S, node):
        n = Dct(ob.items)
        n.open = ob.open
        return S.new(n)

    def m_Dct_clear(self, o, ob, args, kw, S, node):
        S.w(o).items = []
        self.touch(o, S, node)
        return NONE

    # ---- array methods
    def argb(self, kw, args, i, name, default):
        v = kw.get(name, args[i] if len(args) > i else None)
        if v is None:
            return default
        if isinstance(v, K):
            return v.v
        return default

    def m_Arr_transpose(self, o, ob, args, kw, S, node):
        axes = None
        if len(args) == 1 and isinstance(args[0], Tup):
            axes = args[0].items
        elif len(args) == 1 and isinstance(args[0], Ref):
            axes = self.I.seq(args[0], S)
        elif len(args) > 1:
            axes = args
        if axes is not None:
            if not all(isinstance(x, K) for x in axes):
                return None
            axes = tuple(x.v for x in axes)
            if len(axes) != len(ob.shape):
                return self.I.exc('ValueError', "axes don't match array", node, S, True)
        if self.argb(kw, args[99:], 0, 'copy', False) and ob.kind in SP:
            r = self.transpose(o, S, axes)
            a = S.g(r)
            return self.mk(S, S.content(r), a.shape, a.dtype, a.kind)
        return self.transpose(o, S, axes)

    def m_Arr_getH(self, o, ob, args, kw, S, node):
        c = cmap(ctranspose(S.content(o), len(ob.shape)), lambda p: p.conj())
        kind = {'csr': 'csc', 'csc': 'csr'}.get(ob.kind, ob.kind)
        return self.mk(S, c, ob.shape[::-1], ob.dtype, kind)

    def m_Arr_conj(self, o, ob, args, kw, S, node):
        if ob.kind in ('nd', 'mat') and isreal(ob.dtype):
            return o
        return self.mk(S, cmap(S.content(o), lambda p: p.conj()), ob.shape, ob.dtype, ob.kind, ob.order)

    m_Arr_conjugate = m_Arr_conj

    def m_Arr_copy(self, o, ob, args, kw, S, node):
        r, tail = self.logical(S, o)
        if tail:
            a = S.g(r)
            st = self.mk(S, S.content(r), a.shape, a.dtype, 'nd')
            return S.new(Arr(S.g(st).stor, tail, 'nd', ob.shape, ob.dtype, True))
        return self.mk(S, S.content(o), ob.shape, ob.dtype, ob.kind, ob.order if not args else 'C')

    def m_Arr_astype(self, o, ob, args, kw, S, node):
        d = self.as_dtype(args[0] if args else kw.get('dtype'))
        if d is None:
            return self.mk(S, S.content(o), ob.shape, ob.dtype, ob.kind)
        copy = self.argb(kw, [], 0, 'copy', True)
        if not copy and d == ob.dtype:
            order = kw.get('order')
            if isinstance(order, K) and order.v == 'C' and ob.order == 'F' and len(ob.shape) > 1:
                return self.mk(S, S.content(o), ob.shape, d, ob.kind)
            return o
        return self.mk(S, self.astype_content(S.content(o), ob.dtype, d), ob.shape, d, ob.kind,
                       'C' if isinstance(kw.get('order'), K) and kw['order'].v == 'C' else ob.order)

    def m_Arr_dot(self, o, ob, args, kw, S, node):
        r = args[0]
        if isinstance(r, Ref) and isinstance(S.g(r), Inst):
            return None
        if isinstance(r, (Sc, K)) and self.spoly(r) is not None:
            return self.binop('*', o, r, S, node)
        if not self.isarr(r, S):
            return None
        b = S.g(r)
        if ob.kind in ('nd', 'mat') and b.kind in SP:
            # numpy treats the sparse matrix as an object scalar
            return self.mk(S, Poly.fn('object_array_of_sparse'), ob.shape, ob.dtype, ob.kind)
        k = self.kind_mul(ob.kind, b.kind)[0]
        if ob.kind not in SP and b.kind not in SP:
            k = 'mat' if 'mat' in (ob.kind, b.kind) else 'nd'
        return self.without(kw, self.matmul(o, r, S, node, k, rt(ob.dtype, b.dtype)), S, node)

    def without(self, kw, it, S, node):
        out = kw.get('out')
        for S1, x in it:
            if out is not None and not (isinstance(out, K) and out.v is None) and isinstance(x, Ref) and self.isarr(out, S1):
                S1.setcontent(out, S1.content(x), self.I.loc(node, S1))
                yield S1, out
            else:
                yield S1, x

    def m_Arr_toarray(self, o, ob, args, kw, S, node):
        out = kw.get('out', args[1] if len(args) > 1 else NONE)
        order = kw.get('order', args[0] if args else NONE)
        if self.isarr(out, S):
            if isinstance(order, K) and order.v is not None:
                return self.I.exc('ValueError', 'order cannot be specified if out is not None', node, S, True)
            S.setcontent(out, self.astype_content(S.content(o), ob.dtype, S.g(out).dtype), self.I.loc(node, S))
            return out
        return self.mk(S, S.content(o), ob.shape, ob.dtype, 'nd')

    def m_Arr_todense(self, o, ob, args, kw, S, node):
        out = kw.get('out', args[1] if len(args) > 1 else NONE)
        order = kw.get('order', args[0] if args else NONE)
        if self.isarr(out, S):
            if isinstance(order, K) and order.v is not None:
                return self.I.exc('ValueError', 'order cannot be specified if out is not None', node, S, True)
            S.setcontent(out, self.astype_content(S.content(o), ob.dtype, S.g(out).dtype), self.I.loc(node, S))
            return out
        return self.mk(S, S.content(o), ob.shape, ob.dtype, 'mat')

    def _toformat(self, fmt):
        def f(o, ob, args, kw, S, node):
            if ob.kind == fmt and not self.argb(kw, args, 0, 'copy', False):
                return o
            return self.mk(S, S.content(o), ob.shape, ob.dtype, fmt)
        return f

    def m_Arr_tocsr(self, *a):
        return self._toformat('csr')(*a)

    def m_Arr_tocsc(self, *a):
        return self._toformat('csc')(*a)

    def m_Arr_todia(self, *a):
        return self._toformat('dia')(*a)

    def m_Arr_tocoo(self, *a):
        return self._toformat('coo')(*a)

    def m_Arr_asformat(self, o, ob, args, kw, S, node):
        if isinstance(args[0], K):
            return self._toformat(args[0].v)(o, ob, [], kw, S, node)
        return None

    def m_Arr_sum_duplicates(self, o, ob, args, kw, S, node):
        return NONE

    m_Arr_eliminate_zeros = m_Arr_sum_duplicates
    m_Arr_sort_indices = m_Arr_sum_duplicates

    def m_Arr_get_shape(self, o, ob, args, kw, S, node):
        return Tup([K(n) for n in ob.shape])

    def m_Arr_getformat(self, o, ob, args, kw, S, node):
        return K(ob.kind)

    m_Arr_get_format = m_Arr_getformat

    def m_Arr_diagonal(self, o, ob, args, kw, S, node):
        if len(ob.shape) != 2:
            return None
        c = apply_op(('diag',), S.content(o), ob.shape)
        n = min(ob.shape)
        if ob.kind in ('nd', 'mat'):
            st = S.g(ob.stor)
            a = Arr(ob.stor, ob.ops + (('diag',),), 'nd', (n,), ob.dtype, False)
            r = S.new(a)
            return r
        if ob.kind == 'dia':
            # scipy returns a view of the stored diagonal
            a = Arr(ob.stor, ob.ops + (('diag',),), 'nd', (n,), ob.dtype, True)
            return S.new(a)
        return self.mk(S, c, (n,), ob.dtype, 'nd')

    def m_Arr_trace(self, o, ob, args, kw, S, node):
        c = S.content(o)
        if isinstance(c, Poly) and len(ob.shape) == 2:
            return Sc(c.trace(), ob.dtype)
        return None

    def m_Arr_sum(self, o, ob, args, kw, S, node):
        c = S.content(o)
        kw = dict(kw)
        ax = args[0] if args else kw.pop('axis', NONE)
        if len(args) > 1 or kw or not isinstance(c, Poly) or not isinstance(ax, K):
            return None
        if ob.kind in SP or ob.kind == 'mat':
            if ax.v is not None:
                return None
        nd = len(ob.shape)
        ax = ax.v
        if ax is not None and ax < 0:
            ax += nd
        if ob.ops and ob.ops[-1] == ('diag',) or nd == 1:
            return Sc(vecsum(c), ob.dtype)
        if nd != 2:
            return None
        out = ZERO
        for (s, w), k in c.d.items():
            if len(w) == 1 and w[0][0] == 'fn' and w[0][1] == 'had':
                x, y = [Poly.from_key(q) for q in w[0][2]]
                t = coldiag(x.T() * y) if ax == 0 else coldiag(x * y.T()) if ax == 1 else (x.T() * y).trace()
            else:
                base = Poly({((), w): 1})
                t = Poly.satom(('sfn', 'sum', (base.key(),), False)) if ax is None else Poly.fn('sum%d' % ax, base)
            out = out + t * Poly({(s, ()): k})
        if ax is None:
            return Sc(out, ob.dtype)
        return self.mk(S, out, (ob.shape[1 - ax],), ob.dtype, 'nd')

    def m_Arr_ravel(self, o, ob, args, kw, S, node):
        if len(ob.shape) == 1:
            return self.view(S, o, None)
        a = Arr(ob.stor, ob.ops + (('ravel', ob.shape),), 'nd', (prod(ob.shape),), ob.dtype, ob.wr)
        return S.new(a)

    def m_Arr_reshape(self, o, ob, args, kw, S, node):
        shp = None
        if len(args) == 1 and isinstance(args[0], (Tup,)):
            shp = args[0].items
        elif len(args) == 1 and isinstance(args[0], Ref):
            shp = self.I.seq(args[0], S)
        elif args:
            shp = args
        if shp is None:
            return None
        shp = [self.constint(x) for x in shp]
        if '?' in shp or None in shp:
            return None
        tot = prod(ob.shape)
        if -1 in shp:
            k = 1
            for x in shp:
                if x != -1:
                    k *= x
            if k == 0 or tot % k:
                return None
            shp = [tot // k if x == -1 else x for x in shp]
        shp = tuple(shp)
        if prod(shp) != tot:
            return self.I.exc('ValueError', 'cannot reshape %s into %s' % (ob.shape, shp), node, S)
        if shp == ob.shape:
            return self.view(S, o, None)
        if ob.ops and ob.ops[-1][0] == 'ravel' and ob.ops[-1][1] == shp:
            return S.new(Arr(ob.stor, ob.ops[:-1], 'nd', shp, ob.dtype, ob.wr))
        return S.new(Arr(ob.stor, ob.ops + (('reshape', ob.shape, shp),), ob.kind if ob.kind in ('nd', 'mat') else 'nd', shp, ob.dtype, ob.wr))

    def m_Arr_squeeze(self, o, ob, args, kw, S, node):
        if 1 not in ob.shape or ob.kind == 'mat':
            return self.view(S, o, None)
        shp = tuple(x for x in ob.shape if x != 1)
        if len(ob.shape) == 2 and ob.shape[1] == 1 and ob.kind == 'nd' and not args and not kw:
            return self.m_Arr_reshape(o, ob, [Tup([K(x) for x in shp])], {}, S, node)
        c = S.content(o)
        if isinstance(c, Poly) and prod(ob.shape) == 1:
            return self.mk(S, c.trace(), (), ob.dtype, 'nd')
        if isinstance(c, Poly) and len(ob.shape) == 2 and len(shp) == 1:
            if ob.shape[0] == 1:
                c = c.T()
            return self.mk(S, c, shp, ob.dtype, 'nd')
        return self.mk(S, None, shp, ob.dtype, 'nd')

    def m_Arr_setflags(self, o, ob, args, kw, S, node):
        w = kw.get('write')
        if isinstance(w, K):
            S.w(o).wr = bool(w.v)
        return NONE

    def m_Arr_multiply(self, o, ob, args, kw, S, node):
        if self.isarr(args[0], S):
            h = self.had(S, o, args[0])
            if h is None:
                return None
            return self.mk(S, h[0], h[1], rt(ob.dtype, S.g(args[0]).dtype), ob.kind)
        return None

    def m_Arr_item(self, o, ob, args, kw, S, node):
        c = S.content(o)
        if isinstance(c, Poly) and prod(ob.shape) == 1:
            return Sc(c.trace(), ob.dtype)
        if prod(ob.shape) != 1 and not args:
            return self.I.exc('ValueError', 'can only convert an array of size 1 to a Python scalar', node, S, True)
        return None

    def m_Arr_view(self, o, ob, args, kw, S, node):
        d = self.as_dtype(args[0]) if args else None
        if d is None and args:
            return None
        if d == ob.dtype or not args:
            return self.view(S, o, None)
        n = ob.shape
        if iscomplex(ob.dtype) and isreal(d):
            n = ob.shape[:-1] + (ob.shape[-1] * 2,)
        elif isreal(ob.dtype) and iscomplex(d):
            n = ob.shape[:-1] + (ob.shape[-1] // 2,)
        ops = ob.ops + (('cview', ob.dtype, d, ob.shape),)
        if ob.ops and ob.ops[-1][0] == 'cview' and ob.ops[-1][1] == d:
            return S.new(Arr(ob.stor, ob.ops[:-1], ob.kind, ob.ops[-1][3], d, ob.wr))
        return S.new(Arr(ob.stor, ops, ob.kind, n, d, ob.wr))

    def m_Arr_all(self, o, ob, args, kw, S, node):
        return None

    # ------------------------------------------------------------ opaque objects
    def snapdict(self, o, S):
        return S.new(Dct([(K(k), v) for k, v in S.g(S.g(o).f['obj']).f.items()]))

    def instdict(self, ob, name, args, kw, S, node):
        """methods of an instance's __dict__"""
        I, obj = self.I, ob.f['obj']
        d = S.new(Dct([(K(k), v) for k, v in S.g(obj).f.items()]))
        args = [self.snapdict(a, S) if isinstance(a, Ref) and isinstance(S.g(a), Opaque) and S.g(a).kind == 'instdict' else a for a in args]
        m = getattr(self, 'm_Dct_' + name, None)
        if m is None:
            r = None
        else:
            r = m(d, S.g(d), args, kw, S, node)
        new = S.g(d)
        if r is None or new.open or not all(isinstance(k, K) and isinstance(k.v, str) for k, _ in new.items):
            f = S.w(obj).f
            for k in f:
                f[k] = I.top('__dict__')
            return I.top('__dict__.' + name)
        if name in ('update', 'pop', 'popitem', 'setdefault', 'clear'):
            S.w(obj).f = {k.v: v for k, v in new.items}
            self.touch(obj, S, node)
        return r

    def f_builtins__object____new__(self, args, kw, S, node):
        if len(args) == 1 and isinstance(args[0], Cls) and not kw:
            return S.new(Inst(args[0].ci))
        return None

    def f_builtins__vars(self, args, kw, S, node):
        if len(args) == 1 and isinstance(args[0], Ref) and isinstance(S.g(args[0]), Inst):
            return S.new(Opaque('instdict', {'obj': args[0]}))
        return None

    def opaque(self, o, ob, name, args, kw, S, node):
        h = self.I.hooks.get('opaque:' + ob.kind)
        if h is not None:
            for x in h(self.I, o, name, args, kw, S, node):
                yield x
            return
        if ob.kind == 'ode':
            for x in self.ode_method(o, name, args, kw, S, node):
                yield x
            return
        if ob.kind == 'linop':
            for x in self.linop(o, name, args, kw, S, node):
                yield x
            return
        yield S, self.I.top('opaque %s.%s' % (ob.kind, name))

    # ------------------------------------------------------------ library functions
    def callext(self, path, args, kw, S, node):
        I = self.I
        self.calls[path] = self.calls.get(path, 0) + 1
        if I.ca.on():
            r = I.ca.call(path, args, kw, S, node)
            if r is not None:
                return iter([(S, r)])
        fn = getattr(self, 'f_' + path.replace('.', '__'), None)
        if fn is None:
            last = path.split('.')[-1]
            if path.startswith('builtins.') and last in _EXCN():
                return iter([(S, S.new(Opaque('exc:' + last)))])
            if path.startswith('numpy.') and last in DTNAMES and len(args) == 1:
                p = self.spoly(args[0])
                if p is not None:
                    return iter([(S, Sc(p, DTNAMES[last]))])
            if path.startswith('numpy.') and len(args) == 1 and last in ('sqrt', 'exp', 'log', 'cos', 'sin', 'tan', 'angle', 'tanh'):
                v = self.fnscalar(last, args[0], self.dtof(args[0], S))
                if v is not None:
                    return iter([(S, v)])
                if self.isarr(args[0], S):
                    a = S.g(args[0])
                    c = S.content(args[0])
                    return iter([(S, self.mk(S, Poly.fn('np.' + last, c) if isinstance(c, Poly) else None, a.shape, a.dtype if a.dtype[0] in 'fc' else 'float64', 'nd'))])
            return self.unknown_call(path, args, kw, S, node)
        for a in args:
            if isinstance(a, Ref) and isinstance(S.g(a), GenO) and S.g(a).exc is not None:
                # a generator that raises: consumers raise, wrappers raise later
                g = S.g(a)
                if path in ('builtins.enumerate', 'builtins.iter') and len(args) == 1:
                    it = g.items[g.pos:]
                    S.w(a).pos = len(g.items)
                    return iter([(S, S.new(GenO([Tup((K(i), x)) for i, x in enumerate(it)] if path.endswith('enumerate') else it, g.exc)))])
                if path in ('builtins.list', 'builtins.tuple', 'builtins.set', 'builtins.sum', 'builtins.sorted', 'builtins.dict',
                            'builtins.max', 'builtins.min', 'builtins.all', 'builtins.any', 'numpy.array', 'numpy.fromiter'):
                    return iter([(S, g.exc)])
        r = fn(args, kw, S, node)
        if r is None:
            return self.unknown_call(path, args, kw, S, node)
        if isinstance(r, V):
            return iter([(S, r)])
        return r

    def unknown_call(self, path, args, kw, S, node):
        """an unmodelled library call: forget everything it may write"""
        last = path.split('.')[-1]
        if path.startswith('numpy.'):
            dirty = [kw['out']] if 'out' in kw else []
            if last in ('copyto', 'put', 'place', 'putmask', 'fill_diagonal', 'put_along_axis', 'shuffle') or '.at' in path:
                dirty += list(args[:1])
            elif last in UFUNC_NIN and len(args) > UFUNC_NIN[last]:
                dirty += list(args[UFUNC_NIN[last]:])
        elif path.startswith('builtins.') or path.startswith('six.') or path.startswith('warnings.'):
            dirty = []
        else:
            dirty = list(args) + list(kw.values())
        for v in dirty:
            self.havoc(v, S, node)
        return iter([(S, self.I.top('call ' + path))])

    def havoc(self, v, S, node, seen=None):
        seen = set() if seen is None else seen
        if isinstance(v, Tup):
            for x in v.items:
                self.havoc(x, S, node, seen)
        if not isinstance(v, Ref) or v.id in seen:
            return
        seen.add(v.id)
        o = S.g(v)
        if isinstance(o, Arr):
            if o.wr:
                S.setcontent(v, None, self.I.loc(node, S))
        elif isinstance(o, (Lst, SetO)):
            for x in o.items:
                self.havoc(x, S, node, seen)
        elif isinstance(o, Dct):
            for _, x in o.items:
                self.havoc(x, S, node, seen)

    # -- builtins
    def f_builtins__len(self, a, kw, S, node):
        v = a[0]
        if isinstance(v, Ref):
            o = S.g(v)
            if isinstance(o, (Lst, SetO)):
                return K(len(o.items))
            if isinstance(o, Dct):
                return K(len(o.items)) if not o.open else None
            if isinstance(o, Arr):
                if o.kind in SP:
                    return self.I.exc('TypeError', 'sparse matrix length is ambiguous', node, S)
                return K(o.shape[0]) if o.shape else self.I.exc('TypeError', 'len() of unsized object', node, S)
            if isinstance(o, Inst):
                m = self.I.findmethod(o.ci, '__len__')
                if m:
                    return self.I.callfn(m, [v], {}, S, node)
        if isinstance(v, Tup):
            return K(len(v.items))
        if isinstance(v, K) and isinstance(v.v, (str, range)):
            return K(len(v.v))
        if isinstance(v, (K, Sc)):
            return self.I.exc('TypeError', 'object has no len()', node, S, isinstance(v, K) and v.v is None)
        return None

    def f_builtins__range(self, a, kw, S, node):
        vs = [self.constint(x) for x in a]
        if '?' in vs or None in vs:
            return None
        if len(range(*vs)) > 64:
            e = S.env
            while e is not None and S.g(e).fname != '<module>':
                e = S.g(e).parent
            if e is None:
                return None
            self.I._trunc = True         # a module-level table: keep its first entries
            return K(range(*vs)[:40])
        return K(range(*vs))

    def f_builtins__enumerate(self, a, kw, S, node):
        it = self.I.seq(a[0], S)
        if it is None:
            return None
        return S.new(GenO([Tup((K(i), x)) for i, x in enumerate(it)]))

    def f_builtins__zip(self, a, kw, S, node):
        its = [self.I.seq(x, S) for x in a]
        if any(i is None for i in its):
            return None
        return S.new(GenO([Tup(t) for t in zip(*its)]))

    def f_builtins__list(self, a, kw, S, node):
        if not a:
            return S.new(Lst([]))
        it = self.I.seq(a[0], S)
        if it is None:
            return None
        return S.new(Lst(it))

    def f_builtins__tuple(self, a, kw, S, node):
        if not a:
            return Tup(())
        it = self.I.seq(a[0], S)
        if it is None:
            if isinstance(a[0], (Sc, K)):
                return self.I.exc('TypeError', 'object is not iterable', node, S)
            return None
        return Tup(it)

    def f_builtins__set(self, a, kw, S, node):
        if not a:
            return S.new(SetO([]))
        it = self.I.seq(a[0], S)
        if it is None:
            return None
        r = S.new(SetO([]))
        for x in it:
            e = self.m_SetO_add(r, S.g(r), [x], {}, S, node)
            if isinstance(e, Exc):
                return e
        return r

    f_builtins__frozenset = f_builtins__set

    def unhashable(self, k, S):
        if isinstance(k, Tup):
            return any(self.unhashable(x, S) for x in k.items)
        if isinstance(k, Ref):
            o = S.g(k)
            return isinstance(o, (Lst, Dct, SetO)) or isinstance(o, Arr) and o.kind == 'nd'
        return False

    def f_collections__defaultdict(self, a, kw, S, node):
        r = self.f_builtins__dict(a[1:], kw, S, node)
        if r is not None and a and not (isinstance(a[0], K) and a[0].v is None):
            S.w(r).default = a[0]
        return r

    f_collections__OrderedDict = lambda self, a, kw, S, node: self.f_builtins__dict(a, kw, S, node)

    def f_collections__Counter(self, a, kw, S, node):
        d = Dct()
        d.default = K(0)
        if kw:
            return None
        for x in a[:1]:
            o = S.g(x) if isinstance(x, Ref) else None
            if isinstance(o, Dct):
                d.items = list(o.items)
                continue
            it = self.I.seq(x, S)
            if it is None:
                return None
            for k in it:
                if self.unhashable(k, S):
                    return self.I.exc('TypeError', 'unhashable key %r' % (k,), node, S, True)
                for i, (q, n) in enumerate(d.items):
                    e = self.I.veq(q, k, S)
                    if e is None:
                        return None
                    if e is True:
                        d.items[i] = (q, K(n.v + 1))
                        break
                else:
                    d.items.append((k, K(1)))
        return S.new(d)

    def counters(self, lo, ro, op, S):
        f = {'-': lambda x, y: x - y, '+': lambda x, y: x + y, '&': min, '|': max}[op]
        out, left = [], list(ro.items)
        for k, n in lo.items:
            m = 0
            for j, (q, y) in enumerate(left):
                e = self.I.veq(k, q, S)
                if e is None or not isinstance(y, K):
                    return self.I.top('counter')
                if e is True:
                    m = y.v
                    left.pop(j)
                    break
            if not isinstance(n, K):
                return self.I.top('counter')
            out.append((k, f(n.v, m)))
        for q, y in left:
            out.append((q, f(0, y.v)))
        d = Dct([(k, K(n)) for k, n in out if n > 0])
        d.default = K(0)
        return S.new(d)

    def f_builtins__dict(self, a, kw, S, node):
        d = Dct()
        if a:
            if isinstance(a[0], Ref) and isinstance(S.g(a[0]), Dct):
                d.items = list(S.g(a[0]).items)
                d.open = S.g(a[0]).open
            else:
                it = self.I.seq(a[0], S)
                if it is None:
                    return None
                for x in it:
                    kv = self.I.seq(x, S)
                    if kv is None or len(kv) != 2:
                        return None
                    d.items.append(tuple(kv))
        r = S.new(d)
        if '**' in kw:
            d.open = True
        for k, v in kw.items():
            if k != '**':
                for _ in self.I.setitem(r, K(k), v, S, node):
                    pass
        return r

    def f_builtins__isinstance(self, a, kw, S, node):
        v, c = a
        cs = list(c.items) if isinstance(c, Tup) else [c]
        unk = False
        for x in cs:
            t = self.isinst(v, x, S)
            if t is True:
                return TRUE
            if t is None:
                unk = True
        if unk:
            return U(('isinstance', v.key(), c.key()))
        return FALSE

    def isinst(self, v, c, S):
        if isinstance(v, Top):
            return None
        if isinstance(c, Cls):
            if isinstance(v, Ref) and isinstance(S.g(v), Inst):
                ci = S.g(v).ci
                return any(x is c.ci for x in self.I.prog.mro(ci))
            return False
        if isinstance(c, Ext):
            p = c.path
            if isinstance(v, Ref):
                o = S.g(v)
                if isinstance(o, Inst):
                    if p == 'builtins.object':
                        return True
                    ext = [x[4:] for x in self.I.prog.mro(o.ci) if isinstance(x, str)]
                    if any(e.split('.')[-1] == p.split('.')[-1] for e in ext):
                        return True
                    return False if not p.startswith('collections') else None
                if isinstance(o, Arr):
                    if p == 'numpy.ndarray':
                        return o.kind in ('nd', 'mat')
                    if p == 'numpy.matrix':
                        return o.kind == 'mat'
                    if p in ('scipy.sparse.spmatrix', 'scipy.sparse.base.spmatrix'):
                        return o.kind in SP
                    if p.startswith('scipy.sparse.') and p.endswith('_matrix'):
                        return p == 'scipy.sparse.%s_matrix' % o.kind
                    return False if p.startswith(('builtins', 'scipy.sparse.linalg', 'types.')) else None
                if p.startswith('builtins.'):
                    nm = {'Lst': 'list', 'Dct': 'dict', 'SetO': 'set'}.get(type(o).__name__)
                    if nm is not None:
                        return p == 'builtins.' + nm
                if p in ('numpy.ndarray', 'numpy.matrix') and isinstance(o, (Lst, Dct, SetO)):
                    return False
                if isinstance(o, Opaque):
                    h = o.f.get('__isinstance__')
                    if h:
                        return h(c)
                    return None
                return None
            if isinstance(v, K):
                t = 'builtins.' + type(v.v).__name__
                if p == t:
                    return True
                if p == 'builtins.int' and isinstance(v.v, bool):
                    return True
                return False
            if isinstance(v, Tup):
                return p == 'builtins.tuple'
            if isinstance(v, Sc):
                if p in ('builtins.complex',):
                    return v.dt == 'complex128'
                if p in ('builtins.float',):
                    return v.dt == 'float64'
                if p in ('builtins.int', 'builtins.str', 'builtins.list', 'builtins.tuple', 'builtins.dict', 'numpy.ndarray', 'builtins.bool') or p.startswith('scipy.'):
                    return False
                return None
            if isinstance(v, (Fn, UFn, BM)):
                return False if p.startswith(('builtins', 'numpy', 'scipy')) else None
        return None

    def f_builtins__type(self, a, kw, S, node):
        return self.typeof(a[0], S)

    def f_builtins__hasattr(self, a, kw, S, node):
        o, n = a
        if not isinstance(n, K):
            return None
        S2 = S.fork()
        outs = list(self.I.getattr(o, n.v, S2, node))
        if all(isinstance(v, Exc) and v.name == 'AttributeError' for _, v in outs):
            return FALSE
        if any(isinstance(v, (Exc, Top)) for _, v in outs):
            return U(('hasattr', o.key(), n.v))
        if len(outs) == 1 and isinstance(outs[0][1], EM) and isinstance(o, Ref) and isinstance(S.g(o), (Lst, Dct, SetO, GenO)) and n.v.startswith('__'):
            return K(n.v in ('__iter__', '__len__', '__getitem__', '__contains__', '__next__'))
        return TRUE

    def f_builtins__getattr(self, a, kw, S, node):
        if isinstance(a[1], K):
            def go():
                for S1, v in self.I.getattr(a[0], a[1].v, S, node):
                    if isinstance(v, Exc) and len(a) > 2:
                        yield S1, a[2]
                    else:
                        yield S1, v
            return go()
        return None

    def f_builtins__setattr(self, a, kw, S, node):
        if isinstance(a[1], K):
            def go():
                for S1, e in self.I.setattr(a[0], a[1].v, a[2], S, node):
                    yield S1, (e if e is not None else NONE)
            return go()
        return NONE

    def f_builtins__callable(self, a, kw, S, node):
        if isinstance(a[0], Top):
            return None
        return K(isinstance(a[0], (Fn, UFn, BM, Cls, Ext, EM, Part)) or
                 (isinstance(a[0], Ref) and isinstance(S.g(a[0]), Inst) and self.I.findmethod(S.g(a[0]).ci, '__call__') is not None))

    def hashkey(self, v, S, node):
        """canonical hash key, generator of (S, key or None)"""
        if isinstance(v, K):
            yield S, ('K', repr(v.v) if not isinstance(v.v, HashVal) else v.v.k)
            return
        if isinstance(v, Tup):
            keys = []
            states = [(S, ())]
            for x in v.items:
                nxt = []
                for s, acc in states:
                    for s1, k in self.hashkey(x, s, node):
                        nxt.append((s1, None if k is None or acc is None else acc + (k,)))
                states = nxt
            for s, acc in states:
                yield s, (None if acc is None else ('T',) + acc)
            return
        if isinstance(v, Ref):
            o = S.g(v)
            if isinstance(o, Inst):
                m = self.I.findmethod(o.ci, '__hash__')
                if m is not None:
                    for S1, r in self.I.callfn(m, [v], {}, S, node):
                        if isinstance(r, Exc):
                            yield S1, r
                        else:
                            yield S1, (r.v.k if isinstance(r, K) and isinstance(r.v, HashVal) else
                                       (('K', repr(r.v)) if isinstance(r, K) else None))
                    return
            yield S, ('id', v.id)
            return
        if isinstance(v, Top):
            yield S, None
            return
        yield S, v.key()

    def f_builtins__hash(self, a, kw, S, node):
        def go():
            for S1, k in self.hashkey(a[0], S, node):
                if isinstance(k, Exc):
                    yield S1, k
                elif k is None:
                    yield S1, self.I.top('hash')
                else:
                    yield S1, K(HashVal(k))
        return go()

    def f_builtins__iter(self, a, kw, S, node):
        if isinstance(a[0], (Sc,)) or isinstance(a[0], K) and not isinstance(a[0].v, (str, range)):
            return self.I.exc('TypeError', 'object is not iterable', node, S)
        it = self.I.seq(a[0], S)
        if it is None:
            return None
        return S.new(GenO(it))

    def f_builtins__next(self, a, kw, S, node):
        if isinstance(a[0], Ref) and isinstance(S.g(a[0]), GenO):
            g = S.w(a[0])
            if g.pos < len(g.items):
                g.pos += 1
                return g.items[g.pos - 1]
            if len(a) > 1:
                return a[1]
            return g.exc or self.I.exc('StopIteration', '', node, S)
        return None

    def f_builtins__sorted(self, a, kw, S, node):
        it = self.I.seq(a[0], S)
        if it is not None and kw:
            it = self.sortby(it, kw, S, node)
            return None if it is None else S.new(Lst(it))
        if it is None:
            return None
        if all(isinstance(x, K) for x in it):
            try:
                return S.new(Lst(sorted(it, key=lambda x: x.v)))
            except Exception:
                return None
        return None

    def f_builtins__reversed(self, a, kw, S, node):
        it = self.I.seq(a[0], S)
        return None if it is None else S.new(GenO(it[::-1]))

    def f_builtins__map(self, a, kw, S, node):
        its = [self.I.seq(x, S) for x in a[1:]]
        if any(i is None for i in its):
            return None

        def go():
            states = [(S, [])]
            for xs in zip(*its):
                nxt = []
                for s, acc in states:
                    for s1, v in self.I.call(a[0], list(xs), {}, s, node):
                        if isinstance(v, Exc):
                            yield s1, v
                        else:
                            nxt.append((s1, acc + [v]))
                states = nxt
            for s, acc in states:
                yield s, s.new(GenO(acc))
        return go()

    def f_builtins__filter(self, a, kw, S, node):
        return None

    def f_builtins__sum(self, a, kw, S, node):
        it = self.I.seq(a[0], S)
        if it is None:
            return None
        start = a[1] if len(a) > 1 else K(0)
        return self.fold('+', it, start, S, node)

    def fold(self, op, items, start, S, node):
        def go():
            states = [(S, start)]
            for x in items:
                nxt = []
                for s, acc in states:
                    for s1, v in self.I.binop(op, acc, x, s, node):
                        if isinstance(v, Exc):
                            yield s1, v
                        else:
                            nxt.append((s1, v))
                states = nxt
            for r in states:
                yield r
        return go()

    def f_functools__reduce(self, a, kw, S, node):
        it = self.I.seq(a[1], S)
        if it is None:
            return None
        if len(a) > 2:
            it = [a[2]] + it
        if not it:
            return self.I.exc('TypeError', 'reduce() of empty iterable', node, S)

        def go():
            states = [(S, it[0])]
            for x in it[1:]:
                nxt = []
                for s, acc in states:
                    for s1, v in self.I.call(a[0], [acc, x], {}, s, node):
                        if isinstance(v, Exc):
                            yield s1, v
                        else:
                            nxt.append((s1, v))
                states = nxt
            for r in states:
                yield r
        return go()

    def f_operator__mul(self, a, kw, S, node):
        return self.I.binop('*', a[0], a[1], S, node)

    def f_operator__add(self, a, kw, S, node):
        return self.I.binop('+', a[0], a[1], S, node)

    def f_functools__partial(self, a, kw, S, node):
        return Part(a[0], a[1:], kw)

    def f_builtins__abs(self, a, kw, S, node):
        v = self.fnscalar('abs', a[0])
        if v is not None:
            return v
        return None

    f_numpy__abs = f_builtins__abs
    f_numpy__absolute = f_builtins__abs

    def f_builtins__float(self, a, kw, S, node):
        if isinstance(a[0], K) and isinstance(a[0].v, (int, float, str)):
            try:
                return K(float(a[0].v))
            except Exception:
                return None
        p = self.spoly(a[0])
        return Sc(p, 'float64') if p is not None else None

    def f_builtins__int(self, a, kw, S, node):
        if a and isinstance(a[0], K) and isinstance(a[0].v, (int, float, str)):
            try:
                return K(int(a[0].v))
            except Exception as e:
                return self.I.exc(type(e).__name__, str(e), node, S)
        if not a:
            return K(0)
        p = self.spoly(a[0])
        return Sc(Poly.satom(('sfn', 'int', (p.key(),), False)), 'int64') if p is not None else None

    def f_builtins__complex(self, a, kw, S, node):
        p = self.spoly(a[0]) if a else None
        return Sc(p, 'complex128') if p is not None else None

    def f_builtins__bool(self, a, kw, S, node):
        t = self.I.truth(a[0], S) if a else False
        return K(t) if t is not None else (a[0] if isinstance(a[0], U) else None)

    def f_builtins__str(self, a, kw, S, node):
        if a and isinstance(a[0], K) and isinstance(a[0].v, (str, int)):
            return K(str(a[0].v))
        return K('<str>')

    f_builtins__repr = f_builtins__format = f_builtins__str

    def f_builtins__print(self, a, kw, S, node):
        return NONE

    def f_builtins__id(self, a, kw, S, node):
        return K(HashVal(a[0].key()))

    def f_builtins__min(self, a, kw, S, node):
        it = self.I.seq(a[0], S) if len(a) == 1 else list(a)
        if it and all(isinstance(x, K) for x in it) and not kw:
            try:
                return K(min(x.v for x in it))
            except Exception:
                return None
        return None

    def f_builtins__max(self, a, kw, S, node):
        it = self.I.seq(a[0], S) if len(a) == 1 else list(a)
        if it and all(isinstance(x, K) for x in it) and not kw:
            try:
                return K(max(x.v for x in it))
            except Exception:
                return None
        return None

    def f_builtins__any(self, a, kw, S, node):
        it = self.I.seq(a[0], S)
        if it is None:
            return None
        ts = [self.I.truth(x, S) for x in it]
        if any(t is True for t in ts):
            return TRUE
        if any(t is None for t in ts):
            return None
        return FALSE

    def f_builtins__all(self, a, kw, S, node):
        it = self.I.seq(a[0], S)
        if it is None:
            return None
        ts = [self.I.truth(x, S) for x in it]
        if any(t is False for t in ts):
            return FALSE
        if any(t is None for t in ts):
            return None
        return TRUE

    def f_builtins__object(self, a, kw, S, node):
        return S.new(Opaque('object'))

    def f_builtins__round(self, a, kw, S, node):
        return None

    def f_builtins__issubclass(self, a, kw, S, node):
        return None

    # -- six
    def f_six__iteritems(self, a, kw, S, node):
        if isinstance(a[0], Ref) and isinstance(S.g(a[0]), Dct):
            return self.m_Dct_items(a[0], S.g(a[0]), [], {}, S, node)
        return None

    def f_six__itervalues(self, a, kw, S, node):
        if isinstance(a[0], Ref) and isinstance(S.g(a[0]), Dct):
            return self.m_Dct_values(a[0], S.g(a[0]), [], {}, S, node)
        return None

    def f_six__iterkeys(self, a, kw, S, node):
        if isinstance(a[0], Ref) and isinstance(S.g(a[0]), Dct):
            return self.m_Dct_keys(a[0], S.g(a[0]), [], {}, S, node)
        return None

    f_six__viewkeys = f_six__iterkeys

    def f_six__moves__zip(self, a, kw, S, node):
        return self.f_builtins__zip(a, kw, S, node)

    def f_itertools__izip(self, a, kw, S, node):
        return self.f_builtins__zip(a, kw, S, node)

    def f_itertools__chain(self, a, kw, S, node):
        its = [self.I.seq(x, S) for x in a]
        if any(i is None for i in its):
            return None
        return S.new(GenO([x for i in its for x in i]))

    def f_warnings__warn(self, a, kw, S, node):
        S.events.append(('warn', a[0] if a else None, (), self.I.loc(node, S)))
        return NONE

    def f_copy__deepcopy(self, a, kw, S, node):
        memo = {}

        def dc(v):
            if isinstance(v, Tup):
                return Tup([dc(x) for x in v.items])
            if isinstance(v, Ref):
                if v.id in memo:
                    return memo[v.id]
                o = S.g(v)
                if isinstance(o, Arr):
                    r = self.mk(S, S.content(v), o.shape, o.dtype, o.kind)
                    memo[v.id] = r
                    return r
                n = o.copy()
                n.origin = None
                r = S.new(n)
                memo[v.id] = r
                if isinstance(n, (Inst, Opaque)):
                    n.f = {k: dc(x) if isinstance(x, V) else x for k, x in n.f.items()}
                elif isinstance(n, (Lst, SetO)):
                    n.items = [dc(x) for x in n.items]
                elif isinstance(n, Dct):
                    n.items = [(dc(k), dc(x)) for k, x in n.items]
                return r
            if isinstance(v, BM) and isinstance(v.self_, Ref):
                return BM(v.fn, dc(v.self_))
            return v
        return dc(a[0])

    def f_copy__copy(self, a, kw, S, node):
        v = a[0]
        if isinstance(v, Ref):
            o = S.g(v)
            if isinstance(o, Arr):
                return self.mk(S, S.content(v), o.shape, o.dtype, o.kind)
            n = o.copy()
            n.origin = None
            return S.new(n)
        return v

    # -- numpy
    def toarr(self, v, S, dtype=None, force=False):
        """np.asanyarray model -> value (Ref Arr / Sc) or None"""
        if isinstance(v, Ref):
            o = S.g(v)
            if isinstance(o, Arr):
                if o.kind in SP:
                    return None
                if dtype is not None and dtype != o.dtype:
                    return self.mk(S, self.astype_content(S.content(v), o.dtype, dtype), o.shape, dtype, o.kind)
                if force:
                    return self.mk(S, S.content(v), o.shape, o.dtype, o.kind)
                return v
        p = self.spoly(v)
        if p is not None:
            d = self.dtof(v, S)
            if dtype is not None and iscomplex(d) and isreal(dtype) and not p.is_real():
                p = Poly.satom(('sfn', 're', (p.key(),), False))
            return Sc(p, dtype or d)
        it = self.I.seq(v, S) if not isinstance(v, K) else None
        if it is not None:
            if not it:
                return self.mk(S, ZERO, (0,), dtype or 'float64', 'nd')
            xs = [self.toarr(x, S) for x in it]
            if any(x is None for x in xs):
                return None
            if all(isinstance(x, Sc) for x in xs):
                d = dtype or rt(*[x.dt for x in xs])
                return self.mk(S, Stack(0, [x.p for x in xs]), (len(xs),), d, 'nd')
            if all(isinstance(x, Ref) for x in xs):
                shs = set(S.g(x).shape for x in xs)
                if len(shs) == 1:
                    sh = shs.pop()
                    d = dtype or rt(*[S.g(x).dtype for x in xs])
                    cs = [S.content(x) for x in xs]
                    return self.mk(S, None if any(c is None for c in cs) else Stack(0, cs), (len(xs),) + sh, d, 'nd')
        return None

    def objlist(self, v, S):
        """array of objects (sparse matrices, class instances): kept as a list"""
        it = self.I.seq(v, S) if isinstance(v, (Ref, Tup)) and not (isinstance(v, Ref) and isinstance(S.g(v), Arr)) else None
        if it and all(isinstance(x, Ref) and (isinstance(S.g(x), Inst) or isinstance(S.g(x), Arr) and S.g(x).kind in SP) for x in it):
            return S.new(Lst(list(it)))
        return None

    def _dt(self, args, kw, i=1):
        v = kw.get('dtype', args[i] if len(args) > i else None)
        if v is None or isinstance(v, K) and v.v is None:
            return None, True
        d = self.as_dtype(v)
        return d, d is not None

    def f_numpy__array(self, a, kw, S, node):
        d, ok = self._dt(a, kw)
        if not ok:
            return None
        copy = self.argb(kw, [], 0, 'copy', True)
        v = a[0]
        if isinstance(v, Ref) and isinstance(S.g(v), Arr) and S.g(v).kind in SP:
            return S.new(Opaque('objarray'))
        if d is None:
            ol = self.objlist(v, S)
            if ol is not None:
                return ol
        r = self.toarr(v, S, d, force=bool(copy))
        if r is not None and isinstance(r, Ref) and S.g(r).kind == 'mat':
            if r is v:
                return self.view(S, r, None, 'nd')
            S.w(r).kind = 'nd'
        if r is not None and isinstance(r, Ref) and isinstance(kw.get('order'), K) and kw['order'].v == 'C' and (copy):
            S.w(r).order = 'C'
        return r

    def f_numpy__asarray(self, a, kw, S, node):
        d, ok = self._dt(a, kw)
        if not ok:
            return None
        if 'copy' in kw:
            return self.I.exc('TypeError', "asarray() got an unexpected keyword argument 'copy'", node, S, True)
        if isinstance(a[0], Ref) and isinstance(S.g(a[0]), Arr) and S.g(a[0]).kind in SP:
            return S.new(Opaque('objarray'))
        if d is None:
            ol = self.objlist(a[0], S)
            if ol is not None:
                return ol
        r = self.toarr(a[0], S, d)
        if r is not None and isinstance(r, Ref) and S.g(r).kind == 'mat':
            if r is a[0]:
                return self.view(S, r, None, 'nd')
            S.w(r).kind = 'nd'
        return r

    def f_numpy__asanyarray(self, a, kw, S, node):
        d, ok = self._dt(a, kw)
        if not ok:
            return None
        if isinstance(a[0], Ref) and isinstance(S.g(a[0]), Arr) and S.g(a[0]).kind in SP:
            return S.new(Opaque('objarray'))
        return self.toarr(a[0], S, d)

    def f_numpy__ascontiguousarray(self, a, kw, S, node):
        r = self.f_numpy__asarray(a, kw, S, node)
        if r is not None and isinstance(r, Ref) and r is a[0] and isinstance(S.g(r), Arr) and (S.g(r).order != 'C' or S.g(r).ops) and len(S.g(r).shape) > 1:
            o = S.g(r)
            return self.mk(S, S.content(r), o.shape, o.dtype, 'nd')
        return r

    def f_numpy__asmatrix(self, a, kw, S, node):
        if self.isarr(a[0], S) and S.g(a[0]).kind in ('nd', 'mat') and len(S.g(a[0]).shape) == 2:
            return self.view(S, a[0], None, 'mat')
        return None

    f_numpy__mat = f_numpy__asmatrix

    def shapeval(self, v, S):
        if isinstance(v, Tup) or isinstance(v, Ref):
            it = self.I.seq(v, S)
            if it is None:
                return None
            s = [self.constint(x) for x in it]
        else:
            s = [self.constint(v)]
        if any(x == '?' or x is None for x in s):
            return None
        return tuple(s)

    def f_numpy__zeros(self, a, kw, S, node):
        sh = self.shapeval(a[0] if a else kw.get('shape'), S)
        d, ok = self._dt(a, kw)
        if sh is None or not ok:
            return None
        if sh == ():
            return Sc(ZERO, d or 'float64')
        return self.mk(S, ZERO, sh, d or 'float64', 'nd')

    def f_numpy__empty(self, a, kw, S, node):
        sh = self.shapeval(a[0] if a else kw.get('shape'), S)
        d, ok = self._dt(a, kw)
        if sh is None or not ok:
            return None
        uid = next(ids2)
        n = 1
        return self.mk(S, blank(sh, ('u', uid)), sh, d or 'float64', 'nd')

    def f_numpy__zeros_like(self, a, kw, S, node):
        d, ok = self._dt(a, kw)
        if self.isarr(a[0], S) and ok and S.g(a[0]).kind in ('nd', 'mat'):
            o = S.g(a[0])
            return self.mk(S, ZERO, o.shape, d or o.dtype, o.kind)
        return None

    def f_numpy__empty_like(self, a, kw, S, node):
        d, ok = self._dt(a, kw)
        if self.isarr(a[0], S) and ok and S.g(a[0]).kind in ('nd', 'mat'):
            o = S.g(a[0])
            return self.mk(S, blank(o.shape, ('u', next(ids2))), o.shape, d or o.dtype, o.kind)
        return None

    def f_numpy__ones(self, a, kw, S, node):
        sh = self.shapeval(a[0], S)
        d, ok = self._dt(a, kw)
        if sh is None or not ok:
            return None
        return self.mk(S, Poly.fn('ones'), sh, d or 'float64', 'nd')

    def f_numpy__identity(self, a, kw, S, node):
        n = self.constint(a[0])
        d, ok = self._dt(a, kw)
        if n in ('?', None):
            return None
        return self.mk(S, ONE, (n, n), d or 'float64', 'nd')

    f_numpy__eye = f_numpy__identity

    def f_scipy__sparse__identity(self, a, kw, S, node):
        n = self.constint(a[0])
        d, ok = self._dt(a, kw)
        if n in ('?', None):
            return None
        return self.mk(S, ONE, (n, n), d or 'float64', 'dia')

    f_scipy__sparse__eye = f_scipy__sparse__identity

    def f_numpy__dtype(self, a, kw, S, node):
        d = self.as_dtype(a[0])
        return K(DT(d)) if d else None

    def f_numpy__result_type(self, a, kw, S, node):
        arrs, scs = [], []
        for x in a:
            if isinstance(x, (K, Sc)) and self.spoly(x) is not None:
                scs.append(self.dtof(x, S))
                continue
            d = self.as_dtype(x) or self.dtof(x, S)
            if d is None:
                return None
            arrs.append(d)
        if not arrs:
            return K(DT(rt(*scs)))
        base = rt(*arrs)
        if scs:
            # value based casting: a scalar only raises the kind
            s = rt(*scs)
            if iscomplex(s) and not iscomplex(base):
                base = 'complex64' if base == 'float32' else 'complex128'
            elif s.startswith('float') and base.startswith(('int', 'bool')):
                base = 'float64'
        return K(DT(base))

    def f_numpy__can_cast(self, a, kw, S, node):
        frm = self.as_dtype(a[0]) or self.dtof(a[0], S)
        to = self.as_dtype(a[1])
        c = kw.get('casting', a[2] if len(a) > 2 else K('safe'))
        if frm is None or to is None or not isinstance(c, K):
            return None
        if c.v == 'unsafe':
            return TRUE
        if c.v == 'same_kind':
            return K(self.cancast(frm, to))
        return K(rt(frm, to) == to)

    def f_numpy__finfo(self, a, kw, S, node):
        d = self.as_dtype(a[0])
        if d is None:
            return None
        if d.startswith(('int', 'bool')):
            return self.I.exc('ValueError', 'finfo of integer type', node, S)
        e = 1.1920929e-07 if d in ('float32', 'complex64') else 2.220446049250313e-16
        return S.new(Opaque('finfo', {'eps': K(e), 'resolution': K(1e-15 if e < 1e-10 else 1e-6)}))

    def f_numpy__isscalar(self, a, kw, S, node):
        v = a[0]
        if isinstance(v, Top) or isinstance(v, U):
            return None
        return K(isinstance(v, Sc) or isinstance(v, K) and isinstance(v.v, (int, float, complex, str, bool)))

    def f_numpy__iscomplexobj(self, a, kw, S, node):
        d = self.dtof(a[0], S)
        if isinstance(a[0], Ref) and isinstance(S.g(a[0]), (Lst,)) or isinstance(a[0], Tup):
            ds = [self.dtof(x, S) for x in self.I.seq(a[0], S)]
            if all(x is not None for x in ds):
                return K(any(iscomplex(x) for x in ds))
        return K(iscomplex(d)) if d else None

    def f_numpy__isreal(self, a, kw, S, node):
        p = self.spoly(a[0])
        return K(p.is_real()) if p is not None else None

    def f_numpy__isrealobj(self, a, kw, S, node):
        d = self.dtof(a[0], S)
        return K(not iscomplex(d)) if d else None

    def f_numpy__ndim(self, a, kw, S, node):
        r = self.toarr(a[0], S)
        if isinstance(r, Sc):
            return K(0)
        if isinstance(r, Ref):
            return K(len(S.g(r).shape))
        return None

    def f_numpy__allclose(self, a, kw, S, node):
        if self.isarr(a[0], S) and self.spoly(a[1]) is not None and self.spoly(a[1]).is_zero():
            o = S.g(a[0])
            c = S.heap[o.stor].content
            if isinstance(c, Poly):
                return K(c.is_zero())
            return None if c is None else FALSE
        return None

    def f_numpy__any(self, a, kw, S, node):
        if self.isarr(a[0], S):
            c = S.heap[S.g(a[0]).stor].content
            if isinstance(c, Poly):
                return K(not c.is_zero())
        t = self.I.truth(a[0], S)
        return K(t) if t is not None else None

    def f_numpy__matmul(self, a, kw, S, node):
        if self.isarr(a[0], S) and self.isarr(a[1], S):
            x, y = S.g(a[0]), S.g(a[1])
            if x.kind in SP or y.kind in SP:
                return self.I.exc('ValueError', 'np.matmul does not support sparse operands', node, S, True)
            return self.without(kw, self.matmul(a[0], a[1], S, node, 'mat' if 'mat' in (x.kind, y.kind) else 'nd', rt(x.dtype, y.dtype)), S, node)
        return None

    def f_numpy__dot(self, a, kw, S, node):
        if self.isarr(a[0], S) and self.isarr(a[1], S):
            x, y = S.g(a[0]), S.g(a[1])
            if x.kind in SP or y.kind in SP:
                if x.kind in SP and y.kind in SP:
                    return self.matmul(a[0], a[1], S, node, self.kind_mul(x.kind, y.kind)[0], rt(x.dtype, y.dtype))
                return self.mk(S, Poly.fn('object_array_of_sparse'), y.shape, 'complex128', 'nd')
            return self.without(kw, self.matmul(a[0], a[1], S, node, 'mat' if 'mat' in (x.kind, y.kind) else 'nd', rt(x.dtype, y.dtype)), S, node)
        if self.spoly(a[0]) is not None or self.spoly(a[1]) is not None:
            return self.I.binop('*', a[0], a[1], S, node)
        return None

    def f_numpy__multiply(self, a, kw, S, node):
        out = kw.get('out', a[2] if len(a) > 2 else NONE)

        def go():
            for S1, x in self.nd_mult(a[0], a[1], S, node):
                if self.isarr(out, S1):
                    if isinstance(x, Exc):
                        yield S1, x
                        continue
                    if isinstance(x, Ref):
                        if S1.g(x).shape != S1.g(out).shape:
                            yield S1, self.I.exc('ValueError', 'non-broadcastable output', node, S1)
                            continue
                        if iscomplex(S1.g(x).dtype) and isreal(S1.g(out).dtype):
                            yield S1, self.I.exc('UFuncTypeError', 'cannot cast to output dtype', node, S1)
                            continue
                        S1.setcontent(out, S1.content(x), self.I.loc(node, S1))
                    else:
                        S1.setcontent(out, None, self.I.loc(node, S1))
                    yield S1, out
                else:
                    yield S1, x
        return go()

    def nd_mult(self, l, r, S, node):
        if self.isarr(l, S) and self.isarr(r, S):
            h = self.had(S, l, r)
            if h is None:
                yield S, self.I.exc('ValueError', 'operands could not be broadcast', node, S)
                return
            yield S, self.mk(S, h[0], h[1], rt(S.g(l).dtype, S.g(r).dtype), 'nd')
            return
        if self.isarr(l, S) or self.isarr(r, S) or isinstance(l, (K, Sc)):
            for x in self.I.binop('*', l, r, S, node):
                yield x
            return
        yield S, self.I.top('multiply')

    def f_numpy__add(self, a, kw, S, node):
        if 'out' in kw or len(a) > 2:
            return None
        return self.I.binop('+', a[0], a[1], S, node)

    def f_numpy__subtract(self, a, kw, S, node):
        if 'out' in kw or len(a) > 2:
            return None
        return self.I.binop('-', a[0], a[1], S, node)

    def f_numpy__conj(self, a, kw, S, node):
        if self.isarr(a[0], S):
            return self.mk(S, cmap(S.content(a[0]), lambda p: p.conj()), S.g(a[0]).shape, S.g(a[0]).dtype, S.g(a[0]).kind)
        p = self.spoly(a[0])
        return Sc(p.conj(), self.dtof(a[0], S)) if p is not None else None

    f_numpy__conjugate = f_numpy__conj

    def f_numpy__real(self, a, kw, S, node):
        if self.isarr(a[0], S) or self.spoly(a[0]) is not None:
            return self.I.getattr(a[0], 'real', S, node)
        return None

    def f_numpy__imag(self, a, kw, S, node):
        if self.isarr(a[0], S) or self.spoly(a[0]) is not None:
            return self.I.getattr(a[0], 'imag', S, node)
        return None

    def f_numpy__transpose(self, a, kw, S, node):
        if self.isarr(a[0], S):
            return self.m_Arr_transpose(a[0], S.g(a[0]), a[1:], {}, S, node)
        return None

    def f_numpy__vdot(self, a, kw, S, node):
        if self.isarr(a[0], S) and self.isarr(a[1], S):
            x, y = S.content(a[0]), S.content(a[1])
            if isinstance(x, Poly) and isinstance(y, Poly):
                return Sc((x.H() * y).trace(), rt(S.g(a[0]).dtype, S.g(a[1]).dtype))
        return None

    def f_numpy__einsum(self, a, kw, S, node):
        if isinstance(a[0], K) and all(self.isarr(x, S) for x in a[1:]):
            spec = a[0].v.replace(' ', '')
            if any(S.g(x).kind in SP for x in a[1:]):
                return self.I.exc('ValueError', 'einsum of a sparse matrix', node, S, True)
            cs = [S.content(x) for x in a[1:]]
            if spec == 'ij,ij->j' and len(cs) == 2:
                x, y = cs
                sh = S.g(a[1]).shape
                d = rt(*[S.g(v).dtype for v in a[1:]])
                if isinstance(x, Poly) and isinstance(y, Poly):
                    return self.mk(S, coldiag(x.T() * y), (sh[1],), d, 'nd')
                if isinstance(x, Stack) and isinstance(y, Stack) and x.axis == 1 == y.axis:
                    ps = [(p.T() * q).trace() if isinstance(p, Poly) and isinstance(q, Poly) else None for p, q in zip(x.parts, y.parts)]
                    return self.mk(S, None if any(p is None for p in ps) else Stack(0, ps), (sh[1],), d, 'nd')
            if spec == 'iij->j' and len(cs) == 1 and isinstance(cs[0], Stack) and cs[0].axis == 2:
                ps = [p.trace() if isinstance(p, Poly) else None for p in cs[0].parts]
                return self.mk(S, None if any(p is None for p in ps) else Stack(0, ps), (len(ps),), S.g(a[1]).dtype, 'nd')
        return None

    def f_numpy__trace(self, a, kw, S, node):
        if self.isarr(a[0], S):
            return self.m_Arr_trace(a[0], S.g(a[0]), [], {}, S, node)
        return None

    def f_numpy__linspace(self, a, kw, S, node):
        kw = dict(kw)
        names = ['start', 'stop', 'num', 'endpoint', 'retstep']
        kw.update(zip(names, a))
        if set(kw) - set(names) or not ('start' in kw and 'stop' in kw):
            return None
        num, end, ret = kw.get('num', K(50)), kw.get('endpoint', TRUE), kw.get('retstep', FALSE)
        lo, hi = self.spoly(kw['start']), self.spoly(kw['stop'])
        if NONE.key() in (kw['start'].key(), kw['stop'].key()):
            return self.I.exc('TypeError', 'linspace of None', node, S, True)
        if not all(isinstance(x, K) for x in (num, end, ret)) or lo is None or hi is None or not isinstance(num.v, int) or num.v < 0 or num.v > 60:
            return None
        d = rt('float64', self.dtof(kw['start'], S) or 'float64', self.dtof(kw['stop'], S) or 'float64')
        div = num.v - 1 if end.v else num.v
        step = (hi - lo).scale(1.0 / div) if div > 0 else None
        ps = [lo + step.scale(i) if i else lo for i in range(num.v)]
        if end.v and num.v > 1:
            ps[-1] = hi
        r = self.mk(S, Stack(0, ps) if ps else None, (num.v,), d, 'nd')
        if ret.v:
            return Tup([r, Sc(step, d) if step is not None else self.I.top('linspace step')])
        return r

    def f_numpy__squeeze(self, a, kw, S, node):
        return self.m_Arr_squeeze(a[0], S.g(a[0]), [], {}, S, node) if self.isarr(a[0], S) else None

    def f_numpy__may_share_memory(self, a, kw, S, node):
        if self.isarr(a[0], S) and self.isarr(a[1], S):
            return K(S.g(a[0]).stor == S.g(a[1]).stor)
        return None

    f_numpy__shares_memory = f_numpy__may_share_memory

    def f_numpy__hstack(self, a, kw, S, node):
        return self.stackf(a, S, 'h')

    def f_numpy__vstack(self, a, kw, S, node):
        return self.stackf(a, S, 'v')

    def f_numpy__column_stack(self, a, kw, S, node):
        return self.stackf(a, S, 'c')

    def f_numpy__stack(self, a, kw, S, node):
        ax = kw.get('axis', a[1] if len(a) > 1 else K(0))
        it = self.I.seq(a[0], S)
        if it is None or not isinstance(ax, K) or not all(self.isarr(x, S) for x in it) or not it:
            return None
        cs = [S.content(x) for x in it]
        o = S.g(it[0])
        axis = ax.v if ax.v >= 0 else ax.v + len(o.shape) + 1
        sh = o.shape[:axis] + (len(it),) + o.shape[axis:]
        return self.mk(S, None if any(c is None for c in cs) else Stack(axis, cs), sh, rt(*[S.g(x).dtype for x in it]), 'nd')

    def stackf(self, a, S, mode):
        it = self.I.seq(a[0], S)
        if not it or not all(self.isarr(x, S) for x in it):
            return None
        os_ = [S.g(x) for x in it]
        if any(o.kind in SP for o in os_):
            return None
        cs = [S.content(x) for x in it]
        d = rt(*[o.dtype for o in os_])
        nd = len(os_[0].shape)
        if nd == 1 and all(o.shape == os_[0].shape for o in os_) and mode in 'vc':
            ax = 0 if mode == 'v' else 1
            sh = (len(it), os_[0].shape[0]) if ax == 0 else (os_[0].shape[0], len(it))
            return self.mk(S, None if any(c is None for c in cs) else Stack(ax, cs), sh, d, 'nd')
        ax = {'v': 0, 'h': 1 if nd > 1 else 0, 'c': 1}[mode]
        if nd >= 1 and all(len(o.shape) == nd for o in os_):
            tot = sum(o.shape[ax] for o in os_)
            sh = os_[0].shape[:ax] + (tot,) + os_[0].shape[ax + 1:]
            return self.mk(S, None if any(c is None for c in cs) else Concat(ax, [(o.shape[ax], c) for o, c in zip(os_, cs)]), sh, d, 'nd')
        return None

    # -- scipy.sparse
    def f_scipy__sparse__issparse(self, a, kw, S, node):
        v = a[0]
        if isinstance(v, Top):
            return None
        return K(self.isarr(v, S) and S.g(v).kind in SP)

    f_scipy__sparse__isspmatrix = f_scipy__sparse__issparse

    def _iskind(k):
        def f(self, a, kw, S, node):
            if isinstance(a[0], Top):
                return None
            return K(self.isarr(a[0], S) and S.g(a[0]).kind == k)
        return f

    f_scipy__sparse__isspmatrix_csr = _iskind('csr')
    f_scipy__sparse__isspmatrix_csc = _iskind('csc')
    f_scipy__sparse__isspmatrix_dia = _iskind('dia')

    def spctor(self, fmt, a, kw, S, node):
        d, ok = self._dt(a, kw, 2)
        v = a[0]
        if self.isarr(v, S):
            o = S.g(v)
            if len(o.shape) == 1:
                return None
            c = S.content(v)
            copy = self.argb(kw, [], 0, 'copy', False)
            dd = d or o.dtype
            if o.kind == fmt and not copy and dd == o.dtype:
                # new wrapper object sharing the data buffer
                return S.new(Arr(o.stor, o.ops, fmt, o.shape, o.dtype, o.wr))
            return self.mk(S, self.astype_content(c, o.dtype, dd), o.shape, dd, fmt)
        if isinstance(v, Tup) and len(v.items) == 3 and all(self.isarr(x, S) for x in v.items):
            # compressed storage with one element per row on the diagonal
            x, y, z = [S.g(q) for q in v.items]
            shp = kw.get('shape', a[1] if len(a) > 1 else None)
            shp = self.shapeval(shp, S) if shp is not None else None
            if shp is not None and len(shp) == 2 and fmt in ('csr', 'csc'):
                c = S.content(v.items[0])
                n = shp[0]
                if shp == (n, n) and x.shape == y.shape == (n,) and z.shape == (n + 1,) and isinstance(c, Poly) \
                        and self.isarange(y, S) and self.isarange(z, S):
                    dd = d or x.dtype
                    return self.mk(S, self.astype_content(diagmat(c), x.dtype, dd), shp, dd, fmt)
                return self.mk(S, None, shp, d or x.dtype, fmt)
        if isinstance(v, Tup) and len(v.items) == 2:
            sh = self.shapeval(v, S)
            if sh is not None:
                return self.mk(S, ZERO, sh, d or 'float64', fmt)
            x, y = v.items
            shp = kw.get('shape', a[1] if len(a) > 1 else None)
            shp = self.shapeval(shp, S) if shp is not None else None
            if fmt == 'dia' and shp is not None:
                off = self.toarr(y, S)
                q = self.toarr(x, S)
                if off is not None and isinstance(off, Ref):
                    oc = S.content(off)
                    if isinstance(oc, Stack) and len(oc.parts) == 1 and isinstance(oc.parts[0], Poly) and oc.parts[0].is_zero() and isinstance(q, Ref):
                        qc = S.content(q)
                        qa = S.g(q)
                        vec = None
                        if isinstance(qc, Stack) and len(qc.parts) == 1 and qc.axis == 0:
                            vec = qc.parts[0]
                        elif isinstance(qc, Poly) and len(qa.shape) == 1:
                            vec = qc
                        elif isinstance(qc, Poly) and len(qa.shape) == 2 and qa.shape[0] == 1:
                            vec = qc.T()
                        if isinstance(vec, Poly):
                            return self.mk(S, diagmat(vec), shp, d or qa.dtype, 'dia')
                return self.mk(S, None, shp, d or 'complex128', 'dia')
            # (data,(row,col))
            if isinstance(y, Tup) and len(y.items) == 2 and shp is not None:
                c = None
                w = self.coo_term(x, y.items[0], y.items[1], S)
                dd = self.dtof(x, S)
                return self.mk(S, w, shp, d or dd or 'complex128', fmt)
            if shp is not None:
                return self.mk(S, None, shp, d or 'complex128', fmt)
        return None

    def isarange(self, ob, S):
        c = S.g(ob.stor).content
        return c == Poly.fn('arange') and all(o[0] == "sl" and o[2] == 0 for o in ob.ops)

    def coo_term(self, me, row, col, S):
        """matrix assembled from (matrix elements, rows, columns) triples produced by a modelled basis"""
        if not (self.isarr(me, S) and self.isarr(row, S) and self.isarr(col, S)):
            return None
        m, r, c = S.content(me), S.content(row), S.content(col)
        if isinstance(m, Poly) and m.is_zero():
            return ZERO
        if not all(isinstance(x, Poly) for x in (m, r, c)):
            return None
        # vectors named ME(X), ROW(X), COL(X)
        def tag(p):
            if len(p.d) != 1:
                return None
            (s, w), cc = next(iter(p.d.items()))
            if len(w) == 1 and w[0][0] == 'm' and w[0][1].split(':')[0] in ('ME', 'ROW', 'COL') and cc == 1 and not s:
                return w[0][1].split(':', 1)
            return None
        tr, tc = tag(r), tag(c)
        if tr is None or tc is None or tr[1] != tc[1]:
            return None
        out = ZERO
        for (s, w), cc in m.d.items():
            if len(w) != 1 or w[0][0] != 'm' or not w[0][1].startswith('ME:') or w[0][1][3:] != tr[1]:
                return None
            C = w[0][3]
            if tr[1].startswith('diag '):
                t = Poly.fn('diag', Poly.sym(tr[1], C=C))
            elif (tr[0], tc[0]) == ('ROW', 'COL'):
                t = Poly.sym(tr[1], C=C)
            elif (tr[0], tc[0]) == ('COL', 'ROW'):
                t = Poly.sym(tr[1], T=True, C=C)
            else:
                return None
            out = out + t * Poly({(s, ()): cc})
        return out

    def f_scipy__sparse__csr_matrix(self, a, kw, S, node):
        return self.spctor('csr', a, kw, S, node)

    def f_scipy__sparse__csc_matrix(self, a, kw, S, node):
        return self.spctor('csc', a, kw, S, node)

    def f_scipy__sparse__dia_matrix(self, a, kw, S, node):
        return self.spctor('dia', a, kw, S, node)

    def f_scipy__sparse__coo_matrix(self, a, kw, S, node):
        return self.spctor('coo', a, kw, S, node)

    def f_scipy__sparse__hstack(self, a, kw, S, node):
        return self.spstack(1, a, kw, S, node)

    def f_scipy__sparse__vstack(self, a, kw, S, node):
        return self.spstack(0, a, kw, S, node)

    def spstack(self, ax, a, kw, S, node):
        it = self.I.seq(a[0], S)
        if not it or not all(self.isarr(x, S) and len(S.g(x).shape) == 2 for x in it):
            return None
        os_ = [S.g(x) for x in it]
        if all(o.kind not in SP for o in os_):
            return self.I.exc('ValueError', 'blocks must be 2-D', node, S, True)
        fmt = kw.get('format', a[1] if len(a) > 1 else NONE)
        if not isinstance(fmt, K):
            return None
        kind = fmt.v or (os_[0].kind if all(o.kind == os_[0].kind for o in os_) and os_[0].kind in ('csr', 'csc') else 'coo')
        if any(o.shape[1 - ax] != os_[0].shape[1 - ax] for o in os_):
            return self.I.exc('ValueError', 'blocks have incompatible dimensions', node, S)
        cs = [S.content(x) for x in it]
        sh = tuple(sum(o.shape[ax] for o in os_) if i == ax else os_[0].shape[i] for i in (0, 1))
        if any(c is None for c in cs):
            c = None
        elif all(o.shape[ax] == 1 for o in os_):
            c = Stack(ax, [x.parts[0] if isinstance(x, Stack) and x.axis == ax and len(x.parts) == 1 else x for x in cs])
        else:
            c = Concat(ax, [(o.shape[ax], c) for o, c in zip(os_, cs)])
        return self.mk(S, c, sh, rt(*[o.dtype for o in os_]), kind)

    # -- matrix functions
    def libeig(self, name, a, kw, S, node, vecs):
        M = a[0] if a else kw.get('a')
        if isinstance(M, Ref) and isinstance(S.g(M), Inst) and S.g(M).ci.name in ('hamiltonian', 'quantum_operator', 'quantum_LinearOperator'):
            return None
        if not self.isarr(M, S):
            return None
        c = S.content(M)
        o = S.g(M)
        extra = tuple(sorted((k, v.key()) for k, v in kw.items() if k not in ('overwrite_a', 'check_finite', 'turbo')))
        ow = kw.get('overwrite_a')
        if isinstance(ow, K) and ow.v and o.kind not in SP:
            S.setcontent(M, Poly.sym('overwritten%d' % next(ids2)), self.I.loc(node, S))
        dr = 'float64' if o.dtype in ('float64', 'complex128') else 'float32'
        n = o.shape[0]
        if not isinstance(c, Poly):
            E = V_ = None
        else:
            E, V_ = Poly.fn(name + '.val', c, extra), Poly.fn(name + '.vec', c, extra)
        e = self.mk(S, E, (n,), dr, 'nd')
        if not vecs:
            return e
        return Tup([e, self.mk(S, V_, (n, n), o.dtype, 'nd')])

    def f_scipy__linalg__eigh(self, a, kw, S, node):
        eo = kw.get('eigvals_only')
        return self.libeig('eigh', a, kw, S, node, not (isinstance(eo, K) and eo.v))

    def f_scipy__linalg__eigvalsh(self, a, kw, S, node):
        return self.libeig('eigh', a, kw, S, node, False)

    f_numpy__linalg__eigh = f_scipy__linalg__eigh
    f_numpy__linalg__eigvalsh = f_scipy__linalg__eigvalsh

    def f_scipy__sparse__linalg__eigsh(self, a, kw, S, node):
        rv = kw.get('return_eigenvectors')
        M = a[0] if a else kw.get('A')
        if self.isarr(M, S):
            return self.libeig('eigsh', a, kw, S, node, not (isinstance(rv, K) and not rv.v))
        return None

    def f_scipy__sparse__linalg__LinearOperator(self, a, kw, S, node):
        names = ['shape', 'matvec', 'rmatvec', 'matmat', 'dtype', 'rmatmat']
        d = dict(zip(names, a))
        d.update(kw)
        return S.new(Opaque('linop', d))

    def linop(self, o, name, args, kw, S, node):
        I = self.I
        f = S.g(o).f
        x = args[0] if args else None

        def post(it):
            for S1, r in it:
                if isinstance(r, Exc) or not self.isarr(r, S1):
                    yield S1, r if isinstance(r, Exc) else I.top('linop result')
                else:
                    yield S1, r
        if name in ('matvec', 'dot', 'matmat', '_matvec', '_matmat', '__mul__', '__matmul__', '__call__', 'rmatvec', 'rmatmat'):
            if not self.isarr(x, S) or S.g(x).kind in SP:
                yield S, I.top('linop operand')
                return
            nd = len(S.g(x).shape)
            adj = name in ('rmatvec', 'rmatmat')
            fn = f.get('rmatvec' if adj else 'matvec')
            if nd == 2 and S.g(x).shape[1] != 1 and not adj:
                fn = f.get('matmat')
                if fn is None or fn is NONE:
                    yield S, I.top('linop columnwise')
                    return
            if fn is None or fn is NONE:
                yield S, I.exc('NotImplementedError', 'rmatvec is not defined', node, S)
                return
            for r in post(I.call(fn, [x], {}, S, node)):
                yield r
            return
        yield S, I.top('linop.' + name)

    def f_scipy__linalg__expm(self, a, kw, S, node):
        if self.isarr(a[0], S):
            o = S.g(a[0])
            c = S.content(a[0])
            if o.kind in SP:
                return self.I.exc('ValueError', 'scipy.linalg.expm of a sparse matrix', node, S, True)
            return self.mk(S, expmat(c), o.shape, o.dtype, 'nd')
        return None

    def f_scipy__sparse__linalg__expm(self, a, kw, S, node):
        if self.isarr(a[0], S):
            o = S.g(a[0])
            return self.mk(S, expmat(S.content(a[0])), o.shape, o.dtype, 'csc' if o.kind in SP else 'nd')
        return None

    def f_scipy__sparse__linalg__expm_multiply(self, a, kw, S, node):
        M, B = a[0], a[1]
        if len(a) > 2 or kw:
            return self.expm_grid(a, kw, S, node)
        if self.isarr(M, S) and self.isarr(B, S):
            m, b = S.g(M), S.g(B)
            if m.kind == 'mat' or m.kind not in SP and b.kind in SP:
                return self.I.exc('ValueError', 'expm_multiply of a %s and a %s' % (m.kind, b.kind), node, S, True)
            e = expmat(S.content(M))
            c = cmatmul(e, S.content(B), 2, len(b.shape))
            return self.mk(S, c, b.shape, rt(m.dtype, b.dtype), b.kind if b.kind in SP else 'nd')
        return None

    def expm_grid(self, a, kw, S, node):
        names = ['A', 'B', 'start', 'stop', 'num', 'endpoint', 'traceA']
        d = dict(kw)
        d.update(zip(names, a))
        M, B = d.pop('A', None), d.pop('B', None)
        if set(d) - set(names):
            return None
        d.pop('traceA', None)
        d = {k: v for k, v in d.items() if not (isinstance(v, K) and v.v is None)}
        if not self.isarr(M, S) or not self.isarr(B, S):
            return None
        if not d:
            return self.f_scipy__sparse__linalg__expm_multiply([M, B], {}, S, node)
        g = self.f_numpy__linspace([], d, S, node)
        if not (isinstance(g, Ref) and isinstance(S.g(g), Arr)):
            return g
        c, m, b = S.content(g), S.g(M), S.g(B)
        X, Y = S.content(M), S.content(B)
        if b.kind in SP or not isinstance(c, Stack) or not isinstance(X, Poly):
            return None
        parts = [cmatmul(expmat(X * p), Y, 2, len(b.shape)) for p in c.parts]
        return self.mk(S, Stack(0, parts) if all(p is not None for p in parts) else None, (len(parts),) + b.shape, rt(m.dtype, b.dtype, S.g(g).dtype), 'nd')

    # -- QuSpin native matvec entry points (quspin/tools/matvec/_oputils: compiled)
    def f_quspin__tools__matvec___oputils___get_matvec_function(self, a, kw, S, node):
        v = a[0]
        if self.isarr(v, S):
            k = S.g(v).kind
            return Ext('quspin.native.matvec_%s' % (k if k in ('csr', 'csc', 'dia') else 'other'))
        return None

    def f_quspin__tools__matvec___oputils___matvec(self, a, kw, S, node):
        v = a[0]
        k = S.g(v).kind if self.isarr(v, S) else None
        if k is None:
            return None
        return self.native_matvec(k if k in ('csr', 'csc', 'dia') else 'other', a, kw, S, node)

    def f_quspin__native__matvec_csr(self, a, kw, S, node):
        return self.native_matvec('csr', a, kw, S, node)

    def f_quspin__native__matvec_csc(self, a, kw, S, node):
        return self.native_matvec('csc', a, kw, S, node)

    def f_quspin__native__matvec_dia(self, a, kw, S, node):
        return self.native_matvec('dia', a, kw, S, node)

    def f_quspin__native__matvec_other(self, a, kw, S, node):
        return self.native_matvec('other', a, kw, S, node)

    def native_matvec(self, k, a, kw, S, node):
        I = self.I
        names = ['mat', 'other', 'overwrite_out', 'out', 'a']
        d = dict(zip(names, a))
        for x, y in kw.items():
            if x not in names[2:]:
                return I.exc('TypeError', 'matvec got unexpected keyword %s' % x, node, S, True)
            if x in d:
                return I.exc('TypeError', 'multiple values for %s' % x, node, S, True)
            d[x] = y
        if 'other' not in d:
            return I.exc('TypeError', 'matvec missing operand', node, S, True)
        M, x = d['mat'], d['other']
        if not (self.isarr(M, S) and self.isarr(x, S)):
            return None
        m, v = S.g(M), S.g(x)
        if v.kind in SP:
            return None
        ow = d.get('overwrite_out', FALSE)
        out = d.get('out', NONE)
        p = self.spoly(d.get('a', K(1.0)))
        if not isinstance(ow, K):
            return None
        c = S.content(M)
        if k != 'other' and m.kind != k:
            if m.kind in ('nd', 'mat'):
                return I.exc('AttributeError', '%s kernel applied to a dense matrix' % k, node, S, True)
            if {k, m.kind} == {'csr', 'csc'}:
                # the compressed arrays are read with rows and columns exchanged
                c = ctranspose(c, 2)
            else:
                return I.exc('AttributeError', '%s kernel applied to a %s matrix' % (k, m.kind), node, S, True)
        if m.shape[1] != v.shape[0]:
            return I.exc('ValueError', 'matvec dimension mismatch %s %s' % (m.shape, v.shape), node, S)
        if k == 'other' and m.kind == 'mat' and len(v.shape) == 1:
            # numpy.matrix.dot(vector) is a (1,N) matrix: it cannot be written to the (N,) output
            return I.exc('ValueError', 'non-broadcastable output: numpy.matrix times a vector', node, S, True)
        else:
            res = cmatmul(c, S.content(x), 2, len(v.shape))
        if p is None:
            res = None
        else:
            if k != 'other' and isreal(m.dtype) and not p.is_real() and iscomplex(self.dtof(d.get('a', K(1.0)), S)):
                p = Poly.satom(('sfn', 're', (p.key(),), False))
            res = cmap(res, lambda q: q * p)
        sh = m.shape[:1] + v.shape[1:]
        if isinstance(out, K) and out.v is None:
            return self.mk(S, res, sh, rt(m.dtype, v.dtype), 'nd')
        if not self.isarr(out, S):
            return None
        o = S.g(out)
        if o.shape != sh:
            return I.exc('ValueError', 'matvec output shape %s, expected %s' % (o.shape, sh), node, S)
        if isreal(o.dtype) and iscomplex(rt(m.dtype, v.dtype)):
            return I.exc('ValueError', 'matvec output dtype', node, S)
        if o.stor == v.stor and not isinstance(res, Poly):
            res = None
        if ow.v:
            S.setcontent(out, res, I.loc(node, S))
        else:
            S.setcontent(out, cadd(S.content(out), res), I.loc(node, S))
        return out


UFUNC_NIN = {'add': 2, 'subtract': 2, 'multiply': 2, 'divide': 2, 'true_divide': 2, 'conj': 1, 'conjugate': 1, 'negative': 1,
             'sqrt': 1, 'exp': 1, 'abs': 1, 'absolute': 1, 'power': 2, 'matmul': 2, 'dot': 2, 'log': 1, 'sin': 1, 'cos': 1}
ids2 = itertools.count(1)


def prod(xs):
    n = 1
    for x in xs:
        n *= x
    return n


def None_content(sh):
    return None, sh


def lin2(x, y, f):
    """bilinear extension of an uninterpreted binary function to polynomials"""
    out = {}
    for (s1, w1), c1 in x.d.items():
        for (s2, w2), c2 in y.d.items():
            t = f(Poly({((), w1): 1}), Poly({((), w2): 1})) * Poly({(s1, ()): c1}) * Poly({(s2, ()): c2})
            for k, c in t.d.items():
                out[k] = out.get(k, 0) + c
    return Poly(out)


def blank(sh, uid):
    """content of an uninitialised array"""
    if len(sh) <= 2:
        return Poly.fn('uninitialised', uid)
    if sh[0] > 16:
        return None
    ps = [blank(sh[1:], uid + (i,)) for i in range(sh[0])]
    return None if any(p is None for p in ps) else Stack(0, ps)


def hadv(u, v):
    """elementwise product of two vector terms (commutative, associative, with reciprocals)"""
    fs = factors(u) + factors(v)
    ks = []
    for f in fs:
        r = recip(f).key()
        if r in ks:
            ks.remove(r)
        elif f != ONES:
            ks.append(f.key())
    if not ks:
        return ONES
    ks.sort(key=repr)
    if len(ks) == 1:
        return Poly.from_key(ks[0])
    return Poly({((), (('fn', 'had', tuple(ks), False, False),)): 1})


def vecnorm(p):
    """normal form of a vector expression: diag(d) applied to a vector is the elementwise product"""
    if not any(a[0] == 'fn' and a[1] == 'diag' for (s, w) in p.d for a in w[:-1]):
        return p
    out = ZERO
    for (s, w), c in p.d.items():
        v = None
        for a in reversed(w):
            x = Poly({((), (a,)): 1})
            if v is None:
                v = x
            elif a[0] == 'fn' and a[1] == 'diag':
                v = lin2(Poly.from_key(a[2][0]), v, hadv)
            else:
                v = x * v
        out = out + (v if v is not None else Poly.const(1)) * Poly({(s, ()): c})
    return out


ONES = Poly.fn('ones')


def iscol(a):
    """a word atom that is certainly a (column) vector"""
    if a[0] == 'm':
        return 'vec' in PROPS.get(a[1], ()) and not a[2]
    if a[0] == 'fn' and a[1] == 'had' and not a[3]:
        return any(w and iscol(w[-1]) for k in a[2] for (s, w) in Poly.from_key(k).d)
    return False


def colexpand(a):
    """(sorted diagonal factors, vector word) of a column atom"""
    if a[0] == 'm':
        return [], (a,)
    fs = []
    for k in a[2]:
        p = Poly.from_key(k)
        if len(p.d) != 1:
            return None
        (s, w), c = next(iter(p.d.items()))
        if s != () or c != 1:
            return None
        fs.append(w)
    fs.sort(key=lambda w: (len(w), any(iscol(x) for x in w), repr(w)))
    return fs[:-1], fs[-1]


def diagword(a):
    """the word of the vector on the diagonal of a diag atom"""
    if a[0] == 'fn' and a[1] == 'diag':
        p = Poly.from_key(a[2][0])
        if len(p.d) == 1:
            (s, w), c = next(iter(p.d.items()))
            if s == () and c == 1:
                return w
    return None


def tword(w):
    return tuple(atom_T(x) for x in reversed(w))


def trword(w):
    """normal form of the trace of a cyclic word containing an inner product: (row).M1...Mk.(column)"""
    for i in range(len(w)):
        if iscol(w[i]) and iscol(atom_T(w[(i + 1) % len(w)])):
            break
    else:
        return None
    r = w[i + 1:] + w[:i + 1] if i + 1 < len(w) else w
    row, mid, col = atom_T(r[0]), r[1:-1], r[-1]
    L, R = colexpand(row), colexpand(col)
    if L is None or R is None:
        return None
    left = L[1]
    seq = [('d', x) for x in sorted(L[0], key=repr)]
    for x in mid:
        d = diagword(x)
        seq.append(('d', d) if d is not None else ('m', x))
    seq += [('d', x) for x in R[0]]
    # split products:  row . A... with A matrices inside the vectors
    full = [('m', x) for x in tword(left)[1:]]
    lead = left[-1]
    seq = full + seq + [('m', x) for x in R[1][:-1]]
    tail = R[1][-1]
    if all(k == 'd' for k, _ in seq):
        fs = sorted([x for _, x in seq] + [(lead,), (tail,)], key=repr)
        return ('sum', tuple(fs))
    out, run = [], []
    for k, x in seq + [('m', None)]:
        if k == 'd':
            run.append(x)
            continue
        out += [('d', y) for y in sorted(run, key=repr)]
        run = []
        out.append((k, x))
    a = ((lead,), tuple(out[:-1]), (tail,))
    b = ((tail,), tuple((k, x if k == 'd' else atom_T(x)) for k, x in reversed(out[:-1])), (lead,))
    # runs of diagonal factors come out reversed in b: sort them again
    fix, run = [], []
    for k, x in list(b[1]) + [('m', None)]:
        if k == 'd':
            run.append(x)
            continue
        fix += [('d', y) for y in sorted(run, key=repr)]
        run = []
        fix.append((k, x))
    b = (b[0], tuple(fix[:-1]), b[2])
    return ('form',) + min(a, b, key=repr)


def trnorm(p):
    """normal form of inner products inside scalar factors"""
    if not any(a[0] == 'tr' for (s, w) in p.d for a, n in s):
        return p
    out = ZERO
    for (s, w), c in p.d.items():
        t = Poly({((), w): c})
        for a, n in s:
            if a[0] == 'tr':
                f = trword(a[1])
                if f is not None:
                    a = ('sfn', 'form', (f,), False)
            t = t * Poly({(((a, n),), ()): 1})
        out = out + t
    return out


def factors(u):
    if len(u.d) == 1:
        (s, w), c = next(iter(u.d.items()))
        if s == () and c == 1 and len(w) == 1 and w[0][0] == 'fn' and w[0][1] == 'had' and not w[0][3]:
            return [Poly.from_key(k) for k in w[0][2]]
    return [u]


def recip(p):
    """elementwise reciprocal of a vector"""
    if len(p.d) == 1:
        (s, w), c = next(iter(p.d.items()))
        sc = Poly({(tuple((a, -n) for a, n in s), ()): 1.0 / c})
        if len(w) == 1 and w[0][0] == 'fn' and w[0][1] == 'recip':
            return Poly.from_key(w[0][2][0]) * sc
        q = Poly({((), w): 1})
        if q == ONES:
            return ONES * sc
        fs = factors(q)
        if len(fs) > 1:
            r = recip(fs[0])
            for f in fs[1:]:
                r = lin2(r, recip(f), hadv)
            return r * sc
        return Poly.fn('recip', q) * sc
    return Poly.fn('recip', p)


def diagmat(v):
    """diagonal matrix of a vector polynomial (linear)"""
    out = {}
    for (s, w), c in v.d.items():
        q = Poly({((), w): 1})
        t = Poly({(s, ()): c})
        if q != ONES:
            for f in sorted(factors(q), key=lambda p: repr(p.key())):
                t = t * Poly.fn('diag', f)
        for k, cc in t.d.items():
            out[k] = out.get(k, 0) + cc
    return Poly(out)


def coldiag(p):
    return diagvec(p)


def vecsum(p):
    """sum of a vector's entries; the sum of a matrix diagonal is its trace"""
    out = {}
    for (s, w), c in p.d.items():
        if len(w) == 1 and w[0][0] == 'fn' and w[0][1] == 'dgv':
            t = Poly.from_key(w[0][2][0]).trace()
        elif len(w) == 1 and w[0][0] == 'fn' and w[0][1] == 'had':
            x_, y_ = [Poly.from_key(q) for q in w[0][2]]
            t = (x_.T() * y_).trace()
        else:
            t = Poly.satom(('sfn', 'sum', (Poly({((), w): 1}).key(),), False))
        for k, cc in (t * Poly({(s, ()): c})).d.items():
            out[k] = out.get(k, 0) + cc
    return Poly(out)


def expmat(c):
    if not isinstance(c, Poly):
        return None
    if c.is_zero():
        return ONE
    return Poly.fn('expm', c)


_exc_cache = []


def _EXCN():
    if not _exc_cache:
        from .interp import BUILTIN_EXC
        _exc_cache.append(BUILTIN_EXC)
    return _exc_cache[0]


_names = {}


def missing_ext(mod, name):
    """True when the pinned library version has no such public attribute (table frozen from the installed packages)"""
    if not _names:
        import json
        import os
        p = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'extnames.json')
        if os.path.exists(p):
            _names.update({k: set(v) for k, v in json.load(open(p)).items()})
        else:
            _names['_'] = set()
    t = _names.get(mod)
    return t is not None and name not in t and not name.startswith('__')
