"""Cython sources: abstract interpreter over dom.py on the tree of Cython's own parser.  Nothing is compiled or run."""
import math
from .dom import *
from .cpp import Brk, Cnt, Ret, merge
from ..pyx import tname

INT = {'int': (True, 32), 'long': (True, 64), 'npy_intp': (True, 64), 'npy_uintp': (False, 64), 'Py_ssize_t': (True, 64), 'char': (True, 8), 'short': (True, 16), 'size_t': (False, 64),
       'NP_INT64_t': (True, 64), 'NP_INT32_t': (True, 32), 'NP_INT16_t': (True, 16), 'NP_INT8_t': (True, 8),
       'NP_UINT64_t': (False, 64), 'NP_UINT32_t': (False, 32), 'NP_UINT16_t': (False, 16), 'NP_UINT8_t': (False, 8)}
FLT = {'float': 'f', 'double': 'f', 'NP_FLOAT32_t': 'f', 'NP_FLOAT64_t': 'f'}


class Raised(Undecided):
    pass


class View(object):
    """memoryview, array or pointer: shared cells from an offset on"""
    __slots__ = ('a', 'i', 'ty')

    def __init__(self, a, ty, i=0):
        self.a, self.ty, self.i = a, ty, i


class Cell(object):
    __slots__ = ('v', 'ty')

    def __init__(self, v, ty):
        self.v, self.ty = v, ty


class NotFound(Exception):
    pass


class Index(object):
    """functions of one extension module (includes inlined)"""

    def __init__(self, p):
        self.p, self.f, self.ext = p, {}, {}
        b = p.tree.body if hasattr(p.tree, 'body') else p.tree
        self.scan(b)

    def scan(self, n):
        t = tname(n)
        if t == 'StatListNode':
            for s in n.stats:
                self.scan(s)
        elif t in ('CompilerDirectivesNode', 'CDefExternNode'):
            self.scan(n.body)
        elif t == 'DefNode':
            self.f[n.name] = n
        elif t == 'CFuncDefNode':
            self.f[cname(n.declarator)] = n
        elif t == 'CVarDefNode':
            for d in n.declarators:
                if tname(d) == 'CFuncDeclaratorNode':
                    self.ext[cname(d)] = n


_IX = {}


def index(p):
    if p.path not in _IX:
        _IX[p.path] = Index(p)
    return _IX[p.path]


def cname(d):
    while d is not None and not getattr(d, 'name', None):
        d = getattr(d, 'base', None)
    return d.name if d is not None else None


def funcargs(n):
    if tname(n) == 'DefNode':
        return n.args
    d = n.declarator
    while not hasattr(d, 'args'):
        d = d.base
    return d.args


UNSET = object()


class Mach(object):
    """fused: name of fused type -> concrete type name"""

    def __init__(self, ix, path, fused, limit=400000):
        self.ix, self.P, self.O, self.fused, self.limit, self.steps = ix, path, Ops(path), fused, limit, 0
        self.env, self.intr, self.seen, self.depth = {}, {}, set(), 0

    # ------------------------------------------------------------ types
    def tyname(self, name):
        name = self.fused.get(name, name)
        if name in INT:
            return INT[name]
        if name in FLT:
            return 'f'
        if name in ('object', 'str', 'bytes', 'list', 'tuple', 'dict'):
            return 'py'
        if name in ('bool', 'bint'):
            return 'b'
        if 'complex' in name:
            return 'c'
        return 'py'

    def base(self, b):
        """type of a base type node: ('view', ty) for memoryviews"""
        t = tname(b)
        if t == 'CSimpleBaseTypeNode':
            if b.name is None:
                return 'py'
            n = b.name
            if getattr(b, 'signed', 1) == 0 and n in ('int', 'char', 'long', 'short'):
                return (False, INT[n][1]) if not (n == 'long' and b.longness) else (False, 64)
            if n == 'int' and b.longness:
                return (b.signed != 0, 64)
            if b.complex:
                return 'c'
            if n == 'scalar_type':
                n = self.fused.get(n, 'double complex')
            return self.tyname(n)
        if t == 'MemoryViewSliceTypeNode':
            return ('view', self.base(b.base_type_node))
        if t == 'CComplexBaseTypeNode':
            return self.declared(self.base(b.base_type), b.declarator)
        if t == 'CConstTypeNode' or t == 'CConstOrVolatileTypeNode':
            return self.base(b.base_type)
        if t == 'TemplatedTypeNode':
            return 'py'
        raise Undecided('type %s' % t)

    def declared(self, y, d):
        t = tname(d)
        if t == 'CPtrDeclaratorNode':
            return ('view', self.declared(y, d.base))
        if t == 'CArrayDeclaratorNode':
            n = None
            if d.dimension is not None:
                n = self.ev(d.dimension)[0]
            return ('array', self.declared(y, d.base), n)
        return y

    def conv(self, v, y):
        """convert value v to declared type y"""
        if isinstance(v, View) or callable(v) or v is None or isinstance(v, (str, bytes, bytearray, dict, tuple)):
            return v
        if isinstance(y, tuple) and y[0] in (True, False):
            if isinstance(v, frozenset):
                v = Bits([v])
            v = self.O.num(v)
            if isinstance(v, (float, complex)):
                if isinstance(v, complex) or v != int(v):
                    raise Undecided('fraction to integer')
                v = int(v)
            return self.O.P.norm(self.O.wrap(v, y))
        if y == 'b':
            if isinstance(v, (bool, frozenset)):
                return v
            p = self.O.poly(v)
            return p if p is not None and p not in (ZERO, ONE) else self.O.truth(v)
        if y in ('f', 'c'):
            if isinstance(v, frozenset):
                c, t = addatom(0, {}, v, 1)
                return self.P.norm(Lin(c, t))
            if isinstance(v, bool):
                return int(v)
        return v

    def up(self, v):
        return Bits([v]) if isinstance(v, frozenset) else v

    def common(self, a, b):
        for t in ('c', 'f', 'py'):
            if a == t or b == t:
                return t
        ia, ib = self.promote(a), self.promote(b)
        if ia[0] == ib[0]:
            return (ia[0], max(ia[1], ib[1]))
        u, s = (ia, ib) if not ia[0] else (ib, ia)
        if u[1] >= s[1]:
            return u
        return s

    def promote(self, t):
        if t == 'b' or not isinstance(t, tuple) or t[0] not in (True, False):
            return (True, 32)
        return (True, 32) if t[1] < 32 else t

    # ------------------------------------------------------------ calls
    def call(self, name, args, kw=None):
        f = self.ix.f.get(name)
        if f is None:
            raise NotFound(name)
        self.seen.add(name)
        self.depth += 1
        if self.depth > 40:
            raise Undecided('recursion')
        old, self.env = self.env, {}
        try:
            ps = funcargs(f)
            kw = dict(kw or {})
            for i, a in enumerate(ps):
                nm = cname(a.declarator)
                if not nm:                     # untyped argument: the name sits in the base type
                    nm, y = a.base_type.name, 'py'
                else:
                    y = self.declared(self.base(a.base_type), a.declarator)
                if i < len(args):
                    v = args[i]
                elif nm in kw:
                    v = kw.pop(nm)
                elif a.default is not None:
                    v = self.ev(a.default)[0]
                else:
                    raise Undecided('argument %s' % nm)
                self.env[nm] = Cell(self.conv(v, y), y)
            ss = getattr(f, 'starstar_arg', None)
            if ss is not None:
                self.env[ss.name] = Cell(kw, 'py')
            rt = 'py'
            if tname(f) == 'CFuncDefNode':
                rt = self.declared(self.base(f.base_type), f.declarator.base if tname(f.declarator) == 'CFuncDeclaratorNode' else f.declarator)
            try:
                self.stmt(f.body)
            except Ret as r:
                return self.conv(r.v, rt), rt
            return None, rt
        finally:
            self.env = old
            self.depth -= 1

    # ------------------------------------------------------------ statements
    def stmt(self, n):
        self.steps += 1
        if self.steps > self.limit:
            raise Undecided('too many steps')
        f = getattr(self, 's_' + tname(n), None)
        if f is None:
            raise Undecided('statement %s' % tname(n))
        f(n)

    def s_StatListNode(self, n):
        for s in n.stats:
            self.stmt(s)

    def s_PassStatNode(self, n):
        pass

    def s_CVarDefNode(self, n):
        b = self.base(n.base_type)
        for d in n.declarators:
            y = self.declared(b, d)
            nm = cname(d)
            df = d
            while getattr(df, 'default', None) is None and hasattr(df, 'base'):
                df = df.base
            dv = getattr(df, 'default', None)
            if isinstance(y, tuple) and y[0] == 'array':
                self.env[nm] = Cell(View([UNSET] * (y[2] if isint(y[2]) else 64), y[1]), y)
            elif dv is not None:
                self.env[nm] = Cell(self.conv(self.ev(dv)[0], y), y)
            else:
                self.env[nm] = Cell(UNSET, y)

    def s_ExprStatNode(self, n):
        self.ev(n.expr)

    def s_SingleAssignmentNode(self, n):
        self.assign(n.lhs, self.ev(n.rhs))

    def s_CascadedAssignmentNode(self, n):
        v = self.ev(n.rhs)
        for l in n.lhs_list:
            self.assign(l, v)

    def assign(self, l, vt):
        v, t = vt
        k = tname(l)
        if k == 'NameNode':
            c = self.env.get(l.name)
            if c is None:
                self.env[l.name] = Cell(v, t)
            else:
                c.v = self.conv(v, c.ty)
            return
        if k == 'IndexNode':
            b = self.ev(l.base)[0]
            i = self.idx(l.index)
            if isinstance(b, View):
                self.store(b, i, self.conv(v, b.ty))
                return
        if k in ('TupleNode', 'ListNode') and isinstance(v, (tuple, list)) and len(v) == len(l.args):
            for x, y in zip(l.args, v):
                self.assign(x, (y, 'py'))
            return
        if k == 'SliceIndexNode':
            b = self.ev(l.base)[0]
            if isinstance(b, View) and l.start is not None and l.stop is not None:
                x = self.conv(v, b.ty)
                for i in range(self.idx(l.start), self.idx(l.stop)):
                    self.store(b, i, x)
                return
        raise Undecided('assignment to %s' % k)

    def s_ParallelAssignmentNode(self, n):
        vs = [(s.lhs, self.ev(s.rhs)) for s in n.stats]
        for l, v in vs:
            self.assign(l, v)

    def store(self, b, i, v):
        if not 0 <= b.i + i < len(b.a):
            raise Fault('store at index %d of an array of %d' % (b.i + i, len(b.a)))
        b.a[b.i + i] = v

    def load(self, b, i):
        if not 0 <= b.i + i < len(b.a):
            raise Fault('index %d of an array of %d' % (b.i + i, len(b.a)))
        v = b.a[b.i + i]
        if v is UNSET:
            raise Undecided('uninitialised element')
        return v

    def idx(self, e):
        i = self.O.num(self.up(self.ev(e)[0]))
        if not isint(i):
            i = self.O.concretize(i)
        return i

    def s_InPlaceAssignmentNode(self, n):
        v, t = self.ev(n.rhs)
        x, y = self.ev(n.lhs)
        r = self.binop(n.operator, x, y, v, t)
        self.assign(n.lhs, r)

    def s_IfStatNode(self, n):
        for c in n.if_clauses:
            if self.O.truth(self.up(self.ev(c.condition)[0])):
                self.stmt(c.body)
                return
        if n.else_clause is not None:
            self.stmt(n.else_clause)

    def s_WhileStatNode(self, n):
        while self.O.truth(self.up(self.ev(n.condition)[0])):
            self.steps += 1
            if self.steps > self.limit:
                raise Undecided('too many steps')
            try:
                self.stmt(n.body)
            except Brk:
                return
            except Cnt:
                pass

    def s_ForInStatNode(self, n):
        s = n.iterator.sequence
        if not (tname(s) == 'SimpleCallNode' and tname(s.function) == 'NameNode' and s.function.name in ('range', 'xrange')):
            q = self.ev(s)[0]
            if not isinstance(q, (list, tuple)):
                raise Undecided('loop')
            for v in q:
                self.assign(n.target, (v, 'py'))
                try:
                    self.stmt(n.body)
                except Brk:
                    return
                except Cnt:
                    pass
            return
        a = [self.idx(x) for x in s.args]
        for i in range(*a):
            self.assign(n.target, (i, (True, 64)))
            try:
                self.stmt(n.body)
            except Brk:
                return
            except Cnt:
                pass

    def s_ReturnStatNode(self, n):
        raise Ret(self.ev(n.value)[0] if n.value is not None else None)

    def s_RaiseStatNode(self, n):
        raise Raised('exception raised')

    def s_BreakStatNode(self, n):
        raise Brk()

    def s_ContinueStatNode(self, n):
        raise Cnt()

    # ------------------------------------------------------------ expressions
    def ev(self, n):
        self.steps += 1
        if self.steps > self.limit:
            raise Undecided('too many steps')
        f = getattr(self, 'e_' + tname(n), None)
        if f is None:
            raise Undecided('expression %s' % tname(n))
        return f(n)

    def e_IntNode(self, n):
        v = int(n.value.rstrip('uUlL'), 0)
        return v, (True, 32) if v < 1 << 31 else (True, 64)

    def e_FloatNode(self, n):
        return float(n.value), 'f'

    def e_ImagNode(self, n):
        return complex(0, float(n.value)), 'c'

    def e_BoolNode(self, n):
        return bool(n.value), 'b'

    def e_NoneNode(self, n):
        return None, 'py'

    def e_StringNode(self, n):
        s = str(n.value)
        return (ord(s), (True, 8)) if len(s) == 1 else (s, 'py')

    e_UnicodeNode = e_BytesNode = e_CharNode = e_StringNode

    def e_NameNode(self, n):
        c = self.env.get(n.name)
        if c is not None:
            if c.v is UNSET:
                raise Undecided('uninitialised %s' % n.name)
            return c.v, c.ty
        if n.name in self.intr:
            return Fn(n.name, lambda m, a, h=self.intr[n.name]: h(m, a)), 'py'
        if n.name in self.ix.f:
            return Fn(n.name), 'py'
        if n.name in ('True', 'False'):
            return n.name == 'True', 'b'
        if n.name in self.fused or n.name in INT or n.name in FLT or n.name in ('object',):
            return TypeRef(self.fused.get(n.name, n.name)), 'py'
        raise Undecided('name %s' % n.name)

    def e_AttributeNode(self, n):
        if tname(n.obj) == 'NameNode' and n.obj.name in ('_np', 'np', 'math') and n.obj.name not in self.env:
            if n.attribute == 'pi':
                return math.pi, 'f'
            if n.attribute == 'nan':
                return float('nan'), 'f'
        v, t = self.ev(n.obj)
        if n.attribute in ('real', 'imag'):
            v = self.O.num(v)
            if isinstance(v, Ph) and isinstance(v.c, (int, float, complex)):
                x = getattr(complex(v.c), n.attribute)
                return (Ph(x, v.p) if x else 0.0), 'f'
            if isinstance(v, (int, float, complex)):
                return getattr(complex(v), n.attribute), 'f'
            if isinstance(v, (Lin, Bits)):
                return (v if n.attribute == 'real' else 0.0), 'f'
        if n.attribute == 'shape' and isinstance(v, View):
            return View([len(v.a) - v.i], (True, 64)), 'py'
        raise Undecided('attribute %s' % n.attribute)

    def e_IndexNode(self, n):
        b = self.ev(n.base)[0]
        if isinstance(b, Fn):                  # specialisation of a fused function
            return b, 'py'
        if isinstance(b, dict):
            k = n.index
            key = str(getattr(k, 'value', None))
            if key in b:
                return b[key], 'py'
            raise Undecided('key %s' % key)
        if isinstance(b, View):
            return self.load(b, self.idx(n.index)), b.ty
        raise Undecided('subscript')

    def e_SliceIndexNode(self, n):
        b = self.ev(n.base)[0]
        if isinstance(b, View) and n.stop is None:
            return View(b.a, b.ty, b.i + (self.idx(n.start) if n.start is not None else 0)), 'py'
        raise Undecided('slice')

    def e_AmpersandNode(self, n):
        o = n.operand
        if tname(o) == 'IndexNode':
            b = self.ev(o.base)[0]
            if isinstance(b, View):
                return View(b.a, b.ty, b.i + self.idx(o.index)), 'py'
        if tname(o) == 'NameNode' and o.name in self.env:
            return View(CellList(self.env[o.name]), self.env[o.name].ty), 'py'
        raise Undecided('address')

    def e_TypecastNode(self, n):
        y = self.declared(self.base(n.base_type), n.declarator)
        v, t = self.ev(n.operand)
        return self.conv(v, y), y

    def e_UnaryMinusNode(self, n):
        v, t = self.ev(n.operand)
        t = self.promote(t) if isinstance(t, tuple) or t == 'b' else t
        return self.O.neg(self.up(v), t), t

    def e_UnaryPlusNode(self, n):
        return self.ev(n.operand)

    def e_TildeNode(self, n):
        v, t = self.ev(n.operand)
        t = self.promote(t) if t != 'py' else t
        return self.O.inv(self.up(v), t), t

    def e_NotNode(self, n):
        v = self.conv(self.ev(n.operand)[0], 'b')
        return (v ^ ONE if isinstance(v, frozenset) else not v), 'b'

    def e_CondExprNode(self, n):
        c = self.conv(self.ev(n.test)[0], 'b')
        if isinstance(c, frozenset):
            c = self.P.red(c)
        if c is True or c == ONE:
            v, t = self.ev(n.true_val)
            u = self.static(n.false_val)
            return v, self.both(t, u)
        if c is False or c == ZERO:
            v, t = self.ev(n.false_val)
            return v, self.both(t, self.static(n.true_val))
        try:
            k = len(self.P.taken)
            x, y = self.ev(n.true_val), self.ev(n.false_val)
            if len(self.P.taken) == k:
                r = merge(self.O, c, self.O.num(x[0]), self.O.num(y[0]))
                if r is not None:
                    return r, self.both(x[1], y[1])
                return self.sel(c, x[0], y[0]), self.both(x[1], y[1])
        except Fault:
            pass
        b = self.O.truth(c)
        x = self.ev(n.true_val if b else n.false_val)
        return x

    def sel(self, c, x, y):
        return x if self.O.truth(c) else y

    def both(self, t, u):
        if u is None or t == u:
            return t
        if isinstance(t, str) and t == 'py' or u == 'py':
            return 'py'
        if isinstance(t, tuple) and t[0] in ('view', 'array'):
            return t
        return self.common(t, u)

    def static(self, n):
        """type of an expression that is not evaluated (constants and names only)"""
        t = tname(n)
        try:
            if t in ('IntNode', 'FloatNode', 'ImagNode', 'BoolNode'):
                return self.ev(n)[1]
            if t == 'NameNode' and n.name in self.env:
                return self.env[n.name].ty
            if t == 'UnaryMinusNode':
                return self.static(n.operand)
            if hasattr(n, 'operand1') and t.endswith('Node') and t != 'PrimaryCmpNode':
                a, b = self.static(n.operand1), self.static(n.operand2)
                return self.common(a, b) if a is not None and b is not None else None
        except Undecided:
            pass
        return None

    def e_BoolBinopNode(self, n):
        x, t = self.ev(n.operand1)
        b = self.conv(x, 'b')
        if isinstance(b, frozenset):
            b = self.P.red(b)
            if b not in (ZERO, ONE):
                k = len(self.P.taken)
                try:
                    y = self.conv(self.ev(n.operand2)[0], 'b')
                    if len(self.P.taken) == k:
                        y = y if isinstance(y, frozenset) else ONE if y else ZERO
                        return (pmul(b, y) if n.operator == 'and' else b ^ y ^ pmul(b, y)), 'b'
                except Fault:
                    pass
                b = self.O.truth(b)
                if b == (n.operator == 'or'):
                    return b, 'b'
                return self.conv(self.ev(n.operand2)[0], 'b'), 'b'
            b = b == ONE
        if b == (n.operator == 'or'):
            return x, t
        return self.ev(n.operand2)

    def e_PrimaryCmpNode(self, n):
        if n.cascade is not None:
            raise Undecided('chained comparison')
        x, t = self.ev(n.operand1)
        op = n.operator
        if op in ('is', 'is_not'):
            y, u = self.ev(n.operand2)
            same = x.name == y.name if isinstance(x, TypeRef) and isinstance(y, TypeRef) else x is y
            return same == (op == 'is'), 'b'
        y, u = self.ev(n.operand2)
        if op not in ('==', '!=', '<', '<=', '>', '>='):
            raise Undecided('comparison %s' % op)
        x, y = self.up(x), self.up(y)
        c = self.common(t, u)
        if isinstance(c, tuple):
            x, y = self.conv(x, c), self.conv(y, c)
        return self.O.cmp(op, x, y), 'b'

    def e_NumBinopNode(self, n):
        x, t = self.ev(n.operand1)
        y, u = self.ev(n.operand2)
        return self.binop(n.operator, x, t, y, u)

    e_AddNode = e_SubNode = e_MulNode = e_DivNode = e_ModNode = e_IntBinopNode = e_BitwiseOrNode = e_PowNode = e_NumBinopNode

    def binop(self, op, x, t, y, u):
        x, y = self.up(x), self.up(y)
        if isinstance(x, View) or isinstance(y, View):
            if op == '+' and isinstance(x, View) and isint(y):
                return View(x.a, x.ty, x.i + y), 'py'
            raise Undecided('pointer arithmetic')
        if op in ('<<', '>>'):
            r = 'py' if t == 'py' or u == 'py' else self.promote(t)
            return self.O.bin(op, x, y, None if r == 'py' else r), r
        c = self.common(t, u)
        if isinstance(c, tuple):
            x, y = self.conv(x, c), self.conv(y, c)
        if op == '**':
            x, y = self.O.num(x), self.O.num(y)
            if isinstance(x, (int, float, complex)) and isinstance(y, (int, float, complex)):
                return x ** y, (c if isinstance(c, str) else 'f' if y < 0 else c)
            if x == -1 and isinstance(y, (Lin, Bits)):
                return Ph(1, parity(tolin(y))), c
            raise Undecided('power')
        if op == '//' and c in ('f', 'c'):
            raise Undecided('floor of floats')
        if op == '/' and c == 'py':
            raise Undecided('python division')
        return self.O.bin('//' if op == '/' and isinstance(c, tuple) else op, x, y, c if isinstance(c, tuple) else 'py' if c == 'py' else 'f'), c

    def e_GeneratorExpressionNode(self, n):
        old, env = getattr(self, 'yields', None), self.env
        self.yields, self.env = [], dict(env)
        try:
            self.env.pop(getattr(n.loop.target, 'name', None), None)
            self.stmt(n.loop)
            return self.yields, 'py'
        finally:
            self.yields, self.env = old, env

    def e_YieldExprNode(self, n):
        if self.yields is None:
            raise Undecided('yield')
        self.yields.append(self.ev(n.arg)[0])
        return None, 'py'

    # ------------------------------------------------------------ library
    def e_SimpleCallNode(self, n):
        if n.args is None:
            raise Undecided('call')
        f = n.function
        k = tname(f)
        if k == 'NameNode' and f.name not in self.env:
            nm = f.name
            if nm in self.intr:
                r = self.intr[nm](self, [self.ev(a)[0] for a in n.args])
                if r is not NotImplemented:
                    return r
            if nm in self.ix.f:
                return self.call(nm, [self.ev(a)[0] for a in n.args])
            a = [self.ev(x) for x in n.args]
            return self.lib(nm, a)
        if k == 'NameNode':
            v = self.env[f.name].v
            if isinstance(v, Fn):
                if v.py is not None:
                    return v.py(self, [self.ev(a)[0] for a in n.args])
                return self.call(v.name, [self.ev(a)[0] for a in n.args])
        if k == 'IndexNode':
            v = self.ev(f)[0]
            if isinstance(v, Fn):
                a = [self.ev(x)[0] for x in n.args]
                return v.py(self, a) if v.py is not None else self.call(v.name, a)
        raise Undecided('call')

    def e_TupleNode(self, n):
        return tuple(self.ev(a)[0] for a in n.args), 'py'

    def e_ListNode(self, n):
        return [self.ev(a)[0] for a in n.args], 'py'

    def e_GeneralCallNode(self, n):
        """call with keywords: of functions of the module and of modelled ones"""
        pa, kw = n.positional_args, {}
        if tname(pa) != 'TupleNode' or tname(n.function) != 'NameNode' or n.function.name in self.env:
            raise Undecided('call with keywords')
        if n.keyword_args is not None:
            if tname(n.keyword_args) != 'DictNode':
                raise Undecided('call with keywords')
            for it in n.keyword_args.key_value_pairs:
                kw[str(it.key.value)] = self.ev(it.value)[0]
        a, nm = [self.ev(x)[0] for x in pa.args], n.function.name
        if nm in self.intr:
            return self.intr[nm](self, a)
        if nm in self.ix.f:
            return self.call(nm, a, kw)
        raise Undecided('call of %s' % nm)

    def lib(self, nm, a):
        if nm == 'sum' and len(a) == 1 and isinstance(a[0][0], (list, tuple)):
            r = 0
            for x in a[0][0]:
                r = self.O.bin('+', self.up(r), self.up(x), 'py')
            return r, 'py'
        v = [self.O.num(self.up(x[0])) for x in a]
        if nm == 'len' and isinstance(v[0], (str, bytes)):
            return len(v[0]), (True, 64)
        if nm == 'bytearray' and isinstance(v[0], str):
            return View([ord(c) for c in v[0]], (False, 8)), 'py'
        if nm in ('bitcount_32_C', 'bitcount_64_C'):
            w = 32 if nm == 'bitcount_32_C' else 64
            l = v[1]
            x = self.conv(v[0], (False, w))
            return popc(x, self.bitlimit(w, l)), (True, 32)
        if nm == 'popcount':
            return popc(v[0], None), 'py'
        if nm in ('sqrt', 'cos', 'sin', 'abs', 'fabs'):
            x = v[0]
            if isinstance(x, (Lin, Bits)):
                x = self.O.concretize(x)
            if isinstance(x, (int, float)):
                if nm == 'sqrt' and x < 0:
                    raise Fault('square root of %r' % x)
                return (abs(x) if nm in ('abs', 'fabs') else getattr(math, nm)(x)), a[0][1] if nm == 'abs' else 'f'
        if nm in ('min', 'max'):
            return (a[0] if self.O.truth(self.O.cmp('<' if nm == 'min' else '>', v[0], v[1])) else a[1])
        if nm == 'int' and isinstance(v[0], int):
            return v[0], 'py'
        raise Undecided('call of %s' % nm)

    def bitlimit(self, w, l):
        h = self.intr.get('@bitlimit')
        if h:
            return h(w, l)
        if not isint(l) or not 0 <= l <= w:
            raise Fault('bit count over %r bits of a %d-bit word' % (l, w))
        return l


class Fn(object):
    def __init__(self, name, py=None):
        self.name, self.py = name, py

    def __call__(self, *a):
        raise TypeError


class TypeRef(object):
    def __init__(self, name):
        self.name = name


class CellList(object):
    """address of a variable as one-element storage"""

    def __init__(self, c):
        self.c = c

    def __len__(self):
        return 1

    def __getitem__(self, i):
        return self.c.v

    def __setitem__(self, i, v):
        self.c.v = v

