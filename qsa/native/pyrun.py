"""Interpreter of Python functions over their syntax trees, for routines that only shuffle small arrays of abstract labels.

Array values and array-library calls use the numpy and scipy of the verification tools as transfer functions; the functions of the analysed repository are never imported."""
import ast
import math
import operator
import os
import sys
import types
from .dom import Undecided

_NP = None


def libs():
    """(numpy, scipy.sparse) of the tools, or None"""
    global _NP
    if _NP is None:
        p = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
        if os.path.isdir(p) and p not in sys.path:
            sys.path.append(p)
        try:
            import numpy
            import scipy.sparse
            numpy.seterr(all="ignore")
            _NP = (numpy, scipy.sparse)
        except Exception:
            _NP = ()
    return _NP or None


class PyRaise(Exception):
    def __init__(self, name, msg, line):
        Exception.__init__(self, '%s: %s (line %s)' % (name, msg, line))
        self.name, self.msg, self.line = name, msg, line


class HostRaise(PyRaise):
    """raised by a library call: caught by handlers of the interpreted code, undecided if it escapes"""


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cnt(Exception):
    pass


class Obj(object):
    def __init__(self, cls):
        self.cls, self.d = cls, {}


class Cls(object):
    def __init__(self, mod, node):
        self.mod, self.node, self.name = mod, node, node.name

    def lookup(self, nm):
        for s in self.node.body:
            if isinstance(s, ast.FunctionDef) and s.name == nm and not any(isinstance(d, ast.Attribute) for d in s.decorator_list):
                return s, self.mod
        for b in self.node.bases:
            c = self.mod.g.get(b.id) if isinstance(b, ast.Name) and self.mod is not None else None
            if isinstance(c, Cls):
                f = c.lookup(nm)
                if f is not None:
                    return f
        return None

    def known(self, nm):
        """whether everything a lookup of the name could find is in sight"""
        for s in self.node.body:
            if isinstance(s, ast.Assign) and all(isinstance(t, ast.Attribute) or isinstance(t, ast.Name) and t.id != nm and not t.id.startswith('__') for t in s.targets):
                continue
            if not (isinstance(s, (ast.FunctionDef, ast.Pass)) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                return False
            if isinstance(s, ast.FunctionDef) and s.name in ('__getattr__', '__getattribute__', '__setattr__', nm):
                return False
        for b in self.node.bases:
            c = self.mod.g.get(b.id) if isinstance(b, ast.Name) and self.mod is not None else None
            if not (isinstance(c, Cls) and c.known(nm)) and not (isinstance(b, ast.Name) and b.id == 'object'):
                return False
        return self.mod is not None

    def names(self):
        """names of the class and its bases"""
        out = {self.name}
        for b in self.node.bases:
            c = self.mod.g.get(b.id) if isinstance(b, ast.Name) and self.mod is not None else None
            out |= c.names() if isinstance(c, Cls) else {getattr(b, 'id', getattr(b, 'attr', ''))}
        return out

    def find(self, nm):
        f = self.lookup(nm)
        return None if f is None else f[0]


class Func(object):
    def __init__(self, mod, node, env, me=None):
        self.mod, self.node, self.env, self.me = mod, node, env, me


class Mod(object):
    """module namespace: functions and classes of the tree, imports of the array libraries"""

    def __init__(self, tree, extra=()):
        self.g = {}
        np, sp = libs()
        for s in tree.body:
            if isinstance(s, ast.FunctionDef):
                self.g[s.name] = Func(self, s, {})
            elif isinstance(s, ast.ClassDef):
                self.g[s.name] = Cls(self, s)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    m = {'numpy': np, 'scipy.sparse': sp, 'warnings': 'warnings', 'math': math}.get(a.name)
                    if m is not None:
                        self.g[a.asname or a.name.split('.')[0]] = m
            elif isinstance(s, ast.ImportFrom) and s.module in ('numpy', 'scipy.sparse'):
                m = np if s.module == 'numpy' else sp
                for a in s.names:
                    if hasattr(m, a.name):
                        self.g[a.asname or a.name] = getattr(m, a.name)
            else:
                self.value(s)
        self.g.update(extra)

    def value(self, s):
        """constants of the module"""
        if isinstance(s, ast.Try):
            if not all([self.value(x) for x in s.body]) and s.handlers:
                for x in s.handlers[0].body:
                    self.value(x)
        elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            try:
                self.g[s.targets[0].id] = Run(self).ev(s.value, {})
            except (Undecided, PyRaise):
                return False
        return True


BUILT = {n: getattr(__import__('builtins'), n) for n in (
    'type int float complex abs len range min max sum set list tuple dict str sorted enumerate zip iter next isinstance bool any all reversed slice divmod round pow map filter frozenset bytes object '
    'Exception ValueError TypeError KeyError IndexError AttributeError RuntimeError NotImplementedError StopIteration ZeroDivisionError Warning UserWarning True False None').split() if hasattr(__import__('builtins'), n)}
OPS = {'Add': operator.add, 'Sub': operator.sub, 'Mult': operator.mul, 'Div': operator.truediv, 'FloorDiv': operator.floordiv, 'Mod': operator.mod, 'Pow': operator.pow, 'LShift': operator.lshift,
       'RShift': operator.rshift, 'BitAnd': operator.and_, 'BitOr': operator.or_, 'BitXor': operator.xor, 'MatMult': operator.matmul}
IOPS = {'Add': operator.iadd, 'Sub': operator.isub, 'Mult': operator.imul, 'Div': operator.itruediv, 'FloorDiv': operator.ifloordiv, 'Mod': operator.imod, 'Pow': operator.ipow,
        'LShift': operator.ilshift, 'RShift': operator.irshift, 'BitAnd': operator.iand, 'BitOr': operator.ior, 'BitXor': operator.ixor, 'MatMult': operator.imatmul}
CMP = {'Eq': operator.eq, 'NotEq': operator.ne, 'Lt': operator.lt, 'LtE': operator.le, 'Gt': operator.gt, 'GtE': operator.ge, 'Is': operator.is_, 'IsNot': operator.is_not,
       'In': lambda a, b: a in b, 'NotIn': lambda a, b: a not in b}
ALIAS = {'object': object, 'int': int, 'float': float, 'complex': complex, 'bool': bool}


class Run(object):
    def __init__(self, mod, limit=2000000):
        self.mod, self.steps, self.limit, self.depth = mod, 0, limit, 0

    # ------------------------------------------------------------ calls
    def call(self, f, args=(), kw=None):
        kw = dict(kw or {})
        if isinstance(f, Func):
            return self.invoke(f, list(args), kw)
        if isinstance(f, Cls):
            o = Obj(f)
            i = f.lookup('__init__')
            if i is not None:
                self.invoke(Func(i[1], i[0], {}, o), list(args), kw)
            elif any(isinstance(b, ast.Name) and b.id.endswith(('Exception', 'Error')) for b in f.node.bases):
                o.d['args'] = tuple(args)
            return o
        if not callable(f):
            raise Undecided('call of %s' % type(f).__name__)
        args = [self.host(a) for a in args]
        kw = {k: self.host(v) for k, v in kw.items()}
        if isinstance(f, libs()[0].ufunc) and len(args) >= 2:
            args[:2] = self.legacy(args[0], args[1])
        return self.guard(f, *args, **kw)

    def host(self, v):
        if isinstance(v, Func):
            return lambda *a, **k: self.invoke(v, list(a), k)
        return v

    def guard(self, f, *a, **k):
        try:
            return f(*a, **k)
        except (Undecided, PyRaise, Ret, Brk, Cnt):
            raise
        except Exception as e:
            if getattr(e, '_native', False) or type(e).__module__.startswith('qsa'):
                raise
            raise HostRaise(type(e).__name__, str(e)[:80], 0)

    def legacy(self, a, b):
        """the promotion of Python integers by the numpy the package is written for: by value against arrays, as a long against scalars"""
        np = libs()[0]
        for x, y in ((a, b), (b, a)):
            if type(y) is int and isinstance(x, (np.ndarray, np.generic)) and x.dtype.kind in 'iu':
                if isinstance(x, np.generic):
                    y2 = np.int64(y) if -2 ** 63 <= y < 2 ** 63 else y
                else:
                    i = np.iinfo(x.dtype)
                    y2 = y if i.min <= y <= i.max else np.min_scalar_type(y).type(y)
                return (a, y2) if y is b else (y2, b)
        return a, b

    def bin(self, op, a, b):
        return self.guard(op, *self.legacy(a, b))

    def invoke(self, f, args, kw):
        if self.depth > 60:
            raise Undecided('recursion')
        n = f.node
        a = n.args
        if f.me is not None:
            args = [f.me] + args
        env = Scope(f.env)
        names = [x.arg for x in a.posonlyargs + a.args]
        dflt = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        rest = args[len(names):]
        for x, v in zip(names, args):
            env[x] = v
        if rest and a.vararg is None:
            raise PyRaise('TypeError', '%s takes %d arguments' % (getattr(n, 'name', 'lambda'), len(names)), n.lineno)
        if a.vararg is not None:
            env[a.vararg.arg] = tuple(rest)
        for x in names[len(args):]:
            if x in kw:
                env[x] = kw.pop(x)
            elif x in dflt:
                env[x] = self.ev(dflt[x], f.env)
            else:
                raise PyRaise('TypeError', 'missing argument %s' % x, n.lineno)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg in kw:
                env[x.arg] = kw.pop(x.arg)
            elif d is not None:
                env[x.arg] = self.ev(d, f.env)
            else:
                raise PyRaise('TypeError', 'missing argument %s' % x.arg, n.lineno)
        if a.kwarg is not None:
            env[a.kwarg.arg] = kw
        elif kw:
            raise PyRaise('TypeError', 'unexpected argument %s' % sorted(kw)[0], n.lineno)
        old, self.cur = getattr(self, 'cur', None), f.mod
        self.depth += 1
        try:
            if isinstance(n, ast.Lambda):
                return self.ev(n.body, env)
            self.block(n.body, env)
        except Ret as r:
            return r.v
        finally:
            self.cur = old
            self.depth -= 1
        return None

    # ------------------------------------------------------------ statements
    def block(self, ss, e):
        for s in ss:
            self.stmt(s, e)

    def stmt(self, s, e):
        self.steps += 1
        if self.steps > self.limit:
            raise Undecided('too many steps')
        k = type(s).__name__
        if k == 'Expr':
            self.ev(s.value, e)
        elif k == 'Assign':
            v = self.ev(s.value, e)
            for t in s.targets:
                self.assign(t, v, e)
        elif k == 'AnnAssign':
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, e), e)
        elif k == 'AugAssign':
            t = s.target
            op = IOPS[type(s.op).__name__]
            if isinstance(t, ast.Name):
                self.assign(t, self.bin(op, self.name(t.id, e), self.ev(s.value, e)), e)
            elif isinstance(t, ast.Subscript):
                o, i = self.ev(t.value, e), self.ev(t.slice, e)
                v = self.bin(op, self.guard(operator.getitem, o, i), self.ev(s.value, e))
                self.guard(operator.setitem, o, i, v)
            else:
                o = self.ev(t.value, e)
                self.setattr(o, t.attr, self.bin(op, self.attr(o, t.attr), self.ev(s.value, e)))
        elif k == 'If':
            self.block(s.body if self.truth(self.ev(s.test, e)) else s.orelse, e)
        elif k == 'For':
            for v in self.iter(self.ev(s.iter, e)):
                self.assign(s.target, v, e)
                try:
                    self.block(s.body, e)
                except Brk:
                    break
                except Cnt:
                    pass
            else:
                self.block(s.orelse, e)
        elif k == 'While':
            while self.truth(self.ev(s.test, e)):
                self.steps += 1
                if self.steps > self.limit:
                    raise Undecided('too many steps')
                try:
                    self.block(s.body, e)
                except Brk:
                    break
                except Cnt:
                    pass
        elif k == 'Return':
            raise Ret(self.ev(s.value, e) if s.value is not None else None)
        elif k == 'Break':
            raise Brk()
        elif k == 'Continue':
            raise Cnt()
        elif k == 'FunctionDef':
            e[s.name] = Func(getattr(self, 'cur', None) or self.mod, s, e)
        elif k == 'Delete':
            for t in s.targets:
                if isinstance(t, ast.Name):
                    e.pop(t.id, None)
                elif isinstance(t, ast.Subscript):
                    self.guard(operator.delitem, self.ev(t.value, e), self.ev(t.slice, e))
                else:
                    raise Undecided('delete')
        elif k == 'Raise':
            x = self.ev(s.exc, e) if s.exc is not None else None
            if isinstance(x, Obj):
                raise PyRaise(x.cls.name, str(x.d.get('message', x.d.get('args', ''))), s.lineno)
            if isinstance(x, type):
                x = x()
            raise PyRaise(type(x).__name__, str(x), s.lineno)
        elif k == 'Try':
            try:
                self.block(s.body, e)
                self.block(s.orelse, e)
            except PyRaise as x:
                for h in s.handlers:
                    if h.type is None or self.matches(x, self.ev(h.type, e)):
                        if h.name:
                            e[h.name] = ValueError(x.msg)
                        self.block(h.body, e)
                        break
                else:
                    raise
            finally:
                self.block(s.finalbody, e)
        elif k in ('Pass', 'Global', 'Nonlocal'):
            pass
        elif k == 'Assert':
            if not self.truth(self.ev(s.test, e)):
                raise PyRaise('AssertionError', '', s.lineno)
        else:
            raise Undecided('statement %s' % k)

    def matches(self, x, t):
        ts = t if isinstance(t, tuple) else (t,)
        for c in ts:
            n = c.name if isinstance(c, Cls) else c.__name__
            b = getattr(__import__('builtins'), x.name, None)
            if n == x.name or n == 'Exception' or (isinstance(b, type) and isinstance(c, type) and issubclass(b, c)):
                return True
        return False

    def iter(self, v):
        if isinstance(v, (Obj, Func, Cls)):
            raise Undecided('iteration')
        return self.guard(iter, v)

    def truth(self, v):
        if isinstance(v, (Obj, Func, Cls)):
            return True
        return self.guard(bool, v)

    def assign(self, t, v, e):
        if isinstance(t, ast.Name):
            e[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.guard(list, v)
            st = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if st:
                i = st[0]
                k = len(vs) - (len(t.elts) - 1)
                vs = vs[:i] + [vs[i:i + k]] + vs[i + k:]
            if len(vs) != len(t.elts):
                raise PyRaise('ValueError', 'unpacking', t.lineno)
            for x, y in zip(t.elts, vs):
                self.assign(x.value if isinstance(x, ast.Starred) else x, y, e)
        elif isinstance(t, ast.Subscript):
            self.guard(operator.setitem, self.ev(t.value, e), self.ev(t.slice, e), v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, e), t.attr, v)
        else:
            raise Undecided('assignment')

    def setattr(self, o, nm, v):
        if isinstance(o, Obj):
            o.d[nm] = v
        else:
            self.guard(setattr, o, nm, v)

    # ------------------------------------------------------------ expressions
    def name(self, nm, e):
        if nm in e:
            return e[nm]
        g = (getattr(self, 'cur', None) or self.mod).g
        if nm in g:
            return g[nm]
        if nm == 'hasattr':
            return self.hasattr
        if nm == 'isinstance':
            return self.isinst
        if nm == 'getattr':
            return lambda o, a, *d: self.attr(o, a) if self.hasattr(o, a) or not d else d[0]
        if nm == 'print':
            return lambda *a, **k: None
        if nm == 'True':
            return True
        if nm in BUILT:
            return BUILT[nm]
        raise Undecided('name %s' % nm)

    def isinst(self, o, t):
        ts = []
        for c in t if isinstance(t, tuple) else (t,):
            ts += list(c) if isinstance(c, tuple) else [c]
        mine = [c.name for c in ts if isinstance(c, Cls)]
        host = tuple(c for c in ts if not isinstance(c, Cls))
        if isinstance(o, Obj):
            return object in host or any(n in o.cls.names() for n in mine)
        return bool(host) and self.guard(isinstance, o, host)

    def hasattr(self, o, a):
        if isinstance(o, Obj):
            return a in o.d or o.cls.find(a) is not None
        return hasattr(o, a)

    def attr(self, o, nm):
        if isinstance(o, Obj):
            if nm == '__dict__':
                return o.d
            if nm in o.d:
                return o.d[nm]
            if nm == '__class__':
                return types.SimpleNamespace(__name__=o.cls.name)
            f = o.cls.lookup(nm)
            if f is None:
                if not nm.startswith('__') and o.cls.known(nm):
                    raise PyRaise('AttributeError', nm, 0)
                raise Undecided('attribute %s' % nm)
            f, mod = f
            if any(isinstance(d, ast.Name) and d.id == 'property' for d in f.decorator_list):
                return self.invoke(Func(mod, f, {}, o), [], {})
            if f.decorator_list:
                raise Undecided('decorator')
            return Func(mod, f, {}, o)
        if o == 'warnings' if isinstance(o, str) else False:
            return lambda *a, **k: None
        if isinstance(o, types.ModuleType) and o.__name__ == 'numpy' and nm in ALIAS:
            return ALIAS[nm]
        if isinstance(o, Cls):
            f = o.lookup(nm)
            if f is not None and not f[0].decorator_list:
                return Func(f[1], f[0], {})
            if f is None and not nm.startswith('__') and o.known(nm):
                raise PyRaise('AttributeError', nm, 0)
        if isinstance(o, (Func, Cls)):
            raise Undecided('attribute %s' % nm)
        return self.guard(getattr, o, nm)

    def ev(self, n, e):
        self.steps += 1
        if self.steps > self.limit:
            raise Undecided('too many steps')
        k = type(n).__name__
        f = getattr(self, 'e_' + k, None)
        if f is None:
            raise Undecided('expression %s' % k)
        return f(n, e)

    def e_Constant(self, n, e):
        return n.value

    def e_Name(self, n, e):
        return self.name(n.id, e)

    def e_Attribute(self, n, e):
        return self.attr(self.ev(n.value, e), n.attr)

    def e_Tuple(self, n, e):
        return tuple(self.elts(n.elts, e))

    def e_List(self, n, e):
        return list(self.elts(n.elts, e))

    def e_Set(self, n, e):
        return set(self.elts(n.elts, e))

    def elts(self, xs, e):
        out = []
        for x in xs:
            if isinstance(x, ast.Starred):
                out.extend(self.iter(self.ev(x.value, e)))
            else:
                out.append(self.ev(x, e))
        return out

    def e_Dict(self, n, e):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                d.update(self.ev(v, e))
            else:
                d[self.ev(k, e)] = self.ev(v, e)
        return d

    def e_BinOp(self, n, e):
        return self.bin(OPS[type(n.op).__name__], self.ev(n.left, e), self.ev(n.right, e))

    def e_UnaryOp(self, n, e):
        v = self.ev(n.operand, e)
        if isinstance(n.op, ast.Not):
            return not self.truth(v)
        return self.guard({'USub': operator.neg, 'UAdd': operator.pos, 'Invert': operator.invert}[type(n.op).__name__], v)

    def e_BoolOp(self, n, e):
        for x in n.values:
            v = self.ev(x, e)
            if self.truth(v) != isinstance(n.op, ast.And):
                return v
        return v

    def e_Compare(self, n, e):
        a = self.ev(n.left, e)
        for op, c in zip(n.ops, n.comparators):
            b = self.ev(c, e)
            r = self.guard(CMP[type(op).__name__], a, b)
            if len(n.ops) == 1:
                return r
            if not self.truth(r):
                return r
            a = b
        return r

    def e_IfExp(self, n, e):
        return self.ev(n.body if self.truth(self.ev(n.test, e)) else n.orelse, e)

    def e_Subscript(self, n, e):
        return self.guard(operator.getitem, self.ev(n.value, e), self.ev(n.slice, e))

    def e_Slice(self, n, e):
        return slice(*[self.ev(x, e) if x is not None else None for x in (n.lower, n.upper, n.step)])

    def e_Lambda(self, n, e):
        return Func(getattr(self, 'cur', None) or self.mod, n, e)

    def e_JoinedStr(self, n, e):
        return ''.join(str(x.value) if isinstance(x, ast.Constant) else '{}' for x in n.values)

    def comp(self, n, e, fn):
        e = Scope(e)

        def go(gs):
            if not gs:
                fn(e)
                return
            for v in self.iter(self.ev(gs[0].iter, e)):
                self.assign(gs[0].target, v, e)
                if all(self.truth(self.ev(c, e)) for c in gs[0].ifs):
                    go(gs[1:])
        go(n.generators)

    def e_ListComp(self, n, e):
        out = []
        self.comp(n, e, lambda x: out.append(self.ev(n.elt, x)))
        return out

    def e_SetComp(self, n, e):
        return set(self.e_ListComp(n, e))

    def e_GeneratorExp(self, n, e):
        return iter(self.e_ListComp(n, e))

    def e_DictComp(self, n, e):
        out = {}
        self.comp(n, e, lambda x: out.__setitem__(self.ev(n.key, x), self.ev(n.value, x)))
        return out

    def e_Call(self, n, e):
        f = self.ev(n.func, e)
        args = self.elts(n.args, e)
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                kw.update(self.ev(k.value, e))
            else:
                kw[k.arg] = self.ev(k.value, e)
        return self.call(f, args, kw)


class Scope(dict):
    """local names over the enclosing function's"""

    def __init__(self, up):
        dict.__init__(self)
        self.up = up

    def __contains__(self, k):
        return dict.__contains__(self, k) or k in self.up

    def __getitem__(self, k):
        return dict.__getitem__(self, k) if dict.__contains__(self, k) else self.up[k]
