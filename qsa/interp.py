"""Abstract interpreter for the Python subset used by QuSpin.

Forward analysis over the syntax tree.  The abstract domain is described in values.py/terms.py; control-flow
conditions that the domain cannot decide split the state (trace partitioning, capped), calls to functions of the
analysed program are analysed in the calling context (bounded depth), library calls use the models in npmodel.py.
Anything not understood becomes Top, and Top never raises an alarm.
"""
import ast
from .values import *
from .terms import Poly, ZERO
from .program import Program, AnalysisBroken

COV = set()
BUILTIN_EXC = {
    'Exception': (), 'BaseException': (), 'ArithmeticError': ('Exception',), 'ZeroDivisionError': ('ArithmeticError',),
    'AttributeError': ('Exception',), 'NameError': ('Exception',), 'UnboundLocalError': ('NameError',),
    'TypeError': ('Exception',), 'ValueError': ('Exception',), 'LookupError': ('Exception',),
    'KeyError': ('LookupError',), 'IndexError': ('LookupError',), 'RuntimeError': ('Exception',),
    'NotImplementedError': ('RuntimeError',), 'StopIteration': ('Exception',), 'AssertionError': ('Exception',),
    'ImportError': ('Exception',), 'OSError': ('Exception',), 'IOError': ('OSError',), 'OverflowError': ('ArithmeticError',),
    'Warning': ('Exception',), 'UserWarning': ('Warning',), 'MemoryError': ('Exception',), 'SystemError': ('Exception',),
    'UFuncTypeError': ('TypeError',), 'DeprecationWarning': ('Warning',), 'RuntimeWarning': ('Warning',),
    'ModuleNotFoundError': ('ImportError',), 'FloatingPointError': ('ArithmeticError',), 'LinAlgError': ('Exception',),
    'GeneratorExit': (), 'EOFError': ('Exception',), 'UnicodeError': ('ValueError',),
}

BUILTINS = set('''abs all any bool callable complex dict divmod enumerate filter float format frozenset getattr hasattr hash
id int isinstance issubclass iter len list map max min next object open print property range repr reversed round set
setattr slice sorted staticmethod classmethod str sum super tuple type vars zip bytes bytearray chr ord pow delattr
globals locals input exec eval compile memoryview hex oct bin ascii breakpoint dir help'''.split())


class Budget(Exception):
    pass


class Ret(object):
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


BRK, CNT = object(), object()

BINOP = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.Mod: '%', ast.Pow: '**', ast.FloorDiv: '//',
         ast.MatMult: '@', ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.LShift: '<<', ast.RShift: '>>'}
DUNDER = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'truediv', '%': 'mod', '**': 'pow', '//': 'floordiv', '@': 'matmul',
          '&': 'and', '|': 'or', '^': 'xor', '<<': 'lshift', '>>': 'rshift'}
CMP = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Is: 'is',
       ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}


class Interp(object):
    MAXSTEPS = 400000
    MAXSTATES = 96
    MAXDEPTH = 60

    def __init__(self, prog=None):
        self.prog = prog or Program()
        self.steps = 0
        self.cov_funcs = set()
        self.cov_stmts = set()
        self.tops = {}
        self.nstates = 1
        from . import npmodel
        self.np = npmodel.NP(self)
        from .carr import Folder
        self.ca = Folder(self)
        self._trunc = False
        self.hooks = {}          # dotted function/class path -> python callable(interp,args,kw,S,node) generator
        self._fninfo = {}

    # ------------------------------------------------------------------ utilities
    def top(self, why, node=None):
        self.tops[why] = self.tops.get(why, 0) + 1
        return Top(why)

    def loc(self, node, S):
        env = S.g(S.env) if S.env is not None else None
        rel = env.mod.rel if env is not None else '?'
        fn = env.fname if env is not None else ''
        return (rel, fn, getattr(node, 'lineno', 0))

    def exc(self, name, msg, node, S, internal=False):
        return Exc(name, msg, self.loc(node, S) if node is not None else None, internal)

    def newenv(self, S, mod, parent=None, fname=''):
        return S.new(Env(mod, parent, fname))

    def is_sub(self, name, of):
        if name == of or of == 'BaseException':
            return True
        for b in BUILTIN_EXC.get(name, ('Exception',)):
            if self.is_sub(b, of):
                return True
        return False

    # ------------------------------------------------------------------ names
    def lookup(self, name, S, node=None):
        e = S.env
        while e is not None:
            env = S.g(e)
            if name in env.d:
                v = env.d[name]
                if v is None:
                    return self.exc('UnboundLocalError', 'local %r may be used before assignment' % name, node, S, True)
                return v
            e = env.parent
        mod = S.g(S.env).mod
        return self.modname(mod, name, S, node)

    def modname(self, mod, name, S, node=None):
        if name in ('__name__', '__file__', '__doc__'):
            return K(mod.name)
        r = self.prog.resolve(mod, name)
        if r is None:
            if name in BUILTINS or name in BUILTIN_EXC:
                return Ext('builtins.' + name)
            if name == 'NotImplemented':
                return NOTIMPL
            if name == 'Ellipsis':
                return K(Ellipsis)
            return self.exc('NameError', 'name %r is not defined' % name, node, S, True)
        return self.rval(r, S, node)

    def rval(self, r, S, node=None):
        k = r[0]
        if k == 'func':
            return Fn(r[2], r[1], None, r[1].name + '.' + r[2].name)
        if k == 'class':
            return Cls(r[1])
        if k == 'mod':
            return ModV(r[1])
        if k == 'ext':
            return Ext(self.np.canon(r[1]))
        if k == 'native':
            return Ext(r[1])
        if k == 'expr':
            env0, self._trunc = S.env, False
            S.env = self.newenv(S, r[1], None, '<module>')
            try:
                outs = list(self.ev(r[2], S))
            finally:
                S.env = env0
            if len(outs) == 1:
                v = outs[0][1]
                if isinstance(v, Exc) and v.internal and len(r) > 3 and r[3] is not None:
                    return self.rval(('expr', r[1], r[3]), S, node)     # the except branch of a module-level try
                if self._trunc:
                    if not (isinstance(v, Ref) and isinstance(S.g(v), Dct)):
                        return self.top('long module table')
                    S.w(v).open = True
                return v
            return self.top('module expr')
        return self.top('module variable %s' % (r[1],))

    def assigned(self, node):
        """names assigned in the function body (locals)"""
        k = id(node)
        if k in self._fninfo:
            return self._fninfo[k]
        loc, gl, gen = set(), set(), [False]

        def tgt(t):
            if isinstance(t, ast.Name):
                loc.add(t.id)
            elif isinstance(t, (ast.Tuple, ast.List)):
                for x in t.elts:
                    tgt(x)
            elif isinstance(t, ast.Starred):
                tgt(t.value)

        def visit(n):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                    loc.add(c.name)
                    continue
                if isinstance(c, ast.Lambda):
                    continue
                if isinstance(c, (ast.Yield, ast.YieldFrom)):
                    gen[0] = True
                if isinstance(c, ast.Assign):
                    for t in c.targets:
                        tgt(t)
                elif isinstance(c, (ast.AugAssign, ast.AnnAssign, ast.For)):
                    tgt(c.target)
                elif isinstance(c, ast.NamedExpr):
                    tgt(c.target)
                elif isinstance(c, ast.With):
                    for it in c.items:
                        if it.optional_vars is not None:
                            tgt(it.optional_vars)
                elif isinstance(c, ast.ExceptHandler):
                    if c.name:
                        loc.add(c.name)
                elif isinstance(c, (ast.Import, ast.ImportFrom)):
                    for a in c.names:
                        loc.add(a.asname or a.name.split('.')[0])
                elif isinstance(c, (ast.Global, ast.Nonlocal)):
                    gl.update(c.names)
                if isinstance(c, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                    # own scope; only walrus/yield matter, which the code base does not use
                    continue
                visit(c)
        if isinstance(node, ast.FunctionDef):
            for st in node.body:
                if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                    loc.add(st.name)
                    continue
                class W(object):
                    pass
                visit(ast.Module(body=[st], type_ignores=[]))
        r = (loc - gl, gen[0])
        self._fninfo[k] = r
        return r

    # ------------------------------------------------------------------ statements
    def block(self, stmts, S):
        if not stmts:
            yield S, None
            return
        work = [S]
        for i, st in enumerate(stmts):
            nxt = []
            for s in work:
                for s2, sig in self.st(st, s):
                    if sig is None:
                        nxt.append(s2)
                    else:
                        yield s2, sig
            if len(nxt) > self.MAXSTATES:
                raise Budget('too many partitions')
            work = nxt
            if not work:
                return
        for s in work:
            yield s, None

    def st(self, n, S):
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise Budget('step budget')
        self.cov_stmts.add(id(n))
        return getattr(self, 'st_' + type(n).__name__, self.st_other)(n, S)

    def st_other(self, n, S):
        self.top('stmt ' + type(n).__name__)
        yield S, None

    def st_Pass(self, n, S):
        yield S, None

    st_Global = st_Nonlocal = st_Pass

    def st_Expr(self, n, S):
        for S, v in self.ev(n.value, S):
            yield S, (v if isinstance(v, Exc) else None)

    def st_Return(self, n, S):
        if n.value is None:
            yield S, Ret(NONE)
            return
        for S, v in self.ev(n.value, S):
            yield S, (v if isinstance(v, Exc) else Ret(v))

    def st_Break(self, n, S):
        yield S, BRK

    def st_Continue(self, n, S):
        yield S, CNT

    def st_Assert(self, n, S):
        for S, v in self.ev(n.test, S):
            if isinstance(v, Exc):
                yield S, v
                continue
            for S2, b in self.cond(v, S):
                if b:
                    yield S2, None
                else:
                    yield S2, self.exc('AssertionError', 'assert', n, S2)

    def st_Delete(self, n, S):
        for t in n.targets:
            if isinstance(t, ast.Name):
                S.w(S.env).d[t.id] = None
            elif isinstance(t, ast.Subscript):
                outs = list(self.ev_many([t.value, t.slice], S))
                if len(outs) == 1 and not isinstance(outs[0][1], Exc):
                    S, (o, k) = outs[0]
                    if isinstance(o, Ref) and isinstance(S.g(o), Dct):
                        ob = S.w(o)
                        ob.items = [it for it in ob.items if self.veq(it[0], k, S) is not True]
                        S.lastw[(o.id, '')] = self.loc(n, S)
            elif isinstance(t, ast.Attribute):
                outs = list(self.ev(t.value, S))
                if len(outs) == 1 and isinstance(outs[0][1], Ref):
                    S, o = outs[0]
                    if isinstance(S.g(o), Inst):
                        S.w(o).f.pop(self.mangle(t.attr, S), None)
        yield S, None

    def st_Import(self, n, S):
        for a in n.names:
            nm = a.asname or a.name.split('.')[0]
            full = a.name if a.asname else a.name.split('.')[0]
            S.w(S.env).d[nm] = ModV(full) if self.prog.module(full) else Ext(self.np.canon(full))
        yield S, None

    def st_ImportFrom(self, n, S):
        mod = S.g(S.env).mod
        m = mod.absname(n)
        sm = self.prog.module(m)
        for a in n.names:
            if sm is not None:
                r = self.prog.resolve(sm, a.name)
                if r is not None:
                    v = self.rval(r, S, n)
                elif self.prog.module(m + '.' + a.name):
                    v = ModV(m + '.' + a.name)
                else:
                    v = Ext(m + '.' + a.name)
            else:
                v = Ext(self.np.canon(m + '.' + a.name))
            S.w(S.env).d[a.asname or a.name] = v
        yield S, None

    def st_FunctionDef(self, n, S):
        env = S.g(S.env)
        f = Fn(n, env.mod, S.env.id, env.fname + '.' + n.name, S.cls)
        S.w(S.env).d[n.name] = f
        yield S, None

    def st_ClassDef(self, n, S):
        S.w(S.env).d[n.name] = self.top('local class')
        yield S, None

    def st_Raise(self, n, S):
        if n.exc is None:
            cur = S.facts.get('__handling__')
            yield S, (cur if isinstance(cur, Exc) else Exc('Exception', 're-raise', self.loc(n, S)))
            return
        for S, v in self.ev(n.exc, S):
            if isinstance(v, Exc) and v.val is None:
                yield S, v
                continue
            yield S, self.mkexc(v, n, S)

    def mkexc(self, v, n, S):
        name = 'Exception'
        if isinstance(v, Exc):
            return v
        if isinstance(v, Ext) and v.path.startswith('builtins.'):
            name = v.path[9:]
        elif isinstance(v, Cls):
            name = v.ci.name
        elif isinstance(v, Ref):
            o = S.g(v)
            if isinstance(o, Opaque) and o.kind.startswith('exc:'):
                name = o.kind[4:]
            elif isinstance(o, Inst):
                name = o.ci.name
        if isinstance(v, K) and v.v is NotImplemented:
            return self.exc('TypeError', 'raise NotImplemented', n, S, True)
        return Exc(name, 'raised', self.loc(n, S), False, v)

    def st_Assign(self, n, S):
        for S, v in self.ev(n.value, S):
            if isinstance(v, Exc):
                yield S, v
                continue
            states = [S]
            for t in n.targets:
                nxt = []
                for s in states:
                    for s2, e in self.assign(t, v, s, n):
                        if e is not None:
                            yield s2, e
                        else:
                            nxt.append(s2)
                states = nxt
            for s in states:
                yield s, None

    def st_AnnAssign(self, n, S):
        if n.value is None:
            yield S, None
            return
        for S, v in self.ev(n.value, S):
            if isinstance(v, Exc):
                yield S, v
                continue
            for s2, e in self.assign(n.target, v, S, n):
                yield s2, e

    def setname(self, name, v, S):
        env = S.g(S.env)
        if name in env.nl:
            S.w(env.nl[name]).d[name] = v
        else:
            S.w(S.env).d[name] = v

    def assign(self, t, v, S, node):
        if isinstance(t, ast.Name):
            self.setname(t.id, v, S)
            yield S, None
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(v, len(t.elts), S, any(isinstance(x, ast.Starred) for x in t.elts))
            if isinstance(items, Exc):
                yield S, items
                return
            if items is None:
                items = [self.top('unpack') for _ in t.elts]
            states = [S]
            for x, it in zip(t.elts, items):
                if isinstance(x, ast.Starred):
                    x = x.value
                nxt = []
                for s in states:
                    for s2, e in self.assign(x, it, s, node):
                        if e is not None:
                            yield s2, e
                        else:
                            nxt.append(s2)
                states = nxt
            for s in states:
                yield s, None
        elif isinstance(t, ast.Attribute):
            for S, o in self.ev(t.value, S):
                if isinstance(o, Exc):
                    yield S, o
                    continue
                for r in self.setattr(o, self.mangle(t.attr, S), v, S, node):
                    yield r
        elif isinstance(t, ast.Subscript):
            for S, ok in self.ev_many([t.value, t.slice], S):
                if isinstance(ok, Exc):
                    yield S, ok
                    continue
                o, k = ok
                for r in self.setitem(o, k, v, S, node):
                    yield r
        else:
            yield S, None

    def unpack(self, v, n, S, star=False):
        items = self.seq(v, S)
        if items is None:
            if isinstance(v, K) and not isinstance(v.v, str):
                return Exc('TypeError', 'cannot unpack %r' % (v,), self.loc(None, S) if False else None, True)
            return None
        if star:
            return None
        if len(items) != n:
            return Exc('ValueError', 'unpack %d into %d' % (len(items), n), None, True)
        return items

    def mangle(self, name, S):
        if name.startswith('__') and not name.endswith('__') and S.cls is not None:
            return '_%s%s' % (S.cls.name.lstrip('_'), name)
        return name

    def setattr(self, o, name, v, S, node):
        if isinstance(o, Ref):
            ob = S.g(o)
            if isinstance(ob, Inst):
                for c in self.prog.mro(ob.ci):
                    if isinstance(c, str):
                        continue
                    if name in c.setters:
                        for S, r in self.callfn(Fn(c.setters[name], c.mod, None, c.qual + '.' + name, c), [o, v], {}, S, node):
                            yield S, (r if isinstance(r, Exc) else None)
                        return
                    if name in c.props:
                        yield S, self.exc('AttributeError', 'can\'t set property %s' % name, node, S, True)
                        return
                S.w(o).f[name] = v
                S.lastw[(o.id, name)] = self.loc(node, S)
                yield S, None
                return
            if isinstance(ob, Opaque):
                S.w(o).f[name] = v
                yield S, None
                return
            for r in self.np.setattr(o, name, v, S, node):
                yield r
            return
        yield S, None

    def setitem(self, o, k, v, S, node):
        if isinstance(o, Ref):
            ob = S.g(o)
            if isinstance(ob, Dct):
                outs = list(self.dictfind(ob, k, S))
                ob = S.w(o)
                for i, (kk, vv) in enumerate(ob.items):
                    if self.veq(kk, k, S) is True:
                        ob.items[i] = (kk, v)
                        S.lastw[(o.id, '')] = self.loc(node, S)
                        yield S, None
                        return
                ob.items.append((k, v))
                S.lastw[(o.id, '')] = self.loc(node, S)
                yield S, None
                return
            if isinstance(ob, Lst):
                if isinstance(k, K) and isinstance(k.v, int):
                    if -len(ob.items) <= k.v < len(ob.items):
                        S.w(o).items[k.v] = v
                        S.lastw[(o.id, '')] = self.loc(node, S)
                        yield S, None
                        return
                    yield S, self.exc('IndexError', 'list assignment index', node, S, True)
                    return
                if isinstance(k, Slc) and all(isinstance(x, K) for x in (k.a, k.b, k.c)):
                    new = self.seq(v, S)
                    if new is not None:
                        it = list(ob.items)
                        try:
                            it[k.a.v:k.b.v:k.c.v] = new
                        except ValueError as e:
                            yield S, self.exc('ValueError', str(e), node, S, True)
                            return
                        S.w(o).items = it
                        S.lastw[(o.id, '')] = self.loc(node, S)
                        yield S, None
                        return
                S.w(o).items = [self.top('list store')] * len(ob.items)
                yield S, None
                return
            if isinstance(ob, CArr):
                yield S, self.ca.setitem(o, k, v, S, node)
                return
            if isinstance(ob, Arr):
                for r in self.np.setitem(o, k, v, S, node):
                    yield r
                return
            if isinstance(ob, Inst):
                m = self.findmethod(ob.ci, '__setitem__')
                if m is not None:
                    for S, r in self.callfn(m, [o, k, v], {}, S, node):
                        yield S, (r if isinstance(r, Exc) else None)
                    return
        if isinstance(o, (K, Tup)):
            yield S, self.exc('TypeError', 'item assignment on %r' % (o,), node, S, True)
            return
        yield S, None

    def dictfind(self, ob, k, S):
        return ()

    def st_AugAssign(self, n, S):
        op = BINOP[type(n.op)]
        t = n.target
        if isinstance(t, ast.Name):
            v = self.lookup(t.id, S, n)
            if isinstance(v, Exc):
                yield S, v
                return
            for S, r in self.ev(n.value, S):
                if isinstance(r, Exc):
                    yield S, r
                    continue
                for S2, x in self.ibinop(op, v, r, S, n):
                    if isinstance(x, Exc):
                        yield S2, x
                        continue
                    self.setname(t.id, x, S2)
                    yield S2, None
        elif isinstance(t, ast.Attribute):
            for S, o in self.ev(t.value, S):
                if isinstance(o, Exc):
                    yield S, o
                    continue
                nm = self.mangle(t.attr, S)
                for S1, v in self.getattr(o, nm, S, n):
                    if isinstance(v, Exc):
                        yield S1, v
                        continue
                    for S2, r in self.ev(n.value, S1):
                        if isinstance(r, Exc):
                            yield S2, r
                            continue
                        for S3, x in self.ibinop(op, v, r, S2, n):
                            if isinstance(x, Exc):
                                yield S3, x
                                continue
                            for y in self.setattr(o, nm, x, S3, n):
                                yield y
        elif isinstance(t, ast.Subscript):
            for S, ok in self.ev_many([t.value, t.slice], S):
                if isinstance(ok, Exc):
                    yield S, ok
                    continue
                o, k = ok
                for S1, v in self.getitem(o, k, S, n):
                    if isinstance(v, Exc):
                        yield S1, v
                        continue
                    for S2, r in self.ev(n.value, S1):
                        if isinstance(r, Exc):
                            yield S2, r
                            continue
                        for S3, x in self.ibinop(op, v, r, S2, n):
                            if isinstance(x, Exc):
                                yield S3, x
                                continue
                            for y in self.setitem(o, k, x, S3, n):
                                yield y
        else:
            yield S, None

    def st_If(self, n, S):
        for S, v in self.ev(n.test, S):
            if isinstance(v, Exc):
                yield S, v
                continue
            for S2, b in self.cond(v, S):
                for r in self.block(n.body if b else n.orelse, S2):
                    yield r

    def st_With(self, n, S):
        states = [S]
        for it in n.items:
            nxt = []
            for s in states:
                for s2, v in self.ev(it.context_expr, s):
                    if isinstance(v, Exc):
                        yield s2, v
                        continue
                    if it.optional_vars is not None:
                        for s3, e in self.assign(it.optional_vars, v, s2, n):
                            nxt.append(s3)
                    else:
                        nxt.append(s2)
            states = nxt
        for s in states:
            for r in self.block(n.body, s):
                yield r

    def st_For(self, n, S):
        for S, it in self.ev(n.iter, S):
            if isinstance(it, Exc):
                yield S, it
                continue
            for S, items in self.iterate(it, S, n):
                if isinstance(items, Exc):
                    yield S, items
                    continue
                for r in self.forloop(n, items, S):
                    yield r

    def forloop(self, n, items, S):
        pend = None
        if items is None:
            # unknown iterable: zero or one symbolic iteration
            S.notes.append(('loop', self.loc(n, S)))
            items = [self.top('loop var')]
            S0 = S.fork()
            for r in self.block(n.orelse, S0):
                yield r
        states = [S]
        for x in items:
            if isinstance(x, Exc):
                for s in states:
                    yield s, x
                return
            nxt = []
            for s in states:
                for s1, e in self.assign(n.target, x, s, n):
                    if e is not None:
                        yield s1, e
                        continue
                    for s2, sig in self.block(n.body, s1):
                        if sig is None or sig is CNT:
                            nxt.append(s2)
                        elif sig is BRK:
                            yield s2, None
                        else:
                            yield s2, sig
            states = nxt
            if len(states) > self.MAXSTATES:
                raise Budget('loop partitions')
        for s in states:
            for r in self.block(n.orelse, s):
                yield r

    def st_While(self, n, S):
        states = [S]
        for it in range(24):
            nxt = []
            for s in states:
                for s1, v in self.ev(n.test, s):
                    if isinstance(v, Exc):
                        yield s1, v
                        continue
                    for s2, b in self.cond(v, s1):
                        if not b:
                            for r in self.block(n.orelse, s2):
                                yield r
                            continue
                        for s3, sig in self.block(n.body, s2):
                            if sig is None or sig is CNT:
                                nxt.append(s3)
                            elif sig is BRK:
                                yield s3, None
                            else:
                                yield s3, sig
            states = nxt[:8]
            if not states:
                return
        for s in states:
            s.notes.append(('loopcut', self.loc(n, s)))
            self.top('while loop cut')
            yield s, None

    def st_Try(self, n, S):
        pend = []
        for S1, sig in self.block(n.body, S):
            if isinstance(sig, Exc):
                h = self.handler(n, sig, S1)
                if h is not None:
                    if h.name:
                        S1.w(S1.env).d[h.name] = sig.val if sig.val is not None else self.top('exception object')
                    old = S1.facts.get('__handling__')
                    S1.facts['__handling__'] = sig
                    for S2, s2 in self.block(h.body, S1):
                        S2.facts['__handling__'] = old
                        pend.append((S2, s2))
                    continue
                pend.append((S1, sig))
            elif sig is None:
                for r in self.block(n.orelse, S1):
                    pend.append(r)
            else:
                pend.append((S1, sig))
        for S1, sig in pend:
            if n.finalbody:
                for S2, s2 in self.block(n.finalbody, S1):
                    yield S2, (sig if s2 is None else s2)
            else:
                yield S1, sig

    def handler(self, n, e, S):
        for h in n.handlers:
            if h.type is None:
                return h
            ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
            for t in ts:
                nm = t.attr if isinstance(t, ast.Attribute) else getattr(t, 'id', None)
                if nm is None:
                    return h
                if nm not in BUILTIN_EXC:
                    if e.name == nm:
                        return h
                    continue
                if self.is_sub(e.name, nm):
                    return h
        return None

    # ------------------------------------------------------------------ conditions
    def truth(self, v, S):
        if isinstance(v, K):
            if v.v is NotImplemented:
                return True
            try:
                return bool(v.v)
            except Exception:
                return None
        if isinstance(v, Tup):
            return len(v.items) > 0
        if isinstance(v, Ref):
            o = S.g(v)
            if isinstance(o, (Lst, SetO)):
                return len(o.items) > 0
            if isinstance(o, Dct):
                return True if o.items else (None if o.open else False)
            if isinstance(o, Inst):
                if self.findmethod(o.ci, '__len__') or self.findmethod(o.ci, '__bool__'):
                    return None
                return True
            if isinstance(o, Arr):
                return None
            if isinstance(o, CArr):
                return self.ca.truth(v, S)
            return True
        if isinstance(v, (Fn, BM, Cls, Ext, ModV, EM, UFn, Part)):
            return True
        if isinstance(v, Sc):
            c = v.p.const_value()
            if c is not None:
                return bool(c)
            return None
        if isinstance(v, U):
            return S.facts.get(v.k)
        return None

    def cond(self, v, S):
        t = self.truth(v, S)
        if t is not None:
            yield S, t
            return
        self.nstates += 1
        if self.nstates > 4000:
            raise Budget('partitions')
        S2 = S.fork()
        if isinstance(v, U):
            S.facts[v.k] = True
            S2.facts[v.k] = False
        if not isinstance(v, U) or "TOP'" in repr(v.k):
            # the branch taken is not determined by the analysis: neither partition need be feasible
            S.unsure = S2.unsure = S.unsure + (repr(v)[:60],)
        yield S, True
        yield S2, False

    # ------------------------------------------------------------------ expressions
    def ev(self, e, S):
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise Budget('step budget')
        return getattr(self, 'ev_' + type(e).__name__, self.ev_other)(e, S)

    def ev_other(self, e, S):
        yield S, self.top('expr ' + type(e).__name__)

    def ev_many(self, es, S):
        """yields (S, [values]) or (S, Exc)"""
        if not es:
            yield S, []
            return
        for S1, v in self.ev(es[0], S):
            if isinstance(v, Exc):
                yield S1, v
                continue
            for S2, r in self.ev_many(es[1:], S1):
                if isinstance(r, Exc):
                    yield S2, r
                else:
                    yield S2, [v] + r

    def ev_Constant(self, e, S):
        yield S, K(e.value)

    def ev_Name(self, e, S):
        yield S, self.lookup(e.id, S, e)

    def ev_NamedExpr(self, e, S):
        for S, v in self.ev(e.value, S):
            if not isinstance(v, Exc):
                self.setname(e.target.id, v, S)
            yield S, v

    def ev_Tuple(self, e, S):
        for S, vs in self.ev_elts(e.elts, S):
            yield S, (vs if isinstance(vs, Exc) else Tup(vs))

    def ev_List(self, e, S):
        for S, vs in self.ev_elts(e.elts, S):
            yield S, (vs if isinstance(vs, Exc) else S.new(Lst(vs)))

    def ev_Set(self, e, S):
        for S, vs in self.ev_elts(e.elts, S):
            yield S, (vs if isinstance(vs, Exc) else S.new(SetO(vs)))

    def ev_elts(self, elts, S):
        for S, vs in self.ev_many([x.value if isinstance(x, ast.Starred) else x for x in elts], S):
            if isinstance(vs, Exc):
                yield S, vs
                continue
            out = []
            for x, v in zip(elts, vs):
                if isinstance(x, ast.Starred):
                    it = self.seq(v, S)
                    out.extend(it if it is not None else [self.top('star')])
                else:
                    out.append(v)
            yield S, out

    def ev_Dict(self, e, S):
        keys = [k for k in e.keys if k is not None]
        if len(keys) != len(e.keys):
            yield S, self.top('dict unpack')
            return
        for S, ks in self.ev_many(e.keys, S):
            if isinstance(ks, Exc):
                yield S, ks
                continue
            for S1, vs in self.ev_many(e.values, S):
                yield S1, (vs if isinstance(vs, Exc) else S1.new(Dct(zip(ks, vs))))

    def ev_JoinedStr(self, e, S):
        yield S, K('<fstring>')

    def ev_Lambda(self, e, S):
        env = S.g(S.env)
        yield S, Fn(e, env.mod, S.env.id, env.fname + '.<lambda>', S.cls, True)

    def ev_IfExp(self, e, S):
        for S, v in self.ev(e.test, S):
            if isinstance(v, Exc):
                yield S, v
                continue
            for S2, b in self.cond(v, S):
                for r in self.ev(e.body if b else e.orelse, S2):
                    yield r

    def ev_BoolOp(self, e, S):
        isand = isinstance(e.op, ast.And)

        def go(i, S):
            for S1, v in self.ev(e.values[i], S):
                if isinstance(v, Exc) or i == len(e.values) - 1:
                    yield S1, v
                    continue
                for S2, b in self.cond(v, S1):
                    if b == isand:
                        for r in go(i + 1, S2):
                            yield r
                    else:
                        yield S2, (v if self.truth(v, S2) is not None and not isinstance(v, U) else K(b))
        return go(0, S)

    def ev_UnaryOp(self, e, S):
        for S, v in self.ev(e.operand, S):
            if isinstance(v, Exc):
                yield S, v
                continue
            if isinstance(e.op, ast.Not):
                if isinstance(v, U) and S.facts.get(v.k) is None:
                    for S2, b in self.cond(v, S):
                        yield S2, K(not b)
                    continue
                t = self.truth(v, S)
                if t is None:
                    for S2, b in self.cond(v, S):
                        yield S2, K(not b)
                else:
                    yield S, K(not t)
                continue
            op = {'USub': 'neg', 'UAdd': 'pos', 'Invert': 'invert'}[type(e.op).__name__]
            for r in self.unop(op, v, S, e):
                yield r

    def unop(self, op, v, S, node):
        if isinstance(v, K):
            try:
                yield S, K({'neg': lambda x: -x, 'pos': lambda x: +x, 'invert': lambda x: ~x}[op](v.v))
            except Exception:
                yield S, self.exc('TypeError', 'bad operand for unary %s: %r' % (op, v.v), node, S, True)
            return
        if isinstance(v, Sc):
            if op == 'neg':
                yield S, Sc(-v.p, v.dt)
            elif op == 'pos':
                yield S, v
            else:
                yield S, self.top('invert')
            return
        if isinstance(v, Ref):
            o = S.g(v)
            if isinstance(o, Inst):
                m = self.findmethod(o.ci, '__%s__' % op)
                if m is not None:
                    for r in self.callfn(m, [v], {}, S, node):
                        yield r
                    return
                if any(isinstance(c, str) for c in self.prog.mro(o.ci)):
                    yield S, self.top('ext unop')
                    return
                yield S, self.exc('TypeError', 'bad operand type for unary %s' % op, node, S, True)
                return
            if isinstance(o, CArr):
                yield S, self.ca.unop(op, v, S, node)
                return
            if isinstance(o, Arr):
                for r in self.np.unop(op, v, S, node):
                    yield r
                return
        yield S, self.top('unop')

    def ev_BinOp(self, e, S):
        op = BINOP[type(e.op)]
        for S, l in self.ev(e.left, S):
            if isinstance(l, Exc):
                yield S, l
                continue
            for S1, r in self.ev(e.right, S):
                if isinstance(r, Exc):
                    yield S1, r
                    continue
                for x in self.binop(op, l, r, S1, e):
                    yield x

    def binop(self, op, l, r, S, node):
        lo = S.g(l) if isinstance(l, Ref) else None
        ro = S.g(r) if isinstance(r, Ref) else None
        if isinstance(l, K) and isinstance(r, K):
            yield S, self.kbin(op, l.v, r.v, S, node)
            return
        if isinstance(lo, Inst) or isinstance(ro, Inst):
            for x in self.instbin(op, l, r, lo, ro, S, node):
                yield x
            return
        if isinstance(lo, CArr) or isinstance(ro, CArr):
            yield S, self.ca.binop(op, l, r, S, node)
            return
        if isinstance(lo, (Arr,)) or isinstance(ro, (Arr,)):
            for x in self.np.binop(op, l, r, S, node):
                yield x
            return
        if isinstance(l, (Sc, K)) and isinstance(r, (Sc, K)):
            yield S, self.np.scbin(op, l, r, S, node)
            return
        if isinstance(l, Tup) and isinstance(r, Tup) and op == '+':
            yield S, Tup(l.items + r.items)
            return
        if isinstance(l, Tup) and isinstance(r, K) and op == '*' and isinstance(r.v, int):
            yield S, Tup(l.items * r.v)
            return
        if isinstance(r, Tup) and isinstance(l, K) and op == '*' and isinstance(l.v, int):
            yield S, Tup(r.items * l.v)
            return
        if isinstance(lo, Lst) and isinstance(ro, Lst) and op == '+':
            yield S, S.new(Lst(lo.items + ro.items))
            return
        if isinstance(lo, Lst) and isinstance(r, K) and op == '*' and isinstance(r.v, int):
            yield S, S.new(Lst(lo.items * r.v))
            return
        if isinstance(ro, Lst) and isinstance(l, K) and op == '*' and isinstance(l.v, int):
            yield S, S.new(Lst(ro.items * l.v))
            return
        if isinstance(lo, Dct) and isinstance(ro, Dct) and isinstance(lo.default, K) and isinstance(ro.default, K) and op in '+-&|':
            yield S, self.np.counters(lo, ro, op, S)
            return
        if isinstance(lo, SetO) and isinstance(ro, SetO):
            inr = lambda x: any(self.veq(x, y, S) is True for y in ro.items)
            if op == '-':
                yield S, S.new(SetO([x for x in lo.items if not inr(x)]))
                return
            if op == '&':
                yield S, S.new(SetO([x for x in lo.items if inr(x)]))
                return
            if op == '|':
                yield S, S.new(SetO(lo.items + [y for y in ro.items if not any(self.veq(x, y, S) is True for x in lo.items)]))
                return
        if (isinstance(l, K) and l.v is None or isinstance(r, K) and r.v is None) and not isinstance(l, Top) \
                and not isinstance(r, Top) and op != '%':
            yield S, self.exc('TypeError', 'unsupported operand None for %s' % op, node, S, True)
            return
        if isinstance(l, K) and isinstance(l.v, str) and op == '%':
            yield S, K('<str>')
            return
        if isinstance(l, (Tup,)) and isinstance(r, (K, Sc)) and op in '+-/' and not isinstance(r, Top):
            yield S, self.exc('TypeError', 'unsupported operand tuple %s scalar' % op, node, S, True)
            return
        if isinstance(l, U) or isinstance(r, U):
            if op in ('&', '|') and isinstance(l, (U, K)) and isinstance(r, (U, K)):
                for S1, a in self.cond(l, S):
                    for S2, b in self.cond(r, S1):
                        yield S2, K(bool(a and b) if op == '&' else bool(a or b))
                return
        yield S, self.top('binop %s %s %s' % (type(l).__name__ + (type(lo).__name__ if lo else ''), op, type(r).__name__ + (type(ro).__name__ if ro else '')))

    def kbin(self, op, a, b, S, node):
        import operator as o
        f = {'+': o.add, '-': o.sub, '*': o.mul, '/': o.truediv, '%': o.mod, '**': o.pow, '//': o.floordiv,
             '&': o.and_, '|': o.or_, '^': o.xor, '<<': o.lshift, '>>': o.rshift}.get(op)
        if f is None:
            return self.top('kbin')
        if isinstance(a, (DT, HashVal)) or isinstance(b, (DT, HashVal)):
            return self.top('kbin dtype')
        try:
            r = f(a, b)
            if isinstance(r, (str, int)) and not isinstance(r, bool) and (len(r) > 2000 if isinstance(r, str) else abs(r) > 10**30):
                return self.top('big const')
            return K(r)
        except ZeroDivisionError:
            return self.exc('ZeroDivisionError', 'division by zero', node, S)
        except Exception:
            return self.exc('TypeError', 'unsupported operands %r %s %r' % (a, op, b), node, S, True)

    def instbin(self, op, l, r, lo, ro, S, node):
        d = DUNDER[op]
        tried = False
        if isinstance(lo, Inst):
            m = self.findmethod(lo.ci, '__%s__' % d)
            if m is None and self.hasext(lo.ci):
                yield S, self.top('external base %s.%s' % (lo.ci.name, d))
                return
            if m is not None:
                for S1, x in self.callfn(m, [l, r], {}, S, node):
                    if isinstance(x, K) and x.v is NotImplemented:
                        for y in self.rinst(d, l, r, ro, S1, node, op):
                            yield y
                    else:
                        yield S1, x
                return
        for y in self.rinst(d, l, r, ro, S, node, op):
            yield y

    def hasext(self, ci):
        return any(isinstance(c, str) and not c.startswith('ext:object') for c in self.prog.mro(ci))

    def rinst(self, d, l, r, ro, S, node, op):
        if isinstance(ro, Inst):
            if isinstance(l, Ref) and isinstance(S.g(l), Arr):
                a = S.g(l)
                if a.kind in ('nd', 'mat'):
                    m = self.findmethod(ro.ci, '__array_ufunc__')
                    if m is not None and '__array_priority__' not in ro.ci.attrs:
                        uf = {'+': 'numpy.add', '-': 'numpy.subtract', '*': 'numpy.multiply', '@': 'numpy.matmul',
                              '/': 'numpy.divide'}.get(op)
                        if a.kind == 'mat' and op == '*':
                            yield S, self.top('np.matrix * object')
                            return
                        if uf:
                            for x in self.callfn(m, [r, Ext(uf), K('__call__'), l, r], {}, S, node):
                                yield x
                            return
            if isinstance(l, Top):
                yield S, self.top('top op inst')
                return
            m = self.findmethod(ro.ci, '__r%s__' % d)
            if m is None and self.hasext(ro.ci):
                yield S, self.top('external base')
                return
            if m is not None:
                for S1, x in self.callfn(m, [r, l], {}, S, node):
                    if isinstance(x, K) and x.v is NotImplemented:
                        yield S1, self.exc('TypeError', 'unsupported operand types for %s' % op, node, S1)
                    else:
                        yield S1, x
                return
        if isinstance(r, Top):
            yield S, self.top('inst op top')
            return
        yield S, self.exc('TypeError', 'unsupported operand types for %s' % op, node, S)

    def ibinop(self, op, l, r, S, node):
        lo = S.g(l) if isinstance(l, Ref) else None
        if isinstance(lo, Inst):
            d = DUNDER[op]
            m = self.findmethod(lo.ci, '__i%s__' % d)
            if m is not None:
                for S1, x in self.callfn(m, [l, r], {}, S, node):
                    if isinstance(x, K) and x.v is NotImplemented:
                        for y in self.binop(op, l, r, S1, node):
                            yield y
                    else:
                        yield S1, x
                return
        elif isinstance(lo, Lst) and op == '+':
            it = self.seq(r, S)
            if it is not None:
                S.w(l).items.extend(it)
                S.lastw[(l.id, '')] = self.loc(node, S)
                yield S, l
                return
        elif isinstance(lo, CArr):
            yield S, self.ca.ibinop(op, l, r, S, node)
            return
        elif isinstance(lo, Arr):
            for x in self.np.ibinop(op, l, r, S, node):
                yield x
            return
        for x in self.binop(op, l, r, S, node):
            yield x

    def ev_Compare(self, e, S):
        def go(i, l, S):
            for S1, r in self.ev(e.comparators[i], S):
                if isinstance(r, Exc):
                    yield S1, r
                    continue
                for S2, v in self.compare(CMP[type(e.ops[i])], l, r, S1, e):
                    if isinstance(v, Exc) or i == len(e.ops) - 1:
                        yield S2, v
                        continue
                    for S3, b in self.cond(v, S2):
                        if b:
                            for x in go(i + 1, r, S3):
                                yield x
                        else:
                            yield S3, FALSE
        for S, l in self.ev(e.left, S):
            if isinstance(l, Exc):
                yield S, l
                continue
            for x in go(0, l, S):
                yield x

    def isnone(self, v):
        """True/False/None"""
        if isinstance(v, K):
            return v.v is None
        if isinstance(v, Top):
            return None
        return False

    def compare(self, op, l, r, S, node):
        if op in ('is', 'is not'):
            t = self.vis(l, r, S)
            if t is None:
                yield S, U(('is', l.key(), r.key())) if op == 'is' else U(('isnot', l.key(), r.key()))
            else:
                yield S, K(t if op == 'is' else not t)
            return
        if op in ('in', 'not in'):
            for S1, t in self.contains(r, l, S, node):
                if isinstance(t, Exc):
                    yield S1, t
                elif t is None:
                    u = U(('in', l.key(), r.key()))
                    if op == 'in':
                        yield S1, u
                    else:
                        for S2, b in self.cond(u, S1):
                            yield S2, K(not b)
                else:
                    yield S1, K(t if op == 'in' else not t)
            return
        if op in ('==', '!='):
            lo = S.g(l) if isinstance(l, Ref) else None
            ro = S.g(r) if isinstance(r, Ref) else None
            if isinstance(lo, Inst):
                m = self.findmethod(lo.ci, '__eq__' if op == '==' else '__ne__')
                if m is not None:
                    for x in self.callfn(m, [l, r], {}, S, node):
                        yield x
                    return
            if isinstance(lo, CArr) or isinstance(ro, CArr):
                yield S, self.ca.compare(op, l, r, S, node)
                return
            if isinstance(lo, Arr) or isinstance(ro, Arr):
                yield S, self.top('array comparison')
                return
            t = self.veq(l, r, S)
            if t is None:
                u = U(('==',) + tuple(sorted([repr(l.key()), repr(r.key())])))
                if op == '==':
                    yield S, u
                else:
                    for S2, b in self.cond(u, S):
                        yield S2, K(not b)
            else:
                yield S, K(t if op == '==' else not t)
            return
        # ordering
        if isinstance(l, K) and isinstance(r, K):
            try:
                yield S, K({'<': lambda a, b: a < b, '<=': lambda a, b: a <= b, '>': lambda a, b: a > b,
                            '>=': lambda a, b: a >= b}[op](l.v, r.v))
            except Exception:
                yield S, self.exc('TypeError', 'unorderable %r %s %r' % (l.v, op, r.v), node, S, True)
            return
        lo = S.g(l) if isinstance(l, Ref) else None
        ro = S.g(r) if isinstance(r, Ref) else None
        if isinstance(lo, SetO) and isinstance(ro, SetO):
            inn = lambda x, ys: any(self.veq(x, y, S) is True for y in ys)
            if op == '<=':
                yield S, K(all(inn(x, ro.items) for x in lo.items))
                return
            if op == '>=':
                yield S, K(all(inn(x, lo.items) for x in ro.items))
                return
        if isinstance(lo, CArr) or isinstance(ro, CArr):
            yield S, self.ca.compare(op, l, r, S, node)
            return
        t = self.np.order(op, l, r, S)
        if t is not None:
            yield S, K(t)
            return
        if isinstance(lo, Arr) or isinstance(ro, Arr):
            yield S, self.top('array ordering')
            return
        yield S, U((op, l.key(), r.key()))

    def vis(self, a, b, S):
        if isinstance(a, Top) or isinstance(b, Top) or isinstance(a, U) or isinstance(b, U):
            return None
        if isinstance(a, K) and isinstance(b, K):
            if a.v is None or b.v is None or isinstance(a.v, bool) or isinstance(b.v, bool):
                return a.v is b.v
            return a.v == b.v and type(a.v) == type(b.v)
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a.id == b.id
        if isinstance(a, (Ext, Cls, ModV, UFn)) or isinstance(b, (Ext, Cls, ModV, UFn)):
            if type(a) is type(b):
                return a.key() == b.key()
            return False
        if isinstance(a, Tup) or isinstance(b, Tup):
            return a is b
        if type(a) is not type(b):
            return False
        return a.key() == b.key() or None

    def veq(self, a, b, S):
        """equality of values: True/False/None(unknown)"""
        if a is b:
            return True
        if isinstance(a, Top) or isinstance(b, Top) or isinstance(a, U) or isinstance(b, U):
            return None
        da, db = self.np.as_dtype(a), self.np.as_dtype(b)
        if da is not None and db is not None and (isinstance(a, Ext) or isinstance(b, Ext) or
                                                  isinstance(getattr(a, 'v', None), DT) or isinstance(getattr(b, 'v', None), DT)):
            return da == db
        if isinstance(a, K) and isinstance(b, K):
            try:
                return bool(a.v == b.v)
            except Exception:
                return None
        if isinstance(a, Sc) or isinstance(b, Sc):
            pa, pb = self.np.spoly(a), self.np.spoly(b)
            if pa is None or pb is None:
                return False if (isinstance(a, (Tup,)) or isinstance(b, (Tup,)) or self.isnone(a) or self.isnone(b)
                                 or isinstance(getattr(a, 'v', None), str) or isinstance(getattr(b, 'v', None), str)) else None
            d = (pa - pb)
            if d.is_zero():
                return True
            if d.const_value() is not None:
                return False
            return False      # generic position: distinct normal forms are taken to be distinct values
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return False
            rs = [self.veq(x, y, S) for x, y in zip(a.items, b.items)]
            if any(x is False for x in rs):
                return False
            return True if all(x is True for x in rs) else None
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.id == b.id:
                return True
            oa, ob = S.g(a), S.g(b)
            if isinstance(oa, Lst) and isinstance(ob, Lst):
                return self.veq(Tup(oa.items), Tup(ob.items), S)
            if isinstance(oa, SetO) and isinstance(ob, SetO):
                inn = lambda x, ys: any(self.veq(x, y, S) is True for y in ys)
                return len(oa.items) == len(ob.items) and all(inn(x, ob.items) for x in oa.items)
            if isinstance(oa, Inst) and isinstance(ob, Inst):
                m = self.findmethod(oa.ci, '__eq__')
                if m is None:
                    return False
                outs = list(self.callfn(m, [a, b], {}, S, None))
                if len(outs) == 1:
                    return self.truth(outs[0][1], outs[0][0])
                return None
            if isinstance(oa, Arr) or isinstance(ob, Arr):
                return None
            return False if type(oa) is not type(ob) else None
        if isinstance(a, Ref) or isinstance(b, Ref):
            r, o = (a, b) if isinstance(a, Ref) else (b, a)
            ob = S.g(r)
            if isinstance(ob, Inst):
                m = self.findmethod(ob.ci, '__eq__')
                if m is None:
                    return False
                outs = list(self.callfn(m, [r, o], {}, S, None))
                if len(outs) == 1:
                    return self.truth(outs[0][1], outs[0][0])
                return None
            if isinstance(ob, Arr):
                return None
            return False
        if type(a) is not type(b):
            return False
        return a.key() == b.key()

    def contains(self, c, x, S, node):
        """yields (S, True/False/None/Exc)"""
        if isinstance(c, K) and isinstance(c.v, str) and isinstance(x, K) and isinstance(x.v, str):
            yield S, (x.v in c.v)
            return
        if isinstance(c, Ref):
            o = S.g(c)
            if isinstance(o, Inst):
                m = self.findmethod(o.ci, '__contains__')
                if m is not None:
                    for S1, v in self.callfn(m, [c, x], {}, S, node):
                        yield S1, (v if isinstance(v, Exc) else self.truth(v, S1))
                    return
        items = self.seq(c, S)
        if items is None:
            if isinstance(c, K):
                yield S, self.exc('TypeError', 'argument of type %s is not iterable' % type(c.v).__name__, node, S, True)
                return
            yield S, None
            return
        unk = False
        for y in items:
            e = self.veq(x, y, S)
            if e is True:
                yield S, True
                return
            if e is None:
                unk = True
        if isinstance(c, Ref) and isinstance(S.g(c), Dct) and S.g(c).open:
            unk = True
        yield S, (None if unk else False)

    def ev_Attribute(self, e, S):
        for S, o in self.ev(e.value, S):
            if isinstance(o, Exc):
                yield S, o
                continue
            for r in self.getattr(o, self.mangle(e.attr, S), S, e):
                yield r

    def findmethod(self, ci, name):
        for c in self.prog.mro(ci):
            if isinstance(c, str):
                continue
            if name in c.methods:
                return Fn(c.methods[name], c.mod, None, c.qual + '.' + name, c)
            if name in c.attrs and isinstance(c.attrs[name], ast.Name) and c.attrs[name].id in c.methods:
                n = c.attrs[name].id
                return Fn(c.methods[n], c.mod, None, c.qual + '.' + n, c)
        return None

    def getattr(self, o, name, S, node):
        if isinstance(o, Top):
            yield S, self.top('attr of top')
            return
        if isinstance(o, U):
            yield S, self.top('attr of U')
            return
        if isinstance(o, Ref):
            ob = S.g(o)
            if isinstance(ob, Inst):
                # data descriptors (properties) take precedence
                for c in self.prog.mro(ob.ci):
                    if isinstance(c, str):
                        continue
                    if name in c.props:
                        f = Fn(c.props[name], c.mod, None, c.qual + '.' + name, c)
                        for r in self.callfn(f, [o], {}, S, node):
                            yield r
                        return
                    if name in c.methods or name in c.attrs:
                        break
                if name in ob.f:
                    yield S, ob.f[name]
                    return
                if name == '__class__':
                    yield S, Cls(ob.ci)
                    return
                if name == '__dict__':
                    yield S, S.new(Opaque('instdict', {'obj': o}))
                    return
                m = self.findmethod(ob.ci, name)
                if m is not None:
                    if name in m.cls.static:
                        yield S, m
                    elif name in m.cls.classm:
                        yield S, BM(m, Cls(ob.ci))
                    else:
                        yield S, BM(m, o)
                    return
                for c in self.prog.mro(ob.ci):
                    if not isinstance(c, str) and name in c.attrs:
                        env0 = S.env
                        S.env = self.newenv(S, c.mod, None, c.qual)
                        outs = list(self.ev(c.attrs[name], S))
                        S.env = env0
                        yield S, outs[0][1]
                        return
                g = self.findmethod(ob.ci, '__getattr__')
                if g is not None:
                    for r in self.callfn(g, [o, K(name)], {}, S, node):
                        yield r
                    return
                if self.hasext(ob.ci) or ob.f.get('__open__') is not None:
                    yield S, self.top('external attr %s.%s' % (ob.ci.name, name))
                    return
                yield S, self.exc('AttributeError', '%s object has no attribute %s' % (ob.ci.name, name), node, S, True)
                return
            if isinstance(ob, Opaque):
                if name in ob.f:
                    yield S, ob.f[name]
                    return
                yield S, EM(o, name)
                return
            if isinstance(ob, Arr):
                for r in self.np.getattr(o, name, S, node):
                    yield r
                return
            if isinstance(ob, CArr):
                yield S, self.ca.attr(o, name, S)
                return
            if name == '__class__':
                yield S, Ext('builtins.' + {'Lst': 'list', 'Dct': 'dict', 'SetO': 'set'}.get(type(ob).__name__, 'object'))
                return
            allowed = {'Lst': 'append extend insert pop remove sort reverse index count copy clear',
                       'Dct': 'get items keys values pop update setdefault copy clear popitem',
                       'SetO': 'add update union intersection difference pop remove discard copy issubset issuperset',
                       'GenO': 'send close __next__ next'}.get(type(ob).__name__)
            if allowed is not None and name not in allowed.split() and not name.startswith('__'):
                yield S, self.exc('AttributeError', '%s has no attribute %s' % (type(ob).__name__, name), node, S, name not in ('shape', 'ndim', 'dtype'))
                return
            yield S, EM(o, name)
            return
        if isinstance(o, ModV):
            m = self.prog.module(o.name)
            r = self.prog.resolve(m, name)
            if r is not None:
                yield S, self.rval(r, S, node)
            elif self.prog.module(o.name + '.' + name):
                yield S, ModV(o.name + '.' + name)
            else:
                yield S, Ext(o.name + '.' + name)
            return
        if isinstance(o, Cls):
            if name == '__name__':
                yield S, K(o.ci.name)
                return
            m = self.findmethod(o.ci, name)
            if m is not None:
                yield S, (BM(m, o) if name in m.cls.classm else m)
                return
            if name == '__new__':
                yield S, Ext('builtins.object.__new__')
                return
            for c in self.prog.mro(o.ci):
                if not isinstance(c, str) and name in c.attrs:
                    env0 = S.env
                    S.env = self.newenv(S, c.mod, None, c.qual)
                    outs = list(self.ev(c.attrs[name], S))
                    S.env = env0
                    yield S, outs[0][1]
                    return
            if not any(isinstance(c, str) for c in self.prog.mro(o.ci)) and not name.startswith('__'):
                yield S, self.exc('AttributeError', 'type object %s has no attribute %s' % (o.ci.name, name), node, S, True)
                return
            yield S, (self.top('class attr'))
            return
        if isinstance(o, Super):
            mro = self.prog.mro(S.g(o.self_).ci) if isinstance(o.self_, Ref) and isinstance(S.g(o.self_), Inst) else self.prog.mro(o.ci)
            seen = False
            for c in mro:
                if c is o.ci:
                    seen = True
                    continue
                if not seen or isinstance(c, str):
                    continue
                if name in c.methods:
                    yield S, BM(Fn(c.methods[name], c.mod, None, c.qual + '.' + name, c), o.self_)
                    return
                if name in c.props:
                    f = Fn(c.props[name], c.mod, None, c.qual + '.' + name, c)
                    for r in self.callfn(f, [o.self_], {}, S, node):
                        yield r
                    return
            yield S, self.top('super external ' + name)
            return
        for r in self.np.valattr(o, name, S, node):
            yield r

    def ev_Subscript(self, e, S):
        for S, ok in self.ev_many([e.value, e.slice], S):
            if isinstance(ok, Exc):
                yield S, ok
                continue
            for r in self.getitem(ok[0], ok[1], S, e):
                yield r

    def ev_Slice(self, e, S):
        es = [x if x is not None else ast.Constant(value=None) for x in (e.lower, e.upper, e.step)]
        for S, vs in self.ev_many(es, S):
            yield S, (vs if isinstance(vs, Exc) else Slc(*vs))

    def ev_Starred(self, e, S):
        return self.ev(e.value, S)

    def getitem(self, o, k, S, node):
        if isinstance(o, Top):
            yield S, self.top('item of top')
            return
        if isinstance(o, Tup) or (isinstance(o, K) and isinstance(o.v, (str, bytes))) or \
                (isinstance(o, Ref) and isinstance(S.g(o), Lst)):
            items = o.items if isinstance(o, Tup) else ([K(c) for c in o.v] if isinstance(o, K) else S.g(o).items)
            if isinstance(k, K) and isinstance(k.v, (int,)):
                if -len(items) <= k.v < len(items):
                    yield S, items[k.v]
                else:
                    yield S, self.exc('IndexError', 'index out of range', node, S)
                return
            if isinstance(k, Slc) and all(isinstance(x, K) for x in (k.a, k.b, k.c)):
                sub = items[slice(k.a.v, k.b.v, k.c.v)]
                if isinstance(o, K):
                    yield S, K(o.v[slice(k.a.v, k.b.v, k.c.v)])
                elif isinstance(o, Tup):
                    yield S, Tup(sub)
                else:
                    yield S, S.new(Lst(sub))
                return
            yield S, self.top('seq index')
            return
        if isinstance(o, Ref):
            ob = S.g(o)
            if isinstance(ob, Dct):
                unk = ob.open
                for kk, vv in ob.items:
                    q = self.veq(kk, k, S)
                    if q is True:
                        yield S, vv
                        return
                    if q is None:
                        unk = True
                if unk:
                    yield S, self.top('dict item')
                elif isinstance(ob.default, K):
                    yield S, ob.default
                elif ob.default is not None:
                    for S, r in self.call(ob.default, [], {}, S, node):
                        if not isinstance(r, Exc):
                            S.w(o).items.append((k, r))
                        yield S, r
                else:
                    yield S, self.exc('KeyError', 'key %r' % (k,), node, S)
                return
            if isinstance(ob, Inst):
                m = self.findmethod(ob.ci, '__getitem__')
                if m is not None:
                    for r in self.callfn(m, [o, k], {}, S, node):
                        yield r
                    return
            if isinstance(ob, CArr):
                yield S, self.ca.getitem(o, k, S, node)
                return
            if isinstance(ob, Arr):
                for r in self.np.getitem(o, k, S, node):
                    yield r
                return
            if isinstance(ob, Opaque) and ob.kind == 'instdict':
                o, ob = self.np.snapdict(o, S), None
                for r in self.getitem(o, k, S, node):
                    yield r
                return
            if isinstance(ob, Opaque) and ob.kind == 'flags' and isinstance(k, K):
                n = {'CARRAY': 'carray', 'CA': 'carray', 'C_CONTIGUOUS': 'c_contiguous', 'C': 'c_contiguous', 'CONTIGUOUS': 'c_contiguous',
                     'B': 'behaved', 'BEHAVED': 'behaved', 'W': 'writeable', 'WRITEABLE': 'writeable', 'A': 'aligned', 'ALIGNED': 'aligned'}.get(k.v)
                yield S, (ob.f[n] if n else self.top('array flag'))
                return
        if isinstance(o, K) and o.v is None:
            yield S, self.exc('TypeError', 'None is not subscriptable', node, S, True)
            return
        yield S, self.top('getitem')

    # sequences ------------------------------------------------------
    def seq(self, v, S):
        """list of items of a finite, fully known sequence, else None"""
        if isinstance(v, Tup):
            return list(v.items)
        if isinstance(v, K) and isinstance(v.v, (str,)):
            return [K(c) for c in v.v]
        if isinstance(v, K) and isinstance(v.v, range):
            return [K(i) for i in v.v]
        if isinstance(v, Ref):
            o = S.g(v)
            if isinstance(o, (Lst, SetO)):
                return list(o.items)
            if isinstance(o, Dct):
                return None if o.open else [k for k, _ in o.items]
            if isinstance(o, GenO):
                if o.exc is not None:
                    return None
                r = o.items[o.pos:]
                S.w(v).pos = len(o.items)
                return r
            if isinstance(o, Arr):
                return self.np.arrseq(v, S)
            if isinstance(o, CArr):
                return self.ca.seq(v, S)
        return None

    def iterate(self, v, S, node):
        """yields (S, items or None or Exc)"""
        if isinstance(v, Ref):
            o = S.g(v)
            if isinstance(o, Inst):
                m = self.findmethod(o.ci, '__iter__')
                if m is not None:
                    for S1, r in self.callfn(m, [v], {}, S, node):
                        yield S1, (r if isinstance(r, Exc) else self.seq(r, S1))
                    return
                yield S, None
                return
            if isinstance(o, GenO) and o.exc is not None:
                items = o.items[o.pos:] + [o.exc]
                S.w(v).pos = len(o.items)
                yield S, items
                return
        if isinstance(v, K) and not isinstance(v.v, (str, range, bytes)):
            yield S, self.exc('TypeError', '%r object is not iterable' % type(v.v).__name__, node, S, v.v is None)
            return
        if isinstance(v, Sc):
            yield S, self.exc('TypeError', 'scalar is not iterable', node, S)
            return
        yield S, self.seq(v, S)

    # comprehensions ---------------------------------------------------
    def ev_ListComp(self, e, S):
        for S, items in self.comp(e, [e.elt], S):
            yield S, (items if isinstance(items, Exc) else self.top('comp') if items is None else S.new(Lst([x[0] for x in items])))

    def ev_SetComp(self, e, S):
        for S, items in self.comp(e, [e.elt], S):
            yield S, (items if isinstance(items, Exc) else self.top('comp') if items is None else S.new(SetO([x[0] for x in items])))

    def ev_GeneratorExp(self, e, S):
        for S, items in self.comp(e, [e.elt], S):
            yield S, (items if isinstance(items, Exc) else self.top('comp') if items is None else S.new(GenO([x[0] for x in items])))

    def ev_DictComp(self, e, S):
        for S, items in self.comp(e, [e.key, e.value], S):
            if isinstance(items, Exc):
                yield S, items
                continue
            if items is None:
                d = Dct()
                d.open = True
                yield S, S.new(d)
                continue
            d = S.new(Dct())
            states = [S]
            for k, v in items:
                for s, e2 in self.setitem(d, k, v, S, e):
                    S = s
            yield S, d

    def comp(self, e, elts, S):
        outer = S.env
        S.env = S.new(Env(S.g(outer).mod, outer.id, S.g(outer).fname))

        def gen(i, S):
            """yields (S, list of tuples or None or Exc)"""
            if i == len(e.generators):
                for S1, vs in self.ev_many(elts, S):
                    yield S1, (vs if isinstance(vs, Exc) else [tuple(vs)])
                return
            g = e.generators[i]
            for S1, it in self.ev(g.iter, S):
                if isinstance(it, Exc):
                    yield S1, it
                    continue
                for S2, items in self.iterate(it, S1, e):
                    if isinstance(items, Exc) or items is None:
                        if items is None:
                            # evaluate the element once on an unknown item, to see internal failures; result unknown
                            pass
                        yield S2, items
                        continue
                    for r in loop(i, g, items, 0, S2):
                        yield r

        def loop(i, g, items, j, S):
            if j == len(items):
                yield S, []
                return
            if isinstance(items[j], Exc):
                yield S, items[j]
                return
            for S1, er in self.assign(g.target, items[j], S, e):
                if er is not None:
                    yield S1, er
                    continue
                for S2, ok in conds(g.ifs, S1):
                    if isinstance(ok, Exc):
                        yield S2, ok
                        continue
                    if not ok:
                        for r in loop(i, g, items, j + 1, S2):
                            yield r
                        continue
                    for S3, xs in gen(i + 1, S2):
                        if isinstance(xs, Exc) or xs is None:
                            yield S3, xs
                            continue
                        for S4, ys in loop(i, g, items, j + 1, S3):
                            if isinstance(ys, Exc) or ys is None:
                                yield S4, ys
                            else:
                                yield S4, xs + ys

        def conds(ifs, S):
            if not ifs:
                yield S, True
                return
            for S1, v in self.ev(ifs[0], S):
                if isinstance(v, Exc):
                    yield S1, v
                    continue
                for S2, b in self.cond(v, S1):
                    if b:
                        for r in conds(ifs[1:], S2):
                            yield r
                    else:
                        yield S2, False

        for S1, r in gen(0, S):
            S1.env = outer
            yield S1, r

    # calls ---------------------------------------------------------------
    def ev_Call(self, e, S):
        for S, f in self.ev(e.func, S):
            if isinstance(f, Exc):
                yield S, f
                continue
            if isinstance(f, Ext) and f.path == 'builtins.super':
                if not e.args:
                    selfname = None
                    env = S.g(S.env)
                    fnode = getattr(env, 'fnode', None)
                    nm = fnode.args.args[0].arg if fnode is not None and fnode.args.args else 'self'
                    yield S, Super(S.cls, self.lookup(nm, S, e))
                    continue
            for S1, args in self.ev_elts(e.args, S):
                if isinstance(args, Exc):
                    yield S1, args
                    continue
                for S2, kvs in self.ev_many([k.value for k in e.keywords], S1):
                    if isinstance(kvs, Exc):
                        yield S2, kvs
                        continue
                    kw = {}
                    bad = False
                    for k, v in zip(e.keywords, kvs):
                        if k.arg is None:
                            if isinstance(v, Ref) and isinstance(S2.g(v), Dct):
                                for kk, vv in S2.g(v).items:
                                    if isinstance(kk, K) and isinstance(kk.v, str):
                                        if kk.v in kw:
                                            yield S2, self.exc('TypeError', 'multiple values for keyword %s' % kk.v, e, S2, True)
                                            bad = True
                                            break
                                        kw[kk.v] = vv
                            elif isinstance(v, Top):
                                kw['**'] = v
                        else:
                            kw[k.arg] = v
                    if bad:
                        continue
                    for r in self.call(f, args, kw, S2, e):
                        yield r

    def call(self, f, args, kw, S, node):
        if isinstance(f, Fn):
            return self.callfn(f, args, kw, S, node)
        if isinstance(f, BM):
            if isinstance(f.fn, Fn):
                return self.callfn(f.fn, [f.self_] + list(args), kw, S, node)
        if isinstance(f, Cls):
            return self.construct(f.ci, args, kw, S, node)
        if isinstance(f, Part):
            k2 = dict(f.kw)
            k2.update(kw)
            return self.call(f.fn, list(f.args) + list(args), k2, S, node)
        if isinstance(f, UFn):
            return self.np.calluser(f, args, kw, S, node)
        if isinstance(f, Ext):
            if f.path in self.hooks:
                return self.hooks[f.path](self, args, kw, S, node)
            if 'native' in self.hooks and f.path.startswith('quspin.'):
                r = self.hooks['native'](self, f.path, args, kw, S, node)
                if r is not None:
                    return iter([(S, r)])
            return self.np.callext(f.path, args, kw, S, node)
        if isinstance(f, EM):
            return self.np.callmethod(f.obj, f.name, args, kw, S, node)
        if isinstance(f, Ref):
            o = S.g(f)
            if isinstance(o, Inst):
                m = self.findmethod(o.ci, '__call__')
                if m is not None:
                    return self.callfn(m, [f] + list(args), kw, S, node)
            if isinstance(o, Opaque):
                return self.np.callmethod(f, '__call__', args, kw, S, node)
            if isinstance(o, (Inst, Lst, Dct, SetO, Arr)):
                if not (isinstance(o, Inst) and self.hasext(o.ci)):
                    return iter([(S, self.exc('TypeError', 'object is not callable', node, S, True))])
        if isinstance(f, (K, Tup, Sc)):
            return iter([(S, self.exc('TypeError', '%r is not callable' % (f,), node, S, True))])
        for v in list(args) + list(kw.values()):
            self.np.havoc(v, S, node)
        return iter([(S, self.top('call of %s' % type(f).__name__))])

    def construct(self, ci, args, kw, S, node):
        q = ci.qual
        if q in self.hooks:
            for r in self.hooks[q](self, args, kw, S, node):
                yield r
            return
        for c in self.prog.mro(ci):
            if isinstance(c, str) and c[4:] in BUILTIN_EXC:
                yield S, S.new(Opaque('exc:' + ci.name))
                return
        o = S.new(Inst(ci))
        m = self.findmethod(ci, '__init__')
        if m is None:
            if self.hasext(ci):
                yield S, self.top('external constructor')
            elif args or kw:
                yield S, self.exc('TypeError', '%s() takes no arguments' % ci.name, node, S, True)
            else:
                yield S, o
            return
        for S1, r in self.callfn(m, [o] + list(args), kw, S, node):
            yield S1, (r if isinstance(r, Exc) else o)

    def bindargs(self, f, args, kw, S, node):
        """-> dict or Exc"""
        a = f.node.args
        names = [x.arg for x in getattr(a, 'posonlyargs', [])] + [x.arg for x in a.args]
        d = {}
        args = list(args)
        if len(args) > len(names):
            if a.vararg is None:
                return self.exc('TypeError', '%s() takes %d positional arguments but %d were given' % (f.name, len(names), len(args)), node, S, True)
            d[a.vararg.arg] = Tup(args[len(names):])
            args = args[:len(names)]
        elif a.vararg is not None:
            d[a.vararg.arg] = Tup(())
        for n, v in zip(names, args):
            d[n] = v
        kw = dict(kw)
        openkw = kw.pop('**', None)
        kwonly = [x.arg for x in a.kwonlyargs]
        for n in list(kw):
            if n in names or n in kwonly:
                if n in d:
                    return self.exc('TypeError', '%s() got multiple values for argument %s' % (f.name, n), node, S, True)
                d[n] = kw.pop(n)
        if a.kwarg is not None:
            dd = Dct([(K(k), v) for k, v in kw.items()])
            dd.open = openkw is not None
            d[a.kwarg.arg] = S.new(dd)
        elif kw:
            return self.exc('TypeError', '%s() got an unexpected keyword argument %s' % (f.name, sorted(kw)[0]), node, S, True)
        defs = a.defaults
        for n, dn in zip(names[len(names) - len(defs):], defs):
            if n not in d:
                d[n] = self.top('open kwargs') if openkw is not None else self.default(f, n, dn, S)
        for n, dn in zip(kwonly, a.kw_defaults):
            if n not in d and dn is not None:
                d[n] = self.default(f, n, dn, S)
        for n in names + kwonly:
            if n not in d:
                if openkw is not None:
                    d[n] = self.top('open kwargs')
                    continue
                return self.exc('TypeError', '%s() missing required argument %s' % (f.name, n), node, S, True)
        return d

    def default(self, f, n, dn, S):
        k = (id(f.node), n)
        if k in S.defaults:
            return S.defaults[k]
        env0 = S.env
        S.env = self.newenv(S, f.mod, f.env, '<default>')
        try:
            outs = list(self.ev(dn, S))
        finally:
            S.env = env0
        v = outs[0][1]
        if isinstance(v, Ref):
            S.w(v).origin = 'default value of %s in %s' % (n, f.name)
            S.defaults[k] = v
        return v

    @staticmethod
    def iskernel(node):
        for d in node.decorator_list:
            d = d.func if isinstance(d, ast.Call) else d
            n = d.attr if isinstance(d, ast.Attribute) else getattr(d, 'id', '')
            if n in ('njit', 'jit'):
                return True
        return False

    def callfn(self, f, args, kw, S, node):
        if f.name in self.hooks:
            for r in self.hooks[f.name](self, args, kw, S, node):
                yield r
            return
        d = self.bindargs(f, args, kw, S, node)
        if isinstance(d, Exc):
            yield S, d
            return
        if S.depth > self.MAXDEPTH:
            yield S, self.top('depth')
            return
        if not f.lam and getattr(f.node, 'decorator_list', None) and self.iskernel(f.node):
            COV.add(f.name)
            for r in self.np.kernel(f, d, S, node):
                yield r
            return
        self.cov_funcs.add(f.name)
        COV.add(f.name)
        env0, cls0, y0 = S.env, S.cls, S.ylist
        envr = S.new(Env(f.mod, f.env, f.name.split('quspin.', 1)[-1]))
        env = S.g(envr)
        env.fnode = f.node if not f.lam else None
        isgen = False
        if not f.lam:
            locs, isgen = self.assigned(f.node)
            for n in locs:
                env.d[n] = None
        env.d.update(d)
        S.env = envr
        S.cls = f.cls
        S.depth += 1
        if f.lam:
            for S1, v in self.ev(f.node.body, S):
                S1.env, S1.cls, S1.depth = env0, cls0, S1.depth - 1
                yield S1, v
            return
        if isgen:
            S.ylist = S.new(Lst([])).id
        for S1, sig in self.block(f.node.body, S):
            yl = S1.ylist
            S1.env, S1.cls, S1.ylist = env0, cls0, y0
            S1.depth -= 1
            if isgen:
                items = S1.g(yl).items
                yield S1, S1.new(GenO(items, sig if isinstance(sig, Exc) else None))
                continue
            if sig is None:
                yield S1, NONE
            elif isinstance(sig, Ret):
                yield S1, sig.v
            elif isinstance(sig, Exc):
                yield S1, sig
            else:
                yield S1, NONE

    def ev_Yield(self, e, S):
        if e.value is None:
            S.w(S.ylist).items.append(NONE)
            yield S, NONE
            return
        for S, v in self.ev(e.value, S):
            if isinstance(v, Exc):
                yield S, v
                continue
            if 'onyield' in self.hooks:
                v = self.hooks['onyield'](self, v, S)
            S.w(S.ylist).items.append(v)
            yield S, NONE

    def ev_YieldFrom(self, e, S):
        for S, v in self.ev(e.value, S):
            it = self.seq(v, S) if not isinstance(v, Exc) else None
            S.w(S.ylist).items.extend(it or [])
            yield S, NONE

    def isgenerator(self, f):
        return self.assigned(f.node)[1]
