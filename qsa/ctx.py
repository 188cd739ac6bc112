"""Analysis contexts: synthetic client modules whose abstract inputs are symbolic matrices, vectors and drives."""
import ast
from .values import *
from .terms import Poly, declare, Stack, Concat
from .interp import Interp, Ret, Budget
from .program import Program, AnalysisBroken, Module

PRELUDE = '''
import numpy as np
import scipy.sparse as sp
'''


class SynthModule(object):
    """quacks like program.Module"""

    def __init__(self, prog, src, name='<client>'):
        self.prog, self.name, self.rel, self.is_pkg = prog, name, name, False
        self.stars, self.alt = [], {}
        self.bind = {}
        self.tree = ast.parse(src)
        for st in self.tree.body:
            if isinstance(st, ast.ImportFrom):
                for a in st.names:
                    self.bind[a.asname or a.name] = ('from', st.module, a.name)
            elif isinstance(st, ast.Import):
                for a in st.names:
                    self.bind[a.asname or a.name] = ('import', a.name)

    def absname(self, node):
        return node.module


class SynthLib(Module):
    """a support module of the analysis (e.g. a user-defined basis class) importable by client code"""

    def __init__(self, prog, name, src):
        self.prog, self.name, self.path, self.is_pkg = prog, name, '<%s>' % name, False
        self.src, self.tree = src, ast.parse(src)
        self.bind, self.stars, self.alt, self.rel = {}, [], {}, '<%s>' % name
        self._scan(self.tree.body, True)
        prog.mods[name] = self


class Outcome(object):
    """one abstract end state of a client script"""
    __slots__ = ('S', 'exc', 'env', 'top')

    def __init__(self, S, exc, env):
        self.S, self.exc, self.env = S, exc, env

    def var(self, n):
        return self.S.g(self.env).d.get(n)


class Client(object):
    def __init__(self, prog, imports, N=6, dtype='complex128'):
        self.prog = prog
        self.I = Interp(prog)
        self.imports = imports
        self.N = N

    def start(self):
        S = State()
        mod = SynthModule(self.prog, PRELUDE + self.imports)
        env = S.new(Env(mod, None, '<client>'))
        S.env = env
        return S

    def bind(self, S, name, v):
        S.w(S.env).d[name] = v

    def mat(self, S, name, fmt='csr', dtype='complex128', props=(), content=None, bind=True, origin=None):
        pr = set(props)
        if dtype in ('float64', 'float32'):
            pr.add('real')
        declare(name, *pr)
        c = Poly.sym(name) if content is None else content
        r = S.arr(c, (self.N, self.N), dtype, fmt, origin=origin or 'input %s' % name)
        if bind:
            self.bind(S, name, r)
        return r

    def vec(self, S, name, cols=None, dtype='complex128', kind='nd', bind=True):
        declare(name, *((['real'] if dtype.startswith('float') else []) + (['vec'] if cols is None else [])))
        shape = (self.N,) if cols is None else (self.N, cols)
        if cols is not None and isinstance(cols, tuple):
            shape = (self.N,) + cols
        r = S.arr(Poly.sym(name), shape, dtype, kind, origin='input %s' % name)
        if bind:
            self.bind(S, name, r)
        return r

    def scalar(self, S, name, dtype='complex128', bind=True):
        declare(name, *(['real'] if dtype.startswith('float') else []))
        v = Sc(Poly.scalar(name), dtype)
        if bind:
            self.bind(S, name, v)
        return v

    def ufn(self, S, name, dtype='complex128', bind=True):
        declare(name, *(['real'] if dtype.startswith('float') else []))
        v = UFn(name, dtype)
        if bind:
            self.bind(S, name, v)
        return v

    def run(self, S, src):
        """list of Outcome"""
        tree = ast.parse(src)
        out = []
        envr = S.env
        env = S.w(envr)
        for S1, sig in self.I.block(tree.body, S):
            out.append(Outcome(S1, sig if isinstance(sig, Exc) else None, envr))
        return out
