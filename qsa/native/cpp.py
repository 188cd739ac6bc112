"""C++ sources: clang's syntax tree (types resolved, templates instantiated) and an abstract interpreter over dom.py.  Nothing is compiled or run."""
import cmath
import functools
import hashlib
import json
import math
import os
import re
import shutil
import subprocess
import tempfile
import threading
from .dom import *

_C = {}


def clang():
    for n in ('/usr/bin/clang++-18', '/usr/bin/clang++', 'clang++-18', 'clang++', 'clang++-17'):
        p = shutil.which(n)
        if p:
            return p
    return None


def includes():
    out = []
    import glob
    for pat in ('/opt/venv/lib/python3*/site-packages/numpy/core/include', '/opt/venv/lib/python3*/site-packages/numpy/_core/include', '/usr/lib/python3/dist-packages/numpy/core/include',
                '/usr/include/python3.*', '/opt/veriftools/pyvenv/lib/python3*/site-packages/numpy/_core/include'):
        g = sorted(glob.glob(pat))
        out += g[-1:]
    return ['-I' + p for p in out]


def walk(n):
    st = [n]
    while st:
        x = st.pop()
        yield x
        st.extend(c for c in reversed(x.get('inner', ())) if c)


ALIAS = [('npy_uint32', 'unsigned int'), ('npy_uint64', 'unsigned long'), ('npy_int8', 'signed char'), ('npy_intp', 'long')]


class TU(object):
    """one translation unit: header files of the repository plus explicit instantiations"""

    def __init__(self, incdir, text, flt, omp=False):
        self.incdir = incdir
        d = tempfile.mkdtemp(prefix='qsa_cpp')
        try:
            f = os.path.join(d, 'tu.cpp')
            with open(f, 'w') as h:
                h.write(text)
            opt = []
            if omp:
                with open(os.path.join(d, 'omp.h'), 'w') as h:
                    h.write('int omp_get_thread_num();\nint omp_get_num_threads();\nint omp_get_max_threads();\n')
                opt = ['-fopenmp', '-I' + d]
            cmd = [clang(), '-std=c++14', '-fsyntax-only', '-w', '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=' + flt, '-I' + incdir] + opt + includes() + [f]
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        if r.returncode:
            raise RuntimeError('clang: ' + r.stderr.decode(errors='replace')[-600:])
        s = r.stdout.decode(errors='replace')
        dec, i, self.docs = json.JSONDecoder(), 0, []
        while True:
            while i < len(s) and s[i].isspace():
                i += 1
            if i >= len(s):
                break
            o, i = dec.raw_decode(s, i)
            self.docs.append(o)
        self.found = {}
        self.fn, self.cls, self.decl, self.prag, self.text = {}, {}, {}, None, text
        for o in self.docs:
            self.index(o, '', None)

    def index(self, o, file, cls):
        st = [(o, cls)]
        while st:
            n, c = st.pop()
            k = n.get('kind')
            if k in ('ClassTemplateSpecializationDecl', 'CXXRecordDecl') and n.get('completeDefinition'):
                name = n.get('name')
                if k == 'ClassTemplateSpecializationDecl':
                    args = [a.get('type', {}).get('qualType') for a in n.get('inner', ()) if a.get('kind') == 'TemplateArgument']
                    name = '%s<%s>' % (name, ', '.join(str(a) for a in args))
                n['_cls'] = name
                if name:
                    self.cls[name] = n
                c = name or c
            if k in ('CXXMethodDecl', 'FunctionDecl', 'CXXConstructorDecl'):
                b = [x for x in n.get('inner', ()) if x and x.get('kind') == 'CompoundStmt']
                if b and not (n['id'] in self.fn and '_body' in self.fn[n['id']]):
                    n['_body'] = b[0]
                    n['_parms'] = [x for x in n.get('inner', ()) if x and x.get('kind') == 'ParmVarDecl']
                    n['_cls'] = c
                    self.fn[n['id']] = n
                    if n.get('previousDecl'):
                        self.fn.setdefault(n['previousDecl'], n)
                if c and k != 'FunctionDecl':
                    self.decl.setdefault(n['id'], n)
            if k in ('FieldDecl', 'EnumConstantDecl', 'VarDecl'):
                self.decl[n['id']] = n
            st.extend((x, c) for x in reversed(n.get('inner', ())) if x)

    def pragma(self, n):
        """text of the OpenMP directive of a node"""
        if self.prag is None:
            self.prag = {}
            fs = [os.path.join(self.incdir, f) for f in sorted(os.listdir(self.incdir)) if f.endswith('.h')]
            for t in [self.text.encode()] + [open(f, 'rb').read() for f in fs]:
                for m in re.finditer(rb'#[ \t]*pragma[ \t]+omp((?:[^\n\\]|\\\r?\n|\\[^\n])*)', t):
                    self.prag.setdefault(m.start(), set()).add(re.sub(r'//.*|/\*.*?\*/', '', m.group(1).decode(errors='replace')).strip())
        b = n.get('range', {}).get('begin', {})
        k = n['kind'][3:].replace('Directive', '').lower()
        c = [x for x in self.prag.get(b.get('offset'), ()) if re.sub(r'\W.*', '', x.replace('parallel for', 'parallelfor')) == k]
        if len(c) != 1:
            raise Undecided('openmp directive %s' % n['kind'])
        return c[0]

    def find(self, name):
        """class whose template arguments start like name"""
        if name not in self.found:
            self.found[name] = self.find0(name)
        return self.found[name]

    def find0(self, name):
        for a, b in ALIAS:
            name = name.replace(a, b)
        if name in self.cls:
            return self.cls[name]
        for k, v in self.cls.items():
            if k.startswith(name.rstrip('>') + ',') or k.startswith(name.rstrip('>') + '>'):
                return v
        return None


def load(incdir, text, flt='basis_general::', omp=False):
    h = hashlib.md5()
    for f in sorted(os.listdir(incdir)):
        if f.endswith('.h'):
            with open(os.path.join(incdir, f), 'rb') as x:
                h.update(x.read())
    h.update(('%s%s' % (omp, text)).encode())
    k = h.hexdigest()
    if k not in _C:
        _C[k] = TU(incdir, text, flt, omp)
    return _C[k]


INT = {'int': (True, 32), 'unsigned int': (False, 32), 'long': (True, 64), 'unsigned long': (False, 64), 'long long': (True, 64), 'unsigned long long': (False, 64), 'char': (True, 8),
       'signed char': (True, 8), 'unsigned char': (False, 8), 'short': (True, 16), 'unsigned short': (False, 16)}


def tyof(n):
    r = n.get('_ty')
    if r is None:
        t = n.get('type', {})
        r = n['_ty'] = tyname(t.get('desugaredQualType') or t.get('qualType') or '')
    return r


@functools.lru_cache(None)
def tyname(q):
    q = re.sub(r'\b(const|volatile|struct|class|typename)\b', '', q).replace('basis_general::', '').strip()
    if q.endswith('&'):
        q = q[:-1].strip()
    if q in INT:
        return INT[q]
    if q in ('bool', '_Bool'):
        return 'b'
    if q in ('double', 'float', 'long double'):
        return 'f'
    if q.startswith('std::complex<') or q.startswith('complex<'):
        return 'c'
    return q


EX = {}


class Obj(object):
    def __init__(self, cls):
        self.cls, self.f = cls, {}


class Ptr(object):
    __slots__ = ('a', 'i')

    def __init__(self, a, i):
        self.a, self.i = a, i


class LV(object):
    __slots__ = ('c', 'k')

    def __init__(self, c, k):
        self.c, self.k = c, k

    def get(self):
        if isinstance(self.c, list):
            if not 0 <= self.k < len(self.c):
                raise Fault('index %d outside an array of %d' % (self.k, len(self.c)))
            v = self.c[self.k]
        else:
            v = self.c.get(self.k, UNDEF)
        if v is UNDEF:
            raise Undecided('uninitialised value')
        return v

    def set(self, v):
        if isinstance(self.c, list) and not 0 <= self.k < len(self.c):
            raise Fault('index %d outside an array of %d' % (self.k, len(self.c)))
        self.c[self.k] = v


class UNDEF(object):
    pass


class Parts(list):
    """an array of complex numbers seen as an array of real numbers"""

    def __init__(self, a):
        self.a0 = a

    def __len__(self):
        return 2 * len(self.a0)

    def __getitem__(self, i):
        v = self.a0[i // 2]
        if v is UNDEF:
            return v
        v = complex(v)
        return v.imag if i % 2 else v.real

    def __setitem__(self, i, x):
        v = self.a0[i // 2]
        v = 0j if v is UNDEF else complex(v)
        self.a0[i // 2] = complex(v.real, x) if i % 2 else complex(x, v.imag)


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cnt(Exception):
    pass


class CppExc(Exception):
    pass


class Machine(object):
    def __init__(self, tu, path, limit=400000):
        self.tu, self.P, self.O, self.steps, self.limit = tu, path, Ops(path), 0, limit
        self.env, self.this, self.intr, self.seen, self.byref = {}, None, {}, set(), False

    # ------------------------------------------------------------ objects
    def new(self, cls, args):
        """construct an object of class node cls (payload arguments)"""
        o = Obj(cls)
        self.construct(o, cls, args, None)
        return o

    def fieldsinit(self, o, cls):
        for m in cls.get('inner', ()):
            if m and m.get('kind') == 'FieldDecl':
                o.f.setdefault(m['name'], self.default(m.get('type', {})))

    def default(self, t):
        q = t.get('desugaredQualType') or t.get('qualType') or ''
        m = re.match(r'(.*?)\s*\[(\d+)\]$', q)
        if m:
            return Ptr([self.default({'qualType': m.group(1)}) for _ in range(int(m.group(2)))], 0)
        y = tyname(q)
        if y == 'c':
            return 0j
        if isinstance(y, str) and (y.startswith('std::vector<') or y.startswith('vector<')):
            return Ptr([], 0)
        c = self.tu.find(y) if isinstance(y, str) else None
        if c is not None:
            o = Obj(c)
            self.fieldsinit(o, c)
            return o
        if isinstance(y, str) and PAIR.match(y):
            return self.pair(y, 0, 0)
        return UNDEF

    def pair(self, y, a, b):
        o = Obj({'kind': 'pair', 'name': y})
        t = [x.strip() for x in PAIR.match(y).group(1).split(',')]
        o.f = {'first': self.conv(a, tyname(t[0])), 'second': self.conv(b, tyname(t[1]))} if len(t) == 2 else {'first': a, 'second': b}
        return o

    def construct(self, o, cls, args, ctype):
        c = self.ctor(cls, ctype, len(args))
        if c is None:
            if args:
                raise Undecided('constructor of %s' % cls.get('name'))
            self.fieldsinit(o, cls)
            return
        old = self.env, self.this, self.byref
        self.env, self.this, self.byref = {}, o, False
        try:
            self.bind(c, args, o)
            self.fieldsinit(o, cls)
            for m in c.get('inner', ()):
                if m and m.get('kind') == 'CXXCtorInitializer':
                    e = m['inner'][0] if m.get('inner') else None
                    if 'anyInit' in m:
                        if e is not None and e.get('kind') not in ('CXXConstructExpr', 'CXXDefaultInitExpr'):
                            o.f[m['anyInit']['name']] = self.rv(e)
                    elif e is not None:
                        x = e
                        while x.get('kind') != 'CXXConstructExpr' and x.get('inner'):
                            x = x['inner'][0]
                        b = self.tu.find(tyof(x)) or self.base(cls)
                        if b is None:
                            raise Undecided('base class %s' % tyof(x))
                        ct = x.get('ctorType', {}).get('qualType')
                        self.construct(o, b, self.args(self.ctor(b, ct, len(x.get('inner', ()))) or {}, x.get('inner', ())), ct)
            self.seen.add((c.get('_cls'), c.get('name')))
            try:
                self.stmt(c['_body'])
            except Ret:
                pass
        finally:
            self.env, self.this, self.byref = old

    def ctor(self, cls, ctype, n):
        ctors = [m for m in cls.get('inner', ()) if m and m.get('kind') == 'CXXConstructorDecl' and not m.get('isImplicit') and '_body' in m]
        c = [m for m in ctors if ctype and m.get('type', {}).get('qualType') == ctype]
        if not c:
            c = [m for m in ctors if len(m['_parms']) == n] or [m for m in ctors if len(m['_parms']) >= n and all(p.get('init') for p in m['_parms'][n:])]
        return c[0] if c else None

    def bind(self, f, args, o=None):
        for i, p in enumerate(f['_parms']):
            q = p.get('type', {}).get('qualType', '')
            if i < len(args):
                v = args[i]
            else:
                if not p.get('inner'):
                    raise Undecided('missing argument')
                v = self.rv(p['inner'][0])
            if isinstance(v, LV):
                if q.rstrip().endswith('&'):
                    self.env[p['id']] = v
                    continue
                v = v.get()
            y = tyof(p)
            self.env[p['id']] = LV({0: self.conv(v, y)}, 0)

    def conv(self, v, y):
        if isinstance(v, (Ptr, Obj)) or v is None or v is UNDEF:
            return v
        if isinstance(y, tuple):
            if isinstance(v, frozenset):
                v = Bits([v])
            if isinstance(v, float):
                v = int(v) if abs(v) < 2.0 ** 63 else -2 ** 63     # also for a value that is not a number
            return self.O.wrap(v, y)
        if y == 'b':
            if isinstance(v, (bool, frozenset)):
                return v
            p = self.O.poly(v)
            return p if p is not None and p not in (ZERO, ONE) else self.O.truth(v)
        if y in ('f', 'c'):
            if isinstance(v, frozenset):
                return self.O.P.norm(Lin(*addatom(0, {}, v, 1)))
            if isinstance(v, bool):
                return int(v)
        return v

    def call(self, f, args, this=None):
        self.seen.add((f.get('_cls'), f.get('name')))
        old = self.env, self.this, self.byref
        if len(self.seen) > 10000 or self.steps > self.limit:
            raise Undecided('too many steps')
        self.env, self.this, self.byref = {}, this, f.get('type', {}).get('qualType', '').split('(')[0].rstrip().endswith('&')
        try:
            self.bind(f, args)
            try:
                self.stmt(f['_body'])
            except Ret as r:
                return r.v
            return None
        finally:
            self.env, self.this, self.byref = old

    def method(self, o, name, args, pick=None):
        """call by name with dynamic dispatch; pick: predicate on the declaration"""
        c = o.cls
        while c is not None:
            ms = [m for m in c.get('inner', ()) if m and m.get('kind') == 'CXXMethodDecl' and m.get('name') == name and m['id'] in self.tu.fn and len(self.tu.fn[m['id']]['_parms']) == len(args)]
            if pick:
                ms = [m for m in ms if pick(m)]
            if ms:
                return self.call(self.tu.fn[ms[0]['id']], args, o)
            c = self.base(c)
        raise Undecided('method %s' % name)

    def base(self, c):
        for b in c.get('bases', ()):
            t = b.get('type', {})
            for q in (t.get('desugaredQualType'), t.get('qualType')):
                x = self.tu.find(tyname(q)) if q else None
                if x is not None:
                    return x
        return None

    # ------------------------------------------------------------ statements
    def stmt(self, n):
        self.steps += 1
        if self.steps > self.limit:
            raise Undecided('too many steps')
        k = n.get('kind')
        f = getattr(self, 's_' + k, None)
        if f:
            return f(n)
        if k.endswith('Expr') or k.endswith('Operator') or k in ('ExprWithCleanups',):
            self.ex(n)
            return
        raise Undecided('statement %s' % k)

    def s_CompoundStmt(self, n):
        for c in n.get('inner', ()):
            self.stmt(c)

    def s_NullStmt(self, n):
        pass

    def s_DeclStmt(self, n):
        for v in n.get('inner', ()):
            if v.get('kind') != 'VarDecl':
                continue
            q = v.get('type', {}).get('qualType', '')
            y = tyof(v)
            ini = [c for c in v.get('inner', ()) if c and ('Expr' in c.get('kind', '') or 'Operator' in c.get('kind', '') or 'Literal' in c.get('kind', '') or c.get('kind') == 'ExprWithCleanups')]
            if ini and q.rstrip().endswith('&'):
                x = self.ex(ini[0])
                self.env[v['id']] = x if isinstance(x, LV) else LV({0: x}, 0)
                continue
            if ini and ini[0].get('kind') == 'CXXConstructExpr' and not isinstance(y, tuple) and y not in ('b', 'f', 'c'):
                x = self.rv(ini[0])
            elif ini:
                x = self.conv(self.rv(ini[0]), y)
            else:
                x = self.default(v.get('type', {}))
            self.env[v['id']] = LV({0: x}, 0)

    def s_ReturnStmt(self, n):
        e = n.get('inner')
        raise Ret((self.ex(e[0]) if self.byref else self.rv(e[0])) if e else None)

    def s_IfStmt(self, n):
        inn = [c for c in n['inner'] if c]
        if self.O.truth(self.rv(inn[0])):
            self.stmt(inn[1])
        elif len(inn) > 2:
            self.stmt(inn[2])

    def s_ForStmt(self, n):
        init, _, cond, inc, body = (list(n['inner']) + [None] * 5)[:5]
        if init and init.get('kind'):
            self.stmt(init)
        while not (cond and cond.get('kind')) or self.O.truth(self.rv(cond)):
            try:
                self.stmt(body)
            except Brk:
                break
            except Cnt:
                pass
            if inc and inc.get('kind'):
                self.ex(inc)

    def s_WhileStmt(self, n):
        c, b = n['inner'][-2:]
        while self.O.truth(self.rv(c)):
            try:
                self.stmt(b)
            except Brk:
                break
            except Cnt:
                pass

    def s_DoStmt(self, n):
        b, c = n['inner']
        while True:
            try:
                self.stmt(b)
            except Brk:
                break
            except Cnt:
                pass
            if not self.O.truth(self.rv(c)):
                break

    def s_BreakStmt(self, n):
        raise Brk()

    def s_ContinueStmt(self, n):
        raise Cnt()

    def s_SwitchStmt(self, n):
        inn = [c for c in n['inner'] if c]
        v = self.O.num(self.rv(inn[0]))
        if not isint(v):
            v = self.O.concretize(v)
        body, flat = inn[-1], []

        def lab(c):
            if c.get('kind') == 'CaseStmt':
                flat.append(('case', self.rv(c['inner'][0])))
                lab(c['inner'][-1])
            elif c.get('kind') == 'DefaultStmt':
                flat.append(('default', None))
                lab(c['inner'][-1])
            else:
                flat.append(('s', c))
        for c in body.get('inner', ()):
            lab(c)
        at = [i for i, (k, x) in enumerate(flat) if k == 'case' and x == v] or [i for i, (k, x) in enumerate(flat) if k == 'default']
        if not at:
            return
        try:
            for k, x in flat[at[0]:]:
                if k == 's':
                    self.stmt(x)
        except Brk:
            pass

    def s_CXXTryStmt(self, n):
        self.stmt(n['inner'][0])

    def __getattr__(self, name):
        if name.startswith('s_OMP'):
            return self.omp
        raise AttributeError(name)

    def omp(self, n):
        raise Undecided('openmp')

    # ------------------------------------------------------------ expressions
    def rv(self, n):
        v = self.ex(n)
        return v.get() if isinstance(v, LV) else v

    def arg(self, n):
        """argument: keep lvalues for reference parameters"""
        return self.ex(n)

    def ex(self, n):
        self.steps += 1
        if self.steps > self.limit:
            raise Undecided('too many steps')
        f = EX.get((type(self), n['kind']))
        if f is None:
            f = getattr(type(self), 'e_' + n['kind'], None)
            if f is None:
                raise Undecided('expression %s' % n['kind'])
            EX[type(self), n['kind']] = f
        return f(self, n)

    def first(self, n):
        return self.ex(n['inner'][0])

    e_ParenExpr = e_ExprWithCleanups = e_MaterializeTemporaryExpr = e_CXXBindTemporaryExpr = e_SubstNonTypeTemplateParmExpr = first

    def e_ConstantExpr(self, n):
        return self.ex(n['inner'][0])

    def e_IntegerLiteral(self, n):
        return int(n['value'])

    def e_CharacterLiteral(self, n):
        return int(n['value'])

    def e_FloatingLiteral(self, n):
        return float(n['value'])

    def e_CXXBoolLiteralExpr(self, n):
        return bool(n['value'])

    def e_CXXNullPtrLiteralExpr(self, n):
        return None

    e_GNUNullExpr = e_CXXNullPtrLiteralExpr

    def e_CXXThisExpr(self, n):
        return self.this

    def e_CXXDefaultArgExpr(self, n):
        raise Undecided('default argument')

    def e_DeclRefExpr(self, n):
        r = n.get('referencedDecl', {})
        if r.get('id') in self.env:
            return self.env[r['id']]
        if r.get('kind') == 'EnumConstantDecl':
            return self.enum(r['id'])
        if r.get('kind') in ('FunctionDecl', 'CXXMethodDecl'):
            return ('fn', r)
        raise Undecided('name %s' % r.get('name'))

    def enum(self, i):
        d = self.tu.decl.get(i)
        if d is None:
            raise Undecided('enumerator')
        for c in d.get('inner', ()):
            if c:
                if 'value' in c and c['kind'] == 'ConstantExpr':
                    return int(c['value'])
                return self.rv(c)
        raise Undecided('enumerator')

    def e_MemberExpr(self, n):
        o = self.rv(n['inner'][0])
        if isinstance(o, Ptr):
            o = LV(o.a, o.i).get()
        if isinstance(o, Obj):
            d = self.tu.decl.get(n.get('referencedMemberDecl'))
            if d is not None and d.get('kind') == 'EnumConstantDecl':
                return self.enum(d['id'])
            if n['name'] in o.f:
                return LV(o.f, n['name'])
            return ('method', o, n)
        return ('method', o, n)

    def e_ArraySubscriptExpr(self, n):
        a, i = self.rv(n['inner'][0]), self.rv(n['inner'][1])
        if not isinstance(a, Ptr):
            a, i = i, a
        return self.at(a, i)

    def at(self, a, i):
        if not isinstance(a, Ptr):
            raise Undecided('subscript')
        i = self.O.num(i)
        if not isint(i):
            i = self.O.concretize(i)
        return LV(a.a, a.i + i)

    def e_ImplicitCastExpr(self, n):
        return self.cast(n, n['inner'][0])

    def e_CStyleCastExpr(self, n):
        return self.cast(n, n['inner'][0])

    e_CXXStaticCastExpr = e_CXXFunctionalCastExpr = e_CStyleCastExpr

    def e_SubstNonTypeTemplateParmExpr(self, n):
        return self.ex([x for x in n['inner'] if x.get('kind') != 'NonTypeTemplateParmDecl'][-1])

    def e_CXXReinterpretCastExpr(self, n):
        e = n['inner'][0]
        v = self.rv(e)
        if isinstance(v, Ptr) and type(v.a) is list and re.match(r'(const )?(double|float) \*$', n['type'].get('desugaredQualType', n['type']['qualType'])) and 'complex<' in e['type'].get('desugaredQualType', e['type']['qualType']):
            return Ptr(Parts(v.a), 2 * v.i)
        raise Undecided('reinterpret_cast')

    def cast(self, n, e):
        k = n.get('castKind')
        if k in ('NoOp', 'UncheckedDerivedToBase', 'DerivedToBase', 'ConstructorConversion', 'UserDefinedConversion', 'FunctionToPointerDecay', 'BitCast', 'NullToPointer', 'ToVoid'):
            return self.ex(e)
        if k == 'LValueToRValue':
            return self.rv(e)
        if k == 'ArrayToPointerDecay':
            return self.rv(e)
        v = self.rv(e)
        return self.conv(v, tyof(n))

    def e_UnaryOperator(self, n):
        op = n['opcode']
        if op in ('++', '--'):
            lv = self.first(n)
            old = lv.get()
            if isinstance(old, Ptr):
                new = Ptr(old.a, old.i + (1 if op == '++' else -1))
            else:
                new = self.O.bin(op[0], old, 1, tyof(n))
            lv.set(new)
            return old if n.get('isPostfix') else lv
        if op == '&':
            lv = self.first(n)
            if isinstance(lv, LV):
                return Ptr(lv.c, lv.k) if isinstance(lv.c, list) else Ptr(Box(lv), 0)
            raise Undecided('address')
        if op == '*':
            p = self.rv(n['inner'][0])
            if isinstance(p, Ptr):
                return self.at(p, 0) if not isinstance(p.a, Box) else p.a.lv
            if isinstance(p, Obj):
                return p
            raise Undecided('dereference')
        v = self.rv(n['inner'][0])
        if op == '-':
            return self.O.neg(v, tyof(n))
        if op == '+':
            return v
        if op == '~':
            return self.O.inv(v, tyof(n))
        if op == '!':
            v = self.conv(v, 'b')
            return v ^ ONE if isinstance(v, frozenset) else not v
        if op == '__extension__':
            return v
        raise Undecided('operator %s' % op)

    def e_BinaryOperator(self, n):
        op = n['opcode']
        a, b = n['inner']
        if op == '=':
            v = self.rv(b)
            lv = self.ex(a)
            lv.set(self.conv(v, tyof(a)))
            return lv
        if op == ',':
            self.ex(a)
            return self.ex(b)
        if op in ('&&', '||'):
            x = self.conv(self.rv(a), 'b')
            if isinstance(x, frozenset):
                if pure(b):
                    y = self.conv(self.rv(b), 'b')
                    y = y if isinstance(y, frozenset) else ONE if y else ZERO
                    return pmul(x, y) if op == '&&' else x ^ y ^ pmul(x, y)
                x = self.O.truth(x)
            if bool(x) == (op == '||'):
                return bool(x)
            return self.conv(self.rv(b), 'b')
        x, y = self.rv(a), self.rv(b)
        if op in ('==', '!=', '<', '>', '<=', '>='):
            if isinstance(x, (Ptr, Obj)) or x is None or y is None:
                return self.ptrcmp(op, x, y)
            return self.O.cmp(op, self.up(x), self.up(y))
        return self.arith(op, x, y, tyof(n))

    def up(self, v):
        return Bits([v]) if isinstance(v, frozenset) else v

    def ptrcmp(self, op, x, y):
        s = x is y or isinstance(x, Ptr) and isinstance(y, Ptr) and x.a is y.a and x.i == y.i
        if op == '==':
            return s
        if op == '!=':
            return not s
        if isinstance(x, Ptr) and isinstance(y, Ptr) and x.a is y.a:
            return {'<': x.i < y.i, '>': x.i > y.i, '<=': x.i <= y.i, '>=': x.i >= y.i}[op]
        raise Undecided('pointer comparison')

    def arith(self, op, x, y, t):
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            if isinstance(x, Ptr) and isinstance(y, Ptr) and op == '-' and x.a is y.a:
                return x.i - y.i
            p, i = (x, y) if isinstance(x, Ptr) else (y, x)
            return Ptr(p.a, p.i + (i if op == '+' else -i))
        return self.O.bin(op, self.up(x), self.up(y), t)

    def e_CompoundAssignOperator(self, n):
        a, b = n['inner']
        v = self.rv(b)
        lv = self.ex(a)
        t = n.get('computeResultType', n.get('type', {}))
        ct = tyname(t.get('desugaredQualType') or t.get('qualType') or '')
        x = lv.get()
        if not isinstance(x, Ptr):
            x = self.conv(x, ct)
        r = self.arith(n['opcode'][:-1], x, v, ct)
        lv.set(self.conv(r, tyof(a)) if not isinstance(r, Ptr) else r)
        return lv

    def e_ConditionalOperator(self, n):
        c, a, b = n['inner']
        p = self.conv(self.rv(c), 'b')
        if not isinstance(p, frozenset):
            return self.ex(a) if p else self.ex(b)
        p = self.P.red(p)
        if p in (ZERO, ONE):
            return self.ex(a) if p == ONE else self.ex(b)
        if pure(a) and pure(b):
            x, y = self.O.num(self.rv(a)), self.O.num(self.rv(b))
            r = merge(self.O, p, x, y)
            if r is not None:
                return r
        return self.ex(a) if self.O.truth(p) else self.ex(b)

    def e_InitListExpr(self, n):
        return Ptr([self.rv(c) for c in n.get('inner', ())], 0)

    # ------------------------------------------------------------ calls
    def e_CXXConstructExpr(self, n):
        y = tyof(n)
        args = n.get('inner', ())
        if y == 'c':
            a = [self.O.num(self.rv(x)) for x in args if x.get('kind') != 'CXXDefaultArgExpr']
            if not a:
                return 0j
            if len(a) == 1:
                return a[0]
            return a[0] + 1j * a[1]
        if isinstance(y, str) and 'vector<' in y:
            if not args:
                return Ptr([], 0)
            v = self.rv(args[0])
            if isinstance(v, Ptr):
                return Ptr(list(v.a), v.i)
            return Ptr([0] * self.O.num(v), 0)
        if isinstance(y, str) and PAIR.match(y):
            v = [self.rv(x) for x in args]
            if len(v) == 1 and isinstance(v[0], Obj) and 'second' in v[0].f:
                return self.pair(y, v[0].f['first'], v[0].f['second'])
            if len(v) in (0, 2):
                return self.pair(y, *(v or (0, 0)))
        c = self.tu.find(y) if isinstance(y, str) else None
        if c is not None:
            if len(args) == 1:
                v = self.rv(args[0])
                if isinstance(v, Obj):
                    return clone(v)
                o = Obj(c)
                self.construct(o, c, [v], n.get('ctorType', {}).get('qualType'))
                return o
            o = Obj(c)
            self.construct(o, c, [self.arg(x) for x in args], n.get('ctorType', {}).get('qualType'))
            return o
        if len(args) == 1:
            return self.ex(args[0])
        raise Undecided('construction of %s' % (y,))

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def args(self, f, nodes):
        ps = f.get('_parms', ())
        out = []
        for i, a in enumerate(nodes):
            if a.get('kind') == 'CXXDefaultArgExpr':
                if i < len(ps) and ps[i].get('inner'):
                    out.append(self.rv(ps[i]['inner'][0]))
                    continue
                raise Undecided('default argument')
            out.append(self.ex(a))
        return out

    def e_CallExpr(self, n):
        c = n['inner'][0]
        while c.get('kind') != 'DeclRefExpr' and c.get('inner'):
            c = c['inner'][0]
        r = c.get('referencedDecl', {})
        name, f = r.get('name'), self.tu.fn.get(r.get('id'))
        h = self.intr.get(name)
        if h:
            x = h(self, n['inner'][1:], f)
            if x is not NotImplemented:
                return x
        if f is not None:
            return self.call(f, self.args(f, n['inner'][1:]), self.this if f.get('_cls') else None)
        a = [self.O.num(self.rv(x)) for x in n['inner'][1:]]
        return self.lib(name, a, n)

    def lib(self, name, a, n):
        if name in ('sqrt', 'cos', 'sin', 'exp', 'abs', 'fabs', 'floor', 'pow') and all(isinstance(x, (int, float, complex, bool)) for x in a):
            if name in ('abs', 'fabs'):
                return abs(a[0])
            if isinstance(a[0], complex):
                if name == 'exp':
                    return cmath.exp(a[0])
                raise Undecided(name)
            if name == 'sqrt' and a[0] < 0:
                raise Fault('square root of %r' % a[0])
            return getattr(math, name)(*a)
        if name == 'sqrt' and isinstance(a[0], Lin):
            x = self.O.concretize(a[0])
            return math.sqrt(x)
        if name == 'exp' and len(a) == 1 and isinstance(a[0], complex):
            return cmath.exp(a[0])
        if name == 'conj' and isinstance(a[0], (int, float, complex)):
            return complex(a[0]).conjugate()
        if name == 'make_pair':
            o = Obj({'kind': 'pair', 'name': ''})
            o.f = {'first': a[0], 'second': a[1]}
            return o
        if name in ('reverse', 'fill', 'lower_bound', 'sort', 'block_indirect_sort', 'stable_sort'):
            return self.algo(name, a)
        if name in ('__builtin_popcount', '__builtin_popcountl', '__builtin_popcountll'):
            return popc(a[0])
        if name == 'numeric_cast':
            return a[0]
        if name in ('min', 'max') and not a:
            t = n['type'].get('desugaredQualType', n['type']['qualType'])
            w = {'int': (31, 1), 'long': (63, 1), 'unsigned int': (32, 0), 'unsigned long': (64, 0), 'signed char': (7, 1), 'unsigned char': (8, 0), 'short': (15, 1), 'unsigned short': (16, 0)}.get(t)
            if not w:
                raise Undecided('numeric limit of %s' % t)
            return 2**w[0] - 1 if name == 'max' else -2**w[0] * w[1]
        if name in ('min', 'max'):
            return (a[0] if self.O.truth(self.O.cmp('<' if name == 'min' else '>', a[0], a[1])) else a[1])
        if name == 'quiet_NaN':
            return float('nan')
        if name == 'isnan' or name == 'check_nan':
            return isinstance(a[0], float) and a[0] != a[0]
        if name in ('real', 'imag') and isinstance(a[0], (int, float, complex)):
            return getattr(complex(a[0]), name)
        raise Undecided('call of %s' % name)

    def algo(self, name, a):
        b, e = a[0], a[1]
        if not (isinstance(b, Ptr) and isinstance(e, Ptr) and b.a is e.a and isinstance(b.a, list) and 0 <= b.i <= e.i <= len(b.a)):
            raise Fault('%s over a range that is not inside one array' % name) if isinstance(b, Ptr) and isinstance(e, Ptr) and b.a is e.a else Undecided(name)
        xs = b.a[b.i:e.i]
        if name == 'reverse':
            b.a[b.i:e.i] = xs[::-1]
            return None
        if name == 'fill':
            b.a[b.i:e.i] = [a[2]] * len(xs)
            return None
        if any(x is UNDEF for x in xs):
            raise Undecided('uninitialised value')
        k = 3 if name == 'lower_bound' else 2
        less = (lambda x, y: bool(self.O.truth(self.method(a[k], 'operator()', [x, y])))) if len(a) > k and isinstance(a[k], Obj) else (lambda x, y: x < y)
        if name == 'lower_bound':
            lo, hi = 0, len(xs)
            while lo < hi:
                m = (lo + hi) // 2
                if less(xs[m], a[2]):
                    lo = m + 1
                else:
                    hi = m
            return Ptr(b.a, b.i + lo)
        b.a[b.i:e.i] = sorted(xs, key=functools.cmp_to_key(lambda x, y: -1 if less(x, y) else 1 if less(y, x) else 0))
        return None

    def e_CXXMemberCallExpr(self, n):
        m = n['inner'][0]
        while m.get('kind') == 'ParenExpr':
            m = m['inner'][0]
        if m.get('name') in ('real', 'imag') and len(n['inner']) == 2:
            return self.setpart(m, n['inner'][1])
        o = self.rv(m['inner'][0])
        if isinstance(o, Ptr) and m.get('isArrow'):
            o = LV(o.a, o.i).get() if not isinstance(o.a, Box) else o.a.lv.get()
        name, an = m['name'], n['inner'][1:]
        h = self.intr.get('.' + name)
        if h:
            x = h(self, o, an, m)
            if x is not NotImplemented:
                return x
        if isinstance(o, Obj):
            f = self.tu.fn.get(m.get('referencedMemberDecl'))
            q = (f or self.tu.decl.get(m.get('referencedMemberDecl')) or {}).get('type', {}).get('qualType')
            args = self.args(f or {}, an)
            if name == 'operator=':
                v = args[0].get() if isinstance(args[0], LV) else args[0]
                o.f = clone(v).f
                return o
            qual = m.get('qualifier') or (m['inner'][0].get('castKind') == 'UncheckedDerivedToBase' and self.qualified(m))
            if f is not None and qual:
                return self.call(f, args, o)
            pick = (lambda d: d.get('type', {}).get('qualType', '').replace('const ', '').split('(')[-1] == q.replace('const ', '').split('(')[-1]) if q else None
            return self.method(o, name, args, pick)
        if isinstance(o, Ptr):
            a = [self.O.num(self.rv(x)) for x in an]
            if name == 'resize':
                del o.a[a[0]:]
                ty = tyname(re.sub(r'^(std::)?vector<(.*)>$', r'\2', str(tyof(m['inner'][0])).replace('std::', '')))
                while len(o.a) < a[0]:
                    c = self.tu.find(ty) if isinstance(ty, str) else None
                    o.a.append(self.default({'qualType': ty}) if c is not None else 0)
                return None
            if name == 'size':
                return len(o.a)
            if name in ('data', 'begin'):
                return Ptr(o.a, 0)
            if name == 'end':
                return Ptr(o.a, len(o.a))
            if name == 'push_back':
                o.a.append(clone(a[0]) if isinstance(a[0], Obj) else a[0])
                return None
            if name == 'reserve':
                return None
            if name in ('front', 'back') and o.a:
                return LV(o.a, 0 if name == 'front' else len(o.a) - 1)
        if name in ('real', 'imag'):
            v = self.O.num(o)
            if isinstance(v, Ph):
                v = self.O.concretize(v)
            if isinstance(v, (int, float, complex)):
                return getattr(complex(v), name)
        raise Undecided('method %s' % name)

    def setpart(self, m, arg):
        lv = self.ex(m['inner'][0])
        if m.get('isArrow'):
            p = lv.get() if isinstance(lv, LV) else lv
            lv = (p.a.lv if isinstance(p.a, Box) else LV(p.a, p.i)) if isinstance(p, Ptr) else p
        if not isinstance(lv, LV):
            raise Undecided('complex component')
        try:
            z = lv.get()
        except Undecided:
            z = 0j
        x = self.O.num(self.rv(arg))
        if isinstance(x, Ph):
            x = self.O.concretize(x)
        if not isinstance(x, (int, float)) or not isinstance(z, (int, float, complex)):
            raise Undecided('complex component')
        z = complex(z)
        lv.set(complex(x, z.imag) if m['name'] == 'real' else complex(z.real, x))
        return None

    def qualified(self, m):
        return False

    def e_CXXOperatorCallExpr(self, n):
        f = n['inner'][0]
        while f.get('kind') != 'DeclRefExpr' and f.get('inner'):
            f = f['inner'][0]
        r = f.get('referencedDecl', {})
        op = r.get('name', '').replace('operator', '')
        g = self.tu.fn.get(r.get('id'))
        an = n['inner'][1:]
        if g is not None:
            if g.get('kind') == 'CXXMethodDecl':
                o = self.rv(an[0])
                return self.call(g, self.args(g, an[1:]), o)
            return self.call(g, self.args(g, an))
        if op == '[]':
            return self.at(self.rv(an[0]), self.rv(an[1]))
        if op in ('*=', '+=', '-=', '/='):
            v = self.up(self.rv(an[1]))
            lv = self.ex(an[0])
            lv.set(self.O.bin(op[0], lv.get(), v, 'f'))
            return lv
        if op == '=':
            v = self.rv(an[1])
            lv = self.ex(an[0])
            if isinstance(v, Obj):
                v = clone(v)
            if isinstance(v, Ptr):
                v = Ptr(list(v.a), v.i)
            lv.set(v)
            return lv
        a = [self.up(self.O.num(self.rv(x))) for x in an]
        if len(a) == 2 and op in ('+', '-', '*', '/'):
            return self.O.bin(op, a[0], a[1], 'f')
        if len(a) == 2 and op in ('==', '!='):
            return self.O.cmp(op, a[0], a[1])
        raise Undecided('operator %s' % op)


class Box(object):
    """address of a single variable"""

    def __init__(self, lv):
        self.lv = lv

    def __len__(self):
        return 1

    def __getitem__(self, i):
        return self.lv.get()

    def __setitem__(self, i, v):
        self.lv.set(v)

    def get(self, i, d=None):
        return self.lv.get()


def clone(o):
    if isinstance(o, Obj):
        r = Obj(o.cls)
        r.f = {k: clone(v) for k, v in o.f.items()}
        return r
    if isinstance(o, Ptr) and isinstance(o.a, list):
        return Ptr([clone(x) for x in o.a], o.i)
    return o


def merge(O, p, x, y):
    """value of (p ? x : y) without splitting, or None"""
    num = (int, float, complex)
    if isinstance(x, num) and isinstance(y, num) and not isinstance(x, bool):
        if x == y:
            return x
        if x == -y:
            return Ph(y, p)
    if isinstance(x, frozenset) or isinstance(y, frozenset) or isinstance(x, bool):
        f = lambda v: v if isinstance(v, frozenset) else ONE if v else ZERO
        x, y = f(x), f(y)
        return y ^ pmul(p, x ^ y)
    if isinstance(x, (int, Bits)) and isinstance(y, (int, Bits)):
        try:
            a, b = tobits(x).b, tobits(y).b
        except Undecided:
            return None
        k = max(len(a), len(b))
        a, b = a + (ZERO,) * (k - len(a)), b + (ZERO,) * (k - len(b))
        return Bits([v ^ pmul(p, u ^ v) for u, v in zip(a, b)])
    return None


PAIR = re.compile(r'^(?:std::)?pair<(.*)>$')
PURE = ('IntegerLiteral', 'FloatingLiteral', 'CharacterLiteral', 'CXXBoolLiteralExpr', 'DeclRefExpr', 'ImplicitCastExpr', 'ParenExpr', 'BinaryOperator', 'CStyleCastExpr', 'MemberExpr', 'CXXThisExpr',
        'UnaryOperator', 'CXXFunctionalCastExpr', 'CXXStaticCastExpr', 'ArraySubscriptExpr')


def pure(n):
    for x in walk(n):
        k = x.get('kind')
        if k is None:
            continue
        if k not in PURE or k == 'BinaryOperator' and x['opcode'] in ('=', '/', '%') or k == 'UnaryOperator' and x['opcode'] in ('++', '--'):
            return False
    return True


class Abort(Exception):
    pass


class Team(object):
    """threads of a parallel region, run one at a time and switched only at barriers"""

    def __init__(self, n):
        self.n, self.sem, self.alive, self.exc = n, [threading.Semaphore(0) for _ in range(n)], list(range(n)), None

    def next(self, i):
        for d in range(1, self.n + 1):
            j = (i + d) % self.n
            if j in self.alive:
                return j
        return None

    def barrier(self, i):
        j = self.next(i)
        if j is None or j == i:
            return
        self.sem[j].release()
        self.sem[i].acquire()
        if self.exc is not None:
            raise Abort()

    def run(self, fns):
        def body(i):
            self.sem[i].acquire()
            try:
                if self.exc is None:
                    fns[i]()
            except Abort:
                pass
            except BaseException as e:
                if self.exc is None:
                    self.exc = e
            self.alive.remove(i)
            j = self.next(i)
            if j is not None:
                self.sem[j].release()
        old = threading.stack_size(256 * 1024 * 1024)
        try:
            ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(self.n)]
            for t in ts:
                t.start()
        finally:
            threading.stack_size(old)
        self.sem[0].release()
        for t in ts:
            t.join()
        if self.exc is not None:
            raise self.exc


class Omp(Machine):
    """interpreter of OpenMP code with a fixed number of threads"""

    def __init__(self, tu, path, limit=400000, threads=1):
        Machine.__init__(self, tu, path, limit)
        self.threads, self.team, self.tid, self.inpar = threads, None, 0, False

    def lib(self, name, a, n):
        if name == 'omp_get_num_threads':
            return self.team.n if self.team else 1
        if name == 'omp_get_thread_num':
            return self.tid
        if name == 'omp_get_max_threads':
            return self.threads
        return Machine.lib(self, name, a, n)

    def omp(self, n):
        k = n['kind'][3:]
        body = self.captured(n)
        if k == 'BarrierDirective':
            self.sync()
        elif k in ('CriticalDirective', 'AtomicDirective'):
            self.stmt(body)
        elif k == 'MasterDirective':
            if self.tid == 0:
                self.stmt(body)
        elif k == 'SingleDirective':
            if self.tid == 0:
                self.stmt(body)
            self.sync(n)
        elif k == 'ForDirective':
            self.share(n, body)
            self.sync(n)
        elif k in ('ParallelDirective', 'ParallelForDirective'):
            loop = k == 'ParallelForDirective'
            if self.inpar or self.threads == 1:
                old = self.team, self.tid, self.inpar, self.env
                self.team, self.tid, self.inpar, self.env = None, 0, True, self.private(n, dict(self.env))
                try:
                    self.share(n, body) if loop else self.stmt(body)
                finally:
                    self.team, self.tid, self.inpar, self.env = old
                return
            team = Team(self.threads)
            ms = []
            for i in range(self.threads):
                m = Omp(self.tu, self.P, self.limit, self.threads)
                m.O, m.this, m.intr, m.seen, m.byref, m.steps = self.O, self.this, self.intr, self.seen, self.byref, self.steps
                m.env, m.team, m.tid, m.inpar = self.private(n, dict(self.env)), team, i, True
                ms.append(m)
            team.run([(lambda m=m: m.share(n, body) if loop else m.stmt(body)) for m in ms])
            self.steps = max(m.steps for m in ms)
        else:
            raise Undecided('openmp %s' % k)

    def sync(self, n=None):
        if n is not None and 'nowait' in self.tu.pragma(n):
            return
        if self.team:
            self.team.barrier(self.tid)

    def captured(self, n):
        for c in n.get('inner', ()):
            if c and c.get('kind'):
                while c.get('kind') in ('CapturedStmt', 'CapturedDecl'):
                    c = [x for x in c['inner'] if x][0]
                return c
        return None

    def private(self, n, env):
        t = self.tu.pragma(n)
        if re.search(r'\b(reduction|lastprivate|linear|ordered|collapse|if|num_threads)\b\s*\(', t):
            raise Undecided('openmp clause')
        ids = {}
        for c in n.get('inner', ()):
            if c and not c.get('kind'):
                for r in c.get('inner', ()):
                    d = (r or {}).get('referencedDecl', {})
                    ids[d.get('name')] = d.get('id')
        for kind, names in re.findall(r'\b(firstprivate|private)\s*\(([^)]*)\)', t):
            for x in names.split(','):
                i = ids.get(x.strip())
                if i not in env:
                    raise Undecided('openmp clause')
                old = env[i]
                env[i] = LV({0: UNDEF}, 0)
                if kind == 'firstprivate':
                    env[i].set(clone(old.get()))
        return env

    def share(self, n, loop):
        if loop is None or loop.get('kind') != 'ForStmt':
            raise Undecided('openmp loop')
        init, _, cond, inc, body = (list(loop['inner']) + [None] * 5)[:5]
        T = self.team.n if self.team else 1
        saved = dict(self.env)
        self.private(n, self.env)
        total = None
        static = re.search(r'schedule\s*\(\s*(dynamic|guided|static\s*,)', self.tu.pragma(n)) is None
        try:
            if T > 1 and static:
                self.stmt(init)
                total = 0
                while self.O.truth(self.rv(cond)):
                    total += 1
                    self.ex(inc)
            self.stmt(init)
            k = 0
            while self.O.truth(self.rv(cond)):
                if (k % T if total is None else k * T // max(total, 1)) == self.tid or T == 1:
                    try:
                        self.stmt(body)
                    except Cnt:
                        pass
                self.ex(inc)
                k += 1
        finally:
            self.env = saved
