"""Name, attribute and signature resolution over every Python module of the library (and the Python-visible Cython definitions)."""
import ast
import builtins
import json
import os
import string
from .. import pyx
from ..program import Program
from ..report import Report

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILTINS = set(dir(builtins)) | {'__name__', '__file__', '__doc__', '__package__', '__path__', '__spec__', '__loader__', '__builtins__', '__class__', 'WindowsError', 'reload', 'unicode', 'xrange', 'basestring', 'long', 'raw_input'}


def table(n):
    with open(os.path.join(HERE, n)) as f:
        return json.load(f)


class Sig(object):
    def __init__(self, node, skip=0, where=''):
        a = node.args
        self.pos = [x.arg for x in a.posonlyargs + a.args][skip:]
        self.npos_only = max(0, len(a.posonlyargs) - skip)
        self.ndef = len(a.defaults)
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.kwreq = [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
        self.star, self.dstar = a.vararg is not None, a.kwarg is not None
        self.where = where

    @classmethod
    def native(cls, s, skip=0):
        o = cls.__new__(cls)
        o.pos, o.npos_only, o.ndef = s.args[skip:], 0, s.ndef
        o.kwonly, o.kwreq = list(s.kwonly), []
        o.star, o.dstar, o.where = s.star, s.dstar, s.p.modname + '.' + s.name
        return o

    @classmethod
    def ext(cls, d, where):
        o = cls.__new__(cls)
        o.pos, o.npos_only, o.ndef = list(d['pos']), d['po'], d['ndef']
        o.kwonly, o.kwreq = list(d['kw']), []
        o.star, o.dstar, o.where = d['star'], d['dstar'], where
        return o

    def accepts(self, call, shift=0):
        """None when the call fits, else a reason. shift: extra leading positional arguments"""
        npos, kws, star, dstar = shift, [], False, False
        for a in call.args:
            if isinstance(a, ast.Starred):
                star = True
            else:
                npos += 1
        for k in call.keywords:
            if k.arg is None:
                dstar = True
            else:
                kws.append(k.arg)
        if npos > len(self.pos) and not self.star:
            return 'takes at most %d positional arguments, %d given' % (len(self.pos) - 0, npos)
        seen = set(self.pos[:npos]) if not star else set(self.pos[:npos])
        for k in kws:
            if k in self.kwonly:
                continue
            if k not in self.pos or self.pos.index(k) < self.npos_only:
                if not self.dstar:
                    return 'has no parameter %s' % k
                continue
            if k in seen:
                return 'parameter %s given twice' % k
        if not star and not dstar:
            need = self.pos[:len(self.pos) - self.ndef] if self.ndef else self.pos
            for i, p in enumerate(need):
                if i >= npos and p not in kws:
                    return 'required parameter %s is missing' % p
            for p in self.kwreq:
                if p not in kws:
                    return 'required parameter %s is missing' % p
        return None


def fwalk(node):
    """nodes of a function body, not entering nested function scopes (the nested nodes themselves are yielded)"""
    st = [node]
    while st:
        n = st.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
                yield c
            else:
                st.append(c)


def stores(fn):
    """names bound in the function's own scope"""
    out, glob = set(), set()
    a = fn.args
    for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
        out.add(x.arg)
    body = fn.body if isinstance(fn.body, list) else [fn.body]

    def rec(n, comp):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            out.add(n.name)
            for d in n.decorator_list:
                rec(d, comp)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for c in ast.walk(n):
                if isinstance(c, ast.NamedExpr):
                    out.add(c.target.id)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, ast.Global):
            glob.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            glob.update(n.names)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                out.add((al.asname or al.name.split('.')[0]))
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        for c in ast.iter_child_nodes(n):
            rec(c, comp)
    for s in body:
        rec(s, False)
    return out - glob, glob


# listed as public for isinstance tests and subclassing; not instantiated
ABSTRACT = ('basis', 'basis_general', 'basis_1d', 'lattice_basis')


class Lint(object):
    def __init__(self, prog, rep):
        self.prog, self.rep = prog, rep
        self._tries, self._has, self._uni, self._conc, self._mnames, self._reach = {}, {}, {}, {}, {}, {}
        self.ext = table('extnames.json')
        self.extsig = table('extsigs.json')
        self.extattrs = set(table('extattrs.json'))
        self.mods = list(prog.all_modules())
        self.native = {}
        self.nclasses = {}
        self.nsigs = []
        self.npyx = 0
        if pyx.available():
            for p in pyx.all_pyx(prog.repo):
                d, names, classes = pyx.defs(p)
                self.native[p.modname] = (d, names, classes, p)
                self.nsigs += d
                self.npyx += 1
        self.classes = []
        for m in self.mods:
            for n, b in sorted(m.bind.items()):
                if b[0] == 'class':
                    self.classes.append(b[1])
        self.subs = {}
        for c in self.classes:
            for b in prog.mro(c):
                if not isinstance(b, str):
                    self.subs.setdefault(b.qual, []).append(c)
        self.collect()

    # ---------------------------------------------------------------- tables
    def collect(self):
        self.defined = set(self.extattrs)
        for v in self.ext.values():
            self.defined |= set(v)
        self.meth = {}
        for m in self.mods:
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    self.defined.add(n.name)
                elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    self.defined.add(n.attr)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and len(n.args) > 1:
                    if isinstance(n.args[1], ast.Constant):
                        self.defined.add(n.args[1].value)
            self.defined |= set(m.bind)
            self.defined |= {m.name.split('.')[-1]}
        for d, names, classes, _ in self.native.values():
            self.defined |= names | {s.name for s in d}
        for c in self.classes:
            for n, f in c.methods.items():
                self.meth.setdefault(n, []).append((c, f))
        self.selfstores = {}
        for c in self.classes:
            s = set()
            for f in list(c.methods.values()) + list(c.props.values()) + list(c.setters.values()):
                if not f.args.args:
                    continue
                me = f.args.args[0].arg
                for n in ast.walk(f):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == me:
                        s.add(self.mangle(c, n.attr))
            self.selfstores[c.qual] = s
        # stores through receivers other than the method's own object
        self.outer = set()
        for m in self.mods:
            for f in ast.walk(m.tree):
                if isinstance(f, ast.Attribute) and isinstance(f.ctx, ast.Store) and not (isinstance(f.value, ast.Name) and f.value.id == 'self'):
                    self.outer.add(f.attr)

    @staticmethod
    def mangle(c, a):
        if a.startswith('__') and not a.endswith('__'):
            return '_%s%s' % (c.name.lstrip('_'), a)
        return a

    def universe(self, c):
        if c.qual not in self._uni:
            self._uni[c.qual] = self._universe(c)
        return self._uni[c.qual]

    def _universe(self, c):
        """attribute names an instance of c can have; None when not statically known"""
        out = set(dir(object)) | {'__dict__', '__class__'}
        for b in self.prog.mro(c):
            if isinstance(b, str):
                if b.startswith('ext:'):
                    nm = b[4:].split('.')[-1]
                    if nm in ('object',):
                        continue
                    if nm in ('LinearOperator',):
                        out |= {'shape', 'dtype', 'ndim', 'matvec', 'rmatvec', 'matmat', 'rmatmat', 'dot', 'rdot', 'adjoint', 'transpose', 'H', 'T',
                                '_matvec', '_rmatvec', '_matmat', '_rmatmat', '_init_dtype', '_adjoint', '_transpose'}
                        continue
                    return None
                continue
            if '__getattr__' in b.methods:
                return None
            out |= set(b.methods) | set(b.props) | set(b.setters) | set(b.attrs) | self.selfstores[b.qual]
            for st in b.node.body:
                for x in ast.walk(st):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        out.add(x.id)
        return out

    # ---------------------------------------------------------------- driver
    def run(self):
        for m in self.mods:
            self.module(m)

    def fail(self, rule, m, qual, what, msg, node):
        self.rep.violate(rule, '%s:%s' % (m.rel, qual), what, msg, (m.rel, qual, getattr(node, 'lineno', 0)))

    def module_names(self, m):
        if m.name not in self._mnames:
            self._mnames[m.name] = self._module_names(m)
        return self._mnames[m.name]

    def _module_names(self, m):
        names = set(m.bind)
        unknown = False
        for n in fwalk(m.tree):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                names.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                names.add(n.name)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                names.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for al in n.names:
                    if al.name != '*':
                        names.add(al.asname or al.name.split('.')[0])
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Global):
                names.update(n.names)
        for s in m.stars:
            e = self.star(s, set())
            if e is None:
                unknown = True
            else:
                names |= e
        if m.is_pkg:
            d = os.path.dirname(m.path)
            for f in os.listdir(d):
                names.add(f.split('.')[0])
        return names, unknown

    def star(self, s, seen):
        if s in seen:
            return set()
        seen = seen | {s}
        sm = self.prog.module(s)
        if sm is not None:
            allv = sm.bind.get('__all__')
            if allv and allv[0] == 'expr':
                try:
                    return set(ast.literal_eval(allv[1]))
                except Exception:
                    return None
            names = {n for n in sm.bind if not n.startswith('_')}
            for t in sm.stars:
                e = self.star(t, seen)
                if e is None:
                    return None
                names |= {n for n in e if not n.startswith('_')}
            if sm.is_pkg:
                names |= {f.split('.')[0] for f in os.listdir(os.path.dirname(sm.path)) if not f.startswith('_')}
            return names
        if s in self.native:
            return {n for n in self.native[s][1] if not n.startswith('_')}
        if s in self.ext:
            return {n for n in self.ext[s] if not n.startswith('_')}
        return None

    def module(self, m):
        self.m = m
        self.gnames, self.unknown = self.module_names(m)
        # imports
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ImportFrom):
                self.importfrom(m, n)
        al = m.bind.get('__all__')
        if al and al[0] == 'expr' and not self.unknown:
            try:
                names = ast.literal_eval(al[1])
            except Exception:
                names = []
            for nm in names:
                if nm in self.gnames:
                    self.rep.hold('import', '%s:__all__:%s' % (m.rel, nm))
                else:
                    self.fail('import', m, '__all__', nm, '%s lists %r in __all__, which the module does not define' % (m.rel, nm), al[1])
        self.scope(m, m.tree, '<module>', [], None, None)

    def importfrom(self, m, n):
        mod = m.absname(n)
        guarded = any(id(n) in ids for _, ids in self.tries(m.tree))
        for a in n.names:
            c = '%s:import %s.%s' % (m.rel, mod, a.name)
            if a.name == '*':
                continue
            sm = self.prog.module(mod) if mod else None
            ok = None
            if sm is not None:
                ok = self.prog.resolve(sm, a.name) is not None or a.name in self.module_names(sm)[0] or self.module_names(sm)[1] \
                    or (mod + '.' + a.name) in self.native
            elif mod in self.native:
                ok = a.name in self.native[mod][1]
            elif mod in self.ext:
                ok = a.name in self.ext[mod] or (mod + '.' + a.name) in self.ext
            if ok is None or (not ok and guarded):
                continue
            if ok:
                self.rep.hold('import', c)
            else:
                self.fail('import', m, 'import', '%s.%s' % (mod, a.name), '%s imports %s from %s, which does not define it' % (m.rel, a.name, mod), n)

    # ---------------------------------------------------------------- scopes
    def scope(self, m, node, qual, enclosing, cls, selfname):
        """check the body of a module, class, function or lambda"""
        isfn = isinstance(node, (ast.FunctionDef, ast.Lambda))
        if isfn:
            loc, glob = stores(node)
            enc = enclosing + [loc]
        elif isinstance(node, ast.ClassDef):
            loc = {x.id for st in node.body for x in fwalk(st) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | \
                  {st.name for st in node.body if isinstance(st, (ast.FunctionDef, ast.ClassDef))}
            for st in node.body:
                if isinstance(st, (ast.Import, ast.ImportFrom)):
                    loc |= {(a.asname or a.name.split('.')[0]) for a in st.names}
            enc = enclosing + [loc]
        else:
            loc, enc = set(), enclosing
        bad = set()
        ctx = dict(m=m, qual=qual, enc=enc, cls=cls, selfname=selfname, node=node, bad=bad, local=loc)
        hasx = any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('exec', 'eval') for n in ast.walk(node))
        if isfn:
            for n in self.unbound(node):
                self.fail('unbound', m, qual, n.id, '%s reads the local variable %r, which no path has assigned at that point' % (qual, n.id), n)
                bad.add(id(n))
            self.rep.hold('unbound', '%s:%s' % (m.rel, qual)) if not bad else None
        body = node.body if isinstance(node.body, list) else [node.body]
        ctx['hasx'] = hasx
        if isfn:
            for d in node.args.defaults + [x for x in node.args.kw_defaults if x is not None]:
                self.expr(d, dict(ctx, enc=enclosing))
        for st in body:
            self.expr(st, ctx)

    def expr(self, n, ctx):
        if isinstance(n, ast.FunctionDef):
            for d in n.decorator_list:
                self.expr(d, ctx)
            q = n.name if ctx['qual'] == '<module>' else ctx['qual'] + '.' + n.name
            cls, sn, enc = ctx['cls'], ctx['selfname'], ctx['enc']
            if isinstance(ctx['node'], ast.ClassDef):
                ci = self.prog.resolve(ctx['m'], ctx['node'].name)
                cls = ci[1] if ci and ci[0] == 'class' and ci[1].node is ctx['node'] else None
                static = any(isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod') for d in n.decorator_list)
                sn = n.args.args[0].arg if n.args.args and not static else None
                enc = enc[:-1]
            elif sn is not None and sn in stores(n)[0]:
                sn = None
            self.scope(ctx['m'], n, q, enc, cls, sn)
            return
        if isinstance(n, ast.Lambda):
            sn = ctx['selfname']
            if sn is not None and sn in stores(n)[0]:
                sn = None
            self.scope(ctx['m'], n, ctx['qual'] + '.<lambda>', ctx['enc'], ctx['cls'], sn)
            return
        if isinstance(n, ast.ClassDef):
            for b in n.bases:
                self.expr(b, ctx)
            self.scope(ctx['m'], n, n.name if ctx['qual'] == '<module>' else ctx['qual'] + '.' + n.name, ctx['enc'], None, None)
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            names = {x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            c2 = dict(ctx, enc=ctx['enc'] + [names])
            if ctx['selfname'] in names:
                c2['selfname'] = None
            for g in n.generators:
                self.expr(g.iter, ctx if g is n.generators[0] else c2)
                for i in g.ifs:
                    self.expr(i, c2)
            for e in ([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]):
                self.expr(e, c2)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            self.name(n, ctx)
        elif isinstance(n, ast.Attribute):
            self.attr(n, ctx)
        elif isinstance(n, ast.Call):
            self.call(n, ctx)
        elif isinstance(n, ast.Raise) and n.exc is not None:
            e = n.exc
            if isinstance(e, ast.Constant) or (isinstance(e, ast.Name) and e.id == 'NotImplemented') or isinstance(e, (ast.JoinedStr, ast.List)):
                self.fail('raise', ctx['m'], ctx['qual'], ast.unparse(e)[:60], '%s raises %s, which is not an exception' % (ctx['qual'], ast.unparse(e)[:60]), n)
            else:
                self.rep.hold('raise', '%s:%s' % (ctx['m'].rel, ctx['qual']))
        elif isinstance(n, ast.Assign) and isinstance(n.value, ast.Call):
            for t in n.targets:
                if isinstance(t, (ast.Tuple, ast.List)) and not any(isinstance(e, ast.Starred) for e in t.elts):
                    self.unpack(t, n.value, ctx)
        for c in ast.iter_child_nodes(n):
            self.expr(c, ctx)

    def islocal(self, name, ctx):
        return any(name in s for s in ctx['enc'])

    def name(self, n, ctx):
        if id(n) in ctx['bad'] or self.islocal(n.id, ctx) or ctx.get('hasx'):
            return
        c = '%s:%s' % (ctx['m'].rel, ctx['qual'])
        if n.id in self.gnames or n.id in BUILTINS:
            self.rep.hold('name', c)
        elif self.unknown:
            self.rep.undecided('name', c, 'star import from an unknown module')
        elif self.caught(ctx, n, ('NameError', 'Exception', None)):
            self.rep.hold('name', c)
        else:
            self.fail('name', ctx['m'], ctx['qual'], n.id, '%s refers to the name %r, which is not defined in its scope, the module or the builtins' % (ctx['qual'], n.id), n)

    def tries(self, node):
        t = self._tries.get(id(node))
        if t is None:
            t = []
            for x in ast.walk(node):
                if isinstance(x, ast.Try):
                    t.append((x, {id(y) for s in x.body for y in ast.walk(s)}))
            self._tries[id(node)] = t
        return t

    def caught(self, ctx, n, excs):
        for t, ids in self.tries(ctx['node']):
            if id(n) in ids:
                for h in t.handlers:
                    if h.type is None and None in excs:
                        return True
                    if h.type is not None and any(isinstance(x, ast.Name) and x.id in excs for x in ast.walk(h.type)):
                        return True
        return False

    def dotted(self, n, ctx):
        """resolution of a Name/Attribute chain to a module level thing"""
        if isinstance(n, ast.Name):
            if self.islocal(n.id, ctx):
                return None
            return self.prog.resolve(ctx['m'], n.id)
        if isinstance(n, ast.Attribute):
            b = self.dotted(n.value, ctx)
            if b is None:
                return None
            if b[0] == 'mod':
                sm = self.prog.module(b[1])
                r = self.prog.resolve(sm, n.attr)
                if r is None and b[1] + '.' + n.attr in self.native:
                    return ('native', b[1] + '.' + n.attr)
                return r
            if b[0] == 'native':
                return ('native', b[1] + '.' + n.attr)
            if b[0] == 'ext':
                return ('ext', b[1] + '.' + n.attr)
            if b[0] == 'class':
                return ('cattr', b[1], n.attr)
        return None

    def attr(self, n, ctx):
        m, qual = ctx['m'], ctx['qual']
        c = '%s:%s' % (m.rel, qual)
        if not isinstance(n.ctx, ast.Load):
            return
        base = self.dotted(n.value, ctx)
        if base is not None and base[0] in ('mod', 'native', 'ext'):
            ok = None
            if base[0] == 'mod':
                sm = self.prog.module(base[1])
                nm, unk = self.module_names(sm)
                ok = True if (unk or n.attr in nm or n.attr.startswith('__') or base[1] + '.' + n.attr in self.native) else False
            elif base[0] == 'native' and base[1] in self.native:
                ok = n.attr in self.native[base[1]][1] or n.attr.startswith('__')
            elif base[0] == 'ext' and base[1] in self.ext:
                ok = n.attr in self.ext[base[1]] or (base[1] + '.' + n.attr) in self.ext
            if ok is False and self.caught(ctx, n, ('AttributeError', 'Exception', None)):
                ok = True
            if ok:
                self.rep.hold('module-attr', c)
            elif ok is False:
                self.fail('module-attr', m, qual, '%s.%s' % (base[1], n.attr), '%s uses %s.%s, which does not exist' % (qual, base[1], n.attr), n)
            return
        if isinstance(n.value, ast.Name) and n.value.id == ctx['selfname'] and ctx['cls'] is not None:
            self.selfattr(n, ctx)
            return
        if isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id == 'super':
            return
        if n.attr in self.defined:
            self.rep.hold('attr', c)
        elif self.hasattr(ctx, n) or self.caught(ctx, n, ('AttributeError', 'Exception', None)):
            self.rep.hold('attr', c)
        elif base is not None and base[0] in ('class', 'cattr', 'func') and self.mangled_ok(base, n):
            self.rep.hold('attr', c)
        else:
            self.fail('attr', m, qual, n.attr, '%s reads the attribute %r of %s; nothing in the library or in numpy/scipy objects has it'
                      % (qual, n.attr, ast.unparse(n.value)[:40]), n)

    def mangled_ok(self, base, n):
        return base[0] == 'class' and self.universe(base[1]) is not None and n.attr in self.universe(base[1])

    def hasattr(self, ctx, n):
        h = self._has.get(id(ctx['node']))
        if h is None:
            h = self._has[id(ctx['node'])] = {
                x.args[1].value for x in ast.walk(ctx['node'])
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('hasattr', 'getattr') and len(x.args) > 1
                and isinstance(x.args[1], ast.Constant)}
        return n.attr in h

    def reach(self, k):
        """names of the methods of class k that its public methods reach, or that are mentioned outside of classes k derives from"""
        if k.qual in self._reach:
            return self._reach[k.qual]
        if not hasattr(self, '_mention'):
            self._mention = {}
            for m in self.mods:
                for st in m.tree.body:
                    own = st.name if isinstance(st, ast.ClassDef) else None
                    for x in ast.walk(st):
                        if isinstance(x, ast.Attribute) and not (isinstance(x.value, ast.Name) and x.value.id == 'self'):
                            self._mention.setdefault(x.attr, set()).add((m.name, own))
        mro = [b for b in self.prog.mro(k) if not isinstance(b, str)]
        quals = {(b.mod.name, b.name) for b in mro}
        names = {}
        for b in reversed(mro):
            for n, f in list(b.methods.items()) + list(b.props.items()):
                names[n] = (b, f)
        seen, todo = set(), []

        def push(n):
            if n in names and n not in seen:
                seen.add(n)
                todo.append(names[n])
        for n in names:
            if not n.startswith('_') or (n.startswith('__') and n.endswith('__')) or (self._mention.get(n, set()) - quals):
                push(n)
        done = set()
        while todo:
            b, f = todo.pop()
            if id(f) in done:
                continue
            done.add(id(f))
            for x in ast.walk(f):
                if isinstance(x, ast.Attribute):
                    push(self.mangle(b, x.attr))
                    # explicit base class calls reach overridden definitions too
                    if isinstance(x.value, ast.Name) and x.value.id != 'self':
                        r = self.prog.resolve(b.mod, x.value.id)
                        if r is not None and r[0] == 'class':
                            for bb in self.prog.mro(r[1]):
                                if not isinstance(bb, str) and x.attr in bb.methods:
                                    todo.append((bb, bb.methods[x.attr]))
                                    break
                    if isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Name) and x.value.func.id == 'super':
                        for bb in self.prog.mro(b)[1:]:
                            if not isinstance(bb, str) and x.attr in bb.methods:
                                todo.append((bb, bb.methods[x.attr]))
                                break
        self._reach[k.qual] = done
        return done

    def runs(self, cls, fname, k):
        """can an instance of k run method fname as defined in cls?"""
        f = cls.methods.get(self.mangle(cls, fname)) or cls.props.get(fname)
        return True if f is None else id(f) in self.reach(k)

    def concrete(self, c):
        if c.qual not in self._conc:
            self._conc[c.qual] = self._concrete(c)
        return self._conc[c.qual]

    def _concrete(self, c):
        """the classes whose instances can run a method of c: c itself unless it is an abstract base, and its subclasses"""
        subs = self.subs.get(c.qual, [])
        leaf = [s for s in subs if not [x for x in self.subs.get(s.qual, []) if x is not s]]
        if c in leaf:
            return leaf
        if not hasattr(self, '_made'):
            # classes that something instantiates by name, or that a module lists as public
            self._made = set()
            for m in self.mods:
                for x in ast.walk(m.tree):
                    if isinstance(x, ast.Call) and isinstance(x.func, (ast.Name, ast.Attribute)):
                        self._made.add(x.func.id if isinstance(x.func, ast.Name) else x.func.attr)
                    elif isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == '__all__' for t in x.targets):
                        self._made.update(y.value for y in ast.walk(x.value) if isinstance(y, ast.Constant))
                    elif isinstance(x, ast.ImportFrom) and m.rel.endswith('__init__.py'):
                        self._made.update(y.name for y in x.names)
        mid = [s for s in subs if s not in leaf and s.name in self._made and s.name not in ABSTRACT]
        return leaf + [x for x in mid if x in subs]

    def selfattr(self, n, ctx):
        m, qual, cls = ctx['m'], ctx['qual'], ctx['cls']
        a = self.mangle(cls, n.attr)
        fname = qual.split('.')[1] if '.' in qual else qual
        for k in self.concrete(cls):
            # the method has to be the one instances of k run, or be reachable through super
            u = self.universe(k)
            c = '%s:%s@%s' % (m.rel, qual, k.name)
            if u is None:
                self.rep.undecided('self-attr', c, 'attributes of %s are not statically known' % k.name)
            elif a in u or self.hasattr(ctx, n) or self.caught(ctx, n, ('AttributeError', 'Exception', None)):
                self.rep.hold('self-attr', c)
            else:
                if not self.runs(cls, fname, k):
                    continue   # overridden for this class
                if a in self.outer and a in self.defined:
                    self.rep.undecided('self-attr', c, 'attribute set from outside the class')
                    continue
                self.fail('self-attr', m, qual, '%s.%s' % (k.name, a), '%s reads self.%s, which objects of class %s never have' % (qual, a, k.name), n)

    # ---------------------------------------------------------------- calls
    def targets(self, n, ctx):
        """(list of candidate Sig, mode) ; mode 'all': every candidate must accept, 'any': at least one"""
        f = n.func
        if isinstance(f, ast.Name):
            if self.islocal(f.id, ctx):
                cand = [x for x in fwalk(ctx['node']) if isinstance(x, ast.FunctionDef) and x.name == f.id and x is not ctx['node']]
                other = [x for x in fwalk(ctx['node']) if isinstance(x, ast.Name) and x.id == f.id and isinstance(x.ctx, ast.Store)]
                if len(cand) == 1 and not other and f.id in ctx['local']:
                    return [Sig(cand[0], 0, ctx['qual'] + '.' + f.id)], 'all'
                return [], None
        r = self.dotted(f, ctx)
        if r is not None:
            return self.sig_of(r), 'all'
        if isinstance(f, ast.Attribute):
            v = f.value
            if isinstance(v, ast.Name) and v.id == ctx['selfname'] and ctx['cls'] is not None:
                out = []
                cls = ctx['cls']
                a = self.mangle(cls, f.attr)
                fname = ctx['qual'].split('.')[1] if '.' in ctx['qual'] else ctx['qual']
                for k in self.concrete(cls):
                    mro = self.prog.mro(k)
                    if not self.runs(cls, fname, k):
                        continue
                    if any(not isinstance(b, str) and a in self.selfstores[b.qual] for b in mro):
                        continue
                    d = next((b for b in mro if not isinstance(b, str) and (a in b.methods or a in b.props or a in b.attrs)), None)
                    if d is None or a not in d.methods:
                        continue
                    if self.stub(d.methods[a]):
                        continue
                    out.append(Sig(d.methods[a], 0 if a in d.static else 1, '%s.%s' % (d.name, a)))
                return out, 'all'
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'super' and ctx['cls'] is not None:
                c = ctx['cls']
                for b in self.prog.mro(c)[1:]:
                    if isinstance(b, str):
                        return [], None
                    if f.attr in b.methods:
                        return [Sig(b.methods[f.attr], 1, '%s.%s' % (b.name, f.attr))], 'all'
                return [], None
            # unknown receiver: some definition of that method has to accept the call
            if f.attr in self.extattrs or f.attr in self.outer:
                return [], None
            out = []
            for c, d in self.meth.get(f.attr, ()):
                if self.stub(d):
                    continue
                out.append(Sig(d, 0 if f.attr in c.static else 1, '%s.%s' % (c.name, f.attr)))
            for s in self.nsigs:
                if s.name == f.attr:
                    out.append(Sig.native(s, 1 if s.cls else 0))
            if not out:
                return [], None
            if any(f.attr in (c.props) or f.attr in c.attrs or f.attr in self.selfstores[c.qual] for c in self.classes):
                return [], None
            return out, 'any'
        return [], None

    @staticmethod
    def stub(f):
        b = [s for s in f.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
        return len(b) == 0 or (len(b) == 1 and isinstance(b[0], (ast.Raise, ast.Pass)))

    def sig_of(self, r):
        if r[0] == 'func':
            return [Sig(r[2], 0, r[2].name)] if not r[2].decorator_list else []
        if r[0] == 'class':
            for b in self.prog.mro(r[1]):
                if isinstance(b, str):
                    return []
                if '__new__' in b.methods:
                    return []
                if '__init__' in b.methods:
                    return [Sig(b.methods['__init__'], 1, '%s.__init__' % b.name)]
            return []
        if r[0] == 'cattr':
            for b in self.prog.mro(r[1]):
                if isinstance(b, str):
                    return []
                if r[2] in b.methods:
                    if r[2] in b.classm:
                        return [Sig(b.methods[r[2]], 1, '%s.%s' % (b.name, r[2]))]
                    return [Sig(b.methods[r[2]], 0, '%s.%s' % (b.name, r[2]))]
            return []
        if r[0] == 'native':
            mod, _, nm = r[1].rpartition('.')
            for modn, (d, names, classes, p) in self.native.items():
                if modn == mod or modn.startswith(mod + '.'):
                    c = [s for s in d if s.name == nm and s.cls is None]
                    if c:
                        return [Sig.native(c[0])]
                    if nm in classes:
                        i = [s for s in d if s.cls == nm and s.name in ('__cinit__', '__init__')]
                        return [Sig.native(s, 1) for s in i]
            return []
        if r[0] == 'ext':
            d = self.extsig.get(r[1])
            if d is not None:
                return [Sig.ext(d, r[1])]
        return []

    def call(self, n, ctx):
        c = '%s:%s' % (ctx['m'].rel, ctx['qual'])
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr == 'format' and isinstance(f.value, ast.Constant) and isinstance(f.value.value, str):
            self.format(n, f.value.value, ctx)
            return
        sigs, mode = self.targets(n, ctx)
        if not sigs:
            return
        why = [(s.accepts(n), s) for s in sigs]
        bad = [(w, s) for w, s in why if w]
        if (mode == 'all' and bad) or (mode == 'any' and len(bad) == len(why)):
            if self.caught(ctx, n, ('TypeError', 'Exception', None)):
                self.rep.hold('signature', c)
                return
            w, s = bad[0]
            self.fail('signature', ctx['m'], ctx['qual'], '%s %s' % (s.where, w), '%s calls %s in a way it does not accept: %s'
                      % (ctx['qual'], s.where, w), n)
        else:
            self.rep.hold('signature', c)

    def format(self, n, s, ctx):
        if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
            return
        kws = {k.arg for k in n.keywords}
        auto, need, bad = 0, 0, None
        try:
            for _, fld, spec, _ in string.Formatter().parse(s):
                if fld is None:
                    continue
                h = fld.split('.')[0].split('[')[0]
                if h == '':
                    auto += 1
                    need = max(need, auto)
                elif h.isdigit():
                    need = max(need, int(h) + 1)
                elif h not in kws:
                    bad = 'field %s has no argument' % h
        except ValueError as e:
            bad = str(e)
        if need > len(n.args):
            bad = '%d fields, %d arguments' % (need, len(n.args))
        if bad:
            self.fail('format', ctx['m'], ctx['qual'], '%s: %s' % (s[:40], bad), '%s formats %r wrongly: %s' % (ctx['qual'], s[:40], bad), n)
        else:
            self.rep.hold('format', '%s:%s' % (ctx['m'].rel, ctx['qual']))

    def unpack(self, t, call, ctx):
        f = call.func
        fns = []
        r = self.dotted(f, ctx) if not (isinstance(f, ast.Name) and self.islocal(f.id, ctx)) else None
        if r is not None and r[0] == 'func':
            fns = [r[2]]
        elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == ctx['selfname'] and ctx['cls'] is not None:
            for b in self.prog.mro(ctx['cls']):
                if not isinstance(b, str) and f.attr in b.methods:
                    fns = [b.methods[f.attr]]
                    break
            if any(f.attr in x.methods for x in self.subs.get(ctx['cls'].qual, []) if x is not ctx['cls']):
                fns = []
        for fn in fns:
            if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in fwalk(fn)):
                return
            lens = set()
            for x in fwalk(fn):
                if isinstance(x, ast.Return):
                    if isinstance(x.value, ast.Tuple) and not any(isinstance(e, ast.Starred) for e in x.value.elts):
                        lens.add(len(x.value.elts))
                    else:
                        lens.add(None)
            if lens and None not in lens:
                if len(t.elts) in lens:
                    self.rep.hold('unpack', '%s:%s' % (ctx['m'].rel, ctx['qual']))
                else:
                    self.fail('unpack', ctx['m'], ctx['qual'], '%s %d' % (fn.name, len(t.elts)), '%s unpacks %d values from %s, which returns %s'
                              % (ctx['qual'], len(t.elts), fn.name, sorted(lens)), call)

    # ---------------------------------------------------------------- local variables
    def unbound(self, fn):
        """reads of local variables that no definition reaches (may-be-assigned dataflow)"""
        loc, glob = stores(fn)
        a = fn.args
        start = frozenset(x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y])
        if not isinstance(fn.body, list):
            return []
        bad = {}
        flow = _Flow(loc, bad)
        flow.block(fn.body, start)
        return list(bad.values())


class _Flow(object):
    """state: frozenset of possibly assigned names, None when unreachable"""

    def __init__(self, loc, bad):
        self.loc, self.bad = loc, bad
        self.loops, self.exc = [], []
        self.quiet = 0

    def use(self, n, s):
        """reads of an expression in evaluation order are approximated: all reads before all writes"""
        wr = set()
        st = [n]
        while st:
            x = st.pop()
            if isinstance(x, (ast.Lambda, ast.FunctionDef, ast.ClassDef)):
                continue
            if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                own = {y.id for g in x.generators for y in ast.walk(g.target) if isinstance(y, ast.Name)}
                for y in ast.walk(x):
                    if isinstance(y, ast.NamedExpr):
                        wr.add(y.target.id)
                    if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Load) and y.id not in own:
                        self.read(y, s)
                continue
            if isinstance(x, ast.NamedExpr):
                wr.add(x.target.id)
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                if x.id not in wr:
                    self.read(x, s)
            st.extend(ast.iter_child_nodes(x))
        return s | wr if wr else s

    def read(self, n, s):
        if n.id in self.loc and n.id not in s and not self.quiet:
            self.bad[id(n)] = n

    def targets(self, t, s):
        out = set()
        for x in ast.walk(t):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                out.add(x.id)
        for x in ast.walk(t):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                self.read(x, s)
        return s | out

    def block(self, body, s):
        for st in body:
            if s is None:
                return None
            s = self.stmt(st, s)
        return s

    @staticmethod
    def join(*xs):
        xs = [x for x in xs if x is not None]
        if not xs:
            return None
        return frozenset().union(*xs)

    def stmt(self, st, s):
        for e in self.exc:
            e.append(s)
        s2 = self._stmt(st, frozenset(s))
        if s2 is not None:
            s2 = frozenset(s2)
            for e in self.exc:
                e.append(s2)
        return s2

    def _stmt(self, st, s):
        if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
            return s | {st.name}
        if isinstance(st, ast.Assign):
            s = self.use(st.value, s)
            for t in st.targets:
                s = self.targets(t, s)
            return s
        if isinstance(st, ast.AugAssign):
            s = self.use(st.value, s)
            if isinstance(st.target, ast.Name):
                self.read(ast.copy_location(ast.Name(st.target.id, ast.Load()), st.target), s)
            else:
                self.use(st.target, s)
            return s
        if isinstance(st, ast.AnnAssign):
            if st.value is not None:
                s = self.use(st.value, s)
                return self.targets(st.target, s)
            return s
        if isinstance(st, ast.If):
            s = self.use(st.test, s)
            c = st.test.value if isinstance(st.test, ast.Constant) else None
            a = self.block(st.body, s) if c is not False else None
            b = self.block(st.orelse, s) if c is not True else None
            return self.join(a, b)
        if isinstance(st, (ast.For, ast.While)):
            if isinstance(st, ast.For):
                s = self.use(st.iter, s)
            cur = s
            infinite = isinstance(st, ast.While) and isinstance(st.test, ast.Constant) and bool(st.test.value)
            for rnd in range(3):
                self.loops.append([[], []])
                if isinstance(st, ast.While):
                    s1 = self.use(st.test, cur)
                else:
                    s1 = self.targets(st.target, cur)
                self.quiet += 1 if rnd < 2 else 0
                e = self.block(st.body, s1)
                self.quiet -= 1 if rnd < 2 else 0
                br, co = self.loops.pop()
                cur = self.join(cur, e, *co)
            after = None if infinite else (cur if isinstance(st, ast.While) else cur)
            after = self.block(st.orelse, after) if after is not None else None
            return self.join(after, *br)
        if isinstance(st, ast.With):
            for i in st.items:
                s = self.use(i.context_expr, s)
                if i.optional_vars is not None:
                    s = self.targets(i.optional_vars, s)
            return self.block(st.body, s)
        if isinstance(st, ast.Try):
            pts = [s]
            self.exc.append(pts)
            e = self.block(st.body, s)
            self.exc.pop()
            h0 = self.join(*pts)
            outs = []
            if e is not None:
                outs.append(self.block(st.orelse, e))
            for h in st.handlers:
                hs = h0 | {h.name} if h.name else h0
                o = self.block(h.body, hs)
                if o is not None and h.name:
                    o = o - {h.name}
                outs.append(o)
            r = self.join(*outs)
            if st.finalbody:
                f = self.block(st.finalbody, self.join(r, h0))
                r = None if (r is None or f is None) else f
            return r
        if isinstance(st, (ast.Return, ast.Raise)):
            for c in ast.iter_child_nodes(st):
                self.use(c, s)
            return None
        if isinstance(st, ast.Break):
            if self.loops:
                self.loops[-1][0].append(s)
            return None
        if isinstance(st, ast.Continue):
            if self.loops:
                self.loops[-1][1].append(s)
            return None
        if isinstance(st, ast.Delete):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    self.read(t, s)
                    s = s - {t.id}
                else:
                    self.use(t, s)
            return s
        if isinstance(st, (ast.Import, ast.ImportFrom)):
            return s | {(al.asname or al.name.split('.')[0]) for al in st.names}
        if isinstance(st, (ast.Global, ast.Nonlocal, ast.Pass)):
            return s
        return self.use(st, s)
