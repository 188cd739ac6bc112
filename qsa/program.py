"""Program loader: parses the QuSpin Python sources and resolves modules, classes and names."""
import ast
import os
import warnings


class AnalysisBroken(Exception):
    pass


REPO = os.environ.get('QSA_REPO', '/repo')


class ClassInfo(object):
    def __init__(self, mod, node, qual):
        self.mod, self.node, self.name, self.qual = mod, node, node.name, qual
        self.methods = {}
        self.props = {}      # name -> getter FunctionDef
        self.setters = {}
        self.attrs = {}      # class level assignments: name -> expr
        self.static = set()
        self.classm = set()
        for st in node.body:
            if isinstance(st, ast.FunctionDef):
                decs = [d for d in st.decorator_list]
                kind = 'method'
                for d in decs:
                    if isinstance(d, ast.Name) and d.id == 'property':
                        kind = 'prop'
                    elif isinstance(d, ast.Attribute) and d.attr == 'setter':
                        kind = 'setter'
                    elif isinstance(d, ast.Name) and d.id == 'staticmethod':
                        self.static.add(st.name)
                    elif isinstance(d, ast.Name) and d.id == 'classmethod':
                        self.classm.add(st.name)
                if kind == 'prop':
                    self.props[st.name] = st
                elif kind == 'setter':
                    self.setters[st.name] = st
                else:
                    self.methods[st.name] = st
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = st.value
        # private names are mangled
        for tab in (self.methods, self.props, self.setters, self.attrs):
            for k in [k for k in tab if k.startswith('__') and not k.endswith('__')]:
                tab['_%s%s' % (node.name.lstrip('_'), k)] = tab.pop(k)
        for tab in (self.static, self.classm):
            for k in [k for k in tab if k.startswith('__') and not k.endswith('__')]:
                tab.remove(k)
                tab.add('_%s%s' % (node.name.lstrip('_'), k))
        self._mro = None

    def __repr__(self):
        return '<class %s>' % self.qual


class Module(object):
    def __init__(self, prog, name, path, is_pkg):
        self.prog, self.name, self.path, self.is_pkg = prog, name, path, is_pkg
        with open(path, encoding='utf8') as f:
            self.src = f.read()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            self.tree = ast.parse(self.src, path)
        self.bind = {}        # name -> ('func',node)|('class',ClassInfo)|('import',modname)|('from',mod,name)|('expr',node)|('ext',dotted)
        self.stars = []
        self.alt = {}         # name -> expression of the except branch of a module-level try
        self.rel = os.path.relpath(path, prog.repo)
        self._scan(self.tree.body, True)

    def _pkg(self, level):
        parts = self.name.split('.')
        if not self.is_pkg:
            parts = parts[:-1]
        if level > 1:
            parts = parts[:-(level - 1)]
        return '.'.join(parts)

    def absname(self, node):
        if node.level == 0:
            return node.module
        base = self._pkg(node.level)
        return base + ('.' + node.module if node.module else '')

    def _put(self, name, v, first):
        if first or name not in self.bind:
            self.bind[name] = v

    def _scan(self, body, over):
        for st in body:
            if isinstance(st, ast.FunctionDef):
                self._put(st.name, ('func', st), over)
            elif isinstance(st, ast.ClassDef):
                self._put(st.name, ('class', ClassInfo(self, st, self.name + '.' + st.name)), over)
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        self._put(a.asname, ('import', a.name), over)
                    else:
                        self._put(a.name.split('.')[0], ('import', a.name.split('.')[0]), over)
            elif isinstance(st, ast.ImportFrom):
                m = self.absname(st)
                for a in st.names:
                    if a.name == '*':
                        self.stars.append(m)
                    else:
                        self._put(a.asname or a.name, ('from', m, a.name), over)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self._put(t.id, ('expr', st.value), over)
                    elif isinstance(t, ast.Tuple):
                        for e in t.elts:
                            if isinstance(e, ast.Name):
                                self._put(e.id, ('opaque', e.id), over)
            elif isinstance(st, ast.AugAssign):
                if isinstance(st.target, ast.Name):
                    self._put(st.target.id, ('opaque', st.target.id), True)
            elif isinstance(st, ast.Try):
                self._scan(st.body, over)
                for h in st.handlers:
                    for x in h.body:
                        if isinstance(x, ast.Assign):
                            for t in x.targets:
                                if isinstance(t, ast.Name):
                                    self.alt.setdefault(t.id, x.value)
                    self._scan(h.body, False)
                self._scan(st.orelse, over)
            elif isinstance(st, ast.If):
                self._scan(st.body, over)
                self._scan(st.orelse, False)
            elif isinstance(st, (ast.For, ast.With, ast.While)):
                if isinstance(st, ast.For):
                    for e in ast.walk(st.target):
                        if isinstance(e, ast.Name):
                            self._put(e.id, ('opaque', e.id), over)
                self._scan(st.body, over)


class Program(object):
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.mods = {}
        self.missing = set()
        self.exports = {}

    def module(self, name):
        """Module for a dotted internal name, or None when it is external/native."""
        if name in self.mods:
            return self.mods[name]
        if name in self.missing or not (name == 'quspin' or name.startswith('quspin.')):
            return None
        base = os.path.join(self.repo, *name.split('.'))
        m = None
        if os.path.isfile(os.path.join(base, '__init__.py')):
            m = Module(self, name, os.path.join(base, '__init__.py'), True)
        elif os.path.isfile(base + '.py'):
            m = Module(self, name, base + '.py', False)
        if m is None:
            self.missing.add(name)
            return None
        self.mods[name] = m
        return m

    def resolve(self, mod, name, seen=None):
        """-> ('func',Module,node) | ('class',ClassInfo) | ('mod',dotted) | ('ext',dotted) | ('expr',Module,node) | ('opaque',..) | None"""
        seen = seen or set()
        if (mod.name, name) in seen:
            return None
        seen.add((mod.name, name))
        b = mod.bind.get(name)
        if b is None:
            for s in reversed(mod.stars):
                sm = self.module(s)
                if sm is None or not self.star_exports(sm, name):
                    continue
                r = self.resolve(sm, name, set(seen))
                if r is not None:
                    return r
            if mod.is_pkg and self.module(mod.name + '.' + name) is not None:
                return ('mod', mod.name + '.' + name)
            return None
        if b[0] == 'func':
            return ('func', mod, b[1])
        if b[0] == 'class':
            return ('class', b[1])
        if b[0] == 'expr':
            return ('expr', mod, b[1], mod.alt.get(name))
        if b[0] == 'opaque':
            return ('opaque', mod.name + '.' + b[1])
        if b[0] == 'import':
            if self.module(b[1]) is not None:
                return ('mod', b[1])
            return ('ext', b[1])
        if b[0] == 'from':
            _, m, n = b
            if m == '__future__':
                return ('ext', '__future__.' + n)
            sm = self.module(m)
            if sm is not None:
                r = self.resolve(sm, n, seen)
                if r is not None:
                    return r
                if self.module(m + '.' + n) is not None:
                    return ('mod', m + '.' + n)
                if m.startswith('quspin'):
                    return ('native', m + '.' + n)
                return None
            if m.startswith('quspin'):
                return ('native', m + '.' + n)
            return ('ext', m + '.' + n)

    def star_exports(self, mod, name):
        if '__all__' in mod.bind and mod.bind['__all__'][0] == 'expr':
            try:
                return name in ast.literal_eval(mod.bind['__all__'][1])
            except Exception:
                return True
        return not name.startswith('_')

    def cls(self, modname, name):
        m = self.module(modname)
        if m is None:
            raise AnalysisBroken('module %s not found' % modname)
        r = self.resolve(m, name)
        if r is None or r[0] != 'class':
            raise AnalysisBroken('class %s.%s not found' % (modname, name))
        return r[1]

    def func(self, modname, name):
        m = self.module(modname)
        if m is None:
            raise AnalysisBroken('module %s not found' % modname)
        r = self.resolve(m, name)
        if r is None or r[0] != 'func':
            raise AnalysisBroken('function %s.%s not found' % (modname, name))
        return r

    def mro(self, ci):
        """linearised list of ClassInfo / dotted external names (C3 is not needed: depth-first, last duplicate kept)"""
        if ci._mro is not None:
            return ci._mro
        out = [ci]
        for b in ci.node.bases:
            r = None
            if isinstance(b, ast.Name):
                if b.id == 'object':
                    continue
                r = self.resolve(ci.mod, b.id)
            if r is None:
                out.append('ext:' + ast.unparse(b))
            elif r[0] == 'class':
                out.extend(self.mro(r[1]))
            else:
                out.append('ext:' + str(r[1]))
        res = []
        for i, c in enumerate(out):
            if c not in out[i + 1:]:
                res.append(c)
        ci._mro = res
        return res

    def all_modules(self):
        root = os.path.join(self.repo, 'quspin')
        for dp, dn, fn in os.walk(root):
            dn[:] = sorted(d for d in dn if d not in ('__pycache__', 'tests', 'source'))
            for f in sorted(fn):
                if f.endswith('.py') and f != 'setup.py' and not f.startswith('generate_'):
                    rel = os.path.relpath(os.path.join(dp, f), self.repo)[:-3].replace(os.sep, '.')
                    if rel.endswith('.__init__'):
                        rel = rel[:-9]
                    m = self.module(rel)
                    if m is not None:
                        yield m
