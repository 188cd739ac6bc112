"""Cython sources: parsed with Cython's own front end (no compilation, no import of the built modules)."""
import glob
import os
import re
import sys
import warnings

for p in ('/usr/lib/python3/dist-packages', '/opt/veriftools/pyvenv/lib/python3.12/site-packages'):
    if os.path.isdir(os.path.join(p, 'Cython')) and p not in sys.path:
        sys.path.append(p)


def available():
    try:
        import Cython.Compiler.TreeFragment  # noqa
        return True
    except Exception:
        return False


class Src(object):
    """text with includes inlined and a map line -> (file, line)"""

    def __init__(self, path):
        self.path = path
        self.lines, self.map = [], []
        self._load(path, set())
        self.text = '\n'.join(self.lines) + '\n'

    def _load(self, path, seen):
        if path in seen:
            return
        seen = seen | {path}
        with open(path, encoding='utf8') as f:
            for i, l in enumerate(f.read().expandtabs(4).split('\n')):
                m = re.match(r'include\s+["\'](.*)["\']', l)
                inc = m and os.path.join(os.path.dirname(path), m.group(1))
                if inc and os.path.isfile(inc):
                    self._load(inc, seen)
                else:
                    self.lines.append(l.rstrip())
                    self.map.append((path, i + 1))

    def at(self, line):
        i = min(max(line - 1, 0), len(self.map) - 1)
        return self.map[i]


class Pyx(object):
    def __init__(self, path, repo):
        from Cython.Compiler.TreeFragment import parse_from_strings
        from Cython.Compiler import Errors
        self.path = path
        self.rel = os.path.relpath(path, repo)
        self.modname = self.rel[:-4].replace(os.sep, '.')
        self.src = Src(path)
        if hasattr(Errors, 'init_thread'):
            Errors.init_thread()
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            self.tree = parse_from_strings(os.path.basename(path)[:-4], self.src.text)

    def loc(self, node):
        f, l = self.src.at(node.pos[1])
        return f, l


def kids(n):
    for a in getattr(n, 'child_attrs', None) or ():
        v = getattr(n, a, None)
        if isinstance(v, (list, tuple)):
            for x in v:
                if x is not None and hasattr(x, 'child_attrs'):
                    yield x
        elif v is not None and hasattr(v, 'child_attrs'):
            yield v


def walk(n):
    yield n
    for k in kids(n):
        for x in walk(k):
            yield x


def tname(n):
    return type(n).__name__


_CACHE = {}


def load(path, repo):
    if path not in _CACHE:
        _CACHE[path] = Pyx(path, repo)
    return _CACHE[path]


def all_pyx(repo):
    """top level extension sources (files that are only included by others are reached through their includer)"""
    fs = sorted(glob.glob(os.path.join(repo, 'quspin', '**', '*.pyx'), recursive=True))
    inc = set()
    for f in fs:
        for l in open(f, encoding='utf8'):
            m = re.match(r'include\s+["\'](.*)["\']', l)
            if m:
                inc.add(os.path.normpath(os.path.join(os.path.dirname(f), m.group(1))))
    for f in fs:
        if os.path.normpath(f) in inc or os.sep + 'tests' + os.sep in f:
            continue
        yield load(f, repo)


def argname(a):
    d = a.declarator
    while d is not None and not getattr(d, 'name', None) and hasattr(d, 'base'):
        d = d.base
    n = getattr(d, 'name', '') or ''
    if not n:
        # "def f(x)": parsed as a base type without declarator
        n = getattr(a.base_type, 'name', '') or ''
    return n


class NSig(object):
    def __init__(self, name, args, ndef, star, dstar, kwonly, cls, p, node):
        self.name, self.args, self.ndef, self.star, self.dstar, self.kwonly, self.cls, self.p, self.node = \
            name, args, ndef, star, dstar, kwonly, cls, p, node


def defs(p):
    """NSig of every def/cpdef visible from Python in one extension module; also the names bound at module level"""
    out, names, classes = [], set(), {}

    def stat(n, cls):
        t = tname(n)
        if t == 'StatListNode':
            for s in n.stats:
                stat(s, cls)
        elif t == 'DefNode':
            a = [argname(x) for x in n.args]
            nd = sum(1 for x in n.args if x.default is not None and not x.kw_only)
            kwonly = [argname(x) for x in n.args if x.kw_only]
            a = [x for x in a if x not in kwonly]
            out.append(NSig(n.name, a, nd, n.star_arg is not None, n.starstar_arg is not None, kwonly, cls, p, n))
            if cls is None:
                names.add(n.name)
        elif t == 'CFuncDefNode':
            if getattr(n, 'overridable', False):
                d = n.declarator
                while not hasattr(d, 'args'):
                    d = d.base
                a = [argname(x) for x in d.args]
                nm = d.base.name
                out.append(NSig(nm, a, sum(1 for x in d.args if x.default is not None), False, False, [], cls, p, n))
                if cls is None:
                    names.add(nm)
        elif t in ('CClassDefNode', 'PyClassDefNode'):
            nm = getattr(n, 'class_name', None) or n.name
            names.add(nm)
            bs = []
            if getattr(n, 'bases', None) is not None:
                bs = [getattr(x, 'name', '') for x in getattr(n.bases, 'args', [])]
            if getattr(n, 'base_class_name', None):
                bs.append(n.base_class_name)
            classes[nm] = bs
            if n.body is not None:
                stat(n.body, nm)
        elif t == 'PropertyNode':
            names.add(n.name)
        elif t == 'SingleAssignmentNode':
            for x in walk(n.lhs):
                if tname(x) == 'NameNode':
                    names.add(x.name)
                    break
            if tname(n.rhs) == 'ImportNode':
                pass
        elif t == 'FromImportStatNode':
            for nm, tgt in n.items:
                names.add(getattr(tgt, 'name', nm))
        elif t in ('IfStatNode', 'ForInStatNode', 'TryExceptStatNode', 'CImportStatNode'):
            for k in walk(n):
                if k is not n and tname(k) in ('SingleAssignmentNode', 'DefNode'):
                    stat(k, cls)
        elif t == 'CompilerDirectivesNode':
            stat(n.body, cls)
    b = p.tree.body if hasattr(p.tree, 'body') else p.tree
    stat(b, None)
    return out, names, classes
