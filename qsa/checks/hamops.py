"""Operator-algebra scenarios for time-dependent operators."""
from ..values import *
from ..terms import Poly, ZERO, declare
from ..interp import Budget
from ..ctx import Client
from ..opscan import *

IMP = "from quspin.operators import hamiltonian, ishamiltonian, commutator, anti_commutator, exp_op\n"
C128, F64, C64, F32 = 'complex128', 'float64', 'complex64', 'float32'

# label: (static format or None, [(dynamic format, drive index)])
KINDS = {
    'sparse-static': ('csr', []),
    'sparse-driven': ('csr', [('csr', 0)]),
    'sparse-2drives': ('csr', [('csr', 0), ('csr', 1)]),
    'driven-only': (None, [('csr', 0)]),
    'dense-static': ('nd', []),
    'dense-driven': ('nd', [('nd', 0)]),
    'mixed-sparse-static': ('csr', [('nd', 0)]),
    'mixed-dense-static': ('nd', [('csr', 0)]),
    'csc-driven': ('csc', [('csc', 0)]),
    'dia-driven': ('dia', [('dia', 0)]),
}


class Construction(Exception):
    def __init__(self, exc):
        self.exc = exc


class HamCase(object):
    """builds hamiltonian operands inside a client script"""

    def __init__(self, prog, N=6):
        self.c = Client(prog, IMP, N)
        self.I = self.c.I
        self.S = self.c.start()
        self.pre = []
        self.val = {}
        self.inputs = []
        for nm in ('f', 'g', 'k'):
            self.c.ufn(self.S, nm, C128)
        for nm in ('fr', 'gr'):
            self.c.ufn(self.S, nm, F64)
        self.c.bind(self.S, 't', T0)
        self.names = []

    def ham(self, name, kind, letter, dtype=C128, drives=('f', 'g'), content=None):
        st, dyn = KINDS[kind]
        if dtype in (F64, F32):
            drives = [d + 'r' for d in drives]      # a real operator only admits real drives
        S, c = self.S, self.c
        tot = ZERO
        stl = ''
        from ..npmodel import isreal
        if st:
            r = c.mat(S, letter, st, dtype, content=content(letter) if content else None)
            tot = tot + S.content(r)
            self.inputs.append(letter)
            stl = letter
        dl = []
        for i, (fmt, d) in enumerate(dyn):
            nm = '%s%d' % (letter, i + 1)
            r = c.mat(S, nm, fmt, dtype, content=content(nm) if content else None)
            self.inputs.append(nm)
            tot = tot + S.content(r) * Poly.satom(('app', drives[d], (T0.p.key(),), False))
            dl.append('[%s,%s,[]]' % (nm, drives[d]))
        self.pre.append('%s = hamiltonian([%s],[%s],dtype=np.%s%s)' % (name, stl, ','.join(dl), dtype, '' if st else ',shape=(6,6)'))
        self.val[name] = tot
        self.names.append(name)
        return tot

    def mat(self, name, fmt, dtype=C128):
        r = self.c.mat(self.S, name, fmt, dtype)
        self.val[name] = self.S.content(r)
        self.inputs.append(name)
        return self.val[name]

    def scalar(self, name, dtype=C128):
        v = self.c.scalar(self.S, name, dtype)
        self.val[name] = v.p
        return v.p

    def vec(self, name, cols=None, dtype=C128):
        r = self.c.vec(self.S, name, cols, dtype)
        self.inputs.append(name)
        return self.S.content(r)

    def start(self):
        """run the construction part; returns outcomes without exception"""
        outs = self.c.run(self.S, '\n'.join(self.pre) or 'pass')
        good = [o for o in outs if o.exc is None]
        if outs and not good:
            raise Construction(outs[0].exc)
        if len(outs) != 1:
            raise Undecided('construction: %d partitions' % len(outs))
        self.S = good[0].S
        return self.S

    def run(self, script):
        return self.c.run(self.S.fork(), script)


def run_quiet(fn, *a):
    """-> (result, None) or (None, reason)"""
    try:
        return fn(*a), None
    except Undecided as e:
        return None, str(e)
    except Budget as e:
        return None, 'budget: %s' % e
    except RecursionError:
        return None, 'recursion'


def excsig(e):
    loc = e.loc[1].split('.')[-1] if e.loc else '?'
    return '%s(%s)' % (e.name, e.msg if e.internal else '')


# ------------------------------------------------------------------ scenarios
class Scen(object):
    """one obligation family: a client script, the specified value of `R` and the operands that must stay intact"""
    __slots__ = ('label', 'build', 'script', 'inplace', 'tags', 'shape', 'dtype', 'reject')

    def __init__(self, label, build, script, inplace=None, tags=(), shape=None, dtype=None, reject=False):
        self.label, self.build, self.script, self.inplace, self.tags = label, build, script, inplace, tags
        self.shape, self.dtype, self.reject = shape, dtype, reject


def conjdrv(p):
    return p.conj()


def _ham2(k1, k2, d1=C128, d2=C128, drives=('g', 'f'), content2=None):
    def b(hc):
        hc.ham('H1', k1, 'A', d1)
        hc.ham('H2', k2, 'B', d2, drives=drives, content=content2)
    return b


def cancel(nm):
    return -Poly.sym('A' + nm[1:])


def scenarios(tier='quick'):
    """(Scen, spec function HamCase -> Poly)"""
    out = []
    kinds = list(KINDS)
    OPS = [('+', lambda a, b: a + b), ('-', lambda a, b: a - b), ('*', lambda a, b: a * b)]
    for k1 in kinds:
        for k2 in kinds:
            for op, f in OPS:
                out.append((Scen('%s %s %s' % (k1, op, k2), _ham2(k1, k2), 'R = H1 %s H2' % op),
                            (lambda f: lambda hc: f(hc.val['H1'], hc.val['H2']))(f)))
                out.append((Scen('%s %s= %s' % (k1, op, k2), _ham2(k1, k2), 'H1 %s= H2\nR = H1' % op, 'H1'),
                            (lambda f: lambda hc: f(hc.val['H1'], hc.val['H2']))(f)))
    # shared drives and exact cancellation
    for k1, k2 in (('sparse-driven', 'sparse-driven'), ('dense-driven', 'dense-driven'), ('sparse-2drives', 'sparse-2drives'),
                   ('mixed-sparse-static', 'mixed-sparse-static'), ('csc-driven', 'csc-driven')):
        for nm, cont in (('same-drive', None), ('cancelling', cancel)):
            for op, f in OPS:
                b = _ham2(k1, k2, drives=('f', 'g'), content2=cont)
                out.append((Scen('%s %s %s (%s)' % (k1, op, k2, nm), b, 'R = H1 %s H2' % op),
                            (lambda f: lambda hc: f(hc.val['H1'], hc.val['H2']))(f)))
                out.append((Scen('%s %s= %s (%s)' % (k1, op, k2, nm), b, 'H1 %s= H2\nR = H1' % op, 'H1'),
                            (lambda f: lambda hc: f(hc.val['H1'], hc.val['H2']))(f)))
    # plain matrices
    for k1 in kinds:
        for fmt in ('csr', 'csc', 'dia', 'nd', 'mat'):
            def b(hc, k1=k1, fmt=fmt):
                hc.ham('H1', k1, 'A')
                hc.mat('M', fmt)
            for op, f in OPS:
                out.append((Scen('%s %s %s matrix' % (k1, op, fmt), b, 'R = H1 %s M' % op),
                            (lambda f: lambda hc: f(hc.val['H1'], hc.val['M']))(f)))
                if fmt != 'mat':
                    out.append((Scen('%s %s= %s matrix' % (k1, op, fmt), b, 'H1 %s= M\nR = H1' % op, 'H1'),
                                (lambda f: lambda hc: f(hc.val['H1'], hc.val['M']))(f)))
                if fmt != 'mat':
                    out.append((Scen('%s matrix %s %s' % (fmt, op, k1), b, 'R = M %s H1' % op),
                                (lambda f: lambda hc: f(hc.val['M'], hc.val['H1']))(f)))
        for sc in ('c', '2', '2.5', '1j', '-1'):
            def b(hc, k1=k1, sc=sc):
                hc.ham('H1', k1, 'A')
                hc.val['s'] = hc.scalar('c') if sc == 'c' else Poly.const(complex(sc))
            m = lambda hc: hc.val['H1'] * hc.val['s']
            out.append((Scen('%s * scalar %s' % (k1, sc), b, 'R = H1 * (%s)' % sc), m))
            out.append((Scen('scalar %s * %s' % (sc, k1), b, 'R = (%s) * H1' % sc), m))
            out.append((Scen('%s *= scalar %s' % (k1, sc), b, 'H1 *= (%s)\nR = H1' % sc, 'H1'), m))
            out.append((Scen('%s / scalar %s' % (k1, sc), b, 'R = H1 / (%s)' % sc),
                        lambda hc: hc.val['H1'] * hc.val['s'].inverse()))
        b1 = (lambda k1: lambda hc: hc.ham('H1', k1, 'A'))(k1)
        v = lambda hc: hc.val['H1']
        for e, f in (('R = H1 + 0', v), ('R = 0 + H1', v), ('R = H1 - 0', v), ('R = 0 - H1', lambda hc: -hc.val['H1']),
                     ('R = H1.copy()', v), ('R = H1.astype(np.complex128,copy=True)', v),
                     ('R = -H1', lambda hc: -hc.val['H1']),
                     ('R = H1 * 0', lambda hc: ZERO), ('R = H1 - H1', lambda hc: ZERO),
                     ('R = H1 + H1', lambda hc: hc.val['H1'].scale(2)), ('R = H1 * H1', lambda hc: hc.val['H1'] * hc.val['H1']),
                     ('R = H1 ** 2', lambda hc: hc.val['H1'].power(2)), ('R = H1 ** 3', lambda hc: hc.val['H1'].power(3)),
                     ('R = H1.transpose(copy=True)', lambda hc: hc.val['H1'].T().d and trp(hc.val['H1'])),
                     ('R = H1.getH(copy=True)', lambda hc: hc.val['H1'].H()),
                     ('R = H1.conj()', lambda hc: hc.val['H1'].conj()), ('R = H1.conjugate()', lambda hc: hc.val['H1'].conj()),
                     ):
            out.append((Scen('%s: %s' % (k1, e), b1, e), f))
        for e, f in (('R = H1.T', lambda hc: trp(hc.val['H1'])), ('R = H1.H', lambda hc: hc.val['H1'].H()),
                     ('R = H1.T.T', v), ('R = H1.H.H', v),
                     ('R = H1.transpose()', lambda hc: trp(hc.val['H1'])), ('R = H1.getH()', lambda hc: hc.val['H1'].H()),
                     ('R = H1.astype(np.complex128)', v), ('R = H1.as_dense_format()', v),
                     ('R = H1.as_dense_format(copy=True)', v),
                     ('R = H1.as_sparse_format()', v), ("R = H1.as_sparse_format(static_fmt='csc',copy=True)", v),
                     ):
            out.append((Scen('%s: %s' % (k1, e), b1, e, tags=('shares',)), f))
        for sf in ('None', "'csr'", "'csc'", "'dia'", "'dense'"):
            out.append((Scen('%s: update_matrix_formats(%s,None)' % (k1, sf), b1,
                             'H1.update_matrix_formats(%s,None)\nR = H1' % sf, 'H1'), v))
        for df in ("'csr'", "'csc'", "'dia'", "'dense'"):
            out.append((Scen('%s: update_matrix_formats(None,%s)' % (k1, df), b1,
                             'H1.update_matrix_formats(None,%s)\nR = H1' % df, 'H1'), v))
            if 'driven' in k1:
                out.append((Scen('%s: update_matrix_formats(None,[(%s,(f,()))])' % (k1, df), b1,
                                 'H1.update_matrix_formats(None,[(%s,(f,()))])\nR = H1' % df, 'H1'), v))
        for st, dy in (("'dense'", "'dense'"), ("'dense'", "'csr'"), ("'csr'", "'dense'")):
            out.append((Scen('%s: update_matrix_formats(%s,%s)' % (k1, st, dy), b1,
                             'H1.update_matrix_formats(%s,%s)\nR = H1' % (st, dy), 'H1'), v))
        for fmt in ('csr', 'csc', 'nd'):
            def bp(hc, k1=k1, fmt=fmt):
                hc.ham('H1', k1, 'A')
                declare('P')
                r = hc.S.arr(Poly.sym('P'), (6, 4), C128, fmt, origin='input P')
                hc.c.bind(hc.S, 'P', r)
                hc.val['P'] = Poly.sym('P')
                hc.inputs.append('P')
            f = lambda hc: hc.val['P'].H() * hc.val['H1'] * hc.val['P']
            out.append((Scen('%s: project_to(%s rectangular)' % (k1, fmt), bp, 'R = H1.project_to(P)', shape=4), f))
            out.append((Scen('%s: rotate_by(%s rectangular)' % (k1, fmt), bp, 'R = H1.rotate_by(P)', shape=4), f))
    for k1, k2 in (('sparse-driven', 'sparse-driven'), ('dense-driven', 'sparse-static'), ('sparse-static', 'sparse-2drives'),
                   ('mixed-sparse-static', 'csc-driven'), ('sparse-static', 'sparse-static')):
        out.append((Scen('commutator(%s,%s)' % (k1, k2), _ham2(k1, k2), 'R = commutator(H1,H2)'),
                    lambda hc: hc.val['H1'] * hc.val['H2'] - hc.val['H2'] * hc.val['H1']))
        out.append((Scen('anti_commutator(%s,%s)' % (k1, k2), _ham2(k1, k2), 'R = anti_commutator(H1,H2)'),
                    lambda hc: hc.val['H1'] * hc.val['H2'] + hc.val['H2'] * hc.val['H1']))
        out.append((Scen('%s: project_to(%s)' % (k1, k2), _ham2(k1, k2), 'R = H1.project_to(H2)'),
                    lambda hc: hc.val['H2'].H() * hc.val['H1'] * hc.val['H2']))
    # mixed precision
    for d1, d2 in ((F64, C128), (C128, F64), (F64, F64), (F32, F64), (C64, C128)):
        for k1, k2 in (('sparse-driven', 'sparse-2drives'), ('dense-driven', 'dense-driven'), ('sparse-static', 'sparse-driven'),
                       ('sparse-driven', 'sparse-static')):
            from ..npmodel import rt
            for op, f in OPS:
                b = _ham2(k1, k2, d1, d2)
                out.append((Scen('%s[%s] %s %s[%s]' % (k1, d1, op, k2, d2), b, 'R = H1 %s H2' % op, dtype=rt(d1, d2)),
                            (lambda f: lambda hc: f(hc.val['H1'], hc.val['H2']))(f)))
                if (d1, d2) in ((F64, C128),):
                    out.append((Scen('%s[%s] %s= %s[%s]' % (k1, d1, op, k2, d2), b, 'H1 %s= H2\nR = H1' % op, 'H1', reject=True), None))
                else:
                    out.append((Scen('%s[%s] %s= %s[%s]' % (k1, d1, op, k2, d2), b, 'H1 %s= H2\nR = H1' % op, 'H1'),
                                (lambda f: lambda hc: f(hc.val['H1'], hc.val['H2']))(f)))
    for k1 in ('sparse-driven', 'dense-driven', 'sparse-2drives'):
        def bc(hc, k1=k1):
            hc.ham('H1', k1, 'A', F64)
            hc.scalar('c')
            hc.val['s'] = hc.val['c']
        out.append((Scen('%s[float64] * complex scalar' % k1, bc, 'R = H1 * c', dtype=C128), lambda hc: hc.val['H1'] * hc.val['s']))
        out.append((Scen('complex scalar * %s[float64]' % k1, bc, 'R = c * H1', dtype=C128), lambda hc: hc.val['H1'] * hc.val['s']))
        out.append((Scen('%s[float64] *= complex scalar' % k1, bc, 'H1 *= c\nR = H1', 'H1', reject=True), None))
        for fmt in ('csr', 'nd'):
            def bm(hc, k1=k1, fmt=fmt):
                hc.ham('H1', k1, 'A', F64)
                hc.mat('M', fmt)
            for op, f in OPS:
                out.append((Scen('%s[float64] %s %s matrix' % (k1, op, fmt), bm, 'R = H1 %s M' % op, dtype=C128),
                            (lambda f: lambda hc: f(hc.val['H1'], hc.val['M']))(f)))
    return out


def trp(p):
    """transpose of an operator (drives untouched)"""
    return p.T()


def run_scenario(prog, sc, spec):
    """yield (clause, verdict, outcome, message, loc); verdict in held/violated/undecided"""
    hc = HamCase(prog)
    sc.build(hc)
    cols = sc.shape or 6
    declare('v')
    r = hc.S.arr(Poly.sym('v'), (cols,), C128, 'nd', origin='input v')
    hc.c.bind(hc.S, 'v', r)
    hc.vec('_probe')
    hc.inputs.remove('_probe')
    try:
        hc.start()
    except Construction as e:
        yield ('value', 'violated', 'construction ' + excsig(e.exc), 'constructing the operands of `%s` fails: %r' % (sc.script, e.exc), e.exc.loc)
        return
    want = spec(hc) if spec else None
    watched = hc.names + hc.inputs
    before = {n: observe(hc.c, hc.S, n) for n in watched}
    outs = hc.run(sc.script)
    for o in outs:
        S, I = o.S, hc.I
        yield ('@', o.S.unsure)
        if o.exc is not None:
            e = o.exc
            if sc.reject and not e.internal:
                yield ('reject', 'held', '', '', None)
                for n in hc.names + hc.inputs:
                    a = observe(hc.c, S, n, before[n])
                    d = diff(before[n], a)
                    if d:
                        yield ('purity', 'violated', 'rejected:' + n + d, 'a rejected operation modified %s%s' % (n, d), None)
                continue
            yield ('value', 'violated', excsig(e), '`%s` fails: %r' % (sc.script.replace('\n', '; '), e), e.loc)
            continue
        if sc.reject:
            yield ('reject', 'violated', 'accepted', '`%s` should be rejected (result does not fit the declared dtype)' % sc.script, None)
            continue
        R = o.var('R')
        try:
            if isinstance(R, Exc) or not (isinstance(R, Ref) and isinstance(S.g(R), Inst)):
                if isinstance(R, Top):
                    raise Undecided('result unknown: %s' % R.why)
                yield ('value', 'violated', 'result %r' % (R,), '`%s` yields %r' % (sc.script, R), None)
                continue
            got = ham_value(I, S, R)
            if isinstance(got, Exc):
                yield ('value', 'violated', excsig(got), 'evaluating the drives of the result fails: %r' % got, got.loc)
            elif got == want:
                yield ('value', 'held', '', '', None)
            else:
                yield ('value', 'violated', str(got), '`%s` denotes %s, specified %s' % (sc.script.replace('\n', '; '), got, want),
                       lastloc(S, R))
        except Undecided as u:
            yield ('value', 'undecided', str(u), '', None)
            got = None
        if sc.inplace:
            tgt = o.var(sc.inplace)
            h0 = hc.S.g(hc.S.env).d[sc.inplace]
            if not (isinstance(tgt, Ref) and tgt.id == h0.id):
                yield ('identity', 'violated', 'rebound', '`%s` does not update %s in place' % (sc.script.split('\n')[0], sc.inplace), None)
            else:
                yield ('identity', 'held', '', '', None)
        for n in hc.names + hc.inputs:
            if n == sc.inplace:
                continue
            d = diff(before[n], observe(hc.c, S, n, before[n]))
            if d:
                yield ('purity', 'violated', n + d, '`%s` modifies its operand %s (%s)' % (sc.script.replace('\n', '; '), n, n + d), opd(S, o.var(n)))
            else:
                yield ('purity', 'held', '', '', None)
        if not (isinstance(R, Ref) and isinstance(S.g(R), Inst)) or got is None or isinstance(got, Exc):
            continue
        # coherence of the cached fast paths and of the metadata
        for x in coherence(hc, S, R, got, sc, cols):
            yield x
        # independence: mutating the result leaves the operands alone, and vice versa
        if 'shares' in sc.tags:
            continue
        S1 = S.fork()
        S1.w(S1.env).d['R'] = R
        for o2 in hc.c.run(S1, 'R *= 2.0'):
            if o2.exc is not None:
                break
            for n in hc.names + hc.inputs:
                if n == sc.inplace:
                    continue
                d = diff(before[n], observe(hc.c, o2.S, n, before[n]))
                d0 = diff(before[n], observe(hc.c, S, n, before[n]))
                if d and not d0:
                    yield ('independence', 'violated', n + d, 'after `%s`, scaling the result in place changes %s' % (
                        sc.script.replace('\n', '; '), n + d), None)
                else:
                    yield ('independence', 'held', '', '', None)
        for n in hc.names:
            if n == sc.inplace:
                continue
            for o2 in hc.c.run(S.fork(), '%s *= 2.0' % n):
                if o2.exc is not None:
                    break
                try:
                    g2 = ham_value(hc.I, o2.S, R)
                except Undecided:
                    break
                if g2 != got:
                    yield ('independence', 'violated', 'operand ' + n, 'after `%s`, scaling the operand %s in place changes the result' % (
                        sc.script.replace('\n', '; '), n), None)
                else:
                    yield ('independence', 'held', '', '', None)


def lastloc(S, ref):
    o = S.g(ref)
    best = None
    for nm in ('_dynamic', '_static'):
        v = o.f.get(nm)
        if isinstance(v, Ref):
            for (i, a), l in S.lastw.items():
                if i == ref.id or i == v.id:
                    best = l or best
    for (i, a), l in S.lastw.items():
        if i == ref.id:
            best = l or best
    return best


def opd(S, v):
    if isinstance(v, Ref):
        for (i, a), l in S.lastw.items():
            if i == v.id:
                return l
        o = S.g(v)
        if isinstance(o, Arr):
            return S.lastw.get((o.stor, ''))
    return None


def coherence(hc, S, R, got, sc, cols):
    I = hc.I
    outs = hc.c.run(S.fork(), 'w = R.dot(v,time=t)\nW = R.toarray(time=t)\nn = R.Ns\nsh = R.get_shape\ndt = R.dtype\nden = R.is_dense\nst = R.static\ndy = R.dynamic')
    for o in outs:
        if o.exc is not None:
            yield ('evaluate', 'violated', excsig(o.exc), 'evaluating the result of `%s` fails: %r' % (sc.script.replace('\n', '; '), o.exc), o.exc.loc)
            continue
        for nm, want in (('w', got * Poly.sym('v')), ('W', got)):
            try:
                c = content(o.S, o.var(nm))
                if c == want:
                    yield ('evaluate', 'held', '', '', None)
                else:
                    yield ('evaluate', 'violated', '%s=%s' % (nm, c), '%s of the result of `%s` gives %s, specified %s' % (
                        {'w': 'dot', 'W': 'toarray'}[nm], sc.script.replace('\n', '; '), c, want), None)
            except Undecided as u:
                yield ('evaluate', 'undecided', str(u), '', None)
        n = o.var('n')
        if isinstance(n, K) and n.v != cols:
            yield ('metadata', 'violated', 'Ns=%s' % n.v, 'result of `%s` reports Ns=%s for a %dx%d operator' % (sc.script, n.v, cols, cols), None)
        elif isinstance(n, K):
            yield ('metadata', 'held', '', '', None)
        sh = o.var('sh')
        if isinstance(sh, Tup) and tuple(getattr(x, 'v', None) for x in sh.items) != (cols, cols):
            yield ('metadata', 'violated', 'shape=%s' % (sh,), 'result of `%s` reports shape %s' % (sc.script, sh), None)
        dt = o.var('dt')
        if isinstance(dt, K) and sc.dtype and dt.v != sc.dtype:
            yield ('metadata', 'violated', 'dtype=%s' % dt.v, 'result of `%s` has dtype %s, specified %s' % (sc.script, dt.v, sc.dtype), None)
        arrs = [o.var('st')] + [v for _, v in o.S.g(o.var('dy')).items]
        kinds = [o.S.g(x).kind for x in arrs if isinstance(x, Ref) and isinstance(o.S.g(x), Arr)]
        from ..npmodel import SP
        anyd = any(k not in SP for k in kinds)
        den = o.var('den')
        if isinstance(den, K) and len(kinds) == len(arrs):
            if bool(den.v) != anyd:
                yield ('metadata', 'violated', 'is_dense=%s kinds=%s' % (den.v, kinds), 'result of `%s` reports is_dense=%s but stores %s' % (sc.script, den.v, kinds), None)
            else:
                yield ('metadata', 'held', '', '', None)
