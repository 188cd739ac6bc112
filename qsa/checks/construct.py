"""Operators built from site-coupling lists and matrices: the constructor adds up exactly the listed terms, runs the checks it advertises,
leaves its inputs alone and rejects malformed input.  The basis is an arbitrary user-defined subclass of quspin.basis.base.basis whose matrix
elements are symbolic (coordinate triples ME, ROW, COL of an uninterpreted matrix per operator string and site list)."""
from ..values import *
from ..terms import Poly, ZERO, declare
from ..interp import Budget
from ..ctx import SynthLib
from ..opscan import *
from ..runner import settle
from ..npmodel import SP, iscomplex, isreal
from .hamops import HamCase, Construction, excsig, C128, F64
from .evalham import compare_across

N = 6
LIB = 'quspin._analysis_stub'
SRC = '''
from quspin.basis.base import basis
from quspin._analysis_native import stub_op


class stub_basis(basis):
    def __init__(self, refuse=None):
        basis.__init__(self)
        self._Ns = 6
        self._N = 4
        self._sps = 2
        self._blocks = {}
        self._operators = "user defined"
        self.log = []
        self.refuse = refuse

    def _Op(self, opstr, indx, J, dtype):
        return stub_op(opstr, indx, J, dtype)

    def check_hermitian(self, static, dynamic):
        self.log.append(("herm", list(static), list(dynamic)))
        if self.refuse == "herm":
            raise TypeError("not hermitian")

    def check_symm(self, static, dynamic):
        self.log.append(("symm", list(static), list(dynamic)))
        if self.refuse == "symm":
            raise TypeError("not symmetric")

    def check_pcon(self, static, dynamic):
        self.log.append(("pcon", list(static), list(dynamic)))
        if self.refuse == "pcon":
            raise TypeError("not conserving")
'''
IMP = ("from quspin.operators import hamiltonian, quantum_operator, quantum_LinearOperator, ishamiltonian\n"
       "from quspin._analysis_stub import stub_basis\n")


def opname(opstr, indx):
    d = all(ch in 'zIn' for ch in opstr)
    return '%s%s%s' % ('diag ' if d else '', opstr, list(indx))


def opmat(opstr, indx, real=False):
    if opstr.startswith('0'):
        return ZERO
    nm = opname(opstr, indx) + ('r' if real else '')
    declare(nm, *(['real'] if real else []))
    return Poly.fn('diag', Poly.sym(nm)) if nm.startswith('diag ') else Poly.sym(nm)


FORCE = [False]      # every operator string has real matrix elements


def stub_op(I, args, kw, S, node):
    names = ('opstr', 'indx', 'J', 'dtype')
    d = dict(zip(names, args))
    d.update(kw)
    opstr, J = d.get('opstr'), d.get('J')
    ix = I.seq(d.get('indx'), S)
    dt = I.np.as_dtype(d.get('dtype'))
    js = I.np.spoly(J) if J is not None else None
    if not (isinstance(opstr, K) and isinstance(opstr.v, str)) or ix is None or dt is None or js is None \
            or not all(isinstance(x, K) and isinstance(x.v, int) for x in ix):
        yield S, I.top('operator arguments')
        return
    if isreal(dt) and not js.is_real():
        yield S, I.exc('TypeError', 'complex matrix elements in a real operator', node, S)
        return
    ix = [x.v for x in ix]
    real = isreal(dt) or FORCE[0]
    nm = opname(opstr.v, ix) + ('r' if real else '')
    n = 0 if opstr.v.startswith('0') else N if nm.startswith('diag ') else 5
    declare(nm, *(['real'] if real else []))
    declare('ME:' + nm, *(['real'] if real else []))
    declare('ROW:' + nm, 'real')
    declare('COL:' + nm, 'real')
    me = S.arr(Poly.sym('ME:' + nm) * js if n else ZERO, (n,), dt, 'nd')
    row = S.arr(Poly.sym('ROW:' + nm) if n else ZERO, (n,), 'int64', 'nd')
    col = S.arr(Poly.sym('COL:' + nm) if n else ZERO, (n,), 'int64', 'nd')
    yield S, Tup([me, row, col])


class BCase(HamCase):
    def __init__(self, prog):
        super(BCase, self).__init__(prog)
        self.c.imports = IMP
        SynthLib(prog, LIB, SRC)
        self.I.hooks['quspin._analysis_native.stub_op'] = stub_op
        self.S = self.c.start()
        for nm in ('f', 'g'):
            self.c.ufn(self.S, nm, C128)
        for nm in ('fr', 'gr'):
            self.c.ufn(self.S, nm, F64)
        self.c.bind(self.S, 't', T0)


# ------------------------------------------------------------------ coupling lists
# item: (opstr, [(coupling, *sites)]) or ('!', matrix name, format)
LISTS = {
    'one': [('+-', [('J1', 0, 1)])],
    'two bonds': [('+-', [('J1', 0, 1), ('J2', 1, 2)])],
    'reversed sites': [('+-', [('J1', 0, 1), ('J2', 1, 0)])],
    'repeated bond': [('+-', [('J1', 0, 1), ('J2', 0, 1)])],
    'bond three times': [('+-', [('J1', 0, 1), ('J2', 0, 1), ('J3', 0, 1)])],
    'repeated string': [('+-', [('J1', 0, 1)]), ('+-', [('J2', 1, 2)])],
    'repeated string and bond': [('+-', [('J1', 0, 1)]), ('z', [('J3', 0)]), ('+-', [('J2', 0, 1)])],
    'diagonal': [('z', [('J1', 0)])],
    'two diagonal': [('zz', [('J1', 0, 1), ('J2', 1, 2)]), ('z', [('J3', 0)])],
    'diagonal and hopping': [('z', [('J1', 0), ('J2', 1)]), ('+-', [('J3', 0, 1)]), ('-+', [('J4', 0, 1)])],
    'hopping and diagonal': [('+-', [('J3', 0, 1)]), ('-+', [('J4', 0, 1)]), ('z', [('J1', 0)])],
    'identity without sites': [('I', [('J1', 0)]), ('', [('J2',)]), ('+', [('J3', 1)])],
    'vanishing operator': [('0', [('J1', 0)]), ('+-', [('J2', 0, 1)])],
    'only vanishing': [('0', [('J1', 0)])],
    'empty bond list': [('+-', []), ('z', [('J1', 0)])],
    'cancelling': [('+-', [('J1', 0, 1), ('-J1', 0, 1)]), ('z', [('J2', 0)])],
    'numeric': [('+-', [('1', 0, 1), ('-2.5', 1, 2)]), ('z', [('3', 0), ('0', 1)])],
    'small terms': [('+-', [('J1', 0, 1), ('1e-6', 1, 2)]), ('z', [('1e-8', 0)])],
    'sparse matrix': [('!', 'A', 'csr')],
    'dense matrix': [('!', 'A', 'nd')],
    'dia matrix': [('!', 'A', 'dia')],
    'two matrices': [('!', 'A', 'csr'), ('!', 'B', 'csc')],
    'same matrix twice': [('!', 'A', 'csr'), ('!', 'A', 'csr')],
    'dense and sparse matrix': [('!', 'A', 'nd'), ('!', 'B', 'csr')],
    'two dense matrices': [('!', 'A', 'nd'), ('!', 'B', 'nd')],
    'operator and sparse matrix': [('+-', [('J1', 0, 1)]), ('!', 'A', 'csr')],
    'operator and dense matrix': [('z', [('J1', 0)]), ('!', 'A', 'nd')],
    'matrix and operators': [('!', 'A', 'csr'), ('+-', [('J1', 0, 1)]), ('!', 'B', 'nd'), ('z', [('J2', 0)])],
    'none': [],
}
# dynamic item: (opstr, bonds, drive, args) or ('!', name, fmt, drive, args)
DYN = {
    'none': [],
    'one drive': [('+-', [('K1', 0, 1)], 'f', '[]')],
    'drive with arguments': [('+-', [('K1', 0, 1)], 'f', '[x1]')],
    'two drives': [('+-', [('K1', 0, 1)], 'f', '[]'), ('z', [('K2', 0)], 'g', '[]')],
    'same drive twice': [('+-', [('K1', 0, 1)], 'f', '[]'), ('z', [('K2', 0)], 'f', '[]')],
    'same drive, same bond': [('+-', [('K1', 0, 1)], 'f', '[]'), ('+-', [('K2', 0, 1)], 'f', '[]')],
    'same drive, other arguments': [('+-', [('K1', 0, 1)], 'f', '[x1]'), ('+-', [('K2', 0, 1)], 'f', '[x2]')],
    'same bond, other drive': [('+-', [('K1', 0, 1)], 'f', '[]'), ('+-', [('K2', 0, 1)], 'g', '[]')],
    'drive as tuple': [('+-', [('K1', 0, 1)], 'f', '(x1,x2)')],
    'driven sparse matrix': [('!', 'D', 'csr', 'f', '[]')],
    'driven dense matrix': [('!', 'D', 'nd', 'f', '[x1]')],
    'driven matrices, same drive': [('!', 'D', 'csr', 'f', '[]'), ('!', 'E', 'nd', 'f', '[]')],
    'driven operator and matrix': [('+-', [('K1', 0, 1)], 'f', '[]'), ('!', 'D', 'csr', 'f', '[]')],
    'driven operator and matrix, other drive': [('+-', [('K1', 0, 1)], 'f', '[]'), ('!', 'D', 'nd', 'g', '[]')],
    'driven vanishing': [('0', [('K1', 0)], 'f', '[]')],
    'driven repeated bond': [('+-', [('K1', 0, 1), ('K2', 0, 1), ('K3', 1, 2)], 'f', '[]')],
}


def code_list(items, real):
    out = []
    for it in items:
        if it[0] == '!':
            if len(it) == 3:
                out.append(it[1])
            else:
                out.append('[%s,%s,%s]' % (it[1], it[3] + ('r' if real else ''), it[4]))
        else:
            bonds = ','.join('[%s]' % ','.join(str(x) for x in b) for b in it[1])
            out.append('["%s",[%s]%s]' % (it[0], bonds, '' if len(it) == 2 else ',%s,%s' % (it[2] + ('r' if real else ''), it[3])))
    return '[%s]' % ','.join(out)


def spec_terms(hc, items, real):
    """client expression of the specified matrix"""
    out = ['Z']
    for it in items:
        if it[0] == '!':
            w = '%s_' % it[1]
            if len(it) == 5:
                w = '%s(t%s)*%s' % (it[3] + ('r' if real else ''), args(it[4]), w)
            out.append(w)
            continue
        for b in it[1]:
            nm = 'M%d' % len(hc.val)
            hc.val[nm] = opmat(it[0], b[1:], real)
            hc.c.bind(hc.S, nm, hc.S.arr(hc.val[nm], (N, N), F64 if real else C128, 'nd'))
            w = '(%s)*%s' % (b[0], nm)
            if len(it) == 4:
                w = '%s(t%s)*(%s)' % (it[2] + ('r' if real else ''), args(it[3]), w)
            out.append(w)
    return ' + '.join(out)


def args(a):
    a = a.strip('[]()').strip(',')
    return ',' + a if a else ''


def hasops(items):
    return any(i[0] != '!' for i in items)


# ------------------------------------------------------------------ scenarios
QLOP = [k for k, v in LISTS.items() if all(i[0] != '!' for i in v)]
FLAGS = ('herm', 'symm', 'pcon')
REJECT = [
    # (label, code, cls)
    ('operator strings without basis', 'R = %s([["z",[[1.0,0]]]],[])', 'h'),
    ('non-string operator', 'R = %s([[1,[[1.0,0]]]],[],basis=b)', 'h'),
    ('coupling list not a list', 'R = %s([["z",1.0]],[],basis=b)', 'h'),
    ('bond not a list', 'R = %s([["z",[1.0,0]]],[],basis=b)', 'h'),
    ('bond element not a scalar', 'R = %s([["z",[[1.0,[0]]]]],[],basis=b)', 'h'),
    ('static list not a list', 'R = %s("z",[],basis=b)', 'h'),
    ('dynamic list not a list', 'R = %s([],f,basis=b)', 'h'),
    ('dynamic term without function', 'R = %s([],[["z",[[1.0,0]]]],basis=b)', 'h'),
    ('drive not callable', 'R = %s([],[["z",[[1.0,0]],1.0,[]]],basis=b)', 'h'),
    ('driven matrix, drive not callable', 'R = %s([],[[A,1.0,[]]])', 'h'),
    ('drive arguments not a list', 'R = %s([],[["z",[[1.0,0]],f,1.0]],basis=b)', 'h'),
    ('not a basis', 'R = %s([["z",[[1.0,0]]]],[],basis="b")', 'h'),
    ('basis and unexpected options', 'R = %s([["z",[[1.0,0]]]],[],basis=b,kblock=0)', 'h'),
    ('N not an integer', 'R = %s([["z",[[1.0,0]]]],[],N=2.0)', 'h'),
    ('nothing to fix the dimension', 'R = %s([],[])', 'h'),
    ('basis and shape for an empty operator', 'R = %s([],[],basis=b,shape=(6,6))', 'h'),
    ('non-square shape', 'R = %s([],[],shape=(6,5))', 'h'),
    ('non-square matrix', 'R = %s([W],[])', 'h'),
    ('matrices of different size', 'R = %s([A,A5],[])', 'h'),
    ('dense matrices of different size', 'R = %s([An,A5n],[])', 'h'),
    ('driven matrix of different size', 'R = %s([A],[[A5,f,[]]])', 'h'),
    ('driven dense matrix of different size', 'R = %s([A],[[A5n,f,[]]])', 'h'),
    ('matrix does not fit the basis', 'R = %s([["z",[[1.0,0]]],A5],[],basis=b)', 'h'),
    ('unsupported dtype', 'R = %s([["z",[[1.0,0]]]],[],basis=b,dtype=np.int32)', 'h'),
    ('unsupported dtype, matrix', 'R = %s([A],[],dtype=np.int64)', 'h'),
    ('unknown matrix format', 'R = %s([A],[],static_fmt="foo")', 'h'),
    ('complex couplings in a real operator', 'R = %s([["z",[[1j,0]]]],[],basis=b,dtype=np.float64)', 'h'),
    ('dictionary expected', 'R = %s([["z",[[1.0,0]]]],basis=b)', 'q'),
    ('key not a string', 'R = %s({1:[["z",[[1.0,0]]]]},basis=b)', 'q'),
    ('value not a list', 'R = %s({"a":"z"},basis=b)', 'q'),
    ('non-string operator', 'R = %s({"a":[[1,[[1.0,0]]]]},basis=b)', 'q'),
    ('bond not a list', 'R = %s({"a":[["z",[1.0,0]]]},basis=b)', 'q'),
    ('operator strings without basis', 'R = %s({"a":[["z",[[1.0,0]]]]})', 'q'),
    ('not a basis', 'R = %s({"a":[["z",[[1.0,0]]]]},basis="b")', 'q'),
    ('basis and unexpected options', 'R = %s({"a":[["z",[[1.0,0]]]]},basis=b,kblock=0)', 'q'),
    ('N not an integer', 'R = %s({"a":[["z",[[1.0,0]]]]},N=2.0)', 'q'),
    ('nothing to fix the dimension', 'R = %s({})', 'q'),
    ('non-square matrix', 'R = %s({"a":[W]})', 'q'),
    ('matrices of different size', 'R = %s({"a":[A],"b":[A5]})', 'q'),
    ('matrices of different size, one key', 'R = %s({"a":[An,A5n]})', 'q'),
    ('matrix does not fit the basis', 'R = %s({"a":[["z",[[1.0,0]]]],"b":[A5]},basis=b)', 'q'),
    ('unsupported dtype', 'R = %s({"a":[A]},dtype=np.int64)', 'q'),
    ('complex couplings in a real operator', 'R = %s({"a":[["z",[[1j,0]]]]},basis=b,dtype=np.float64)', 'q'),
    ('matrix given', 'R = %s([A],basis=b)', 'l'),
    ('static list not a list', 'R = %s("z",basis=b)', 'l'),
    ('non-string operator', 'R = %s([[1,[[1.0,0]]]],basis=b)', 'l'),
    ('bond not a list', 'R = %s([["z",[1.0,0]]],basis=b)', 'l'),
    ('no basis', 'R = %s([["z",[[1.0,0]]]])', 'l'),
    ('not a basis', 'R = %s([["z",[[1.0,0]]]],basis="b")', 'l'),
    ('unsupported dtype', 'R = %s([["z",[[1.0,0]]]],basis=b,dtype=np.int32)', 'l'),
    ('diagonal of wrong length', 'R = %s([["z",[[1.0,0]]]],basis=b,diagonal=v5)', 'l'),
    ('diagonal of wrong rank', 'R = %s([["z",[[1.0,0]]]],basis=b,diagonal=An)', 'l'),
    ('complex couplings in a real operator', 'R = %s([["+",[[1j,0]]]],basis=b,dtype=np.float64)', 'l'),
]
CLS = {'h': 'hamiltonian', 'q': 'quantum_operator', 'l': 'quantum_LinearOperator'}


def scenarios(tier):
    out = []
    for k in LISTS:
        for dt in (C128, F64):
            out.append(('ham', k, 'none', dt))
    for d in DYN:
        for k in ('none', 'one', 'diagonal', 'sparse matrix', 'dense matrix', 'operator and dense matrix'):
            for dt in (C128, F64):
                if dt == F64 and tier == 'quick' and k not in ('one', 'none'):
                    continue
                out.append(('ham', k, d, dt))
    for k in LISTS:
        for dt in (C128, F64):
            out.append(('qop', k, None, dt))
    for k in QLOP:
        for dt in (C128, F64):
            out.append(('lop', k, None, dt))
    for cls in 'hql':
        for off in ((), ('herm',), ('symm',), ('pcon',), FLAGS):
            out.append(('checks', cls, off, None))
        for r in FLAGS:
            out.append(('checks', cls, (), r))
    for i in range(len(REJECT)):
        out.append(('reject', i))
    for fmt in ('csr', 'csc', 'dia', 'dense'):
        for k in ('one', 'diagonal', 'diagonal and hopping', 'sparse matrix', 'dense matrix'):
            out.append(('format', k, fmt))
    return out


def label(it):
    if it[0] == 'ham':
        return 'hamiltonian(static: %s; dynamic: %s) [%s]' % it[1:]
    if it[0] == 'qop':
        return 'quantum_operator(%s) [%s]' % (it[1], it[3])
    if it[0] == 'lop':
        return 'quantum_LinearOperator(%s) [%s]' % (it[1], it[3])
    if it[0] == 'checks':
        return '%s checks: disabled %s%s' % (CLS[it[1]], list(it[2]), ', basis refuses ' + it[3] if it[3] else '')
    if it[0] == 'format':
        return 'hamiltonian(%s,static_fmt=%s)' % it[1:]
    lab, code, c = REJECT[it[1]]
    return '%s: %s' % (CLS[c], lab)


def run_construct(prog, it):
    con = label(it)
    gen = {'checks': checks, 'reject': reject, 'format': fmts}.get(it[0], value)
    rule = {'checks': 'checks', 'reject': 'reject'}.get(it[0], 'construct')
    try:
        for x in settle(gen(prog, it)):
            yield (x[0], con) + tuple(x[1:])
    except (Undecided, Budget, RecursionError) as e:
        yield (rule, con, 'undecided', '%s %s' % (type(e).__name__, e), '', None)


def setup(prog, items, dyn, dt):
    hc = BCase(prog)
    real = dt == F64
    S = hc.S
    for nm in ('J1', 'J2', 'J3', 'J4', 'K1', 'K2', 'K3'):
        hc.scalar(nm, dt)
    for nm in ('x1', 'x2'):
        hc.scalar(nm, F64)
    hc.c.bind(S, 'Z', S.arr(ZERO, (N, N), dt, 'nd'))
    for i in list(items) + list(dyn):
        if i[0] == '!' and i[1] not in hc.val:
            hc.mat(i[1], i[2], dt)
            hc.c.bind(S, i[1] + '_', S.arr(hc.val[i[1]], (N, N), dt, 'nd'))
    declare('v')
    hc.c.bind(S, 'v', S.arr(Poly.sym('v'), (N,), C128, 'nd'))
    return hc, real


def value(prog, it):
    kind, k, d, dt = it
    items = LISTS[k]
    dyn = DYN[d] if d else []
    hc, real = setup(prog, items, dyn, dt)
    st, dy = code_list(items, real), code_list(dyn, real)
    spec = 'z = ' + spec_terms(hc, list(items) + list(dyn), real) + '\nzv = z.dot(v)'
    ops = hasops(items) or hasops(dyn)
    S = hc.S
    pre = 'b = stub_basis()\nst = %s\ndy = %s' % (st, dy)
    S = one(hc.c.run(S, pre)).S
    sp = one(hc.c.run(S.fork(), spec))
    where = ',basis=b' if ops or not (items or dyn) else ''
    if kind == 'ham':
        code = 'R = hamiltonian(st,dy%s,dtype=np.%s)' % (where, dt)
        ev = [('toarray', 'w = R.toarray(time=t)', 'z'), ('dot', 'w = R.dot(v,time=t)', 'zv')]
    elif kind == 'qop':
        code = 'R = quantum_operator({"a":st}%s,dtype=np.%s)' % (where, dt)
        ev = [('toarray', 'w = R.toarray()', 'z'), ('dot', 'w = R.dot(v)', 'zv')]
    else:
        code = 'R = quantum_LinearOperator(st%s,dtype=np.%s)' % (where, dt)
        ev = [('dot', 'w = R.dot(v)', 'zv')]
    names = ['st', 'dy'] + hc.inputs
    before = {n: deep(S, S.g(S.env).d[n]) for n in names}
    shown = code.replace('st,dy', '%s,%s' % (st, dy)).replace('{"a":st}', '{"a":%s}' % st).replace('(st,', '(%s,' % st)
    for o in hc.c.run(S.fork(), code):
        yield ('@', o.S.unsure)
        if o.exc is not None:
            yield ('construct', 'violated', excsig(o.exc), '`%s` fails: %r' % (shown, o.exc), o.exc.loc)
            continue
        for n in names:
            x = diff(before[n], deep(o.S, o.S.g(o.S.env).d[n]))
            yield ('inputs', 'violated' if x else 'held', n + (x or ''), '`%s` modifies its argument %s' % (shown, n + (x or '')), None)
        for lab, c, z in ev:
            for o2 in hc.c.run(o.S.fork(), c):
                if o2.exc is not None:
                    yield ('construct', 'violated', lab + ' ' + excsig(o2.exc), '%s of `%s` fails: %r' % (lab, shown, o2.exc), o2.exc.loc)
                    continue
                v, g, w = compare_across(o2.S, o2.var('w'), sp.S, sp.var(z))
                if v == 'eq':
                    yield ('construct', 'held', '', '', None)
                elif v == 'unk':
                    yield ('construct', 'undecided', '%s %s' % (lab, str(g)[:80]), '', None)
                else:
                    yield ('construct', 'violated', '%s %s' % (lab, str(g)[:200]), '`%s` represents %s, the lists say %s' % (shown, g, w), None)
        if where:
            for o2 in hc.c.run(o.S.fork(), 'same = R.basis is b\nns = R.Ns'):
                ok = o2.exc is None and isinstance(o2.var('same'), K) and o2.var('same').v is True
                if o2.exc is not None or isinstance(o2.var('same'), K):
                    yield ('construct', 'held' if ok else 'violated', '' if ok else 'basis', '`%s` does not keep the basis' % shown, None)


def one(outs):
    if len(outs) != 1 or outs[0].exc is not None:
        raise Undecided('setup: %s' % ([o.exc for o in outs],))
    return outs[0]


def checks(prog, it):
    _, cls, off, refuse = it
    hc, _ = setup(prog, [], [('!', 'D', 'csr', 'f', '[]')], C128)
    S = hc.S
    o = one(hc.c.run(S, 'b = stub_basis(%s)\nst = [["+-",[[J1,0,1]]],["z",[[J2,0]]]]\ndy = [["zz",[[K1,0,1]],f,[]]]\nempty = []\ntwo = [st[0],st[1]]' % (
        '"%s"' % refuse if refuse else '')))
    S = o.S
    kw = ''.join(',check_%s=False' % x for x in off)
    code = {'h': 'R = hamiltonian(st,dy,basis=b,dtype=np.complex128%s)', 'q': 'R = quantum_operator({"a":[st[0]],"b":[st[1]]},basis=b,dtype=np.complex128%s)',
            'l': 'R = quantum_LinearOperator(st,basis=b,dtype=np.complex128%s)'}[cls] % kw
    for o in hc.c.run(S.fork(), code):
        yield ('@', o.S.unsure)
        if refuse and refuse not in off:
            if o.exc is None:
                yield ('checks', 'violated', 'accepted', '`%s` accepts operators the basis refuses in its %s check' % (code, refuse), None)
            else:
                yield ('checks', 'held', '', '', None)
            continue
        if o.exc is not None:
            yield ('checks', 'violated', excsig(o.exc), '`%s` fails: %r' % (code, o.exc), o.exc.loc)
            continue
        S1 = o.S
        b = S1.g(S1.env).d['b']
        log = S1.g(b).f.get('log')
        items = S1.g(log).items if isinstance(log, Ref) and isinstance(S1.g(log), Lst) else None
        if items is None:
            yield ('checks', 'undecided', 'log', '', None)
            continue
        done = [x.items[0].v for x in items]
        for f in FLAGS:
            if (f in done) != (f not in off):
                yield ('checks', 'violated', '%s %s' % (f, 'run although disabled' if f in done else 'not run'),
                       '`%s`: the check for %s is %s' % (code, f, 'run although it is disabled' if f in done else 'not run'), None)
            else:
                yield ('checks', 'held', '', '', None)
        e = S1.g(S1.env).d
        wst, wdy = e['st'], e['dy'] if cls == 'h' else e['empty']
        for x in items:
            for got, want, nm in ((x.items[1], wst, 'static'), (x.items[2], wdy, 'dynamic')):
                a, w = deep(S1, got), deep(S1, want)
                if has_top(a):
                    yield ('checks', 'undecided', 'arguments', '', None)
                elif a != w:
                    yield ('checks', 'violated', '%s %s list' % (x.items[0].v, nm), '`%s`: the %s check does not see the complete %s list' % (
                        code, x.items[0].v, nm), None)
                else:
                    yield ('checks', 'held', '', '', None)


def reject(prog, it):
    lab, code, cls = REJECT[it[1]]
    hc, _ = setup(prog, [], [], C128)
    S = hc.S
    hc.mat('A', 'csr')
    declare('A5')
    declare('W')
    declare('v5')
    hc.c.bind(S, 'An', S.arr(Poly.sym('A'), (N, N), C128, 'nd'))
    hc.c.bind(S, 'A5', S.arr(Poly.sym('A5'), (5, 5), C128, 'csr'))
    hc.c.bind(S, 'A5n', S.arr(Poly.sym('A5'), (5, 5), C128, 'nd'))
    hc.c.bind(S, 'W', S.arr(Poly.sym('W'), (3, N), C128, 'csr'))
    hc.c.bind(S, 'v5', S.arr(Poly.sym('v5'), (5,), C128, 'nd'))
    S = one(hc.c.run(S, 'b = stub_basis()')).S
    code = code % CLS[cls]
    for o in hc.c.run(S.fork(), code):
        yield ('@', o.S.unsure)
        if o.exc is None:
            yield ('reject', 'violated', 'accepted', '`%s` is accepted (%s)' % (code, lab), None)
        elif o.exc.name in ('NameError', 'UnboundLocalError'):
            yield ('reject', 'violated', excsig(o.exc), '`%s` fails with an internal error: %r' % (code, o.exc), o.exc.loc)
        else:
            yield ('reject', 'held', '', '', None)


def fmts(prog, it):
    _, k, fmt = it
    items = LISTS[k]
    hc, real = setup(prog, items, [], C128)
    st = code_list(items, False)
    terms = spec_terms(hc, items, False)
    S = one(hc.c.run(hc.S, 'b = stub_basis()\nst = %s' % st)).S
    where = ',basis=b' if hasops(items) else ''
    code = 'R = hamiltonian(st,[]%s,dtype=np.complex128,static_fmt="%s")' % (where, fmt)
    spec = one(hc.c.run(S.fork(), 'z = ' + terms))
    for o in hc.c.run(S.fork(), code + '\nw = R.toarray()\ns = R.static'):
        yield ('@', o.S.unsure)
        if o.exc is not None:
            yield ('construct', 'violated', excsig(o.exc), '`%s` fails: %r' % (code, o.exc), o.exc.loc)
            continue
        v, g, w = compare_across(o.S, o.var('w'), spec.S, spec.var('z'))
        yield ('construct', {'eq': 'held', 'unk': 'undecided', 'ne': 'violated'}[v], str(g)[:200] if v != 'eq' else '',
               '`%s` represents %s, specified %s' % (code, g, w), None)
        s = o.var('s')
        if isinstance(s, Ref) and isinstance(o.S.g(s), Arr):
            kd = o.S.g(s).kind
            ok = kd == fmt or fmt == 'dense' and kd not in SP
            yield ('construct', 'held' if ok else 'violated', '' if ok else 'format ' + kd, '`%s` stores the static part as %s' % (code, kd), None)
