"""quantum_LinearOperator: the matrix-free operator acts like the explicit matrix of its coupling list, in every view, route and argument form."""
from ..values import *
from ..terms import Poly, ZERO, declare
from ..interp import Budget
from ..opscan import *
from ..runner import settle
from .hamops import excsig, C128, F64
from .evalham import inputs, compare_across
from .construct import setup, spec_terms, code_list, one, N, FORCE

OPS = {
    'hop': [('+-', [('J1', 0, 1), ('J2', 1, 2)])],
    'diagonal': [('z', [('J1', 0)]), ('zz', [('J2', 0, 1)])],
    'hop and diagonal': [('z', [('J1', 0)]), ('+-', [('J2', 0, 1)]), ('-+', [('J3', 0, 1)])],
    'empty': [],
}
# view -> (client code on L, explicit matrix in terms of z)
VIEWS = {
    '': ('L', 'z'),
    '.T': ('L.T', 'z.T'),
    '.H': ('L.H', 'z.conj().T'),
    '.conj()': ('L.conj()', 'z.conj()'),
    '.conjugate()': ('L.conjugate()', 'z.conj()'),
    '.transpose()': ('L.transpose()', 'z.T'),
    '.transpose(copy=True)': ('L.transpose(copy=True)', 'z.T'),
    '.getH()': ('L.getH()', 'z.conj().T'),
    '.getH(copy=True)': ('L.getH(copy=True)', 'z.conj().T'),
    '.copy()': ('L.copy()', 'z'),
    '.T.conj()': ('L.T.conj()', 'z.conj().T'),
    '.H.T': ('L.H.T', 'z.conj()'),
    '.T.T': ('L.T.T', 'z'),
    '.H.H': ('L.H.H', 'z'),
    '.conj().conj()': ('L.conj().conj()', 'z'),
    'c*L': ('c*L', 'c*z'),
    'L*c': ('L*c', 'c*z'),
    '-L': ('-L', '-z'),
    '2*L': ('2*L', '2*z'),
    '1j*L': ('1j*L', '1j*z'),
    'c*L.T': ('c*L.T', 'c*z.T'),
    'c*L.H': ('c*L.H', 'c*z.conj().T'),
    '(c*L).H': ('(c*L).H', '(c*z).conj().T'),
    '(c*L).conj()': ('(c*L).conj()', '(c*z).conj()'),
    'c*L.conj()': ('c*L.conj()', 'c*z.conj()'),
    '(-L).T': ('(-L).T', '-z.T'),
    '2*(c*L)': ('2*(c*L)', '2*c*z'),
}
# label, client code on X, specification in terms of Z (explicit matrix of the view)
ROUTES = [
    ('dot(v)', 'w = X.dot(v)', 'z = Z.dot(v)'),
    ('dot(V)', 'w = X.dot(V)', 'z = Z.dot(V)'),
    ('dot(v,a)', 'w = X.dot(v,a=c)', 'z = c*Z.dot(v)'),
    ('dot(V,a)', 'w = X.dot(V,a=c)', 'z = c*Z.dot(V)'),
    ('dot(v,out)', 'w = X.dot(v,out=o1)', 'z = Z.dot(v)'),
    ('dot(v,out) buffer', 'X.dot(v,out=o1)\nw = o1', 'z = Z.dot(v)'),
    ('dot(V,out,a) buffer', 'X.dot(V,out=o2,a=c)\nw = o2', 'z = c*Z.dot(V)'),
    ('X*v', 'w = X*v', 'z = Z.dot(v)'),
    ('X*V', 'w = X*V', 'z = Z.dot(V)'),
    ('v*X', 'w = X.__rmul__(v)', 'z = Z.T.dot(v)'),
    ('W*X', 'w = X.__rmul__(W)', 'z = W.dot(Z)'),
    ('matvec', 'w = X._matvec(v)', 'z = Z.dot(v)'),
    ('rmatvec', 'w = X._rmatvec(v)', 'z = Z.conj().T.dot(v)'),
    ('matmat', 'w = X._matmat(V)', 'z = Z.dot(V)'),
    ('X*sparse', 'w = (X*Vs).toarray()', 'z = Z.dot(V)'),
    ('sparse*X', 'w = X.__rmul__(Ws).toarray()', 'z = W.dot(Z)'),
    ('X*hamiltonian', 'w = (X*HH).toarray(time=t)', 'z = Z.dot(HE)'),
    ('hamiltonian*X', 'w = X.__rmul__(HH).toarray(time=t)', 'z = HE.dot(Z)'),
    ('expt_value(v)', 'w = X.expt_value(v)', 'z = np.vdot(v,Z.dot(v))'),
    ('expt_value(V)', 'w = X.expt_value(V)', "z = np.einsum('ij,ij->j',V.conj(),Z.dot(V))"),
    ('expt_value(rho)', 'w = X.expt_value(rho)', 'z = Z.dot(rho).trace()'),
    ('expt_value(square V,enforce_pure)', 'w = X.expt_value(rho,enforce_pure=True)', "z = np.einsum('ij,ij->j',rho.conj(),Z.dot(rho))"),
    ('expt_value(sparse rho)', 'w = X.expt_value(rhos)', 'z = Z.dot(rho).trace()'),
    ('expt_value(sparse v)', 'w = X.expt_value(vs)', 'z = np.vdot(v,Z.dot(v))'),
    ('expt_value(sparse V)', 'w = X.expt_value(Vs)', "z = np.einsum('ij,ij->j',V.conj(),Z.dot(V))"),
    ('matrix_ele(u,v)', 'w = X.matrix_ele(u,v)', 'z = np.vdot(u,Z.dot(v))'),
    ('matrix_ele(U,V)', 'w = X.matrix_ele(U,V)', 'z = U.T.conj().dot(Z.dot(V))'),
    ('matrix_ele(U,V,diagonal)', 'w = X.matrix_ele(U,V,diagonal=True)', "z = np.einsum('ij,ij->j',U.conj(),Z.dot(V))"),
    ('matrix_ele(sparse U,V)', 'w = X.matrix_ele(Us,Vs).toarray()', 'z = U.T.conj().dot(Z.dot(V))'),
    ('matrix_ele(sparse U,V,diagonal)', 'w = X.matrix_ele(Us,Vs,diagonal=True)', "z = np.einsum('ij,ij->j',U.conj(),Z.dot(V))"),
    ('quant_fluct(v)', 'w = X.quant_fluct(v)', 'z = np.vdot(v,Z.dot(Z.dot(v))) - np.vdot(v,Z.dot(v))**2'),
    ('quant_fluct(V)', 'w = X.quant_fluct(V)', "z = np.einsum('ij,ij->j',V.conj(),Z.dot(Z.dot(V))) - np.einsum('ij,ij->j',V.conj(),Z.dot(V))**2"),
    ('quant_fluct(rho)', 'w = X.quant_fluct(rho)', 'z = Z.dot(Z.dot(rho)).trace() - Z.dot(rho).trace()**2'),
    ('shape', 'w = X.shape[0]*100+X.Ns*10+X.ndim', 'z = 662'),
    ('in place scaling', 'X *= c\nw = X.dot(v)', 'z = c*Z.dot(v)'),
]
CHANGES = ('shape', 'in place scaling')


def scenarios(tier):
    out = []
    for k in OPS:
        for dg in (False, True):
            for v in VIEWS:
                for i, r in enumerate(ROUTES):
                    if tier == 'quick' and (v not in ('', '.T', '.H', '.conj()', 'c*L', '(c*L).H', 'c*L.conj()')) and r[0] not in ('dot(v)', 'dot(V)'):
                        continue
                    out.append((k, dg, v, i, C128))
    for k in OPS:
        for dg in (False, True):
            for v in VIEWS:
                for i, r in enumerate(ROUTES):
                    if tier == 'quick' and (v not in ('', '.H') or k not in ('hop and diagonal', 'diagonal')):
                        continue
                    out.append((k, dg, v, i, F64))
    return out


def label(it):
    return '%s%s%s [%s]: %s' % (it[0], ', given diagonal' if it[1] else '', ' ' + it[2] if it[2] else '', it[4], ROUTES[it[3]][0])


def run_linop(prog, it):
    con = label(it)
    try:
        for x in settle(case(prog, *it)):
            yield (x[0], con) + tuple(x[1:])
    except (Undecided, Budget, RecursionError) as e:
        yield ('route', con, 'undecided', '%s %s' % (type(e).__name__, e), '', None)
    finally:
        FORCE[0] = False


def case(prog, k, dg, view, ri, dt):
    lab, code, spec = ROUTES[ri]
    FORCE[0] = dt == F64
    items = OPS[k]
    hc, real = setup(prog, items, [], dt)
    S = hc.S
    inputs(hc, dt)
    hc.S = S
    hc.scalar('c', C128)
    declare('g', *(['real'] if real else []))
    hc.c.bind(S, 'g', S.arr(Poly.sym('g'), (N,), dt, 'nd'))
    hc.vec('_probe')
    names = list(dict.fromkeys(hc.inputs))
    st = code_list(items, real)
    terms = spec_terms(hc, items, real)
    if dg:
        hc.c.mat(S, 'Gm', N, dt, 'nd', content=Poly.fn('diag', Poly.sym('g')))
        terms += ' + Gm'
    vcode, vspec = VIEWS[view]
    for nm in ('HS', 'HD'):
        hc.mat(nm, 'csr', C128)
    S = one(hc.c.run(hc.S, 'b = stub_basis()\nst = %s\nL = quantum_LinearOperator(st,basis=b,dtype=np.%s%s)\nHH = hamiltonian([HS],[[HD,f,[]]])\n'
                     'HE = HS.toarray() + f(t)*HD.toarray()\n' % (st, dt, ',diagonal=g,copy=True' if dg else ''))).S
    sps = one(hc.c.run(S.fork(), 'z = %s\nZ = %s\n%s' % (terms, vspec, spec)))
    want, Sw = sps.var('z'), sps.S
    S = one(hc.c.run(S, 'z = %s' % terms)).S
    base = ['st', 'HS', 'HD', 'g'] + names
    base = [n for n in base if n in S.g(S.env).d]
    before = {n: deep(S, S.g(S.env).d[n]) for n in base}

    def act(S, nm):
        r = hc.c.run(S.fork(), '_w = %s.dot(_probe)' % nm)
        if len(r) != 1 or r[0].exc is not None:
            return None
        w = r[0].var('_w')
        return r[0].S.content(w) if isinstance(w, Ref) and isinstance(r[0].S.g(w), Arr) else None
    probes = ['L', 'HH']
    pb = {n: act(S, n) for n in probes}
    shown = '%s with X = %s' % (code.replace('\n', '; '), vcode)
    skip = {'o1', 'o2'} if 'out=' in code else set()
    for o in hc.c.run(S.fork(), 'X = %s' % vcode):
        yield ('@', o.S.unsure)
        if o.exc is not None:
            yield ('route', 'violated', excsig(o.exc), '`X = %s` fails: %r' % (vcode, o.exc), o.exc.loc)
            continue
        for n in probes:
            a = act(o.S, n)
            if pb[n] is not None and a is not None:
                bad = compare_shaped(a, pb[n], (N,)) == 'ne'
                yield ('purity', 'violated' if bad else 'held', 'view ' + n if bad else '', '`X = %s` changes %s' % (vcode, n), None)
        px = act(o.S, 'X')
        for o2 in hc.c.run(o.S.fork(), code):
            yield ('@', o2.S.unsure)
            if o2.exc is not None:
                yield ('route', 'violated', excsig(o2.exc), '`%s` fails: %r' % (shown, o2.exc), o2.exc.loc)
                continue
            got = o2.var('w')
            v, g, w = compare_across(o2.S, got, Sw, want)
            if v == 'eq':
                yield ('route', 'held', '', '', None)
            elif v == 'unk':
                yield ('route', 'undecided', 'value %s' % str(g)[:80], '', None)
            else:
                yield ('route', 'violated', str(g)[:200], '`%s` gives %s, specified %s' % (shown, g, w), None)
            if lab == 'in place scaling' and vcode == 'L':
                continue
            for n in base:
                if n in skip:
                    continue
                d = diff(before[n], deep(o2.S, o2.S.g(o2.S.env).d[n]))
                yield ('purity', 'violated' if d else 'held', n + d if d else '', '`%s` modifies %s' % (shown, n + (d or '')), None)
            for n, p in [(n, pb[n]) for n in probes] + ([('X', px)] if lab not in CHANGES else []):
                a = act(o2.S, n)
                if p is not None and a is not None:
                    bad = compare_shaped(a, p, (N,)) == 'ne'
                    yield ('purity', 'violated' if bad else 'held', 'operator ' + n if bad else '', '`%s` changes the operator %s' % (shown, n), None)
            # the result is a new array
            if isinstance(got, Ref) and isinstance(o2.S.g(got), Arr) and 'out=' not in code:
                S1 = o2.S.fork()
                if S1.g(got).wr and S1.g(got).kind == 'nd':
                    declare('scribble')
                    S1.setcontent(got, Poly.sym('scribble'))
                    for n in base:
                        d = diff(before[n], deep(S1, S1.g(S1.env).d[n]))
                        yield ('alias', 'violated' if d else 'held', n if d else '', 'the result of `%s` shares memory with %s' % (shown, n), None)
                    a = act(S1, 'L')
                    if a is not None and pb['L'] is not None:
                        bad = compare_shaped(a, pb['L'], (N,)) == 'ne'
                        yield ('alias', 'violated' if bad else 'held', 'L' if bad else '', 'the result of `%s` shares memory with the operator' % shown, None)
