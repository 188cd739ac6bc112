"""Parameter-dependent operators: sum_k p_k O_k, through every evaluation route and every algebraic operation."""
from ..values import *
from ..terms import Poly, ZERO, declare
from ..interp import Budget
from ..opscan import *
from ..runner import settle
from ..npmodel import SP
from .hamops import HamCase, Construction, excsig, C128, F64, trp
from .evalham import PRE, inputs, compare_across, N

IMP = "from quspin.operators import quantum_operator, isquantum_operator, hamiltonian\n"

# label -> {key: [formats of the summands]}
QKINDS = {
    'one-sparse': {'a': ['csr']},
    'two-sparse': {'a': ['csr'], 'b': ['csr']},
    'one-dense': {'a': ['nd']},
    'mixed': {'a': ['csr'], 'b': ['nd']},
    'dense-first': {'a': ['nd'], 'b': ['csc']},
    'dia-csc': {'a': ['dia'], 'b': ['csc']},
    'summed': {'a': ['csr', 'csr'], 'b': ['csr', 'nd']},
}
PARS = [('', {}), ('{"a":p}', {'a': 'p'}), ('{"b":q}', {'b': 'q'}), ('{"a":p,"b":q}', {'a': 'p', 'b': 'q'}),
        ('{"a":2.0}', {'a': 2.0}), ('{"a":-1.5}', {'a': -1.5}), ('{"a":-2,"b":3}', {'a': -2, 'b': 3}), ('{"a":0.0}', {'a': 0.0}), ('{"a":-0.5j}', {'a': -0.5j})]


class QCase(HamCase):
    def __init__(self, prog):
        super(QCase, self).__init__(prog)
        self.c.imports = IMP
        self.S = self.c.start()
        for nm in ('f', 'g'):
            self.c.ufn(self.S, nm, C128)
        self.c.bind(self.S, 't', T0)
        self.terms = {}

    def qop(self, name, kind, letter, dtype=C128, keys=None, fmts='', content=None):
        den, args = {}, []
        for i, (k, fm) in enumerate(sorted(QKINDS[kind].items())):
            k = (keys or {}).get(k, k)
            tot, nms = ZERO, []
            for j, f in enumerate(fm):
                nm = '%s%s%d' % (letter, k, j)
                r = self.c.mat(self.S, nm, f, dtype, content=content(nm) if content else None)
                self.inputs.append(nm)
                tot = tot + self.S.content(r)
                nms.append(nm)
            den[k] = tot
            args.append('"%s":[%s]' % (k, ','.join(nms)))
        self.pre.append('%s = quantum_operator({%s},dtype=np.%s%s)' % (name, ','.join(args), dtype, fmts))
        self.terms[name] = den
        self.names.append(name)


# (label, client code, specification in terms of HP = sum_k p_k O_k)
ROUTES = [
    ('dot(v)', 'w = Q.dot(v,pars=P)', 'z = HP.dot(v)'),
    ('dot(v) positional', 'w = Q.dot(v,P)', 'z = HP.dot(v)'),
    ('dot(V)', 'w = Q.dot(V,pars=P)', 'z = HP.dot(V)'),
    ('dot(V,check=False)', 'w = Q.dot(V,pars=P,check=False)', 'z = HP.dot(V)'),
    ('dot(v,a)', 'w = Q.dot(v,pars=P,a=c)', 'z = HP.dot(v)*c'),
    ('dot(v,out) buffer', 'Q.dot(v,pars=P,out=o1)\nw = o1', 'z = HP.dot(v)'),
    ('dot(V,out)', 'w = Q.dot(V,pars=P,out=o2)', 'z = HP.dot(V)'),
    ('dot(V,out,a) buffer', 'Q.dot(V,pars=P,out=o2,a=c)\nw = o2', 'z = HP.dot(V)*c'),
    ('dot(v,out,accumulate)', 'Q.dot(v,pars=P,out=o1,overwrite_out=False)\nw = o1', 'z = o1 + HP.dot(v)'),
    ('dot(V,out,accumulate,a)', 'Q.dot(V,pars=P,out=o2,overwrite_out=False,a=c)\nw = o2', 'z = o2 + HP.dot(V)*c'),
    ('dot(sparse V)', 'w = asdense(Q.dot(Vs,pars=P))', 'z = HP.dot(V)'),
    ('dot(sparse V,a)', 'w = asdense(Q.dot(Vs,pars=P,a=c))', 'z = HP.dot(V)*c'),
    ('rdot(v)', 'w = Q.rdot(v,pars=P)', 'z = HP.T.dot(v)'),
    ('rdot(W)', 'w = Q.rdot(W,pars=P)', 'z = W.dot(HP)'),
    ('rdot(W,a)', 'w = Q.rdot(W,pars=P,a=c)', 'z = W.dot(HP)*c'),
    ('rdot(v,out) buffer', 'Q.rdot(v,pars=P,out=o1)\nw = o1', 'z = HP.T.dot(v)'),
    ('rdot(v,out,accumulate,a)', 'Q.rdot(v,pars=P,out=o1,overwrite_out=False,a=c)\nw = o1', 'z = o1 + HP.T.dot(v)*c'),
    ('rdot(sparse W)', 'w = asdense(Q.rdot(Ws,pars=P))', 'z = W.dot(HP)'),
    ('toarray', 'w = Q.toarray(pars=P)', 'z = HP'),
    ('toarray(out)', 'w = Q.toarray(pars=P,out=O)', 'z = HP'),
    ('toarray(out) buffer', 'Q.toarray(pars=P,out=O)\nw = O', 'z = HP'),
    ('todense', 'w = np.asarray(Q.todense(pars=P))', 'z = HP'),
    ('todense(out) buffer', 'Q.todense(pars=P,out=O)\nw = O', 'z = HP'),
    ('tocsr', 'w = Q.tocsr(pars=P).toarray()', 'z = HP'),
    ('tocsc', 'w = Q.tocsc(pars=P).toarray()', 'z = HP'),
    ('Q(**pars)', 'w = np.asarray(Q(**P)) if Q.is_dense else Q(**P).toarray()', 'z = HP'),
    ('diagonal', 'w = Q.diagonal(pars=P)', 'z = HP.diagonal()'),
    ('trace', 'w = Q.trace(pars=P)', 'z = HP.trace()'),
    ('aslinearoperator.matvec', 'w = Q.aslinearoperator(pars=P).matvec(v)', 'z = HP.dot(v)'),
    ('aslinearoperator.matmat', 'w = Q.aslinearoperator(pars=P).matmat(V)', 'z = HP.dot(V)'),
    ('aslinearoperator.rmatvec', 'w = Q.aslinearoperator(pars=P).rmatvec(v)', 'z = HP.conj().T.dot(v)'),
    ('tohamiltonian.toarray', 'w = Q.tohamiltonian(pars=P).toarray()', 'z = HP'),
    ('tohamiltonian.dot', 'w = Q.tohamiltonian(pars=P).dot(v)', 'z = HP.dot(v)'),
    ('expt_value(v)', 'w = Q.expt_value(v,pars=P)', 'z = np.vdot(v,HP.dot(v))'),
    ('expt_value(V)', 'w = Q.expt_value(V,pars=P)', "z = np.einsum('ij,ij->j',V.conj(),HP.dot(V))"),
    ('expt_value(rho)', 'w = Q.expt_value(rho,pars=P)', 'z = HP.dot(rho).trace()'),
    ('expt_value(square V,enforce_pure)', 'w = Q.expt_value(rho,pars=P,enforce_pure=True)', "z = np.einsum('ij,ij->j',rho.conj(),HP.dot(rho))"),
    ('expt_value(sparse V)', 'w = Q.expt_value(Vs,pars=P)', "z = np.einsum('ij,ij->j',V.conj(),HP.dot(V))"),
    ('expt_value(sparse rho)', 'w = Q.expt_value(rhos,pars=P)', 'z = HP.dot(rho).trace()'),
    ('expt_value(sparse v)', 'w = Q.expt_value(vs,pars=P)', 'z = np.vdot(v,HP.dot(v))'),
    ('matrix_ele(vl,vr)', 'w = Q.matrix_ele(u,v,pars=P)', 'z = np.vdot(u,HP.dot(v))'),
    ('matrix_ele(Vl,Vr)', 'w = Q.matrix_ele(U,V,pars=P)', 'z = U.T.conj().dot(HP.dot(V))'),
    ('matrix_ele(Vl,Vr,diagonal)', 'w = Q.matrix_ele(U,V,pars=P,diagonal=True)', "z = np.einsum('ij,ij->j',U.conj(),HP.dot(V))"),
    ('matrix_ele(sparse Vl,Vr)', 'w = Q.matrix_ele(Us,Vs,pars=P)', 'z = U.T.conj().dot(HP.dot(V))'),
    ('matrix_ele(sparse Vl,dense Vr)', 'w = Q.matrix_ele(Us,V,pars=P)', 'z = U.T.conj().dot(HP.dot(V))'),
    ('matrix_ele(sparse,diagonal)', 'w = Q.matrix_ele(Us,Vs,pars=P,diagonal=True)', "z = np.einsum('ij,ij->j',U.conj(),HP.dot(V))"),
    ('quant_fluct(v)', 'w = Q.quant_fluct(v,pars=P)', 'z = np.vdot(v,HP.dot(HP.dot(v))) - np.vdot(v,HP.dot(v))**2'),
    ('quant_fluct(V)', 'w = Q.quant_fluct(V,pars=P)',
     "z = np.einsum('ij,ij->j',V.conj(),HP.dot(HP.dot(V))) - np.einsum('ij,ij->j',V.conj(),HP.dot(V))**2"),
    ('quant_fluct(rho)', 'w = Q.quant_fluct(rho,pars=P)', 'z = HP.dot(HP.dot(rho)).trace() - HP.dot(rho).trace()**2'),
    ('quant_fluct(sparse V)', 'w = Q.quant_fluct(Vs,pars=P)',
     "z = np.einsum('ij,ij->j',V.conj(),HP.dot(HP.dot(V))) - np.einsum('ij,ij->j',V.conj(),HP.dot(V))**2"),
    ('eigh', 'w = Q.eigh(pars=P)', 'z = scipy.linalg.eigh(HP)'),
    ('eigvalsh', 'w = Q.eigvalsh(pars=P)', 'z = scipy.linalg.eigvalsh(HP)'),
    ('eigsh(k)', 'w = Q.eigsh(pars=P,k=2)', 'z = sp.linalg.eigsh(HP,k=2)'),
    ('matvec', 'w = Q.matvec(v)', 'z = H1.dot(v)'),
    ('rmatvec', 'w = Q.rmatvec(v)', 'z = H1.conj().T.dot(v)'),
    ('matmat', 'w = Q.matmat(V)', 'z = H1.dot(V)'),
]
# client, spec: (per key function) for algebra
KEYS = ('a', 'b', 'c')


def algebra():
    """(label, builder, script, spec: terms -> {key: Poly}, inplace, tags)"""
    out = []
    add = lambda a, b: a + b
    sub = lambda a, b: a - b
    kinds = list(QKINDS)
    for k1 in kinds:
        for k2 in kinds:
            for ren, rn in (({}, 'same keys'), ({'a': 'b', 'b': 'c'}, 'overlapping keys')):
                def b(h, k1=k1, k2=k2, ren=ren):
                    h.qop('Q1', k1, 'A')
                    h.qop('Q2', k2, 'B', keys=ren)
                for op, f in (('+', add), ('-', sub)):
                    sp = (lambda f: lambda t: {k: f(t['Q1'].get(k, ZERO), t['Q2'].get(k, ZERO)) for k in KEYS})(f)
                    out.append(('%s %s %s (%s)' % (k1, op, k2, rn), b, 'R = Q1 %s Q2' % op, sp, None, ()))
                    out.append(('%s %s= %s (%s)' % (k1, op, k2, rn), b, 'Q1 %s= Q2\nR = Q1' % op, sp, 'Q1', ()))
        def bc(h, k1=k1):
            h.qop('Q1', k1, 'A')
            h.qop('Q2', k1, 'B', content=lambda nm: -Poly.sym('A' + nm[1:]) if nm[1] == 'a' else None)
        out.append(('%s + (cancelling)' % k1, bc, 'R = Q1 + Q2', lambda t: {k: t['Q1'].get(k, ZERO) + t['Q2'].get(k, ZERO) for k in KEYS}, None, ()))
        out.append(('%s += (cancelling)' % k1, bc, 'Q1 += Q2\nR = Q1', lambda t: {k: t['Q1'].get(k, ZERO) + t['Q2'].get(k, ZERO) for k in KEYS}, 'Q1', ()))
        for s in ('c', '2', '2.5', '1j', '-1'):
            def b1(h, k1=k1, s=s):
                h.qop('Q1', k1, 'A')
                h.val['s'] = h.scalar('c') if s == 'c' else Poly.const(complex(s))
            mul = lambda t, h=None: {k: p * t['s'] for k, p in t['Q1'].items()}
            div = lambda t: {k: p * t['s'].inverse() for k, p in t['Q1'].items()}
            out.append(('%s * %s' % (k1, s), b1, 'R = Q1 * (%s)' % s, mul, None, ()))
            out.append(('%s * %s (left)' % (s, k1), b1, 'R = (%s) * Q1' % s, mul, None, ()))
            out.append(('%s *= %s' % (k1, s), b1, 'Q1 *= (%s)\nR = Q1' % s, mul, 'Q1', ()))
            out.append(('%s / %s' % (k1, s), b1, 'R = Q1 / (%s)' % s, div, None, ()))
            out.append(('%s /= %s' % (k1, s), b1, 'Q1 /= (%s)\nR = Q1' % s, div, 'Q1', ()))
        b2 = (lambda k1: lambda h: h.qop('Q1', k1, 'A'))(k1)
        idn = lambda t: dict(t['Q1'])
        neg = lambda t: {k: -p for k, p in t['Q1'].items()}
        tr = lambda t: {k: trp(p) for k, p in t['Q1'].items()}
        hc = lambda t: {k: p.H() for k, p in t['Q1'].items()}
        cj = lambda t: {k: p.conj() for k, p in t['Q1'].items()}
        zero = lambda t: {}
        for code, f, tags in (('R = -Q1', neg, ()), ('R = Q1 + 0', idn, ()), ('R = Q1 - 0', idn, ()), ('R = Q1 - Q1', zero, ()),
                              ('R = Q1 + Q1', lambda t: {k: p.scale(2) for k, p in t['Q1'].items()}, ()),
                              ('R = Q1.copy()', idn, ()), ('R = Q1.astype(np.complex128,copy=True)', idn, ()),
                              ('R = Q1.astype(np.complex128)', idn, ('shares',)),
                              ('R = Q1.T', tr, ('shares',)), ('R = Q1.H', hc, ('shares',)), ('R = Q1.transpose()', tr, ('shares',)),
                              ('R = Q1.getH()', hc, ('shares',)), ('R = Q1.transpose(copy=True)', tr, ()),
                              ('R = Q1.getH(copy=True)', hc, ()), ('R = Q1.conj()', cj, ()), ('R = Q1.conjugate()', cj, ()),
                              ('R = Q1.T.T', idn, ('shares',)), ('R = Q1.H.H', idn, ('shares',))):
            out.append(('%s: %s' % (k1, code), b2, code, f, None, tags))
        for k in QKINDS[k1]:
            for fmt in ('csr', 'csc', 'dia', 'dense'):
                out.append(('%s: update_matrix_formats(%s=%s)' % (k1, k, fmt), b2,
                            'Q1.update_matrix_formats({"%s":"%s"})\nR = Q1' % (k, fmt), idn, 'Q1', ()))
                def b3(h, k1=k1, k=k, fmt=fmt):
                    h.qop('Q1', k1, 'A', fmts=',matrix_formats={"%s":"%s"}' % (k, fmt))
                out.append(('%s: quantum_operator(matrix_formats={%s:%s})' % (k1, k, fmt), b3, 'R = Q1', idn, 'Q1', ()))
    for d1, d2 in ((F64, C128), (C128, F64), (F64, F64), ('float32', F64)):
        for k1, k2 in (('two-sparse', 'mixed'), ('mixed', 'two-sparse'), ('one-dense', 'one-sparse')):
            def b(h, k1=k1, k2=k2, d1=d1, d2=d2):
                h.qop('Q1', k1, 'A', d1)
                h.qop('Q2', k2, 'B', d2)
            for op, f in (('+', add), ('-', sub)):
                sp = (lambda f: lambda t: {k: f(t['Q1'].get(k, ZERO), t['Q2'].get(k, ZERO)) for k in KEYS})(f)
                out.append(('%s[%s] %s %s[%s]' % (k1, d1, op, k2, d2), b, 'R = Q1 %s Q2' % op, sp, None, ()))
    for k1 in ('two-sparse', 'mixed'):
        def b(h, k1=k1):
            h.qop('Q1', k1, 'A', F64)
            h.val['s'] = h.scalar('c')
        out.append(('%s[float64] * complex' % k1, b, 'R = Q1 * c', lambda t: {k: p * t['s'] for k, p in t['Q1'].items()}, None, ()))
    return out


def scenarios(tier):
    out = []
    for k in QKINDS:
        for i, (pl, pd) in enumerate(PARS):
            if not set(pd) <= set(QKINDS[k]):
                continue
            for j, r in enumerate(ROUTES):
                if tier == 'quick' and r[0] in ('matvec', 'rmatvec', 'matmat') and i:
                    continue
                out.append(('route', k, i, j, C128))
    for k in ('two-sparse', 'mixed'):
        for j in range(len(ROUTES)):
            out.append(('route', k, 3, j, F64))
    for i in range(len(algebra())):
        out.append(('alg', i))
    return out


def run_qop(prog, it):
    con = None
    try:
        if it[0] == 'route':
            _, kind, pi, ri, dt = it
            con = '%s[%s] %s: %s' % (kind, dt, PARS[pi][0] or 'default pars', ROUTES[ri][0])
            gen = route(prog, kind, PARS[pi], ROUTES[ri], dt)
        else:
            a = algebra()[it[1]]
            con = a[0]
            gen = alg(prog, *a)
        for x in settle(gen):
            yield (x[0], con) + tuple(x[1:])
    except (Undecided, Budget, RecursionError) as e:
        yield ('qroute' if it[0] == 'route' else 'qalg', con or str(it), 'undecided', '%s %s' % (type(e).__name__, e), '', None)


def route(prog, kind, pars, rt, dt):
    label, code, spec = rt
    hc = QCase(prog)
    hc.qop('Q', kind, 'A', dt)
    ins = inputs(hc, dt)
    hc.vec('_probe')
    hc.inputs.remove('_probe')
    S = hc.S
    for nm in ('p', 'q'):
        hc.scalar(nm, dt)
    try:
        hc.start()
    except Construction as e:
        yield ('qroute', 'violated', 'construction ' + excsig(e.exc), 'constructing the operator fails: %r' % (e.exc,), e.exc.loc)
        return
    S = hc.S
    den, one_ = ZERO, ZERO
    for k, m in hc.terms['Q'].items():
        x = pars[1].get(k, 1.0)
        den = den + m * (Poly.scalar(x) if isinstance(x, str) else Poly.const(x))
        one_ = one_ + m
    for nm, x in (('HP', den), ('H1', one_)):
        hc.c.bind(S, nm, S.arr(x, (N, N), C128, 'nd'))
    hc.c.bind(S, 'scipy', Ext('scipy'))
    pre = hc.c.run(S, 'P = %s' % (pars[0] or '{}'))
    S = pre[0].S
    if not pars[0]:
        code = code.replace(',pars=P', '').replace('pars=P,', '').replace('pars=P', '').replace(',P)', ')').replace('**P', '')
    sps = hc.c.run(S.fork(), spec)
    if len(sps) != 1 or sps[0].exc is not None:
        raise Undecided('specification: %s' % ([o.exc for o in sps],))
    want, Sw = sps[0].var('z'), sps[0].S
    ins = ins + ['P'] + hc.inputs
    before = {n: observe(hc.c, S, n) for n in ['Q'] + ins if n in S.g(S.env).d}
    for o in hc.c.run(S.fork(), (PRE if 'asdense' in code else '') + code):
        yield ('@', o.S.unsure)
        if o.exc is not None:
            yield ('qroute', 'violated', excsig(o.exc), '`%s` fails: %r' % (code.replace('\n', '; '), o.exc), o.exc.loc)
            continue
        got = o.var('w')
        v, g, w = compare_across(o.S, got, Sw, want)
        if v == 'eq':
            yield ('qroute', 'held', '', '', None)
        elif v == 'unk':
            yield ('qroute', 'undecided', 'value %s' % str(g)[:80], '', None)
        else:
            yield ('qroute', 'violated', str(g)[:200], '`%s` gives %s, specified %s' % (code.replace('\n', '; '), g, w), None)
        for n in before:
            d = diff(before[n], observe(hc.c, o.S, n, before[n]))
            if d:
                yield ('purity', 'violated', n + d, '`%s` modifies %s (%s)' % (code.replace('\n', '; '), n, n + d), None)
            else:
                yield ('purity', 'held', '', '', None)
        # a repeated evaluation gives the same result (no state carried by the operator or by default arguments)
        S1 = o.S.fork()
        arrs = got.items if isinstance(got, Tup) else [got]
        chg = False
        for a in arrs:
            if isinstance(a, Ref) and isinstance(S1.g(a), Arr) and S1.g(a).wr:
                declare('scribble')
                S1.setcontent(a, Poly.sym('scribble'))
                chg = True
        if chg:
            for n in before:
                d = diff(before[n], observe(hc.c, S1, n, before[n]))
                if d:
                    yield ('alias', 'violated', n + d, 'the array returned by `%s` shares memory with %s' % (code.replace('\n', '; '), n), None)
                else:
                    yield ('alias', 'held', '', '', None)


def alg(prog, label, build, script, spec, inplace, tags):
    hc = QCase(prog)
    build(hc)
    hc.vec('_probe')
    hc.vec('v')
    try:
        hc.start()
    except Construction as e:
        yield ('qalg', 'violated', 'construction ' + excsig(e.exc), 'constructing the operands of `%s` fails: %r' % (script, e.exc), e.exc.loc)
        return
    hc.terms['s'] = hc.val.get('s')
    want = spec(hc.terms)
    want = {k: want.get(k, ZERO) for k in KEYS}
    names = [n for n in hc.names + hc.inputs if n != '_probe']
    before = {n: observe(hc.c, hc.S, n) for n in names}
    sc = script.replace('\n', '; ')
    for o in hc.run(script):
        S = o.S
        yield ('@', S.unsure)
        if o.exc is not None:
            yield ('qalg', 'violated', excsig(o.exc), '`%s` fails: %r' % (sc, o.exc), o.exc.loc)
            continue
        R = o.var('R')
        if not (isinstance(R, Ref) and isinstance(S.g(R), Inst)):
            yield ('qalg', 'undecided' if isinstance(R, Top) else 'violated', 'result %r' % (R,), '`%s` yields %r' % (sc, R), None)
            continue
        got = qop_terms(hc.c, S, 'R', KEYS)
        for k in KEYS:
            v = compare(got[k], want[k])
            if v == 'eq':
                yield ('qalg', 'held', '', '', None)
            elif v == 'unk':
                yield ('qalg', 'undecided', 'value %s' % got[k], '', None)
            else:
                yield ('qalg', 'violated', '%s: %s' % (k, got[k]), '`%s`: the operator of key %r is %s, specified %s' % (sc, k, got[k], want[k]), None)
        if inplace:
            h0 = hc.S.g(hc.S.env).d[inplace]
            if R.id != h0.id:
                yield ('identity', 'violated', 'rebound', '`%s` does not update %s in place' % (sc, inplace), None)
            else:
                yield ('identity', 'held', '', '', None)
        for n in names:
            if n == inplace:
                continue
            d = diff(before[n], observe(hc.c, S, n, before[n]))
            if d:
                yield ('purity', 'violated', n + d, '`%s` modifies its operand %s (%s)' % (sc, n, n + d), None)
            else:
                yield ('purity', 'held', '', '', None)
        # coherence
        tot = ZERO
        for k in KEYS:
            tot = tot + want[k]
        kinds = []
        for k in KEYS:
            for o2 in hc.c.run(S.fork(), "_q = R.get_operators('%s')" % k):
                if o2.exc is None and isinstance(o2.var('_q'), Ref):
                    kinds.append(o2.S.g(o2.var('_q')).kind)
        for o2 in hc.c.run(S.fork(), 'w = R.dot(v)\nW = R.toarray()\nn = R.Ns\nsh = R.get_shape\nden = R.is_dense'):
            if o2.exc is not None:
                yield ('evaluate', 'violated', excsig(o2.exc), 'evaluating the result of `%s` fails: %r' % (sc, o2.exc), o2.exc.loc)
                continue
            for nm, x in (('w', tot * Poly.sym('v')), ('W', tot)):
                try:
                    c = content(o2.S, o2.var(nm))
                except Undecided as u:
                    yield ('evaluate', 'undecided', str(u), '', None)
                    continue
                v = compare(c, x)
                if v == 'ne':
                    yield ('evaluate', 'violated', '%s=%s' % (nm, c), '%s of the result of `%s` gives %s, specified %s' % (
                        {'w': 'dot', 'W': 'toarray'}[nm], sc, c, x), None)
                else:
                    yield ('evaluate', 'held' if v == 'eq' else 'undecided', '', '', None)
            n, sh, den = o2.var('n'), o2.var('sh'), o2.var('den')
            bad = isinstance(n, K) and n.v != 6 or isinstance(sh, Tup) and tuple(getattr(x, 'v', None) for x in sh.items) != (6, 6)
            yield ('metadata', 'violated' if bad else 'held', 'shape' if bad else '', 'result of `%s` reports Ns=%s, shape=%s' % (sc, n, sh), None)
            if isinstance(den, K):
                anyd = any(k not in SP for k in kinds)
                if bool(den.v) != anyd:
                    yield ('metadata', 'violated', 'is_dense=%s' % den.v, 'result of `%s` reports is_dense=%s but stores %s' % (sc, den.v, kinds), None)
                else:
                    yield ('metadata', 'held', '', '', None)
        if 'shares' in tags or inplace and label.find('quantum_operator(') >= 0:
            continue
        for o2 in hc.c.run(S.fork(), 'R *= 2.0'):
            if o2.exc is not None:
                break
            for n in names:
                if n == inplace:
                    continue
                d = diff(before[n], observe(hc.c, o2.S, n, before[n]))
                d0 = diff(before[n], observe(hc.c, S, n, before[n]))
                if d and not d0:
                    yield ('independence', 'violated', n + d, 'after `%s`, scaling the result in place changes %s' % (sc, n + d), None)
                else:
                    yield ('independence', 'held', '', '', None)
        for n in hc.names:
            if n == inplace:
                continue
            for o2 in hc.c.run(S.fork(), '%s *= 2.0' % n):
                if o2.exc is not None:
                    break
                g2 = qop_terms(hc.c, o2.S, 'R', KEYS)
                if any(compare(g2[k], got[k]) == 'ne' for k in KEYS):
                    yield ('independence', 'violated', 'operand ' + n, 'after `%s`, scaling the operand %s in place changes the result' % (sc, n), None)
                else:
                    yield ('independence', 'held', '', '', None)
