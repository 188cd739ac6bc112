"""exp_op: exp(a O) applied, transformed, sandwiched and evaluated on a grid agrees with the matrix exponential of the represented operator."""
from ..values import *
from ..terms import Poly, ZERO, declare
from ..interp import Budget
from ..opscan import *
from ..runner import settle
from .hamops import HamCase, excsig, C128, F64
from .evalham import inputs, compare_across, PRE
from .construct import one

N = 6
IMP = ("import scipy\nimport scipy.linalg\n"
       "from quspin.operators import hamiltonian, quantum_operator, exp_op, isexp_op\n")
# operator to exponentiate: (code, keyword arguments of the evaluation, explicit matrix)
OPS = {
    'dense matrix': ('On', '', 'On'),
    'sparse matrix': ('Os', '', 'Os.toarray()'),
    'real matrix': ('Rs', '', 'Rs.toarray()'),
    'real dense matrix': ('Rn', '', 'Rn'),
    'csc matrix': ('Oc', '', 'Oc.toarray()'),
    'static hamiltonian': ('hamiltonian([Os],[])', '', 'Os.toarray()'),
    'dense hamiltonian': ('hamiltonian([On],[])', '', 'On'),
    'driven hamiltonian': ('hamiltonian([Os],[[Od,f,[]]])', 'time=t', 'Os.toarray()+f(t)*Od.toarray()'),
    'driven dense hamiltonian': ('hamiltonian([On],[[Od,f,[]]])', 'time=t', 'On+f(t)*Od.toarray()'),
    'quantum_operator': ('quantum_operator({"p":[Os],"q":[Od]})', 'pars={"p":p}', 'p*Os.toarray()+Od.toarray()'),
}
# setting: (constructor arguments, code run on E afterwards, grid points or None, iterate)
G3 = ['t1', '(t1+t2)/2', 't2']
G3N = ['t1', 't1+(t2-t1)/4', 't1+(t2-t1)/2', 't1+3*(t2-t1)/4']
G0 = ['0', 't2/2', 't2']
GM = ['-1', '(t2-1)/2', 't2']
SETTINGS = {
    'default': ('', '', None, False, '1.0'),
    'a': ('a=c', '', None, False, 'c'),
    'a=-1j': ('a=-1j', '', None, False, '-1j'),
    'a=2': ('a=2', '', None, False, '2'),
    'set_a': ('', 'E.set_a(c)', None, False, 'c'),
    'unset': ('a=c,start=t1,stop=t2,num=3', 'E.unset_grid()', None, False, 'c'),
    'unset iterate': ('a=c,start=t1,stop=t2,num=3,iterate=True', 'E.unset_grid()', None, False, 'c'),
    'grid': ('a=c,start=t1,stop=t2,num=3', '', G3, False, 'c'),
    'grid real a': ('start=t1,stop=t2,num=3', '', G3, False, '1.0'),
    'grid real a without end': ('a=2,start=t1,stop=t2,num=4,endpoint=False', '', G3N, False, '2'),
    'grid without end': ('a=c,start=t1,stop=t2,num=4,endpoint=False', '', G3N, False, 'c'),
    'grid from 0': ('a=c,start=0,stop=t2,num=3,endpoint=True', '', G0, False, 'c'),
    'grid from -1': ('a=c,start=-1,stop=t2,num=3', '', GM, False, 'c'),
    'iterate from -1': ('a=c,start=-1,stop=t2,num=3,iterate=True', '', GM, True, 'c'),
    'iterate': ('a=c,start=t1,stop=t2,num=3,iterate=True', '', G3, True, 'c'),
    'iterate real a': ('start=t1,stop=t2,num=3,iterate=True', '', G3, True, '1.0'),
    'iterate complex grid': ('start=z1,stop=z2,num=3,iterate=True', '', ['z1', '(z1+z2)/2', 'z2'], True, '1.0'),
    'iterate without end': ('a=c,start=t1,stop=t2,num=4,endpoint=False,iterate=True', '', G3N, True, 'c'),
    'iterate from 0': ('a=c,start=0,stop=t2,num=3,iterate=True', '', G0, True, 'c'),
    'set_grid': ('a=c', 'E.set_grid(t1,t2,num=3,endpoint=True)', G3, False, 'c'),
    'set_grid without end': ('a=c', 'E.set_grid(t1,t2,4,False)', G3N, False, 'c'),
    'set_grid default end': ('a=c', 'E.set_grid(t1,t2,num=3)', G3, False, 'c'),
    'set_grid iterate': ('a=c', 'E.set_grid(t1,t2,num=3,endpoint=True)\nE.set_iterate(True)', G3, True, 'c'),
    'iterate off': ('a=c,start=t1,stop=t2,num=3,iterate=True', 'E.set_iterate(False)', G3, False, 'c'),
}
# views of E: code, transformed matrix in terms of X = exp(..)
VIEWS = {
    '': ('E', 'X'),
    '.T': ('E.T', 'X.T'),
    '.H': ('E.H', 'X.conj().T'),
    '.conj()': ('E.conj()', 'X.conj()'),
    '.transpose()': ('E.transpose()', 'X.T'),
    '.transpose(copy=True)': ('E.transpose(copy=True)', 'X.T'),
    '.getH()': ('E.getH()', 'X.conj().T'),
    '.getH(copy=True)': ('E.getH(copy=True)', 'X.conj().T'),
    '.copy()': ('E.copy()', 'X'),
    '.H.H': ('E.H.H', 'X'),
    '.T.conj()': ('E.T.conj()', 'X.conj().T'),
}
# label, code of one application (KW stands for the evaluation keywords), matrix expression of one grid point, kind of the result
ROUTES = [
    ('dot(v)', 'Y.dot(v KW)', 'X.dot(v)', 'vec'),
    ('dot(V)', 'Y.dot(V KW)', 'X.dot(V)', 'mat'),
    ('dot(sparse V)', 'Y.dot(Vs KW)', 'X.dot(V)', 'sp'),
    ('dot(v,shift)', 'Y.dot(v,shift=s KW)', 'XS.dot(v)', 'vec'),
    ('dot(hamiltonian)', 'Y.dot(HH KW)', 'X.dot(HE)', 'ham'),
    ('dot(dense hamiltonian)', 'Y.dot(HN KW)', 'X.dot(HNE)', 'ham'),
    ('dot(hamiltonian) applied', 'Y.dot(HH KW)', 'X.dot(HE).dot(v)', 'hamv'),
    ('rdot(v)', 'Y.rdot(v KW)', 'X.T.dot(v)', 'vec'),
    ('rdot(W)', 'Y.rdot(W KW)', 'W.dot(X)', 'rmat'),
    ('rdot(sparse W)', 'Y.rdot(Ws KW)', 'W.dot(X)', 'sp'),
    ('rdot(v,shift)', 'Y.rdot(v,shift=s KW)', 'XS.T.dot(v)', 'vecr'),
    ('rdot(hamiltonian)', 'Y.rdot(HH KW)', 'HE.dot(X)', 'ham'),
    ('rdot(hamiltonian) applied', 'Y.rdot(HH KW)', 'HE.dot(X).dot(v)', 'hamv'),
    ('project_to', 'HH.project_to(Y)', 'X.conj().T.dot(HE).dot(X)', 'ham'),
    ('sandwich(rho)', 'Y.sandwich(rho KW)', 'X.conj().T.dot(rho).dot(X)', 'sand'),
    ('sandwich(sparse rho)', 'Y.sandwich(rhos KW)', 'X.conj().T.dot(rho).dot(X)', 'sp'),
    ('sandwich(rho,shift)', 'Y.sandwich(rho,shift=s KW)', 'XS.conj().T.dot(rho).dot(XS)', 'sand'),
    ('sandwich(hamiltonian)', 'Y.sandwich(HH KW)', 'X.conj().T.dot(HE).dot(X)', 'ham'),
    ('sandwich twice', '(Y.sandwich(rho KW),Y.sandwich(rho KW))[1]', 'X.conj().T.dot(rho).dot(X)', 'sand'),
    ('rotate_by', 'HH.rotate_by(ROT)', 'X.conj().T.dot(HE).dot(X)', 'ham'),
    ('get_mat', 'Y.get_mat(KWO)', 'X1', 'asmat'),
    ('get_mat(dense)', 'Y.get_mat(dense=True KW)', 'X1', 'mat1'),
    # a generator hands out results the caller may overwrite before asking for the next one
    ('dot(v), item overwritten', 'Y.dot(v KW)', 'X.dot(v)', 'ow'),
    ('dot(V), item overwritten', 'Y.dot(V KW)', 'X.dot(V)', 'ow'),
    ('dot(sparse V), item overwritten', 'Y.dot(Vs KW)', 'X.dot(V)', 'ow'),
    ('rdot(W), item overwritten', 'Y.rdot(W KW)', 'W.dot(X)', 'ow'),
    ('sandwich(rho), item overwritten', 'Y.sandwich(rho KW)', 'X.conj().T.dot(rho).dot(X)', 'ow'),
    ('dot(hamiltonian), item overwritten', 'Y.dot(HH KW)', 'X.dot(HE)', 'ow'),
    ('rdot(hamiltonian), item overwritten', 'Y.rdot(HH KW)', 'HE.dot(X)', 'ow'),
    ('sandwich(hamiltonian), item overwritten', 'Y.sandwich(HH KW)', 'X.conj().T.dot(HE).dot(X)', 'ow'),
    # settings of a view are its own
    ('view changed', 'E.get_mat(dense=True KW)', 'X1', 'view'),
    ('attributes', '(Y.a,Y.Ns,Y.get_shape[1],Y.ndim,Y.iterate)', None, 'attr'),
]


def scenarios(tier):
    out = []
    for op in OPS:
        for st in SETTINGS:
            for v in VIEWS:
                for i, r in enumerate(ROUTES):
                    if tier == 'quick':
                        if v not in ('', '.H') and not (r[0] in ('dot(v)', 'dot(V)', 'view changed') and st in ('a', 'iterate')):
                            continue
                        if op not in ('sparse matrix', 'driven hamiltonian', 'quantum_operator') and (st not in ('a', 'grid') and not (op == 'real matrix' and st.startswith('grid') and i < 10) or v):
                            continue
                    elif op not in ('sparse matrix', 'driven hamiltonian', 'quantum_operator') and (v not in ('', '.H', '.T', '.conj()') or st.startswith('set') or st.startswith('unset')):
                        continue
                    if r[0] == 'rotate_by' and (v or SETTINGS[st][1] or OPS[op][1]):
                        continue
                    if r[0] == 'project_to' and OPS[op][1]:
                        continue
                    if r[0].startswith('attr') and v or r[3] == 'ow' and not SETTINGS[st][3] or r[3] == 'view' and not v:
                        continue
                    out.append((op, st, v, i))
    return out


def label(it):
    return '%s, %s%s: %s' % (it[0], it[1], ', E' + it[2] if it[2] else '', ROUTES[it[3]][0])


def run_expop(prog, it):
    con = label(it)
    try:
        for x in settle(case(prog, *it)):
            yield (x[0], con) + tuple(x[1:])
    except (Undecided, Budget, RecursionError) as e:
        yield ('exp', con, 'undecided', '%s %s' % (type(e).__name__, e), '', None)


def client(op, st, view, ri):
    """client code computing w and the specification computing z"""
    lab, code, spec, kind = ROUTES[ri]
    ocode, kw, omat = OPS[op]
    args, after, grid, iterate, a = SETTINGS[st]
    code = code.replace(' KW', ',' + kw if kw else '').replace('KWO', kw).replace('ROT', 'O,generator=True' + (',' + args if args else ''))
    run = 'Y = %s\n' % VIEWS[view][0]
    vspec = VIEWS[view][1]
    pts = grid or ['1']
    sp = 'OM = %s\n' % omat
    if kind == 'attr':
        return run + 'w = ' + code, sp + 'z = (%s,6,6,2,%s)' % (a, iterate)
    if kind in ('asmat', 'mat1'):
        run += 'R = %s\n' % code
        run += 'w = R.toarray() if sp.issparse(R) else R'
        return run, sp + 'X = scipy.linalg.expm(%s*OM)\nz = %s' % (a, vspec)
    if kind == 'view':
        run += 'Y.set_a(c1)\nY.set_grid(0,1,num=5,endpoint=True)\nY.set_iterate(True)\nw = (%s,E.a,E.grid is None,E.iterate)' % code
        return run, sp + 'z = (scipy.linalg.expm(%s*OM),%s,%s,%s)' % (a, a, grid is None, iterate)
    n = len(pts)
    if kind == 'ow':
        g = ('np.conj(%s)' if 'conj' in vspec else '%s') % ('(%s)' % pts[2])
        run += 'G = %s\nR = list(G)[2]\nw = %s' % (code, 'R.toarray(time=t)' if 'HE' in spec else 'R.toarray() if sp.issparse(R) else R')
        return run, sp + 'X = scipy.linalg.expm(%s*%s*OM)\nX = %s\nz = %s' % (g, a, vspec, spec)
    one_ = {'vec': '%s', 'vecr': '%s', 'mat': '%s', 'rmat': '%s', 'sand': '%s', 'sp': '%s.toarray()', 'ham': '%s.toarray(time=t)', 'hamv': '%s.dot(v,time=t)'}[kind]
    if grid is None:
        run += 'R = %s\nw = %s' % (code, one_ % 'R')
    elif iterate:
        run += 'R = list(%s)\nw = (%s)' % (code, ','.join(['len(R)'] + [one_ % ('R[%d]' % i) for i in range(n)]))
    else:
        ix = {'vec': 'R[:,%d]' if lab.startswith('dot') else 'R[%d]', 'vecr': 'R[%d]', 'mat': 'R.T[%d]', 'rmat': 'R[%d]', 'sand': 'R[:,:,%d]'}.get(kind, 'R[%d]')
        if kind == 'mat':
            ix = 'R[:,:,%d].T'
        run += 'R = %s\nw = (%s)' % (code, ','.join(['%d' % n] + [one_ % (ix % i) for i in range(n)]))
    zs = []
    # the grid and the shift belong to the view: a view that conjugates evaluates conj(a) conj(O) at the same points
    cj = 'np.conj(%s)' if 'conj' in vspec else '%s'
    for g in pts:
        g = cj % ('(%s)' % g)
        sp += 'X = scipy.linalg.expm(%s*%s*OM)\nX = %s\n' % (g, a, vspec)
        if 'XS' in spec:
            sp += 'XS = scipy.linalg.expm(%s*%s*(OM+%s*np.identity(6)))\nX_ = X\nX = XS\nXS = %s\nX = X_\n' % (g, a, cj % 's', vspec)
        sp += 'z%d = %s\n' % (len(zs), spec)
        zs.append('z%d' % len(zs))
    sp += 'z = %s' % (zs[0] if grid is None else '(%d,%s)' % (n, ','.join(zs)))
    return run, sp


def overwritten(I, v, S):
    """the consumer keeps a copy of a yielded object and overwrites the object before it asks for the next one"""
    r = I.np.f_copy__deepcopy([v], {}, S, None)
    seen, todo = set(), [v]
    while todo:
        x = todo.pop()
        if isinstance(x, Tup):
            todo.extend(x.items)
        if not isinstance(x, Ref) or x.id in seen:
            continue
        seen.add(x.id)
        o = S.g(x)
        if isinstance(o, Arr):
            c = S.content(x)
            if isinstance(c, Poly):
                S.setcontent(x, Poly.scalar('overwritten') * c)
        elif isinstance(o, Inst):
            todo.extend(y for k, y in o.f.items() if k in ('_static', '_dynamic', '_quantum_operator'))
        elif isinstance(o, Dct):
            todo.extend(y for k, y in o.items)
    return r


def case(prog, op, st, view, ri):
    lab, code, spec, kind = ROUTES[ri]
    hc = HamCase(prog)
    hc.c.imports = IMP
    hc.S = hc.c.start()
    for nm in ('f', 'h'):
        hc.c.ufn(hc.S, nm, C128)
    hc.c.bind(hc.S, 't', T0)
    S = hc.S
    inputs(hc, C128)
    hc.c.scalar(S, 's', C128)
    hc.c.scalar(S, 'p', F64)
    for nm in ('z1', 'z2'):
        hc.c.scalar(S, nm, C128)
    for nm, fm in (('On', 'nd'), ('Os', 'csr'), ('Oc', 'csc'), ('Od', 'csr'), ('HS', 'csr'), ('HD', 'csr'), ('HM', 'nd')):
        hc.mat(nm, fm, C128)
    hc.mat('Rs', 'csr', F64)
    hc.mat('Rn', 'nd', F64)
    hc.vec('_probe')
    hc.c.scalar(S, 'c1', C128)
    names = [n for n in hc.inputs] + ['v', 'V', 'W', 'Vs', 'Ws', 'rho', 'rhos']
    args, after, grid, iterate, a = SETTINGS[st]
    ocode, kw, omat = OPS[op]
    setup = ('O = %s\nHH = hamiltonian([HS],[[HD,h,[]]])\nHE = HS.toarray()+h(t)*HD.toarray()\nHN = hamiltonian([HM],[[HD,h,[]]])\n'
             'HNE = HM+h(t)*HD.toarray()\nE = exp_op(O%s)\n%s' % (ocode, ',' + args if args else '', after))
    outs = hc.c.run(S, setup)
    good = [o for o in outs if o.exc is None]
    for o in outs:
        yield ('@', o.S.unsure)
        if o.exc is not None:
            yield ('exp', 'violated', excsig(o.exc), '`%s` fails: %r' % (setup.split('\n', 5)[5].replace('\n', '; '), o.exc), o.exc.loc)
    if len(good) != 1:
        if not good and outs:
            return
        raise Undecided('construction: %d partitions' % len(good))
    S = good[0].S
    ccode, scode = client(op, st, view, ri)
    if kind == 'ow':
        hc.c.I.hooks['onyield'] = overwritten
    sps = one(hc.c.run(S.fork(), scode))
    want, Sw = sps.var('z'), sps.S
    before = {n: deep(S, S.g(S.env).d[n]) for n in names if n in S.g(S.env).d}

    def act(S, code):
        r = hc.c.run(S.fork(), '_w = %s' % code)
        if len(r) != 1 or r[0].exc is not None:
            return None
        w = r[0].var('_w')
        return r[0].S.content(w) if isinstance(w, Ref) and isinstance(r[0].S.g(w), Arr) else None
    probes = {'E': 'E.get_mat(dense=True%s)' % (',' + kw if kw else ''), 'HH': 'HH.dot(_probe,time=t)', 'HN': 'HN.dot(_probe,time=t)'}
    if not op.endswith('matrix'):
        probes['O'] = 'O.dot(_probe%s)' % (',' + kw if kw else '')
    pb = {n: act(S, c) for n, c in probes.items()}
    shown = ccode.replace('\n', '; ')
    for o in hc.c.run(S.fork(), ccode):
        yield ('@', o.S.unsure)
        if o.exc is not None:
            yield ('exp', 'violated', excsig(o.exc), '`%s` fails: %r' % (shown, o.exc), o.exc.loc)
            continue
        v, g, w = compare_across(o.S, o.var('w'), Sw, want)
        if v == 'eq':
            yield ('exp', 'held', '', '', None)
        elif v == 'unk':
            yield ('exp', 'undecided', 'value %s' % str(g)[:80], '', None)
        else:
            yield ('exp', 'violated', str(g)[:200], '`%s` gives %s, specified %s' % (shown, g, w), None)
        for n in before:
            d = diff(before[n], deep(o.S, o.S.g(o.S.env).d[n]))
            yield ('purity', 'violated' if d else 'held', n + d if d else '', '`%s` modifies %s' % (shown, n + (d or '')), None)
        for n, p in pb.items():
            a = act(o.S, probes[n])
            if p is not None and a is not None:
                bad = compare_shaped(a, p, (N, N)) == 'ne'
                yield ('purity', 'violated' if bad else 'held', 'operator ' + n if bad else '', '`%s` changes the operator %s' % (shown, n), None)
