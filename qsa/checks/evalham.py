"""Evaluation routes of a time dependent operator: every public route denotes the same H(t)."""
from ..values import *
from ..terms import Poly, ZERO, declare, Stack
from ..interp import Budget
from ..opscan import *
from ..program import Program
from ..report import Report
from ..runner import run_items, feed, settle
from .hamops import HamCase, KINDS, Construction, excsig, C128, F64

N = 6


def at(hc, p, tp):
    """substitute the time argument in a denotation"""
    return Poly(p.d) if tp is None else subst(p, tp)


def subst(p, tp):
    k0 = (T0.p.key(),)
    out = ZERO
    for (s, w), c in p.d.items():
        t = Poly({((), w): c})
        for a, n in s:
            if a[0] == 'app' and a[2] == k0:
                a = ('app', a[1], (tp.key(),), a[3])
            t = t * Poly({(((a, n),), ()): 1})
        out = out + t
    return out


# route, client code, specification code, kinds: all / names
ROUTES = [
    # action on states from the right
    ('dot(v)', 'w = H.dot(v)', 'z = H0.dot(v)'),
    ('dot(v,time)', 'w = H.dot(v,time=t)', 'z = HT.dot(v)'),
    ('dot(v,time) positional', 'w = H.dot(v,t)', 'z = HT.dot(v)'),
    ('dot(V,time)', 'w = H.dot(V,time=t)', 'z = HT.dot(V)'),
    ('dot(V,time,check=False)', 'w = H.dot(V,time=t,check=False)', 'z = HT.dot(V)'),
    ('dot(v,time,a)', 'w = H.dot(v,time=t,a=c)', 'z = HT.dot(v)*c'),
    ('dot(V,time,a)', 'w = H.dot(V,time=t,a=c)', 'z = HT.dot(V)*c'),
    ('dot(v,out)', 'w = H.dot(v,time=t,out=o1)', 'z = HT.dot(v)'),
    ('dot(v,out) buffer', 'H.dot(v,time=t,out=o1)\nw = o1', 'z = HT.dot(v)'),
    ('dot(V,out) buffer', 'H.dot(V,time=t,out=o2)\nw = o2', 'z = HT.dot(V)'),
    ('dot(v,out,a) buffer', 'H.dot(v,time=t,out=o1,a=c)\nw = o1', 'z = HT.dot(v)*c'),
    ('dot(v,out,accumulate)', 'H.dot(v,time=t,out=o1,overwrite_out=False)\nw = o1', 'z = o1 + HT.dot(v)'),
    ('dot(V,out,accumulate,a)', 'H.dot(V,time=t,out=o2,overwrite_out=False,a=c)\nw = o2', 'z = o2 + HT.dot(V)*c'),
    ('dot(sparse V)', 'w = asdense(H.dot(Vs,time=t))', 'z = HT.dot(V)'),
    ('dot(sparse V,a)', 'w = asdense(H.dot(Vs,time=t,a=c))', 'z = HT.dot(V)*c'),
    ('dot(V,times)', 'w = H.dot(V2,time=[t1,t2])', 'z = np.column_stack([H1.dot(V2[:,0]),H2.dot(V2[:,1])])'),
    ('dot(V,times,a)', 'w = H.dot(V2,time=[t1,t2],a=c)', 'z = np.column_stack([H1.dot(V2[:,0])*c,H2.dot(V2[:,1])*c])'),
    ('dot(sparse V,times)', 'w = asdense(H.dot(V2s,time=[t1,t2]))', 'z = np.column_stack([H1.dot(V2[:,0]),H2.dot(V2[:,1])])'),
    ('dot(sparse V,times,a)', 'w = asdense(H.dot(V2s,time=[t1,t2],a=c))', 'z = np.column_stack([H1.dot(V2[:,0])*c,H2.dot(V2[:,1])*c])'),
    ('rdot(sparse V,time)', 'w = asdense(H.rdot(Ws,time=t))', 'z = W.dot(HT)'),
    ('dot(rhos,times)', 'w = H.dot(R3,time=[t1,t2])', 'z = np.stack([H1.dot(R3[:,:,0]),H2.dot(R3[:,:,1])],axis=2)'),
    # action from the left
    ('rdot(v,time)', 'w = H.rdot(v,time=t)', 'z = HT.T.dot(v)'),
    ('rdot(v)', 'w = H.rdot(v)', 'z = H0.T.dot(v)'),
    ('rdot(V,time)', 'w = H.rdot(W,time=t)', 'z = W.dot(HT)'),
    ('rdot(V,time,a)', 'w = H.rdot(W,time=t,a=c)', 'z = W.dot(HT)*c'),
    ('rdot(v,out) buffer', 'H.rdot(v,time=t,out=o1)\nw = o1', 'z = HT.T.dot(v)'),
    ('rdot(v,out,accumulate,a)', 'H.rdot(v,time=t,out=o1,overwrite_out=False,a=c)\nw = o1', 'z = o1 + HT.T.dot(v)*c'),
    ('rdot(V,times)', 'w = H.rdot(V2,time=[t1,t2])', 'z = np.column_stack([H1.T.dot(V2[:,0]),H2.T.dot(V2[:,1])])'),
    ('rdot(rhos,times)', 'w = H.rdot(R3,time=[t1,t2])', 'z = np.stack([R3[:,:,0].dot(H1),R3[:,:,1].dot(H2)],axis=2)'),
    # conversions
    ('toarray(time)', 'w = H.toarray(time=t)', 'z = HT'),
    ('toarray()', 'w = H.toarray()', 'z = H0'),
    ('toarray(order)', "w = H.toarray(time=t,order='F')", 'z = HT'),
    ('toarray(out)', 'w = H.toarray(time=t,out=O)', 'z = HT'),
    ('toarray(out) buffer', 'H.toarray(time=t,out=O)\nw = O', 'z = HT'),
    ('todense(time)', 'w = np.asarray(H.todense(time=t))', 'z = HT'),
    ('todense()', 'w = np.asarray(H.todense())', 'z = H0'),
    ('todense(order)', "w = np.asarray(H.todense(time=t,order='F'))", 'z = HT'),
    ('todense(out) buffer', 'H.todense(time=t,out=O)\nw = O', 'z = HT'),
    ('tocsr(time)', 'w = H.tocsr(time=t).toarray()', 'z = HT'),
    ('tocsr()', 'w = H.tocsr().toarray()', 'z = H0'),
    ('tocsc(time)', 'w = H.tocsc(time=t).toarray()', 'z = HT'),
    ('tocsc()', 'w = H.tocsc().toarray()', 'z = H0'),
    ('H(t)', 'w = np.asarray(H(t)) if H.is_dense else H(t).toarray()', 'z = HT'),
    ('H(time=t)', 'w = np.asarray(H(time=t)) if H.is_dense else H(time=t).toarray()', 'z = HT'),
    ('H()', 'w = np.asarray(H()) if H.is_dense else H().toarray()', 'z = H0'),
    ('H[t,i,j]', 'w = H[t,1,2]', 'z = HT[1,2]'),
    ('H[[t1,t2],i,j]', 'w = H[[t1,t2],1,2]', 'z = (H1[1,2],H2[1,2])'),
    ('diagonal(time)', 'w = H.diagonal(time=t)', 'z = HT.diagonal()'),
    ('diagonal()', 'w = H.diagonal()', 'z = H0.diagonal()'),
    ('trace(time)', 'w = H.trace(time=t)', 'z = HT.trace()'),
    ('trace()', 'w = H.trace()', 'z = H0.trace()'),
    ('aslinearoperator.matvec', 'w = H.aslinearoperator(time=t).matvec(v)', 'z = HT.dot(v)'),
    ('aslinearoperator.matmat', 'w = H.aslinearoperator(time=t).matmat(V)', 'z = HT.dot(V)'),
    ('aslinearoperator.rmatvec', 'w = H.aslinearoperator(time=t).rmatvec(v)', 'z = HT.conj().T.dot(v)'),
    # measurements
    ('expt_value(v)', 'w = H.expt_value(v,time=t)', 'z = np.vdot(v,HT.dot(v))'),
    ('expt_value(v) t=0', 'w = H.expt_value(v)', 'z = np.vdot(v,H0.dot(v))'),
    ('expt_value(column)', 'w = H.expt_value(V1,time=t)', 'z = np.vdot(V1,HT.dot(V1))'),
    ('expt_value(V)', 'w = H.expt_value(V,time=t)', "z = np.einsum('ij,ij->j',V.conj(),HT.dot(V))"),
    ('expt_value(rho)', 'w = H.expt_value(rho,time=t)', 'z = HT.dot(rho).trace()'),
    ('expt_value(square V,enforce_pure)', 'w = H.expt_value(rho,time=t,enforce_pure=True)', "z = np.einsum('ij,ij->j',rho.conj(),HT.dot(rho))"),
    ('expt_value(V,times)', 'w = H.expt_value(V2,time=[t1,t2])', 'z = np.array([np.vdot(V2[:,0],H1.dot(V2[:,0])),np.vdot(V2[:,1],H2.dot(V2[:,1]))])'),
    ('expt_value(rhos,times)', 'w = H.expt_value(R3,time=[t1,t2])', 'z = np.array([H1.dot(R3[:,:,0]).trace(),H2.dot(R3[:,:,1]).trace()])'),
    ('expt_value(sparse rho)', 'w = H.expt_value(rhos,time=t)', 'z = HT.dot(rho).trace()'),
    ('expt_value(sparse V,times)', 'w = H.expt_value(V2s,time=[t1,t2])', 'z = np.array([np.vdot(V2[:,0],H1.dot(V2[:,0])),np.vdot(V2[:,1],H2.dot(V2[:,1]))])'),
    ('expt_value(sparse v)', 'w = H.expt_value(vs,time=t)', 'z = np.vdot(v,HT.dot(v))'),
    ('quant_fluct(sparse V)', 'w = H.quant_fluct(Vs,time=t)',
     "z = np.einsum('ij,ij->j',V.conj(),HT.dot(HT.dot(V))) - np.einsum('ij,ij->j',V.conj(),HT.dot(V))**2"),
    ('matrix_ele(sparse Vl,Vr)', 'w = H.matrix_ele(Us,Vs,time=t)', 'z = U.T.conj().dot(HT.dot(V))'),
    ('matrix_ele(Vl,sparse Vr)', 'w = H.matrix_ele(U,Vs,time=t)', 'z = U.T.conj().dot(HT.dot(V))'),
    ('matrix_ele(sparse Vl,dense Vr)', 'w = H.matrix_ele(Us,V,time=t)', 'z = U.T.conj().dot(HT.dot(V))'),
    ('matrix_ele(sparse,diagonal)', 'w = H.matrix_ele(Us,Vs,time=t,diagonal=True)', "z = np.einsum('ij,ij->j',U.conj(),HT.dot(V))"),
    ('expt_value(sparse V)', 'w = H.expt_value(Vs,time=t)', "z = np.einsum('ij,ij->j',V.conj(),HT.dot(V))"),
    ('matrix_ele(vl,vr)', 'w = H.matrix_ele(u,v,time=t)', 'z = np.vdot(u,HT.dot(v))'),
    ('matrix_ele(Vl,Vr)', 'w = H.matrix_ele(U,V,time=t)', 'z = U.T.conj().dot(HT.dot(V))'),
    ('matrix_ele(Vl,Vr) t=0', 'w = H.matrix_ele(U,V)', 'z = U.T.conj().dot(H0.dot(V))'),
    ('matrix_ele(Vl,Vr,diagonal)', 'w = H.matrix_ele(U,V,time=t,diagonal=True)', "z = np.einsum('ij,ij->j',U.conj(),HT.dot(V))"),
    ('matrix_ele(Vl,Vr,times,diagonal)', 'w = H.matrix_ele(U2,V2,time=[t1,t2],diagonal=True)',
     'z = np.array([np.vdot(U2[:,0],H1.dot(V2[:,0])),np.vdot(U2[:,1],H2.dot(V2[:,1]))])'),
    ('quant_fluct(v)', 'w = H.quant_fluct(v,time=t)', 'z = np.vdot(v,HT.dot(HT.dot(v))) - np.vdot(v,HT.dot(v))**2'),
    ('quant_fluct(V)', 'w = H.quant_fluct(V,time=t)',
     "z = np.einsum('ij,ij->j',V.conj(),HT.dot(HT.dot(V))) - np.einsum('ij,ij->j',V.conj(),HT.dot(V))**2"),
    ('quant_fluct(rho)', 'w = H.quant_fluct(rho,time=t)', 'z = HT.dot(HT.dot(rho)).trace() - HT.dot(rho).trace()**2'),
    ('quant_fluct(square V,enforce_pure)', 'w = H.quant_fluct(rho,time=t,enforce_pure=True)',
     "z = np.einsum('ij,ij->j',rho.conj(),HT.dot(HT.dot(rho))) - np.einsum('ij,ij->j',rho.conj(),HT.dot(rho))**2"),
    # diagonalisation hands the operator at the requested time to the eigensolver
    ('eigh(time)', 'w = H.eigh(time=t)', 'z = scipy.linalg.eigh(HT)'),
    ('eigh()', 'w = H.eigh()', 'z = scipy.linalg.eigh(H0)'),
    ('eigvalsh(time)', 'w = H.eigvalsh(time=t)', 'z = scipy.linalg.eigvalsh(HT)'),
    ('eigvalsh()', 'w = H.eigvalsh()', 'z = scipy.linalg.eigvalsh(H0)'),
    ('eigsh(time,k)', 'w = H.eigsh(time=t,k=2)', 'z = sp.linalg.eigsh(HT,k=2)'),
    ('eigsh(k)', "w = H.eigsh(k=2,which='SA')", "z = sp.linalg.eigsh(H0,k=2,which='SA')"),
    # products with other operators
    ('dot(hamiltonian)', 'w = H.dot(H).toarray(time=t)', 'z = HT.dot(HT)'),
]


PRE = 'def asdense(x):\n    return np.asarray(x.toarray()) if sp.issparse(x) else x\n'


def scenarios(tier):
    out = []
    for k in KINDS:
        for r in ROUTES:
            out.append((k, r, C128))
    for k in ('sparse-driven', 'dense-driven', 'mixed-sparse-static'):
        for r in ROUTES:
            out.append((k, r, F64))
    return out


def run_route(prog, it):
    kind, (label, code, spec), dt = it
    con = '%s[%s]: %s' % (kind, dt, label)
    try:
        for x in settle(_run_route(prog, kind, code, spec, dt)):
            yield (x[0], con) + tuple(x[1:])
    except (Undecided, Budget, RecursionError) as e:
        yield ('route', con, 'undecided', '%s %s' % (type(e).__name__, e), '', None)


def inputs(hc, dt=C128):
    S, c = hc.S, hc.c
    for nm, sh in (('v', (N,)), ('u', (N,)), ('V', (N, 3)), ('U', (N, 3)), ('V1', (N, 1)), ('W', (3, N)), ('rho', (N, N)),
                   ('o1', (N,)), ('o2', (N, 3)), ('O', (N, N))):
        declare(nm, *(['vec'] if len(sh) == 1 else []))
        c.bind(S, nm, S.arr(Poly.sym(nm), sh, C128, 'nd', origin='input ' + nm))
    for nm in ('V2', 'U2'):
        for i in range(2):
            declare('%s_%d' % (nm, i))
        c.bind(S, nm, S.arr(Stack(1, [Poly.sym(nm + '_0'), Poly.sym(nm + '_1')]), (N, 2), C128, 'nd', origin='input ' + nm))
    declare('R3_0')
    declare('R3_1')
    c.bind(S, 'R3', S.arr(Stack(2, [Poly.sym('R3_0'), Poly.sym('R3_1')]), (N, N, 2), C128, 'nd', origin='input R3'))
    c.bind(S, 'Ws', S.arr(Poly.sym('W'), (3, N), C128, 'csr', origin='input Ws'))
    c.bind(S, 'Us', S.arr(Poly.sym('U'), (N, 3), C128, 'csr', origin='input Us'))
    c.bind(S, 'vs', S.arr(Poly.sym('v'), (N, 1), C128, 'csr', origin='input vs'))
    c.bind(S, 'V2s', S.arr(Stack(1, [Poly.sym('V2_0'), Poly.sym('V2_1')]), (N, 2), C128, 'csr', origin='input V2s'))
    c.bind(S, 'Vs', S.arr(Poly.sym('V'), (N, 3), C128, 'csr', origin='input Vs'))
    c.bind(S, 'rhos', S.arr(Poly.sym('rho'), (N, N), C128, 'csr', origin='input rhos'))
    c.scalar(S, 'c', dt)
    for nm in ('t1', 't2'):
        declare(nm, 'real')
        c.bind(S, nm, Sc(Poly.scalar(nm), 'float64'))
    return ['v', 'u', 'V', 'U', 'V1', 'W', 'rho', 'V2', 'U2', 'R3', 'Vs', 'rhos', 'Ws', 'Us', 'vs', 'V2s']


def _run_route(prog, kind, code, spec, dt):
    hc = HamCase(prog)
    hc.ham('H', kind, 'A', dt)
    ins = inputs(hc, dt)
    den = hc.val['H']
    try:
        hc.start()
    except Construction as e:
        yield ('route', 'violated', 'construction ' + excsig(e.exc), 'constructing the operator fails: %r' % (e.exc,), e.exc.loc)
        return
    S = hc.S
    for nm, tp in (('HT', T0.p), ('H0', Poly.const(0)), ('H1', Poly.scalar('t1')), ('H2', Poly.scalar('t2'))):
        hc.c.bind(S, nm, S.arr(subst(den, tp), (N, N), C128, 'nd'))
    hc.c.bind(S, 'scipy', ModV('scipy') if False else Ext('scipy'))
    sps = hc.c.run(S.fork(), spec)
    if len(sps) != 1 or sps[0].exc is not None:
        raise Undecided('specification: %s' % ([o.exc for o in sps],))
    want, Sw = sps[0].var('z'), sps[0].S
    before = {n: observe(hc.c, S, n) for n in ['H'] + ins + ['A'] if n in S.g(S.env).d}
    for o in hc.c.run(S.fork(), PRE + code if 'asdense' in code else code):
        yield ('@', o.S.unsure)
        if o.exc is not None:
            yield ('route', 'violated', excsig(o.exc), '`%s` fails: %r' % (code.replace('\n', '; '), o.exc), o.exc.loc)
            continue
        got = o.var('w')
        # import the specified value into the outcome state
        v, g, w = compare_across(o.S, got, Sw, want)
        if v == 'eq':
            yield ('route', 'held', '', '', None)
        elif v == 'unk':
            yield ('route', 'undecided', 'value %s' % str(g)[:80], '', None)
        else:
            yield ('route', 'violated', str(g)[:200], '`%s` gives %s, specified %s' % (code.replace('\n', '; '), g, w), None)
        for n in before:
            d = diff(before[n], observe(hc.c, o.S, n, before[n]))
            if d:
                yield ('purity', 'violated', n + d, '`%s` modifies %s (%s)' % (code.replace('\n', '; '), n, n + d), None)
            else:
                yield ('purity', 'held', '', '', None)
        # results do not share storage with the operator
        S1 = o.S.fork()
        r = S1.g(S1.env).d.get('w')
        arrs = r.items if isinstance(r, Tup) else [r]
        chg = False
        for a in arrs:
            if isinstance(a, Ref) and isinstance(S1.g(a), Arr) and S1.g(a).wr:
                declare('scribble')
                S1.setcontent(a, Poly.sym('scribble'))
                chg = True
        if chg:
            for n in before:
                d = diff(before[n], observe(hc.c, S1, n, before[n]))
                if d:
                    yield ('alias', 'violated', n + d, 'the array returned by `%s` shares memory with %s' % (code.replace('\n', '; '), n), None)
                else:
                    yield ('alias', 'held', '', '', None)


def compare_across(S, got, Sw, want):
    """compare values living in two different states"""
    S = S.fork()
    m = {}

    def imp(v):
        if isinstance(v, Tup):
            return Tup([imp(x) for x in v.items])
        if isinstance(v, Ref):
            o = Sw.g(v)
            if isinstance(o, Arr):
                return S.arr(Sw.content(v), o.shape, o.dtype, o.kind)
            return Top('foreign')
        return v
    return compare_values(S, got, imp(want))
