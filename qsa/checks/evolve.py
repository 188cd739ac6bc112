"""Time evolution: which equation of motion the integrator is given, and how its driver turns times into states."""
import ast
from ..values import *
from ..values import apply_op
from ..terms import Poly, ZERO, declare, Stack, Concat, vec, unvec, norm_fn
from ..interp import Budget
from ..opscan import *
from ..runner import settle
from .. import npext
from .hamops import HamCase, KINDS, Construction, excsig, C128, F64

N = 6
TAU = Sc(Poly.scalar(npext.TAU), 'float64')


def rebuild(p, f):
    """rebuild a polynomial, f(atom) giving a replacement Poly for matrix atoms or None"""
    out = ZERO
    for (s, w), c in p.d.items():
        t = Poly({(s, ()): c})
        for a in w:
            t = t * ratom(a, f)
        out = out + t
    return out


def ratom(a, f):
    r = f(a)
    if r is not None:
        return r
    if a[0] == 'fn' and a[1] in ('vec', 'unvec', 're', 'im', 'T'):
        if a[1] == 'T':
            return ratom(a[2][0], f).T()
        q = rebuild(Poly.from_key(a[2][0]), f)
        if a[1] in ('vec', 'unvec'):
            q = (vec if a[1] == 'vec' else unvec)(q, a[2][1])
        else:
            q = Poly.fn(a[1], q)
        if a[3]:
            q = q.T()
        if a[4]:
            q = q.conj()
        return q
    return Poly({((), (a,)): 1})


def flows(p, acc=None):
    """flow atoms (without transposition/conjugation flags) occurring in a polynomial"""
    acc = {} if acc is None else acc

    def f(a):
        if a[0] == 'fn' and a[1].startswith('flow'):
            acc.setdefault((a[1], a[2]), True)
            return Poly({((), (a,)): 1})
        return None
    rebuild(p, f)
    return list(acc)


def put(p, table):
    """replace flow atoms by the given polynomials"""
    def f(a):
        if a[0] == 'fn' and a[1].startswith('flow'):
            q = table(a[1], a[2])
            if a[3]:
                q = q.T()
            if a[4]:
                q = q.conj()
            return q
        return None
    return rebuild(p, f)


def same_state(p, v0):
    return p == v0 or p == Poly.fn('re', v0) + Poly.fn('im', v0).scale(1j)


def check_state(p, v0, rhs, t0, t, imag, shape):
    """p: polynomial claimed to be the state at time t. yields (rule, verdict, outcome, message)"""
    fs = flows(p)
    if not fs:
        same = same_state(p, v0)
        if t == t0:
            yield ('state', 'held' if same else 'violated', 'initial: %s' % p, 'the state at the initial time is %s instead of the initial state' % p)
        else:
            yield ('state', 'violated', 'not evolved: %s' % p, 'the state at time %s is %s, which is not a solution of the equation of motion' % (t, p))
        return
    args = {a[-3:] for _, a in fs}
    inits = {a[:-3] for _, a in fs}
    if len(args) != 1 or len(inits) != 1:
        yield ('state', 'violated', 'several solutions %s' % p, 'the state at time %s mixes different solutions: %s' % (t, p))
        return
    rk, ft0, ft = next(iter(args))
    init = next(iter(inits))
    if ft0 != t0.key():
        yield ('state', 'violated', 'start time %s' % Poly.from_key(ft0), 'integration starts at %s instead of %s' % (Poly.from_key(ft0), t0))
    if ft != t.key():
        yield ('state', 'violated', 'time %s' % Poly.from_key(ft), 'the state stored for time %s is the one of time %s' % (t, Poly.from_key(ft)))
    q = p
    if imag:
        # strip the normalisation: |v0| / |y|
        fac, q0 = npext.factor_norm_all(p)
        if len(shape) == 1:
            yn = npext.norm_of(q0)
            want = npext.norm_of(v0) * yn.inverse() * q0
        else:
            want = q0 * npext.colscale(Poly.fn('colnorm', v0), Poly.fn('colnorm', q0))
        if p != want:
            yield ('norm', 'violated', str(p)[:200], 'imaginary time evolution yields %s, specified %s' % (p, want))
        else:
            yield ('norm', 'held', '', '')
        q = q0
    d0 = put(q, lambda n, a: Poly.from_key(init[int(n[4:])]))
    if same_state(d0, v0):
        yield ('state', 'held', '', '')
    else:
        yield ('state', 'violated', 'initial value %s' % d0, 'the integrated state starts from %s instead of the initial state' % d0)
    if rk not in npext.RHS:
        yield ('rhs', 'undecided', 'right-hand side', '')
        return
    Ys, Rs = npext.RHS[rk]
    psi = put(q, lambda n, a: Ys[int(n[4:])])
    dot = put(q, lambda n, a: Rs[int(n[4:])])
    want = rhs(psi)
    v = compare(dot, want)
    if v == 'eq':
        yield ('rhs', 'held', '', '')
    elif v == 'unk':
        yield ('rhs', 'undecided', 'right-hand side %s' % str(dot)[:60], '')
    else:
        yield ('rhs', 'violated', str(dot)[:200], 'the integrator is given d psi/dt = %s for psi = %s, specified %s' % (dot, psi, want))


# label -> (times expression, list of time symbols, form)
TIMES = {
    'scalar': ('s1', ['s1'], 'scalar'),
    'scalar=t0': ('s0', ['s0'], 'scalar'),
    'list': ('[s1,s2]', ['s1', 's2'], 'list'),
    'list from t0': ('[s0,s1,s2]', ['s0', 's1', 's2'], 'list'),
    'array': ('np.array([s0,s1])', ['s0', 's1'], 'list'),
    'iterate': ('[s0,s1,s2]', ['s0', 's1', 's2'], 'iter'),
    'iterate late': ('[s1,s2]', ['s1', 's2'], 'iter'),
}

# label -> (keyword text, imaginary, state ndim, H dtypes)
EOMS = {
    'SE': ('', False),
    'SE stacked': (',stack_state=True', False),
    'imag': (',imag_time=True', True),
    'LvNE': (",eom='LvNE'", False),
}


def scenarios(tier):
    out = []
    for k in KINDS:
        for e in EOMS:
            for nd in ((2,) if e == 'LvNE' else (1, 2)):
                for hd, vd in ((C128, C128), (F64, C128), (F64, F64)) if e != 'SE stacked' else ((F64, C128), (F64, F64)):
                    if tier == 'quick' and k not in ('sparse-driven', 'dense-driven', 'mixed-sparse-static', 'sparse-static', 'csc-driven') \
                            and (hd, vd) != ((C128, C128) if e != 'SE stacked' else (F64, C128)):
                        continue
                    for t in TIMES:
                        out.append((k, e, nd, hd, vd, t, 'max_step'))
    for u in USER:
        for t in TIMES:
            out.append(('user', u, None, None, None, t, 'max_step'))
    for o in OPTS:
        for t in ('scalar', 'list from t0', 'iterate'):
            for e in EOMS:
                if o != 'max_step':
                    out.append(('sparse-driven', e, 2 if e == 'LvNE' else 1, F64 if e == 'SE stacked' else C128, C128, t, o))
            for u in USER:
                if o != 'max_step':
                    out.append(('user', u, None, None, None, t, o))
    return out


# label -> (solver name or None, {option: expression}, further evolution keywords)
OPTS = {
    'max_step': ('vode', {'max_step': 'step'}, ''),
    'default solver': (None, {}, ''),
    'rtol': (None, {'rtol': 'step'}, ''),
    'atol': ('dop853', {'atol': 'step'}, ''),
    'nsteps': ('dop853', {'nsteps': '77'}, ''),
    'dopri5': ('dopri5', {'rtol': 'step', 'nsteps': '77', 'first_step': 'step2'}, ''),
    'all': ('dop853', {'rtol': 'step', 'atol': 'step2', 'nsteps': '77', 'safety': 'step'}, ''),
    'vode bdf': ('vode', {'method': "'bdf'", 'rtol': 'step'}, ''),
    'verbose': ('vode', {'max_step': 'step'}, ',verbose=True'),
}


# user-defined equations: label -> (code defining F, call arguments, rhs, v0 dtype, ndim, imag)
K_ = lambda: Poly.sym('Kmat')
USER = {
    'complex': ('def F(tt,y):\n    return Kmat.dot(y)', '', lambda p: K_() * p, C128, 1, False),
    'complex parameters': ('def F(tt,y,a,b):\n    return a*Kmat.dot(y)+b*y', ',f_params=(c,d)', lambda p: K_() * p * Poly.scalar('c') + p * Poly.scalar('d'), C128, 1, False),
    'time dependent': ('def F(tt,y):\n    return f(tt)*Kmat.dot(y)', '',
                       lambda p: K_() * p * Poly.satom(('app', 'f', (TAU.p.key(),), False)), C128, 1, False),
    'real': ('def F(tt,y):\n    return Rmat.dot(y)', ',real=True', lambda p: Poly.sym('Rmat') * p, F64, 1, False),
    'real parameters': ('def F(tt,y,a):\n    return a*Rmat.dot(y)', ',real=True,f_params=(rc,)', lambda p: Poly.sym('Rmat') * p * Poly.scalar('rc'), F64, 1, False),
    'imaginary time': ('def F(tt,y):\n    return -Kmat.dot(y)', ',imag_time=True', lambda p: -(K_() * p), C128, 1, True),
    'stacked': ('def F(tt,y):\n    z = np.zeros((12,))\n    z[:6] = Rmat.dot(y[6:])\n    z[6:] = -Rmat.dot(y[:6])\n    return z', ',stack_state=True',
                lambda p: (Poly.sym('Rmat') * p).scale(-1j), C128, 1, False),
    'real initial state, complex equation': ('def F(tt,y):\n    return Kmat.dot(y)', '', lambda p: K_() * p, F64, 1, False),
}


def run_evolve(prog, it):
    kind, e, nd, hd, vd, t, opt = it
    con = 'evolve %s[%s] %s ndim=%s v0[%s] times: %s' % (kind, hd, e, nd, vd, t) if kind != 'user' else 'evolve(user: %s) times: %s' % (e, t)
    if opt != 'max_step':
        con += ' options: ' + opt
    try:
        for x in settle(_run(prog, it)):
            yield (x[0], con) + tuple(x[1:])
    except (Undecided, Budget, RecursionError) as e:
        for r in ('state', 'rhs'):
            yield (r, con, 'undecided', '%s %s' % (type(e).__name__, e), '', None)


def _run(prog, it):
    kind, e, nd, hd, vd, t, opt = it
    oname, odict, oextra = OPTS[opt]
    otext = oextra + (",solver_name='%s'" % oname if oname else '') + ''.join(',%s=%s' % x for x in sorted(odict.items()))
    hc = HamCase(prog)
    c, S = hc.c, hc.S
    for nm in ('s0', 's1', 's2'):
        declare(nm, 'real')
        c.bind(S, nm, Sc(Poly.scalar(nm), 'float64'))
    ts, tl, form = TIMES[t]
    if kind == 'user':
        fsrc, kw, rhs, vd, nd, imag = USER[e]
        c.mat(S, 'Kmat', 'nd')
        c.mat(S, 'Rmat', 'nd', F64)
        for n, d in (('c', C128), ('d', C128), ('rc', F64)):
            c.scalar(S, n, d)
        hc.pre.append('from quspin.tools.evolution import evolve')
        hc.pre.append(fsrc)
        call = 'evolve(v0,s0,%s,F%s' + otext + '%s)'
        hc.names = []
        watch = ['Kmat', 'Rmat']
    else:
        kw, imag = EOMS[e]
        hc.ham('H', kind, 'A', hd)
        hp = None
        call = 'H.evolve(v0,s0,%s%s' + otext + '%s)'
        watch = ['H', 'A']
    c.scalar(S, 'step', F64)
    c.scalar(S, 'step2', F64)
    shape = {1: (N,), 2: (N, 3)}[nd] if e != 'LvNE' else (N, N)
    declare('v0', *(['real'] if vd == F64 else []))
    c.bind(S, 'v0', S.arr(Poly.sym('v0'), shape, vd, 'nd', origin='input v0'))
    watch.append('v0')
    try:
        hc.start()
    except Construction as x:
        yield ('state', 'violated', 'construction ' + excsig(x.exc), 'construction fails: %r' % (x.exc,), x.exc.loc)
        return
    S = hc.S
    if kind != 'user':
        from .evalham import subst
        hp = subst(hc.val['H'], TAU.p)
        if e == 'LvNE':
            rhs = lambda p: (hp * p - p * hp).scale(-1j)
        elif imag:
            rhs = lambda p: -(hp * p)
        else:
            rhs = lambda p: (hp * p).scale(-1j)
    if form == 'iter':
        code = 'w = list(%s)' % (call % (ts, kw, ',iterate=True'))
    else:
        code = 'w = %s' % (call % (ts, kw, ''))
    watch = [n for n in watch if n in S.g(S.env).d]
    before = {n: observe(c, S, n) for n in watch}
    v0 = Poly.sym('v0')
    t0 = Poly.scalar('s0')
    for o in c.run(S.fork(), code):
        yield ('@', o.S.unsure)
        failed = [k for k, b in o.S.facts.items() if isinstance(k, tuple) and k[:1] == ('ode ok',) and b is False]
        evs = [x for x in o.S.events if x[0] == 'ode']
        if failed:
            if o.exc is None:
                yield ('fail', 'violated', 'ignored', 'a failed integration step is not reported (`%s`)' % code, None)
            elif o.exc.internal:
                yield ('fail', 'violated', excsig(o.exc), 'reporting a failed integration step fails: %r' % (o.exc,), o.exc.loc)
            else:
                yield ('fail', 'held', '', '', None)
            continue
        if o.exc is not None:
            yield ('state', 'violated', excsig(o.exc), '`%s` fails: %r' % (code, o.exc), o.exc.loc)
            continue
        # one success test per step
        oks = [k for k in o.S.facts if isinstance(k, tuple) and k[:1] == ('ode ok',)]
        if len(oks) < len(evs):
            yield ('fail', 'violated', 'unchecked', 'the success of an integration step is not checked (`%s`)' % code, None)
        for x in evs:
            if not (isinstance(x[4], K) and x[4].v == (oname or 'dop853')):
                yield ('options', 'violated', 'solver %r' % (x[4],), 'the requested integrator does not reach the solver: %r' % (x[4],), None)
            else:
                yield ('options', 'held', '', '', None)
            d = {k.items[0].v: k.items[1] for k in x[5].items}
            for k, ex in odict.items():
                want = o.var(ex) if ex.startswith('step') else K(ast.literal_eval(ex))
                if k not in d or not isinstance(d[k], Top) and d[k].key() != want.key():
                    yield ('options', 'violated', k, 'the solver option %s does not reach the integrator (`%s`)' % (k, code), None)
                else:
                    yield ('options', 'held', '', '', None)
            extra = sorted(k for k in d if k in ('iterate', 'verbose', 'stack_state', 'imag_time', 'eom', 'f_params', 'real', 'solver_name'))
            if extra:
                yield ('options', 'violated', 'foreign %s' % extra, 'evolution options %s are handed to the integrator' % extra, None)
        for x in o.S.events:
            if x[0] == 'ode-clobber':
                yield ('inputs', 'violated', 'clobber', 'the right-hand side modifies the state vector of the integrator', x[1])
        S1 = o.S
        w = o.var('w')
        # the states, one per requested time
        states = None
        if form == 'scalar':
            if isinstance(w, Ref) and isinstance(S1.g(w), Arr):
                states = [(S1.g(w).shape, S1.content(w))]
        elif form == 'list':
            if isinstance(w, Ref) and isinstance(S1.g(w), Arr):
                a = S1.g(w)
                if a.shape != shape + (len(tl),):
                    yield ('state', 'violated', 'shape %s' % (a.shape,), '`%s` returns shape %s, documented %s' % (code, a.shape, shape + (len(tl),)), None)
                    continue
                cc = S1.content(w)
                states = [(shape, apply_op(('ix', len(shape), i), cc, a.shape) if cc is not None else None) for i in range(len(tl))]
        else:
            if isinstance(w, Ref) and isinstance(S1.g(w), Lst):
                its = S1.g(w).items
                if len(its) != len(tl):
                    yield ('state', 'violated', '%d states' % len(its), '`%s` yields %d states for %d times' % (code, len(its), len(tl)), None)
                    continue
                if all(isinstance(x, Ref) and isinstance(S1.g(x), Arr) for x in its):
                    states = [(S1.g(x).shape, S1.content(x)) for x in its]
        if states is None:
            yield ('state', 'undecided', 'result %r' % (w,), '', None)
            continue
        for nm, (sh, p) in zip(tl, states):
            if sh != shape:
                yield ('state', 'violated', 'shape %s' % (sh,), 'state of shape %s for an initial state of shape %s' % (sh, shape), None)
                continue
            if not isinstance(p, Poly):
                yield ('state', 'undecided', 'content %s' % (str(p)[:60],), '', None)
                continue
            for r, vdt, oc, msg in check_state(p, v0, rhs, t0, Poly.scalar(nm), imag, shape):
                yield (r, vdt, oc, '`%s`: %s' % (code, msg) if msg else '', None)
        for n in before:
            d = diff(before[n], observe(c, S1, n, before[n]))
            if d:
                yield ('inputs', 'violated', n + d, '`%s` modifies %s' % (code, n + d), None)
            else:
                yield ('inputs', 'held', '', '', None)
        # overwriting the result must not change anything else
        S2 = S1.fork()
        w2 = w if form != 'iter' else S2.g(w).items[0]
        rest = [] if form != 'iter' else [S2.content(x) for x in S2.g(w).items[1:]]
        declare('scribble')
        S2.setcontent(w2, Poly.sym('scribble'))
        bad = [n for n in before if diff(before[n], observe(c, S2, n, before[n]))]
        if form == 'iter' and rest != [S2.content(x) for x in S2.g(w).items[1:]]:
            bad.append('the other states')
        if bad:
            yield ('inputs', 'violated', 'shared %s' % bad, 'the result of `%s` shares memory with %s' % (code, bad), None)
        else:
            yield ('inputs', 'held', '', '', None)
