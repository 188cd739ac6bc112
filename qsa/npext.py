"""Further library models: ODE solver, norms."""
from .values import *
from .terms import Poly, Stack, Concat, ZERO, ONE, cmap, vec, unvec

LAYOUT = ('ravel', 'reshape', 'cview')
TAU = 'tau_'
RHS = {}        # key of a right-hand side -> (leaves of the symbolic state, leaves of its derivative)


def factor_norm(p):
    """(scalar polynomial of positive factors common to all terms, remaining polynomial)"""
    com = None
    for (s, w), c in p.d.items():
        d = {a: n for a, n in s if a[0] == 'sfn' and a[1] == 'norm'}
        com = d if com is None else {a: n for a, n in com.items() if d.get(a) == n}
    if not com:
        return Poly.const(1), p
    f = Poly({(tuple(sorted(com.items(), key=repr)), ()): 1})
    return f, p * f.inverse()


def norm_of(p):
    f, q = factor_norm(p)
    # the raveled copy of a matrix has the same norm
    if len(q.d) == 1:
        (s, w), c = next(iter(q.d.items()))
        if len(w) == 1 and w[0][0] == 'fn' and w[0][1] in ('vec', 'unvec'):
            q = Poly.from_key(w[0][2][0]) * Poly({(s, ()): c})
    return f * Poly.satom(('sfn', 'norm', (q.key(),), False))


def colnorm(c):
    """norms of the columns; positive column scalings are taken out"""
    from .npmodel import hadv, lin2
    f, c = factor_norm(c)
    sc = ONE
    if len(c.d) == 1:
        (s, w), k = next(iter(c.d.items()))
        ds = []
        while w and w[-1][0] == 'fn' and w[-1][1] == 'diag' and positive(Poly.from_key(w[-1][2][0])):
            ds.append(Poly.from_key(w[-1][2][0]))
            w = w[:-1]
        r = Poly.fn('colnorm', Poly({(s, w): k}))
        for d in ds:
            r = lin2(r, d, hadv)
        return r * f
    return Poly.fn('colnorm', c) * f


def positive(p):
    if len(p.d) != 1:
        return False
    (s, w), k = next(iter(p.d.items()))
    if s or k != 1 or len(w) != 1 or w[0][0] != 'fn':
        return False
    return w[0][1] == 'colnorm' or w[0][1] == 'recip' and positive(Poly.from_key(w[0][2][0]))


def factor_norm_all(p):
    """(normalising factor, polynomial without norm factors and column scalings)"""
    f, q = factor_norm(p)
    out = ZERO
    for (s, w), c in q.d.items():
        w = tuple(a for a in w if not (a[0] == 'fn' and a[1] == 'diag'))
        out = out + Poly({(s, w): c})
    return f, out


def colscale(num, den):
    """diagonal matrix num/den of two column norm vectors"""
    from .npmodel import diagmat, hadv, recip
    return diagmat(hadv(num, recip(den)))


def flow_parts(c):
    """leaves of a state content"""
    if isinstance(c, Poly):
        return [c]
    if isinstance(c, (Stack, Concat)):
        out = []
        for p in c.parts:
            q = flow_parts(p[1] if isinstance(c, Concat) else p)
            if q is None:
                return None
            out.extend(q)
        return out
    return None


def is_linear_in(parts, names):
    for p in parts:
        for (s, w), c in p.d.items():
            k = sum(1 for a in w if mentions(a, names))
            if k != 1 or any(mentions(a, names) for a, _ in s):
                return False
    return True


def mentions(a, names):
    if isinstance(a, tuple):
        if len(a) >= 2 and a[0] == 'm' and a[1] in names:
            return True
        return any(mentions(x, names) for x in a)
    return False


def flow(c, rhs, t0, t, linear):
    """content of the solution of y' = rhs(tau, y) with y(t0)=c at time t"""
    ps = flow_parts(c)
    if ps is None or rhs is None:
        return None
    ex = (rhs, t0.key(), t.key())
    if len(ps) == 1:
        p = ps[0]
        sc = Poly.const(1)
        tail = ()
        if linear:
            sc, p = factor_norm(p)
        if linear == 'right' and len(p.d) == 1:
            # right multiplication by a diagonal matrix commutes with the flow
            (s, w), k = next(iter(p.d.items()))
            wrap = None
            if len(w) == 1 and w[0][0] == 'fn' and w[0][1] == 'vec' and not w[0][3]:
                q = Poly.from_key(w[0][2][0])
                if len(q.d) == 1 and next(iter(q.d))[0] == ():
                    wrap = w[0][2][1]
                    (_, w), k2 = next(iter(q.d.items()))
                    k = k * k2
            n = len(w)
            while n and w[n - 1][0] == 'fn' and w[n - 1][1] == 'diag':
                n -= 1
            tail = w[n:]
            p = Poly({(s, w[:n]): k})
            if wrap:
                p = vec(p, wrap)
                if tail:
                    t_ = tail
                    r = flow(p, rhs, t0, t, linear)
                    return vec(unvec(r, wrap) * Poly({((), t_): 1}), wrap) * sc if isinstance(r, Poly) else None
        tail = Poly({((), tail): 1})
        if len(p.d) == 1:
            (s, w), k = next(iter(p.d.items()))
            if s == () and k == 1 and len(w) == 1 and w[0][0] == 'fn' and w[0][1] == 'flow0' and not w[0][3] and w[0][2][-3:-1] == (rhs, w[0][2][-2]) \
                    and w[0][2][-1] == t0.key():
                return Poly.fn('flow0', *(w[0][2][:-1] + (t.key(),))) * tail * sc
        r = Poly.fn('flow0', p, *ex) * tail * sc
        return r
    # composition of flows
    if all(isinstance(p, Poly) and len(p.d) == 1 for p in ps):
        ws = [next(iter(p.d.items())) for p in ps]
        if all(s == () and k == 1 and len(w) == 1 and w[0][0] == 'fn' and w[0][1] == 'flow%d' % i and w[0][2][-3] == rhs
               and w[0][2][-1] == t0.key() for i, ((s, w), k) in enumerate(ws)):
            it = iter([Poly.fn('flow%d' % i, *(w[0][2][:-1] + (t.key(),))) for i, ((s, w), k) in enumerate(ws)])
            return rebuild(c, it)
    it = iter([Poly.fn('flow%d' % i, *([p for p in ps] + list(ex))) for i in range(len(ps))])
    return rebuild(c, it)


def rebuild(c, it):
    if isinstance(c, Poly):
        return next(it)
    if isinstance(c, Stack):
        return Stack(c.axis, [rebuild(p, it) for p in c.parts])
    return Concat(c.axis, [(n, rebuild(p, it)) for n, p in c.parts])


class NPExt(object):
    def kernel(self, f, d, S, node):
        """compiled element loops (numba): scatter/accumulate and coordinate comparisons are recognised by their dataflow"""
        from .scatter import scatter, allequal
        from .npmodel import iscomplex
        sc = scatter(f.node)
        if isinstance(sc, dict):
            out, me, row = d.get(sc['out']), d.get(sc['me']), d.get(sc['row'])
            new = None
            if self.isarr(out, S) and self.isarr(me, S):
                fr = [S.g(me).dtype]
                if sc['inp'] and self.isarr(d.get(sc['inp']), S):
                    fr.append(S.g(d[sc['inp']]).dtype)
                if any(iscomplex(x) for x in fr) and not iscomplex(S.g(out).dtype):
                    yield S, self.I.exc('TypeError', 'complex values accumulated into a real array', node, S, True)
                    return
                oc = S.content(out)
                if sc['inp']:
                    t = self.coo_term(me, row, d.get(sc['col']), S)
                    ic = S.content(d[sc['inp']]) if self.isarr(d.get(sc['inp']), S) else None
                    if t is not None and isinstance(ic, Poly) and isinstance(oc, Poly):
                        new = t * ic
                else:
                    new = self.coo_diag(me, row, S)
                if new is not None and isinstance(oc, Poly):
                    new = new.scale(sc['sign'])
                    new = oc + new if sc['acc'] else Poly.fn('last-assigned', new)
                else:
                    new = None
            if self.isarr(out, S):
                S.setcontent(out, new)
            yield S, K(None)
            return
        eq = allequal(f.node)
        if eq is not None:
            a, b = d.get(eq[0]), d.get(eq[1])
            x = y = None
            if self.isarr(a, S) and self.isarr(b, S):
                x, y = self.cootag(S.content(a)), self.cootag(S.content(b))
            if x and y and x[1] == y[1]:
                yield S, K(eq[2] if x[1].startswith('diag ') or x[0] == y[0] else eq[3])
                return
            yield S, self.I.top('comparison of unknown coordinates')
            return
        for v in d.values():
            if self.isarr(v, S) and S.g(v).wr:
                S.setcontent(v, None)
        yield S, self.I.top('compiled kernel %s' % f.name)

    @staticmethod
    def cootag(p):
        if not isinstance(p, Poly) or len(p.d) != 1:
            return None
        (s, w), cc = next(iter(p.d.items()))
        if len(w) == 1 and w[0][0] == 'm' and w[0][1].split(':')[0] in ('ME', 'ROW', 'COL') and cc == 1 and not s:
            return w[0][1].split(':', 1)
        return None

    def coo_diag(self, me, ind, S):
        """vector sum_i e_ind[i] me[i]"""
        if not (self.isarr(me, S) and self.isarr(ind, S)):
            return None
        m, t = S.content(me), self.cootag(S.content(ind))
        if isinstance(m, Poly) and m.is_zero():
            return ZERO
        if t is None or not isinstance(m, Poly):
            return None
        out = ZERO
        for (s, w), cc in m.d.items():
            if len(w) != 1 or w[0][0] != 'm' or w[0][1] != 'ME:' + t[1]:
                return None
            if t[1].startswith('diag '):
                q = Poly.sym(t[1], C=w[0][3])
            else:
                q = Poly.fn('scattered', Poly({((), w): 1}), S.content(ind))
            out = out + q * Poly({(s, ()): cc})
        return out

    def f_numpy__min_scalar_type(self, a, kw, S, node):
        return K(DT('int8'))

    def f_numpy__arange(self, a, kw, S, node):
        n = self.constint(a[0]) if len(a) == 1 and not kw else None
        if not isinstance(n, int):
            return None
        return self.mk(S, Poly.fn('arange'), (n,), 'int64', 'nd')

    def f_numpy__atleast_2d(self, a, kw, S, node):
        r = self.toarr(a[0], S) if len(a) == 1 and not kw else None
        if not isinstance(r, Ref):
            return None
        ob = S.g(r)
        if len(ob.shape) >= 2:
            return self.view(S, r, None) if ob.kind in ('nd', 'mat') else None
        if len(ob.shape) == 1:
            return self.m_Arr_reshape(r, ob, [K(1), K(ob.shape[0])], {}, S, node)
        return None

    def f_numpy__atleast_1d(self, a, kw, S, node):
        r = self.toarr(a[0], S) if len(a) == 1 and not kw else None
        if isinstance(r, Ref) and len(S.g(r).shape) >= 1 and S.g(r).kind in ('nd', 'mat'):
            return self.view(S, r, None)
        return None

    def m_Arr_max(self, o, ob, args, kw, S, node):
        c = S.content(o)
        if args or kw or not isinstance(c, Poly):
            return None
        return Sc(Poly.satom(('sfn', 'max', (c.key(),), False)), ob.dtype)

    def logical(self, S, r):
        """(reference to the array below trailing layout views, layout ops)"""
        a = S.g(r)
        ops = list(a.ops)
        tail = []
        while ops and ops[-1][0] in LAYOUT:
            tail.insert(0, ops.pop())
        if not tail:
            return r, ()
        sh, dt = a.shape, a.dtype
        for op in reversed(tail):
            if op[0] == 'cview':
                dt, sh = op[1], op[3]
            elif op[0] == 'ravel':
                sh = tuple(op[1])
            else:
                sh = tuple(op[1])
        return S.new(Arr(a.stor, tuple(ops), 'nd', sh, dt, a.wr)), tuple(tail)

    def levels(self, S, r):
        """r and the arrays obtained by undoing its trailing layout views one by one"""
        a = S.g(r)
        ops, sh, dt = list(a.ops), a.shape, a.dtype
        yield r
        while ops and ops[-1][0] in LAYOUT:
            op = ops.pop()
            if op[0] == 'cview':
                dt, sh = op[1], op[3]
            else:
                sh = tuple(op[1])
            yield S.new(Arr(a.stor, tuple(ops), 'nd', sh, dt, a.wr))

    # ---------------------------------------------------------------- norms
    def f_numpy__linalg__norm(self, a, kw, S, node):
        if not a or not self.isarr(a[0], S) or S.g(a[0]).kind in ('csr', 'csc', 'dia', 'coo'):
            return None
        ax = kw.get('axis', a[2] if len(a) > 2 else NONE)
        if len(a) > 1 and not (isinstance(a[1], K) and a[1].v in (None, 2)) or set(kw) - {'axis', 'ord'} \
                or 'ord' in kw and not (isinstance(kw['ord'], K) and kw['ord'].v in (None, 2)):
            return None
        o = S.g(a[0])
        if len(o.shape) == 2 and (len(a) > 1 and a[1].v == 2 or 'ord' in kw and kw['ord'].v == 2) and isinstance(ax, K) and ax.v is None:
            return None
        r, tail = self.logical(S, a[0])
        if isinstance(ax, K) and ax.v is None or len(o.shape) == 1:
            c = S.content(r)
            if isinstance(c, Poly):
                return Sc(norm_of(c), 'float64')
            return Sc(Poly.satom(('sfn', 'normof', (repr(ckey(c)),), False)), 'float64') if c is not None else None
        if isinstance(ax, K) and ax.v == 0 and len(o.shape) == 2:
            c = S.content(a[0])
            if isinstance(c, Poly):
                return self.mk(S, colnorm(c), (o.shape[1],), 'float64', 'nd')
        return None

    # ---------------------------------------------------------------- scipy.integrate.ode
    def f_scipy__integrate__ode(self, a, kw, S, node):
        return S.new(Opaque('ode', {'_f': a[0], '_fp': Tup([]), '_int': NONE, '_intkw': Tup([]), '_y': NONE, '_t': NONE, '_n': K(0),
                                    '_ok': TRUE}))

    def ode_method(self, o, name, args, kw, S, node):
        I = self.I
        f = S.g(o).f
        if name == 'set_f_params':
            S.w(o).f['_fp'] = Tup(list(args))
            yield S, o
            return
        if name == 'set_integrator':
            S.w(o).f['_int'] = args[0] if args else NONE
            S.w(o).f['_intkw'] = Tup([Tup([K(k), v]) for k, v in sorted(kw.items())])
            yield S, o
            return
        if name == 'set_initial_value':
            if not self.isarr(args[0], S):
                yield S, I.top('ode initial value')
                return
            t = args[1] if len(args) > 1 else kw.get('t', K(0.0))
            y = args[0]
            if iscomplex_(S.g(y).dtype):
                y = self.mk(S, cmap(S.content(y), lambda p: Poly.fn('re', p)), S.g(y).shape, 'float64', 'nd')
            S.w(o).f.update(_y=y, _t=t)
            yield S, o
            return
        if name == 'successful':
            yield S, f['_ok']
            return
        if name == 'integrate':
            t0, t = self.spoly(f['_t']), self.spoly(args[0])
            if f['_y'] is NONE or not self.isarr(f['_y'], S) or t0 is None or t is None:
                yield S, I.top('ode.integrate')
                return
            for S1, e in self.ode_rhs(o, S, node):
                if isinstance(e, Exc):
                    yield S1, e
                    continue
                y, tail = self.logical(S1, f['_y'])
                c = S1.content(y)
                rk, lin = e
                nc = flow(c, rk, t0, t, lin) if rk is not None else None
                a = S1.g(y)
                st = S1.arr(nc, a.shape, a.dtype, 'nd')
                yy = S1.g(f['_y'])
                ny = S1.new(Arr(S1.g(st).stor, tail, 'nd', yy.shape, yy.dtype, True))
                n = f['_n'].v + 1
                S1.w(o).f.update(_y=ny, _t=args[0], _n=K(n), _ok=U(('ode ok', o.id, n)))
                S1.events.append(('ode', rk, t0.key(), t.key(), f['_int'], f['_intkw'], n))
                yield S1, ny
            return
        if name == 'y':
            yield S, f['_y']
            return
        yield S, I.top('ode.' + name)

    def ode_rhs(self, o, S, node):
        """evaluate the right-hand side on a symbolic state; yields (S, (key or None, linear) or Exc)"""
        I = self.I
        f = S.g(o).f
        y, tail = self.logical(S, f['_y'])
        a = S.g(y)
        c = S.content(y)
        leaves = []
        whole = c

        def symb(c, path='Y'):
            if isinstance(c, Stack):
                return Stack(c.axis, [symb(p, path + '_%d' % i) for i, p in enumerate(c.parts)])
            if isinstance(c, Concat):
                return Concat(c.axis, [(n, symb(p, path + '_%d' % i)) for i, (n, p) in enumerate(c.parts)])
            props = [] if a.dtype.startswith('complex') else ['real']
            declare_(path + ('r' if props else ''), *props)
            leaves.append(path + ('r' if props else ''))
            # raveled leaves stay raveled
            if isinstance(c, Poly):
                sh = raveled(c)
                if sh is None and c.is_zero():
                    sh = next((x for x in map(raveled, flow_parts(whole) or []) if x), None)
                if sh:
                    from .terms import vec
                    return vec(Poly.sym(leaves[-1]), sh)
            return Poly.sym(leaves[-1])
        if c is None:
            yield S, (None, False)
            return
        S1 = S.fork()
        st = S1.arr(symb(c), a.shape, a.dtype, 'nd')
        yy = S1.g(f['_y'])
        Y = S1.new(Arr(S1.g(st).stor, tail, 'nd', yy.shape, yy.dtype, True))
        declare_(TAU, 'real')
        tau = Sc(Poly.scalar(TAU), 'float64')
        for S2, r in I.call(f['_f'], [tau, Y] + list(f['_fp'].items), {}, S1, node):
            if isinstance(r, Exc):
                yield S2, r
                continue
            key = None
            lin = False
            if self.isarr(r, S2):
                if S2.g(r).shape != yy.shape:
                    yield S2, I.exc('ValueError', 'right-hand side has shape %s for a state of shape %s' % (S2.g(r).shape, yy.shape), node, S2, True)
                    continue
                if S2.g(r).dtype.startswith('complex') and not yy.dtype.startswith('complex'):
                    yield S2, I.exc('TypeError', 'complex right-hand side for a real ODE solver', node, S2, True)
                    continue
                for q in self.levels(S2, r):
                    if S2.g(q).shape != a.shape or S2.g(q).dtype != a.dtype:
                        continue
                    cc = S2.content(q)
                    if cc is None:
                        continue
                    ps = flow_parts(cc)
                    if ps is not None:
                        key = ('rhs', ckey(symb(c)), ckey(cc))
                        RHS[key] = (flow_parts(symb(c)), ps)
                        lin = is_linear_in(ps, set(leaves))
                        if lin and all(lastatom(w)[:2] == ('m', leaves[0]) and not lastatom(w)[2] for p in ps for (_, w) in p.d):
                            lin = 'right'
                    # the state handed to the right-hand side must not be changed
                    if ckey(S2.content(Y_(S2, st))) != ckey(symb(c)):
                        S2.events.append(('ode-clobber', I.loc(node, S2)))
            yield S2, (key, lin)


def Y_(S, st):
    return st


def lastatom(w):
    if len(w) == 1 and w[0][0] == 'fn' and w[0][1] == 'vec' and not w[0][3]:
        q = Poly.from_key(w[0][2][0])
        if len(q.d) == 1:
            w = next(iter(q.d))[1]
    return w[-1] if w and w[-1][0] == 'm' else ('?', None, True)


def raveled(p):
    sh = None
    if len(p.d) == 1:
        (s, w), _ = next(iter(p.d.items()))
        if len(w) == 1 and w[0][0] == 'fn' and w[0][1].startswith('flow') and w[0][2][-3] in RHS:
            # the solution of an equation for raveled matrices
            return raveled(RHS[w[0][2][-3]][0][int(w[0][1][4:])])
    for (s, w), c in p.d.items():
        q = w[0] if len(w) == 1 else None
        while q is not None and q[0] == 'fn' and q[1] in ('re', 'im'):
            z = Poly.from_key(q[2][0])
            if len(z.d) != 1:
                return None
            (s2, w2), _ = next(iter(z.d.items()))
            q = w2[0] if len(w2) == 1 else None
        if q is None or q[0] != 'fn' or q[1] not in ('vec',):
            return None
        if sh not in (None, q[2][1]):
            return None
        sh = q[2][1]
    return sh


def iscomplex_(d):
    return d.startswith('complex')


def declare_(n, *p):
    from .terms import declare
    declare(n, *p)
