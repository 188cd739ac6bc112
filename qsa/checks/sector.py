"""Symmetry reduction: the compiled routines that build a reduced basis and reduced operators, interpreted over abstract orbits.

A product state enters these routines only through comparisons and through the symmetry maps.  The abstraction replaces it by its orbit type: the stabiliser H of the
orbit's largest element and the sign character of H; finitely many types cover all states of all chains with the given number of unit cells.
The oracle is the explicit projection in the signed permutation representation of the group on each orbit."""
import ast
import cmath
import itertools
import math
import os
from .. import pyx
from ..program import REPO
from ..native import cyt, pyrun
from ..native.dom import *
from .native import D1, Missing, WID

EPS = 1e-8


class Group(object):
    """T^r P^p A^a B^b with P T P = T^-1, A and B (flips of the two sublattices, Z = A B) commuting with everything"""

    def __init__(self, n, gens):
        self.n, self.gens = n, gens
        rs = range(n) if 'T' in gens else (0,)
        ps = (0, 1) if 'P' in gens else (0,)
        az = [(0, 0), (1, 1)] if 'Z' in gens else [(a, b) for a in ((0, 1) if 'A' in gens else (0,)) for b in ((0, 1) if 'B' in gens else (0,))]
        self.els = [(r, p, a, b) for r in rs for p in ps for a, b in az]
        self.g = {'T': (1 % n, 0, 0, 0), 'P': (0, 1, 0, 0), 'Z': (0, 0, 1, 1), 'A': (0, 0, 1, 0), 'B': (0, 0, 0, 1)}

    def mul(self, x, y):
        return ((x[0] + (-y[0] if x[1] else y[0])) % self.n, x[1] ^ y[1], x[2] ^ y[2], x[3] ^ y[3])

    def close(self, gs):
        s = {(0, 0, 0, 0)}
        todo = list(s)
        while todo:
            x = todo.pop()
            for g in gs:
                y = self.mul(g, x)
                if y not in s:
                    s.add(y)
                    todo.append(y)
        return frozenset(s)

    def subgroups(self):
        out = {self.close(())}
        new = set(out)
        while new:
            nxt = set()
            for h in new:
                for g in self.els:
                    if g not in h:
                        k = self.close(tuple(h) + (g,))
                        if k not in out:
                            nxt.add(k)
            out |= nxt
            new = nxt
        return sorted(out, key=lambda h: (len(h), sorted(h)))

    def characters(self, h, signed=True):
        """sign characters of a subgroup"""
        els = sorted(h)
        if not signed:
            return [{x: 1 for x in els}]
        out = []
        gens, cur = [], self.close(())
        for x in els:
            if x not in cur:
                gens.append(x)
                cur = self.close(gens)
        for sg in itertools.product((1, -1), repeat=len(gens)):
            ch = {(0, 0, 0, 0): 1}
            todo = [(0, 0, 0, 0)]
            ok = True
            while todo and ok:
                x = todo.pop()
                for g, s in zip(gens, sg):
                    y = self.mul(g, x)
                    if y not in ch:
                        ch[y] = ch[x] * s
                        todo.append(y)
                    elif ch[y] != ch[x] * s:
                        ok = False
            if ok and ch not in out:
                out.append(ch)
        return out


class Orbit(object):
    """signed permutation representation induced from the sign character of the stabiliser of a state"""

    def __init__(self, G, h, ch, base, order, gauge):
        self.G, self.h, self.ch = G, h, ch
        self.rep, seen = [], {}
        for g in G.els:
            c = frozenset(G.mul(g, x) for x in h)
            if c not in seen:
                seen[c] = len(self.rep)
                self.rep.append(g)
        self.cos = seen
        m = len(self.rep)
        rank = order(m)                       # position of each element; the stabilised element (index of H) comes last
        e = seen[frozenset(h)]
        rest = [i for i in range(m) if i != e]
        lab = {}
        for p, i in zip(rank, rest):
            lab[i] = base + p
        lab[e] = base + m - 1
        self.lab, self.e = lab, e
        self.inv = {v: k for k, v in lab.items()}
        self.gauge = {i: (gauge(i) if i != e else 1) for i in range(m)}
        self.size = m

    def act(self, g, i):
        """(index, sign) of g applied to element i"""
        G = self.G
        y = G.mul(g, self.rep[i])
        c = frozenset(G.mul(y, x) for x in self.h)
        j = self.cos[c]
        z = self.rep[j]
        inv = next(x for x in self.h if G.mul(z, x) == y)
        return j, self.ch[inv] * self.gauge[i] * self.gauge[j]

    @property
    def top(self):
        return self.lab[self.e]


# ---------------------------------------------------------------- symmetry families of the chain extensions
# name, generators of the family, names of its blocks, uses m array
FAMILIES = [
    ('p', 'P', ('pblock',)), ('z', 'Z', ('zblock',)), ('pz', 'Q', ('pzblock',)), ('p_z', 'PZ', ('pblock', 'zblock')),
    ('zA', 'A', ('zAblock',)), ('zB', 'B', ('zBblock',)), ('zA_zB', 'AB', ('zAblock', 'zBblock')),
    ('t', 'T', ('kblock',)), ('t_z', 'TZ', ('zblock', 'kblock')), ('t_zA', 'TA', ('zAblock', 'kblock')), ('t_zB', 'TB', ('zBblock', 'kblock')),
    ('t_zA_zB', 'TAB', ('zAblock', 'zBblock', 'kblock')), ('t_p', 'TP', ('pblock', 'kblock')), ('t_pz', 'TQ', ('pzblock', 'kblock')), ('t_p_z', 'TPZ', ('pblock', 'zblock', 'kblock'))]
MODS = ('hcp', 'boson', 'spf')


def ambient(gens):
    """generators the routines may touch"""
    return gens.replace('Q', 'PZ')


def members(G, gens):
    gs = [G.g[x] if x != 'Q' else G.mul(G.g['P'], G.g['Z']) for x in gens]
    return G.close(gs)


def vectors(G, F, o, gens, q):
    """normalised basis vectors of the sector in an orbit, one per sigma: list of (sigma, {index: amplitude}, coefficients c(g), N)"""
    n = G.n
    k = 2 * math.pi * q.get('kblock', 0) / n
    dihedral = 'T' in gens and ('P' in gens or 'Q' in gens)
    sig = (1,)
    if dihedral and (2 * q['kblock']) % n:
        sig = (1, -1)
    out = []
    for s in sig:
        c = {}
        for g in F:
            r, p, a, b = g
            x = 1.0
            # g = T^r P^p ...: written as shift by -r
            if 'T' in gens:
                if dihedral:
                    x = math.cos(k * r) if s == 1 else math.sin(k * r)
                else:
                    x = cmath.exp(-1j * k * r)
            if 'Q' in gens:
                x *= (s * q['pzblock']) ** p
            else:
                if 'P' in gens:
                    x *= (s * q['pblock']) ** p
                if 'Z' in gens:
                    x *= q['zblock'] ** a
                if 'A' in gens:
                    x *= q['zAblock'] ** a
                if 'B' in gens:
                    x *= q['zBblock'] ** b
            c[g] = x
        v = {}
        for g in F:
            j, sg = o.act(g, o.e)
            v[j] = v.get(j, 0) + c[g] * sg
        nn = math.sqrt(sum(abs(x) ** 2 for x in v.values()))
        if nn > EPS:
            out.append((s, {j: x / nn for j, x in v.items()}, c, 1 / nn))
    if len(out) == 2:      # the two real vectors coincide up to a factor when a reflection stabilises the orbit: keep the first
        a, b = out[0][1], out[1][1]
        d = abs(sum(a.get(j, 0) * b.get(j, 0) for j in set(a) | set(b)))
        if d > 1 - EPS:
            out = out[:1]
    return out


def perm(i):
    """orders of the non-maximal elements: a few different ones, by orbit"""
    def f(m):
        xs = list(range(m - 1))
        if i % 3 == 1:
            xs.reverse()
        elif i % 3 == 2:
            xs = [xs[(j * 5 + 3) % len(xs)] if math.gcd(5, len(xs)) == 1 else xs[len(xs) - 1 - j] for j in range(len(xs))] if xs else xs
        return xs
    return f


def possible(mod, h):
    """stabilisers of states of two-level sites: a flip changes every site, and the flips of the two sublattices are never both undone by shifts"""
    if mod != 'hcp':
        return True
    if any(g[:2] == (0, 0) and g[2:] != (0, 0) for g in h):
        return False
    return not (any(g[2:] == (1, 0) for g in h) and any(g[2:] == (0, 1) for g in h))


def orbits(G, mod, within=None):
    signed = mod == 'spf'
    out, base = [], 0
    hs = [h for h in G.subgroups() if possible(mod, h)]
    k = 0
    for h in hs:
        if within is not None and not h <= within:
            continue
        for ch in G.characters(h, signed):
            o = Orbit(G, h, ch, base, perm(k), (lambda i, k=k: -1 if signed and (i * 7 + k) % 3 == 1 else 1))
            out.append(o)
            base += o.size
            k += 1
    return out


class Shifted(Exception):
    pass


def machine(mod, a, G, orbs, mt='double complex', bt='NP_UINT32_t', M1='NP_UINT32_t'):
    f = os.path.join(REPO, D1, mod + '.pyx')
    if not os.path.isfile(f):
        raise Missing(mod)
    ix = cyt.index(pyx.load(f, REPO))
    m = cyt.Mach(ix, Path(), {'basis_type': bt, 'matrix_type': mt, 'scalar_type': 'double complex', 'N_type': 'NP_INT32_t', 'M1_type': M1, 'M2_type': 'NP_UINT32_t'}, 40000000)
    where = {}
    for o in orbs:
        for i, l in o.lab.items():
            where[l] = (o, i)

    def move(g):
        def f(v):
            if not isint(v) or v not in where:
                raise Undecided('state')
            o, i = where[v]
            j, s = o.act(g, i)
            return o.lab[j], s
        return f

    def sign(p, s):
        if isinstance(p, cyt.View):
            p.a[p.i] = m.conv(m.O.bin('*', p.a[p.i], s, (True, 32)), p.ty)
        else:
            raise Undecided('sign')

    def flip(x):
        mv = move(G.g[x])

        def f(mm, args):
            if args[1] != a * G.n:
                raise Shifted('map of %s sites instead of %d' % (args[1], a * G.n))
            v, s = mv(args[0])
            sign(args[2], s)
            return v, m.tyname('basis_type')
        return f

    def shift(mm, args):
        v, d, L = args[0], args[1], args[2]
        if L != a * G.n:
            raise Shifted('shift over a period of %s sites instead of %d' % (L, a * G.n))
        if d % a:
            raise Shifted('shift by %s sites breaks the unit cell of %d' % (d, a))
        g = ((-d // a) % G.n, 0, 0, 0)
        v, s = move(g)(v)
        sign(args[3], s)
        return v, m.tyname('basis_type')
    m.intr.update(shift=shift, fliplr=flip('P'), flip_all=flip('Z'), flip_sublat_A=flip('A'), flip_sublat_B=flip('B'))
    return m


def make(m, fam, L, a, orbs, blocks, names, number=False, mod='hcp'):
    """run the basis construction over every element of every orbit; returns (basis, N, M) in the order the operators use"""
    labs = sorted(l for o in orbs for l in o.lab.values())
    nxt = {x: y for x, y in zip(labs, labs[1:] + labs[:1])}
    k = (len(labs) + 1) // 2 if number else len(labs)
    parts = [labs[:k], labs[k:]] if number else [labs]
    ty = m.tyname('basis_type')
    cnt = [0]

    def get_state(mm, args):
        x = parts[cnt[0]] if cnt[0] < len(parts) else []
        cnt[0] += 1
        return (x[0] if x else 0, len(x)), 'py'

    def step(mm, args):
        return nxt[args[0]], ty
    m.intr.update(get_state=get_state, CheckState_nosymm=lambda mm, args: (True, 'b'))
    for nm in ('next_state_inc_1', 'next_state_pcon_hcp', 'next_state_pcon_spf', 'next_state_pcon_boson'):
        m.intr[nm] = step
    size = 2 * len(labs) + 2
    pars = cyt.View([0] * 8, ty)
    N, M, B = cyt.View([cyt.UNSET] * size, m.tyname('N_type')), cyt.View([cyt.UNSET] * size, m.tyname('M2_type' if fam in ('t_p_z', 't_zA_zB') else 'M1_type')), cyt.View([cyt.UNSET] * size, ty)
    hasM = fam in ('t_p', 't_pz', 't_p_z', 't_z', 't_zA', 't_zB', 't_zA_zB')
    name = ('n_' if number else '') + fam + '_basis'
    if name not in m.ix.f:
        raise Missing(name)
    kw = dict(blocks, a=a, L=L, pars=pars, N=N, M=M, basis=B, Nup_list=[(0, 0), (1, 1)] if mod == 'spf' else [0, 1])
    kw['Nf_list'] = kw['Nb_list'] = kw['Np_list_'] = kw['Nup_list']
    args = []
    for arg in cyt.funcargs(m.ix.f[name]):
        nm = cyt.cname(arg.declarator) or arg.base_type.name
        if nm == 'Np_list':
            args.append(cyt.View([cyt.UNSET] * size, (True, 8)))
        elif nm in kw:
            args.append(kw[nm])
        else:
            raise Undecided('argument %s' % nm)
    ns = m.call(name, args)[0]
    if not isint(ns) or ns > size:
        raise Undecided('dimension')
    b, n_, m_ = B.a[:ns][::-1], N.a[:ns][::-1], M.a[:ns][::-1]
    if any(x is cyt.UNSET for x in b + n_ + (m_ if hasM else [])):
        raise Fault('a basis entry is left unset')
    return b, n_, (m_ if hasM else None)


def expected_basis(G, F, orbs, gens, q):
    """entries (label of the representative, sigma) of the reduced basis, largest label first"""
    out = []
    for o in orbs:
        # representative: largest element of each orbit of the family's own group inside the ambient orbit
        left = set(range(o.size))
        while left:
            i = max(left, key=lambda j: o.lab[j])
            sub = {o.act(g, i)[0] for g in F}
            left -= sub
            for s, v, c, nn in vectors_from(G, F, o, i, gens, q):
                out.append((o.lab[i], s, o, i, v, c, nn))
    out.sort(key=lambda x: (-x[0], -x[1]))
    return out


def vectors_from(G, F, o, i, gens, q):
    if i == o.e:
        return vectors(G, F, o, gens, q)
    p = Moved(o, i)
    return vectors(G, F, p, gens, q)


class Moved(object):
    """an orbit seen from another element"""

    def __init__(self, o, i):
        self.o, self.e = o, i
        self.act = o.act


def sectors(gens, n):
    opts = []
    for b in ('pblock', 'zblock', 'pzblock', 'zAblock', 'zBblock'):
        opts.append((b, (1, -1)))
    opts.append(('kblock', range(n)))
    return opts


def blocks_of(names, n, ks=None):
    vals = [list(range(n) if ks is None else ks) if b == 'kblock' else [1, -1] for b in names]
    for x in itertools.product(*vals):
        yield dict(zip(names, x))


def run_ops(m, fam, L, a, basis, N, M, blocks, target, two, Ns):
    """reduced matrix elements of the operator sending every representative to the given state"""
    ty, mt = m.tyname('basis_type'), m.tyname('matrix_type')
    size = 2 * Ns if two else Ns

    def op_func(mm, args):
        row, ME = args[5], args[6]
        for i in range(Ns):
            row.a[row.i + i] = target
            ME.a[ME.i + i] = 1.0
        return 0, (True, 32)
    m.intr['op_func'] = op_func
    row, col, ME = cyt.View([0] * size, ty), cyt.View([0] * size, ty), cyt.View([0.0] * size, mt)
    name = fam + '_op'
    if name not in m.ix.f:
        raise Missing(name)
    kw = dict(row=row, col=col, ME=ME, opstr='z', indx=cyt.View([0], (True, 32)), J=1.0, N=cyt.View(list(N), m.tyname('N_type')), basis=cyt.View(list(basis), ty), L=L,
              M=cyt.View(list(M or []), m.tyname('M2_type' if fam in ('t_p_z', 't_zA_zB') else 'M1_type')), pars=cyt.View([0] * 8, ty))
    args = []
    for arg in cyt.funcargs(m.ix.f[name]):
        nm = cyt.cname(arg.declarator) or arg.base_type.name
        if nm not in kw:
            raise Undecided('argument %s' % nm)
        args.append(kw[nm])
    m.steps = 0
    e = m.call(name, args, dict(blocks, a=a))[0]
    out = {}
    for r, c, x in zip(row.a, col.a, ME.a):
        x = m.O.num(x)
        if not isinstance(x, (int, float, complex)):
            raise Undecided('matrix element %r' % (x,))
        if x != x or x == 0:
            continue
        if not (isint(r) and isint(c)) or not (0 <= r < Ns and 0 <= c < Ns):
            raise Fault('matrix element at (%r, %r) of a basis of %d states' % (r, c, Ns))
        out[r, c] = out.get((r, c), 0) + x
    return e, out


def check_family(mod, fam, gens, names, n, a, real=False, number=False, blocks=(), cap=None):
    """(rule, label, verdict, outcome, message) rows for one family, unit cell and sector"""
    amb = ambient(gens)
    G = Group(n, amb)
    F = sorted(members(G, gens))
    orbs = orbits(G, mod, frozenset(F) if 'Q' in gens else None)
    L = n * a
    if 'T' not in gens:
        L = a
        G.n = 1
    lab = '%s %s L=%d%s %s' % (mod, fam, L, ' a=%d' % a if 'T' in gens else '', ' '.join('%s=%d' % x for x in sorted(blocks.items())))
    q = dict(blocks)
    exp = expected_basis(G, F, orbs, gens, q)
    m = machine(mod + '_basis', a if 'T' in gens else L, G, orbs)
    basis, N, M = make(m, fam, L, a, orbs, q, names, number, mod)
    return G, F, orbs, L, lab, q, exp, basis, N, M


def loc(mod, fam, kind):
    return '%s/sources/%s (%s)' % (D1, {'basis': 'basis_templates.pyx', 'op': 'op_templates.pyx'}[kind], ('make_%s_basis_template' if kind == 'basis' else '%s_op_template') % fam)


def sector_rows(prog, it):
    mod, fam, n, a, blocks, real, number = it
    gens, names = next((g, b) for f, g, b in FAMILIES if f == fam)
    q = dict(blocks)
    lab = '%s %s cells=%d unit=%d %s%s' % (mod, fam, n, a, ' '.join('%s=%d' % x for x in sorted(q.items())), ' real' if real else '')
    try:
        G, F, orbs, L, _, q, exp, basis, N, M = check_family(mod, fam, gens, names, n, a, real, number, q)
    except (Undecided, Missing, cyt.NotFound, RecursionError) as e:
        yield ('basis', lab, 'undecided', '%s %s' % (type(e).__name__, e), '', None)
        return
    except (Fault, Shifted) as e:
        yield ('basis', lab, 'violated', 'fault', str(e), loc(mod, fam, 'basis'))
        return
    dihedral = 'T' in gens and ('P' in gens or 'Q' in gens)
    got = [(b, (1 if x > 0 else -1) if dihedral else 1) for b, x in zip(basis, N)]
    want = [(e[0], e[1]) for e in exp]
    if sorted(got) != sorted(want):
        miss, extra = [x for x in want if x not in got], [x for x in got if x not in want]

        def show(x):
            o = next(o for o in orbs if x[0] in o.inv)
            st = sorted(g for g in o.h if g != (0, 0, 0, 0))
            return 'sigma=%d stabiliser %s signs %s%s' % (x[1], st, [o.ch[g] for g in st], '' if o.inv[x[0]] == o.e else ' (not the largest of its orbit)')
        yield ('basis', lab, 'violated', 'wrong states' if not (miss and extra) else 'wrong states', '%s: %s' % ('missing' if miss else 'superfluous', show((miss or extra)[0])), loc(mod, fam, 'basis'))
        return
    yield ('basis', lab, 'held', '', '%d orbit types' % len(orbs), None)
    idx = {}
    for i, x in enumerate(got):
        idx[x] = i
    Ns = len(got)
    if not Ns:
        return
    two = dihedral
    try:
        m = machine(mod + '_ops', a if 'T' in gens else L, G, orbs, 'double' if real else 'double complex')
    except (Undecided, Missing) as e:
        yield ('matrix', lab, 'undecided', '%s %s' % (type(e).__name__, e), '', None)
        return
    cols = [(idx[e[0], e[1]],) + e for e in exp]
    for o in orbs:
        res = {}
        try:
            for i in range(o.size):
                err, r = run_ops(m, fam, L, a, basis, N, M, q, o.lab[i], two, Ns)
                if err:
                    raise Fault('error code %r' % (err,))
                res[i] = r
        except (Undecided, Missing, cyt.NotFound, RecursionError) as e:
            yield ('matrix', lab, 'undecided', '%s %s' % (type(e).__name__, e), '', None)
            return
        except (Fault, Shifted) as e:
            yield ('matrix', lab, 'violated', 'fault', str(e), loc(mod, fam, 'op'))
            return
        bad = elements(F, o, res, cols, got)
        if bad:
            yield ('matrix', lab, 'violated', 'wrong matrix element', bad, loc(mod, fam, 'op'))
            return
    yield ('matrix', lab, 'held', '', '%d orbit types, %d representatives' % (len(orbs), Ns), None)


def elements(F, o, res, cols, got):
    """compare the reduced matrices res[i] of the operators sending every representative to element i of the orbit o; each is symmetrised over the stabiliser of the source,
    which a symmetric operator is"""
    rows_ = [c for c in cols if c[3] is o]
    for ci, l1, s1, o1, i1, v1, c1, n1 in cols:
        H1 = [(g, o1.act(g, i1)[1]) for g in F if o1.act(g, i1)[0] == i1]
        for t in range(o.size):
            have = {}
            exps = {}
            for g, sg in H1:
                j, s = o.act(g, t)
                w = sg * s
                for (r, c), x in res[j].items():
                    if c == ci:
                        have[r] = have.get(r, 0) + w * x
                for ri, l2, s2, o2, i2, v2, c2, n2 in rows_:
                    x = 0
                    for h in F:
                        y, z = o.act(h, j)
                        if y in v2:
                            x += c1[h] * z * complex(v2[y]).conjugate()
                    exps[ri] = exps.get(ri, 0) + w * x * n1
            for r in set(have) | set(exps):
                if abs(have.get(r, 0) - exps.get(r, 0)) > 1e-6 * max(1, abs(exps.get(r, 0))):
                    return 'element %s instead of %s between a state with stabiliser %s (sigma %d) and %s with stabiliser %s (sigma %s)' % (
                        num(have.get(r, 0)), num(exps.get(r, 0)), sorted(g for g in o1.h if any(g)), s1, 'g=%s of a state' % (o.rep[t],), sorted(g for g in o.h if any(g)), got[r][1])
    return None


def num(x):
    x = complex(x)
    return '%.4g' % x.real if abs(x.imag) < EPS else '%.4g%+.4gi' % (x.real, x.imag)


# ---------------------------------------------------------------- the Python driver of the chain bases
CT = {'int8': 'NP_INT8_t', 'int16': 'NP_INT16_t', 'int32': 'NP_INT32_t', 'int64': 'NP_INT64_t', 'uint8': 'NP_UINT8_t', 'uint16': 'NP_UINT16_t', 'uint32': 'NP_UINT32_t', 'uint64': 'NP_UINT64_t',
      'float32': 'float', 'float64': 'double', 'complex64': 'float complex', 'complex128': 'double complex'}
_MODS = {}


def pymods():
    """namespace of base_1d with its base classes"""
    if 'm' not in _MODS:
        extra = {}
        for f in ('quspin/basis/base.py', 'quspin/basis/lattice.py', 'quspin/basis/basis_1d/base_1d.py'):
            p = os.path.join(REPO, f)
            if not os.path.isfile(p):
                raise Missing(f)
            with open(p, encoding='utf8') as h:
                m = pyrun.Mod(ast.parse(h.read()), extra)
            extra.update((k, v) for k, v in m.g.items() if isinstance(v, pyrun.Cls))
        _MODS['m'] = m
    return _MODS['m']


class Chain(object):
    """basis_1d driven over abstract orbits: the extension modules are replaced by their interpreted sources"""

    def __init__(self, mod, fam, n, a, blocks, number, L, G, orbs):
        np, _ = pyrun.libs()
        self.np, self.mod, self.fam, self.L, self.a, self.G, self.orbs = np, mod, fam, L, a, G, orbs
        self.labs = sorted(l for o in orbs for l in o.lab.values())
        self.machs, self.target, self.count, self.Ns = {}, None, 0, None
        self.parts = [self.labs]
        if number:
            k = (len(self.labs) + 1) // 2
            self.parts = [self.labs[:k], self.labs[k:]]
        self.size = 2 * len(self.labs) + 2
        mm = pymods()
        self.run = pyrun.Run(mm, 20000000)
        base = mm.g.get('basis_1d')
        if not isinstance(base, pyrun.Cls):
            raise Missing('basis_1d')
        me = pyrun.Cls(mm, base.node)
        me.name = 'chain_basis'
        self.o = o = pyrun.Obj(me)
        o.d['sps'] = max(2, int(math.ceil((len(self.labs) + 1) ** (1.0 / L)))) if L < 40 else 2
        o.d['_allowed_ops'] = set('z')
        o.d['_blocks'] = dict(blocks)
        kw = dict(blocks, a=a)
        if 'zAblock' in kw and 'zBblock' in kw:
            kw['zblock'] = kw['zAblock'] * kw['zBblock']
        if 'pblock' in kw and 'zblock' in kw:
            kw['pzblock'] = kw['pblock'] * kw['zblock']
        Np = ([(0, 0), (1, 1)] if mod == 'spf' else [0, 1]) if number else None
        pars = np.zeros(8, dtype=np.uint32)
        self.run.invoke(pyrun.Func(mm, base.find('__init__'), {}, o), [self.module('_basis'), self.module('_ops'), L], dict(kw, Np=Np, pars=pars))

    def module(self, kind):
        np = self.np
        m = pyrun.Obj(pyrun.Cls(None, ast.parse('class %s%s: pass' % (self.mod, kind)).body[0]))
        ix = self.mach(kind, ()).ix
        for nm, f in ix.f.items():
            if cyt.tname(f) == 'DefNode':
                m.d[nm] = self.native(kind, nm)
        m.d['__name__'] = self.mod + kind
        m.d['get_Ns'] = lambda *a, **k: self.size
        m.d['get_basis_type'] = lambda *a, **k: np.uint32 if self.L <= 32 else np.uint64
        return m

    def mach(self, kind, fused):
        k = (kind, fused)
        if k not in self.machs:
            T = 'T' in self.G.gens
            m = self.machs[k] = machine(self.mod + kind, self.a if T else self.L, self.G, self.orbs)
            m.fused.update(fused)
            nxt = {x: y for x, y in zip(self.labs, self.labs[1:] + self.labs[:1])}
            ty = m.tyname('basis_type')

            def get_state(mm, args):
                x = self.parts[self.count] if self.count < len(self.parts) else []
                self.count += 1
                return (x[0] if x else 0, len(x)), 'py'

            def step(mm, args):
                return nxt[args[0]], ty

            def op_func(mm, args):
                row, ME = args[5], args[6]
                for i in range(self.Ns):
                    row.a[row.i + i] = self.target
                    ME.a[ME.i + i] = 1.0
                return 0, (True, 32)
            m.intr.update(get_state=get_state, CheckState_nosymm=lambda mm, args: (True, 'b'), op_func=op_func)
            for nm in ('next_state_inc_1', 'next_state_pcon_hcp', 'next_state_pcon_spf', 'next_state_pcon_boson'):
                m.intr[nm] = step
        return self.machs[k]

    def native(self, kind, name):
        np = self.np
        f = self.mach(kind, ()).ix.f[name]
        ps = []
        for x in cyt.funcargs(f):
            b = x.base_type
            fu = None
            if cyt.tname(b) == 'MemoryViewSliceTypeNode':
                fu = getattr(b.base_type_node, 'name', None)
            ps.append((cyt.cname(x.declarator) or getattr(x.base_type, 'name', None), fu))

        def call(*args, **kw):
            fused, vals, back = {}, [], []
            pairs = list(zip(ps, args))
            kws = dict(kw)
            for nm, fu in ps[len(args):]:
                if nm in kws:
                    pairs.append(((nm, fu), kws.pop(nm)))
                else:
                    break
            for (nm, fu), v in pairs:
                if isinstance(v, np.ndarray):
                    ct = CT.get(v.dtype.name)
                    if ct is None or v.ndim != 1:
                        raise Undecided('array of %s' % v.dtype)
                    if fu in ('basis_type', 'N_type', 'M1_type', 'M2_type', 'matrix_type'):
                        if fused.setdefault(fu, ct) != ct:
                            raise Fault('%s(): arguments of one type are given as %s and %s' % (name, fused[fu], ct))
                    elif fu in CT.values() and fu != ct:
                        raise Fault('%s(): argument %s is %s, not %s' % (name, nm, ct, fu))
            m = self.mach(kind, tuple(sorted(fused.items())))
            for (nm, fu), v in pairs:
                if isinstance(v, np.ndarray):
                    x = cyt.View([cyt.UNSET] * len(v) if kind == '_basis' and nm in ('N', 'm', 'M', 'basis') else v.tolist(), m.tyname(CT[v.dtype.name]))
                    back.append((v, x))
                    vals.append(x)
                elif isinstance(v, np.generic):
                    vals.append(v.item())
                else:
                    vals.append(v)
            m.steps = 0
            self.count = 0
            r = m.call(name, vals, {k: v.item() if isinstance(v, np.generic) else v for k, v in kws.items()})[0]
            for v, x in back:
                v[...] = [77 if y is cyt.UNSET else m.O.num(y) for y in x.a]
            return r
        return call

    def method(self, nm, *args, **kw):
        return self.run.call(self.run.attr(self.o, nm), args, kw)

    def ops(self, target):
        self.target = target
        ME, row, col = self.method('_Op', 'z', [0], 1.0, self.np.complex128)
        out = {}
        for x, r, c in zip(ME, row, col):
            out[int(r), int(c)] = out.get((int(r), int(c)), 0) + complex(x)
        return out


def columns(v, top):
    """{column: {label: amplitude}} of a matrix in the full space (largest label first)"""
    v = v.tocoo() if hasattr(v, 'tocoo') else v
    out = {}
    if hasattr(v, 'row'):
        for r, c, x in zip(v.row.tolist(), v.col.tolist(), v.data.tolist()):
            if x:
                d = out.setdefault(c, {})
                d[top - 1 - r] = d.get(top - 1 - r, 0) + x
        return out
    for r, row in enumerate(v.tolist()):
        for c, x in enumerate(row):
            if x:
                out.setdefault(c, {})[top - 1 - r] = x
    return out


def driver_rows(prog, it):
    mod, fam, n, a, blocks, big, number = it
    gens, names = next((g, b) for f, g, b in FAMILIES if f == fam)
    q = dict(blocks)
    lab = '%s %s cells=%d unit=%d %s%s' % (mod, fam, n, a, ' '.join('%s=%d' % x for x in sorted(q.items())), ' fixed-number' if number else '')
    where = 'quspin/basis/basis_1d/base_1d.py'
    rule = 'driver'
    try:
        if pyrun.libs() is None:
            raise Missing('array library')
        G = Group(n, ambient(gens))
        F = sorted(members(G, gens))
        orbs = orbits(G, mod, frozenset(F) if 'Q' in gens else None)
        L = n * a
        G.gens = gens
        if 'T' not in gens:
            L = a
            G.n = 1
        exp = expected_basis(G, F, orbs, gens, q)
        c = Chain(mod, fam, n, a, q, number, L, G, orbs)
        o = c.o.d
        Ns = o.get('_Ns')
        dihedral = 'T' in gens and ('P' in gens or 'Q' in gens)
        if Ns != len(exp):
            yield (rule, lab, 'violated', 'wrong states', 'dimension %s instead of %d' % (Ns, len(exp)), where)
            return
        if not Ns:
            yield (rule, lab, 'held', '', 'empty', None)
            return
        c.Ns = Ns
        basis = [int(x) for x in o['_basis']]
        N = [int(x) for x in o['_N']]
        got = [(b, (1 if x > 0 else -1) if dihedral else 1) for b, x in zip(basis, N)]
        want = [(e[0], e[1]) for e in exp]
        if sorted(got) != sorted(want):
            yield (rule, lab, 'violated', 'wrong states', '%d of %d entries differ' % (len(set(want) - set(got)), Ns), where)
            return
        idx = {x: i for i, x in enumerate(got)}
        cols = [(idx[e[0], e[1]],) + e for e in exp]
        if not big:
            for ob in orbs[::1 if len(c.labs) < 80 else 3]:
                bad = elements(F, ob, {i: c.ops(ob.lab[i]) for i in range(ob.size)}, cols, got)
                if bad:
                    yield (rule, lab, 'violated', 'wrong matrix element', bad, where + ' (_Op)')
                    return
        yield (rule, lab, 'held', '', '%d orbit types, %d representatives' % (len(orbs), Ns), None)
        np = c.np
        dt = np.complex128
        top = o['sps'] ** L
        keep = [int(x) for x in o['_basis']]
        ref = {ci: {e2.lab[j]: x for j, x in v.items() if abs(x) > EPS} for ci, l, s, e2, i, v, cc, nn in cols}
        eye = np.eye(Ns, dtype=dt)
        todo = [('get_proj', lambda: c.method('get_proj', dt))]
        if not big:
            todo += [('project_from dense', lambda: c.method('project_from', eye.copy(), sparse=False)), ('project_from sparse', lambda: c.method('project_from', eye.copy(), sparse=True))]
        for nm, fn in todo:
            rule = 'lift'
            v = columns(fn(), top)
            bad = None
            for ci in range(Ns):
                x, y = v.get(ci, {}), ref[ci]
                z = [l for l in set(x) | set(y) if abs(x.get(l, 0) - y.get(l, 0)) > 1e-6]
                if z:
                    e2 = next(t for t in cols if t[0] == ci)
                    bad = 'amplitude %s instead of %s for a state with stabiliser %s (sigma %d)' % (num(x.get(z[0], 0)), num(y.get(z[0], 0)), sorted(g for g in e2[3].h if any(g)), e2[2])
                    break
            if not bad and [int(x) for x in o['_basis']] != keep:
                bad = 'the basis is left modified'
            if bad:
                yield (rule, '%s %s' % (nm, lab), 'violated', 'wrong vector', bad, where)
            else:
                yield (rule, '%s %s' % (nm, lab), 'held', '', '%d vectors' % Ns, None)
    except pyrun.HostRaise as e:
        yield (rule, lab, 'undecided', str(e), '', None)
    except pyrun.PyRaise as e:
        yield (rule, lab, 'violated', 'refused', str(e), where)
    except (Fault, Shifted) as e:
        yield (rule, lab, 'violated', 'fault', str(e), where)
    except (Undecided, Missing, cyt.NotFound, RecursionError) as e:
        yield (rule, lab, 'undecided', '%s %s' % (type(e).__name__, e), '', None)


def scenarios(tier):
    out = []
    deep = tier == 'thorough'
    for fam, gens, names in FAMILIES:
        for mod in MODS:
            if mod == 'spf' and any(x in gens for x in 'AB'):
                continue
            if 'T' not in gens:
                for b in blocks_of(names, 1):
                    out.append((mod, fam, 1, 6, tuple(sorted(b.items())), False, False))
                if 'A' not in gens and 'B' not in gens:
                    out.append(out[-1][:6] + (True,))
                continue
            sizes = {'hcp': [(2, 1), (3, 1), (4, 1)], 'boson': [(3, 2), (2, 1)], 'spf': [(2, 1), (3, 2), (4, 1)]}[mod]
            if len(gens) == 3:
                sizes = {'hcp': [(2, 2), (4, 1)], 'boson': [(2, 1), (3, 1)], 'spf': [(2, 2), (3, 1)]}[mod]
                if deep:
                    sizes.append((6, 1) if mod != 'spf' else (4, 1))
            elif deep:
                sizes += [(6, 1), (5, 3)]
            sizes = [(n, 2 * a if 'A' in gens or 'B' in gens else a) for n, a in sizes]
            for n, a in sizes:
                for b in blocks_of(names, n):
                    if n == 4 and len(gens) == 2 and 'Q' in gens and b['kblock'] == 3 and not deep:
                        continue
                    out.append((mod, fam, n, a, tuple(sorted(b.items())), False, False))
                    if gens == 'T' and (2 * b['kblock']) % n == 0:
                        out.append((mod, fam, n, a, tuple(sorted(b.items())), True, False))
                if n == sizes[0][0] and 'A' not in gens and 'B' not in gens:
                    out.append((mod, fam, n, a, tuple(sorted(b.items())), False, True))
    return out


def run_sector(prog, it):
    for r in sector_rows(prog, it):
        yield r


def driver_scenarios(tier):
    out = []
    deep = tier == 'thorough'
    for fam, gens, names in FAMILIES:
        for mod in MODS:
            if mod == 'spf' and any(x in gens for x in 'AB'):
                continue
            AB = 'A' in gens or 'B' in gens
            if 'T' not in gens:
                sizes = [(1, 6), (1, 62)]
            else:
                sizes = {'hcp': [(2, 2), (3, 1), (4, 1)], 'boson': [(3, 2)], 'spf': [(2, 2), (3, 1)]}[mod]
                if len(gens) == 3:
                    sizes = {'hcp': [(2, 2), (3, 2)], 'boson': [(2, 2)], 'spf': [(2, 2)]}[mod]
                sizes = [(n, 2 * a if AB and a % 2 else a) for n, a in sizes] + [(2, 30 if AB else 31), (3, 20)] + ([(4, 15)] if not AB else [])
                if deep:
                    sizes += [(4, 2), (6, 10)] + ([(5, 1)] if not AB else [])
            for n, a in sizes:
                big = n * a >= 40
                if big and mod != 'hcp' and not deep:
                    continue
                for b in blocks_of(names, n):
                    if 'kblock' in b and 2 * b['kblock'] > n and not deep:
                        continue
                    out.append((mod, fam, n, a, tuple(sorted(b.items())), big, False))
                if not big and not AB:
                    out.append(out[-1][:6] + (True,))
    return out


def run_driver(prog, it):
    for r in driver_rows(prog, it):
        yield r
