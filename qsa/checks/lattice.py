"""Symmetry reduction on general lattices: the compiled routines, interpreted over abstract orbits of commuting symmetry maps.

A product state enters these routines only through comparisons, through the symmetry maps and through the operator; the abstraction replaces it by its orbit type (stabiliser,
sign character).  OpenMP regions are interpreted with one and with several threads, switched at barriers only.  The oracle is the explicit projection on each orbit."""
import cmath
import itertools
import math
import os
from ..program import REPO
from ..native import cpp
from ..native.dom import *
from .native import Missing
from .sector import perm

SRC = 'quspin/basis/basis_general/_basis_general_core/source'
TOL = 1e-7
TEXT = '''#include "make_general_basis.h"
#include "general_basis_op.h"
#include "general_basis_get_vec.h"
#include "general_basis_get_amp.h"
#include "general_basis_rep.h"
namespace basis_general {
typedef npy_uint32 U; typedef signed char P; typedef npy_uint8 J; typedef std::complex<double> C; typedef double D; typedef general_basis_core<U,P> B;
template class general_basis_core<U,P>;
template npy_intp make_basis<U,J,P>(B*,npy_intp,npy_intp,U[],J[]);
template npy_intp make_basis_pcon<U,J,P>(B*,npy_intp,npy_intp,U,U[],J[]);
template int general_make_basis_blocks<U,P>(B*,const int,const npy_intp,const U[],npy_intp[],npy_intp[]);
#define INST(T) \\
template int general_op<U,J,npy_int32,T,P>(B*,const int,const char[],const int[],const C,const bool,const npy_intp,const U[],const J[],const npy_intp[],const npy_intp[],const int,npy_intp&,npy_int32[],npy_int32[],T[]); \\
template int general_inplace_op<U,J,T,P>(B*,const bool,const bool,const int,const char[],const int[],const C,const bool,const npy_intp,const npy_intp,const U[],const J[],const npy_intp[],const npy_intp[],const int,const T[],T[]); \\
template int general_op_shift_sectors<U,J,U,J,T,P>(B*,const int,const char[],const int[],const C,const npy_intp,const U[],const J[],const npy_intp,const U[],const J[],const npy_intp,const T[],T[]); \\
template int general_op_bra_ket<U,T,P>(B*,const int,const char[],const int[],const C,const npy_intp,const U[],U[],T[]); \\
template int general_op_bra_ket_pcon<U,T,P>(B*,const int,const char[],const int[],const C,const npy_intp,const std::set<std::vector<int>>&,const U[],U[],T[]); \\
template bool project_from_general_pcon_dense<U,J,T,P>(B*,const U[],const J[],const npy_intp,const npy_intp,const npy_intp,const U[],const T[],T[]); \\
template bool project_from_general_dense<U,J,T,P>(B*,const U[],const J[],const npy_intp,const npy_intp,const npy_intp,const T[],T[]); \\
template bool project_to_general_pcon_dense<U,J,T,P>(B*,const U[],const J[],const npy_intp,const npy_intp,const npy_intp,const U[],const T[],T[]); \\
template bool project_to_general_dense<U,J,T,P>(B*,const U[],const J[],const npy_intp,const npy_intp,const npy_intp,const T[],T[]); \\
template int get_amp_general<U,T,P>(B*,U[],T[],const npy_intp); \\
template int get_amp_general_light<U,T,P>(B*,U[],T[],const npy_intp);
INST(C)
INST(D)
template int general_normalization<U,npy_uint16,P>(B*,U[],npy_uint16[],const npy_intp);
template int general_normalization<U,J,P>(B*,U[],J[],const npy_intp);
template void general_representative<U,P>(B*,const U[],U[],int *,P *,const npy_intp);
}
'''


class Wrong(Exception):
    pass


class Product(object):
    """product of cyclic groups"""

    def __init__(self, pers):
        self.pers = pers
        self.e = (0,) * len(pers)
        self.els = list(itertools.product(*[range(p) for p in pers]))
        self.g = [tuple(int(i == j) for j in range(len(pers))) for i in range(len(pers))]

    def mul(self, x, y):
        return tuple((a + b) % p for a, b, p in zip(x, y, self.pers))

    def close(self, gs):
        s, todo = {self.e}, [self.e]
        while todo:
            x = todo.pop()
            for g in gs:
                y = self.mul(g, x)
                if y not in s:
                    s.add(y)
                    todo.append(y)
        return frozenset(s)

    def subgroups(self):
        out = {self.close(())}
        new = set(out)
        while new:
            nxt = {self.close(tuple(h) + (g,)) for h in new for g in self.els if g not in h}
            new = nxt - out
            out |= new
        return sorted(out, key=lambda h: (len(h), sorted(h)))

    def characters(self, h, signed):
        if not signed:
            return [{x: 1 for x in h}]
        gens, cur = [], self.close(())
        for x in sorted(h):
            if x not in cur:
                gens.append(x)
                cur = self.close(gens)
        out = []
        for sg in itertools.product((1, -1), repeat=len(gens)):
            ch, todo, ok = {self.e: 1}, [self.e], True
            while todo and ok:
                x = todo.pop()
                for g, s in zip(gens, sg):
                    y = self.mul(g, x)
                    if y not in ch:
                        ch[y] = ch[x] * s
                        todo.append(y)
                    elif ch[y] != ch[x] * s:
                        ok = False
            if ok:
                out.append(ch)
        return out


class Orb(object):
    def __init__(self, G, h, ch, base, order, gauge):
        self.G, self.h, self.ch = G, h, ch
        self.rep, self.cos = [], {}
        for g in G.els:
            c = frozenset(G.mul(g, x) for x in h)
            if c not in self.cos:
                self.cos[c] = len(self.rep)
                self.rep.append(g)
        m = self.size = len(self.rep)
        self.e = self.cos[frozenset(h)]
        rest = [i for i in range(m) if i != self.e]
        self.lab = {i: base + p for p, i in zip(order(m), rest)}
        self.lab[self.e] = base + m - 1
        self.gauge = {i: (gauge(i) if i != self.e else 1) for i in range(m)}
        self.tab = {}

    def act(self, g, i):
        r = self.tab.get((g, i))
        if r is None:
            G = self.G
            y = G.mul(g, self.rep[i])
            j = self.cos[frozenset(G.mul(y, x) for x in self.h)]
            inv = next(x for x in self.h if G.mul(self.rep[j], x) == y)
            r = self.tab[g, i] = (j, self.ch[inv] * self.gauge[i] * self.gauge[j])
        return r


class World(object):
    """all orbit types of a group, as numbered states"""

    def __init__(self, pers, signed):
        G = self.G = Product(pers)
        self.signed, self.orbs, self.where = signed, [], {}
        base = k = 0
        for h in G.subgroups():
            for ch in G.characters(h, signed):
                o = Orb(G, h, ch, base, perm(k), (lambda i, k=k: -1 if signed and (i * 7 + k) % 3 == 1 else 1))
                self.orbs.append(o)
                base += o.size
                k += 1
        for o in self.orbs:
            for i, l in o.lab.items():
                self.where[l] = (o, i)
        self.n = base

    def chi(self, q, g):
        """phase with which group element g enters the sector vectors"""
        return cmath.exp(-2j * math.pi * sum(a * b / p for a, b, p in zip(q, g, self.G.pers)))

    def norm(self, o, q):
        """sum of the sector's character over the stabiliser"""
        return sum(self.chi(q, g) * o.ch[g] for g in o.h).real

    def vec(self, o, q, i=None, allow=True):
        """unnormalised sector vector grown from element i: {label: amplitude}"""
        v = {}
        i = o.e if i is None else i
        for g in self.G.els:
            j, s = o.act(g, i)
            v[o.lab[j]] = v.get(o.lab[j], 0) + self.chi(q, g) * s
        return v

    def basis(self, q):
        """[(label, norm, normalised vector)] largest label first"""
        out = []
        for o in self.orbs:
            n = self.norm(o, q)
            if n > 0.5:
                f = 1 / math.sqrt(n * len(self.G.els))
                out.append((o.lab[o.e], int(round(n)), {l: x * f for l, x in self.vec(o, q).items()}))
        return sorted(out, key=lambda x: -x[0])

    def elem(self, q_out, q_in, s, t, m):
        """{representative: amplitude} of the image of the sector vector of s under the symmetrised operator taking s to m t"""
        o, i = self.where[s]
        n_in = self.norm(o, q_in)
        f = m / math.sqrt(n_in * len(self.G.els))
        o2, j = self.where[t]
        n = self.norm(o2, q_out)
        if n < 0.5:
            return {}
        w = self.vec(o2, q_out, j)
        f2 = 1 / math.sqrt(n * len(self.G.els))
        r = sum((x * f2).conjugate() * w[l] * f for l, x in self.vec(o2, q_out).items())
        return {o2.lab[o2.e]: r} if abs(r) > TOL else {}


class Rig(object):
    def __init__(self, W, q, threads, op=None, prefix=None):
        inc = os.path.join(REPO, SRC)
        if not os.path.isdir(inc):
            raise Missing('sources')
        self.tu = cpp.load(inc, TEXT, omp=True)
        self.W, self.q = W, q
        self.m = m = cpp.Omp(self.tu, Path(), 60000000, threads)
        self.cls = self.tu.find('general_basis_core<npy_uint32, npy_int8>') or self.tu.find('general_basis_core<unsigned int')
        self.op = op
        b = self.b = cpp.Obj(self.cls)
        b.f = dict(N=6, nt=len(q), pers=cpp.Ptr(list(W.G.pers), 0), qs=cpp.Ptr(list(q), 0), maps=None, fermionic=W.signed)

        def map_state(mm, o, an, me):
            if len(an) != 3:
                return NotImplemented
            v, d, ph = mm.rv(an[0]), mm.rv(an[1]), mm.ex(an[2])
            if not isint(v) or v not in W.where:
                raise cpp.Fault('symmetry map of %r, which is not a state' % (v,))
            if not 0 <= d < len(q):
                raise cpp.Fault('symmetry map number %r of %d' % (d, len(q)))
            ob, i = W.where[v]
            j, s = ob.act(W.G.g[d], i)
            if s != 1:
                ph.set(mm.O.num(ph.get()) * s)
            return ob.lab[j]

        def opf(mm, o, an, me):
            rl, ml = mm.ex(an[0]), mm.ex(an[1])
            t, x, err = self.op(rl.get())
            if err:
                return err
            rl.set(t)
            ml.set(mm.O.num(ml.get()) * x)
            return 0
        m.intr['.map_state'] = map_state
        m.intr['.op'] = opf
        m.intr['.get_prefix'] = lambda mm, o, an, me: prefix(mm.rv(an[0])) if prefix else 0
        m.intr['.check_pcon'] = lambda mm, o, an, me: self.inside(mm.rv(an[0]))

        def succ(mm, o, an, me):
            v, c = mm.rv(an[0]), mm.rv(an[1]) if len(an) > 1 and an[1].get('kind') != 'CXXDefaultArgExpr' else None
            if v not in self.succ:
                raise cpp.Fault('successor of %r, which is not a state' % (v,))
            # the counter handed to the enumeration is the number of states before this one
            if c is not None and c % len(self.order) != self.order.index(v):
                raise Wrong('the enumeration of states is called with counter %s instead of %d' % (c, self.order.index(v)))
            return self.succ[v]
        m.intr['.next_state_pcon'] = succ
        self.inside = lambda s: True

    def fn(self, name, part=''):
        c = [f for f in self.tu.fn.values() if f.get('name') == name and any(x.get('kind') == 'TemplateArgument' for x in f.get('inner', ()) if x) and part in f['type']['qualType']]
        if part == 'double *':
            c = [f for f in c if 'complex<double> *' not in f['type']['qualType'].replace('> *', '> *')]
        if not c:
            raise Missing(name)
        return c[0]

    def call(self, name, *args, part=''):
        self.m.steps = 0
        return self.m.call(self.fn(name, part), list(args))

    def out(self, n, v=None):
        return cpp.Ptr([cpp.UNDEF if v is None else v] * n, 0)


def ar(xs):
    return cpp.Ptr(list(xs), 0)


def val(r, x, what):
    if x is cpp.UNDEF:
        raise Wrong('%s is left unset' % what)
    x = r.m.O.num(x)
    if not isinstance(x, (bool, int, float, complex)):
        raise Undecided('%s %r' % (what, x))
    return x


def T(real):
    return 'double *' if real else 'complex<double> *'


def isreal(W, q):
    return all((2 * a) % p == 0 for a, p in zip(q, W.G.pers))


def num(x):
    x = complex(x)
    return '%.4g' % x.real if abs(x.imag) < 1e-12 else '%.4g%+.4gi' % (x.real, x.imag)


def types(o):
    return 'stabiliser %s' % (sorted(o.h),) + (' signs %s' % [o.ch[g] for g in sorted(o.h)] if -1 in o.ch.values() else '')


# ---------------------------------------------------------------- the clauses
def c_basis(W, q, threads):
    exp = [(l, n) for l, n, v in W.basis(q)]
    for name in ('make_basis', 'make_basis_sequential', 'make_basis_parallel', 'make_basis_pcon', 'make_basis_pcon_sequential', 'make_basis_pcon_parallel'):
        pcon = 'pcon' in name
        for room in (len(exp) + 3, len(exp), len(exp) - 1):
            if room < 1:
                continue
            r = Rig(W, q, threads)
            labs = sorted(W.where)
            start = ()
            if pcon:
                r.succ, r.order = {x: y for x, y in zip(labs, labs[1:] + labs[:1])}, labs
                start = (labs[0],)
            B, N = r.out(room), r.out(room)
            ns = r.call(name, r.b, len(labs), room, *(start + (B, N)))
            if room < len(exp):
                if ns != -1:
                    raise Wrong('%s does not report that the arrays are too small' % name)
                continue
            if ns == -1 and room == len(exp) < len(labs):
                continue        # room for every state: refusing before the scan is complete is allowed
            if ns != len(exp):
                raise Wrong('%s finds %s states instead of %d' % (name, ns, len(exp)))
            got = [(val(r, a, 'a basis entry'), val(r, b, 'a norm')) for a, b in zip(B.a[:ns], N.a[:ns])]
            if got != exp:
                k = next(i for i in range(ns) if got[i] != exp[i])
                raise Wrong('%s: entry %d is (state %d, norm %d) instead of (%d, %d)' % ((name, k) + got[k] + exp[k]))
    return '%d states' % len(exp)


def blocks(W, q, width):
    """block boundaries of the reduced basis by prefix"""
    basis = [l for l, n, v in W.basis(q)]
    top = (W.n - 1) // width + 1
    b, e = [-1] * top, [-1] * top
    for i, l in enumerate(basis):
        p = l // width
        if b[p] < 0:
            b[p] = i
        e[p] = i + 1
    return basis, b, e


def c_blocks(W, q, threads):
    for width in (1, 3, 1000):
        basis, b, e = blocks(W, q, width)
        r = Rig(W, q, threads, prefix=lambda s: s // width)
        B, E = r.out(len(b), -1), r.out(len(b), -1)
        if r.call('general_make_basis_blocks', r.b, 2, len(basis), ar(basis), B, E) != 0:
            raise Wrong('block table refused')
        if (B.a, E.a) != (b, e):
            k = next(i for i in range(len(b)) if (B.a[i], E.a[i]) != (b[i], e[i]))
            raise Wrong('block %d of the table is [%s, %s) instead of [%s, %s)' % (k, B.a[k], E.a[k], b[k], e[k]))
    B, E = r.out(1, -1), r.out(1, -1)
    if r.call('general_make_basis_blocks', r.b, 0, len(basis), ar(basis), B, E) != 0 or (B.a, E.a) != ([0], [len(basis)]):
        raise Wrong('table without prefix is [%s, %s)' % (B.a[0], E.a[0]))
    return ''


def targets(W, basis):
    """maps taking every representative to states of every orbit type, itself and members of its own orbit included"""
    labs = sorted(W.where)
    n = len(labs)
    own = {}
    for l in basis:
        o, i = W.where[l]
        own[l] = [o.lab[(o.e + k) % o.size] for k in range(o.size)]
    deep = max(len(v) for v in own.values()) if own else 0
    for k in range(deep):
        yield {l: v[k % len(v)] for l, v in own.items()}
    step = max(1, n // 24)
    for d in range(0, n, step):
        yield {l: labs[(i * 5 + l + d) % n] for i, l in enumerate(basis)}


COEF = (1.0, 2.0 - 0.5j, -0.75, 1j)


def plan(W, q, real, basis):
    for k, t in enumerate(targets(W, basis)):
        x = [1.5, -0.5, 10.0][k % 3] if real else COEF[k % 4]
        A = 2.0 if real else (1.0 - 0.25j if k % 2 else 2.0)
        yield t, x, A


def c_op(W, q, threads, real):
    bas = W.basis(q)
    basis, n = [x[0] for x in bas], [x[1] for x in bas]
    pos = {l: i for i, l in enumerate(basis)}
    Ns = len(basis)
    cnt = 0
    for k, (t, x, A) in enumerate(plan(W, q, real, basis)):
        want = {}
        for i, s in enumerate(basis):
            for rr, y in W.elem(q, q, s, t[s], x * A).items():
                want[pos[rr], i] = y
        width = (4, 1000, 1)[k % 3]
        bb, b, e = blocks(W, q, width)
        for N_p in (0, 2):
            r = Rig(W, q, threads, op=lambda s: (t[s], x, 0), prefix=lambda s: s // width)
            b_, e_ = (b, e) if N_p else ([0], [Ns])
            row, col, M, me = r.out(Ns), r.out(Ns), r.out(Ns), cpp.LV({0: 0}, 0)
            err = r.call('general_op', r.b, 1, ar([122]), ar([0]), A, False, Ns, ar(basis), ar(n), ar(b_), ar(e_), N_p, me, row, col, M, part=T(real))
            if err:
                raise Wrong('matrix elements refused with status %s (coefficient %s)' % (err, num(x * A)))
            got = {}
            for a_, b2, y in zip(row.a, col.a, M.a):
                y = val(r, y, 'a matrix element')
                if y == y and abs(y) > TOL:
                    key = (val(r, a_, 'a row'), val(r, b2, 'a column'))
                    got[key] = got.get(key, 0) + y
            differ(W, basis, t, want, got, 'reduced operator' + (' with look-up blocks' if N_p else ''))
            cnt += len(want)
    return '%d elements' % cnt


def differ(W, basis, t, want, got, what):
    for key in sorted(set(want) | set(got)):
        if abs(want.get(key, 0) - got.get(key, 0)) > TOL * (1 + abs(want.get(key, 0))):
            s = basis[key[1]]
            raise Wrong('%s: element %s instead of %s between the sectors of %s and %s' % (what, num(got.get(key, 0)), num(want.get(key, 0)), types(W.where[s][0]), types(W.where[t[s]][0])))


def c_inplace(W, q, threads, real):
    bas = W.basis(q)
    basis, n = [x[0] for x in bas], [x[1] for x in bas]
    pos = {l: i for i, l in enumerate(basis)}
    Ns, nv = len(basis), 2
    cnt = 0
    plans = list(plan(W, q, real, basis))
    for k, (t, x, A) in enumerate(plans):
        M = {}
        for i, s in enumerate(basis):
            for rr, y in W.elem(q, q, s, t[s], x * A).items():
                M[pos[rr], i] = y
        tr, cj, N_p = k & 1, (k >> 1) & 1, 2 * ((k // 3) % 2)
        width = (4, 1000, 1)[k % 3]
        bb, b, e = blocks(W, q, width)
        b, e = (b, e) if N_p else ([0], [Ns])
        r = Rig(W, q, threads, op=lambda s: (t[s], x, 0), prefix=lambda s: s // width)
        vin = [(0.5 + i - 3 * c) * (1 if real else (1 + 0.5j * (i % 3))) for i in range(Ns) for c in range(nv)]
        vout = ar([0.0 if real else 0j] * (Ns * nv))
        err = r.call('general_inplace_op', r.b, bool(cj), bool(tr), 1, ar([122]), ar([0]), A, False, Ns, nv, ar(basis), ar(n), ar(b), ar(e), N_p, ar(vin), vout, part=T(real))
        if err:
            raise Wrong('operator application refused with status %s (coefficient %s)' % (err, num(x * A)))
        want = [0] * (Ns * nv)
        for (a, c), y in M.items():
            y = y.conjugate() if cj else y
            a, c = (c, a) if tr else (a, c)
            for v in range(nv):
                want[a * nv + v] += y * vin[c * nv + v]
        for i in range(Ns * nv):
            g = val(r, vout.a[i], 'a component')
            if abs(g - want[i]) > TOL * (1 + abs(want[i])):
                raise Wrong('applied operator (transpose %d, conjugate %d): component %s instead of %s' % (tr, cj, num(g), num(want[i])))
        cnt += 1
    return '%d applications' % cnt


def c_shift(W, q, q2, threads, real):
    bi, bo = W.basis(q2), W.basis(q)
    inn, out = [x[0] for x in bi], [x[0] for x in bo]
    pos = {l: i for i, l in enumerate(out)}
    cnt = 0
    for t, x, A in plan(W, q, real, inn):
        r = Rig(W, q, threads, op=lambda s: (t[s], x, 0))
        nv = 2
        vin = [(0.5 + i - 3 * c) * (1 if real else (1 + 0.5j * (i % 3))) for i in range(len(inn)) for c in range(nv)]
        want = [0] * (len(out) * nv)
        for i, s in enumerate(inn):
            for rr, y in W.elem(q, q2, s, t[s], x * A).items():
                for v in range(nv):
                    want[pos[rr] * nv + v] += y * vin[i * nv + v]
        vout = ar([0.0 if real else 0j] * (len(out) * nv))
        err = r.call('general_op_shift_sectors', r.b, 1, ar([122]), ar([0]), A, len(out), ar(out), ar([x_[1] for x_ in bo]), len(inn), ar(inn), ar([x_[1] for x_ in bi]), nv, ar(vin), vout, part=T(real))
        if err:
            raise Wrong('refused with status %s' % err)
        for i in range(len(want)):
            g = val(r, vout.a[i], 'a component')
            if abs(g - want[i]) > TOL * (1 + abs(want[i])):
                raise Wrong('component of the image in the other sector is %s instead of %s' % (num(g), num(want[i])))
        cnt += 1
    return '%d applications' % cnt


def c_braket(W, q, threads, real, pcon):
    basis = [x[0] for x in W.basis(q)]
    half = W.n // 2
    cnt = 0
    for t, x, A in plan(W, q, real, basis):
        r = Rig(W, q, threads, op=lambda s: (t[s], x, 0))
        inside = (lambda s: s >= half) if pcon else (lambda s: True)
        r.inside = inside
        kets = ar(basis)
        bra, M = r.out(len(basis)), r.out(len(basis), 0.0 if real else 0j)
        a = (r.b, 1, ar([122]), ar([0]), A, len(basis)) + ((ar([ar([1])]),) if pcon else ()) + (kets, bra, M)
        err = r.call('general_op_bra_ket' + ('_pcon' if pcon else ''), *a, part=T(real))
        if err:
            raise Wrong('refused with status %s (coefficient %s)' % (err, num(x * A)))
        for i, s in enumerate(basis):
            w = W.elem(q, q, s, t[s], x * A)
            o2 = W.where[t[s]][0]
            if t[s] != s and not inside(o2.lab[o2.e]):
                w = {}
            y = val(r, M.a[i], 'a matrix element')
            b = val(r, bra.a[i], 'a bra state')
            got = {b: y} if y == y and y != 0 else {}
            if set(got) != set(w) or any(abs(got[z] - w[z]) > TOL * (1 + abs(w[z])) for z in w):
                raise Wrong('element %s instead of %s between the sectors of %s and %s' % (got and num(list(got.values())[0]), w and num(list(w.values())[0]), types(W.where[s][0]), types(o2)))
            cnt += 1
    return '%d elements' % cnt


def c_project(W, q, threads, real, pcon):
    bas = W.basis(q)
    basis, n = [x[0] for x in bas], [x[1] for x in bas]
    Ns, full = len(basis), W.n
    labs = sorted(W.where, reverse=True)
    nv = 2
    for k in range(Ns):
        pass
    vin = [(0.5 + i - 3 * c) * (1 if real else (1 + 0.5j * (i % 3))) for i in range(Ns) for c in range(nv)]
    want = [0] * (full * nv)
    for i, (l, n_, v) in enumerate(bas):
        for lab, x in v.items():
            for c in range(nv):
                want[labs.index(lab) * nv + c] += x * vin[i * nv + c]
    z = 0.0 if real else 0j
    pc = (ar(labs),) if pcon else ()
    suf = '_pcon_dense' if pcon else '_dense'
    r = Rig(W, q, threads)
    out = ar([z] * (full * nv))
    if not r.call('project_from_general' + suf, r.b, ar(basis), ar(n), nv, Ns, full, *(pc + (ar(vin), out)), part=T(real)):
        raise Wrong('lifting refused')
    for i in range(full * nv):
        g = val(r, out.a[i], 'a component')
        if abs(g - want[i]) > TOL:
            raise Wrong('lifted amplitude %s instead of %s for a state with %s' % (num(g), num(want[i]), types(W.where[labs[i // nv]][0])))
    win = [(0.25 + i - 2 * c) * (1 if real else (1 - 0.5j * (i % 5))) for i in range(full) for c in range(nv)]
    back = [0] * (Ns * nv)
    for i, (l, n_, v) in enumerate(bas):
        for lab, x in v.items():
            for c in range(nv):
                back[i * nv + c] += complex(x).conjugate() * win[labs.index(lab) * nv + c]
    r = Rig(W, q, threads)
    out = ar([z] * (Ns * nv))
    if not r.call('project_to_general' + suf, r.b, ar(basis), ar(n), nv, Ns, full, *(pc + (ar(win), out)), part=T(real)):
        raise Wrong('projection refused')
    for i in range(Ns * nv):
        g = val(r, out.a[i], 'a component')
        if abs(g - back[i]) > TOL * (1 + abs(back[i])):
            raise Wrong('projected component %s instead of %s for a representative with %s' % (num(g), num(back[i]), types(W.where[basis[i // nv]][0])))
    return '%d vectors' % Ns


def c_amp(W, q, threads, real):
    vecs = {l: v for l, n, v in W.basis(q)}
    labs = sorted(W.where)
    r = Rig(W, q, threads)
    s, out = ar(labs), r.out(len(labs), 0.0 if real else 0j)
    if r.call('get_amp_general', r.b, s, out, len(labs), part=T(real)):
        raise Wrong('amplitudes refused')
    for i, l in enumerate(labs):
        o, j = W.where[l]
        top = o.lab[o.e]
        if s.a[i] != top:
            raise Wrong('the representative of a state with %s is replaced by another state' % types(o))
        w = vecs.get(top, {}).get(l, 0)
        g = val(r, out.a[i], 'an amplitude')
        if abs(g - w) > 1e-9 * (1 + abs(w)):
            raise Wrong('amplitude %s instead of %s for a state with %s' % (num(g), num(w), types(o)))
    reps = sorted(vecs)
    r = Rig(W, q, threads)
    s, out = ar(reps), r.out(len(reps), 0.0 if real else 0j)
    if r.call('get_amp_general_light', r.b, s, out, len(reps), part=T(real)):
        raise Wrong('amplitudes of representatives refused')
    for i, l in enumerate(reps):
        g = val(r, out.a[i], 'an amplitude')
        if s.a[i] != l or abs(g - vecs[l][l]) > 1e-9:
            raise Wrong('amplitude %s instead of %s for a representative with %s' % (num(g), num(vecs[l][l]), types(W.where[l][0])))
    return '%d states' % len(labs)


def c_rep(W, q, threads):
    labs = sorted(W.where)
    labs = labs[1::2] + labs[::2][::-1]
    nt = len(q)
    signs = None
    for g_out in (1, 0):
        for ph in (1, 0):
            r = Rig(W, q, threads)
            R, g, p = r.out(len(labs)), r.out(len(labs) * nt, 0), r.out(len(labs), 0)
            r.call('general_representative', r.b, ar(labs), R, g if g_out else None, p if ph else None, len(labs))
            for i, l in enumerate(labs):
                o, j = W.where[l]
                if val(r, R.a[i], 'a representative') != o.lab[o.e]:
                    raise Wrong('wrong representative for a state with %s' % types(o))
                if g_out:
                    gg = tuple(val(r, x, 'a group element') for x in g.a[i * nt:(i + 1) * nt])
                    jj, s = o.act(tuple(x % y for x, y in zip(gg, W.G.pers)), j)
                    if jj != o.e:
                        raise Wrong('the reported maps do not lead to the representative')
                    if ph and val(r, p.a[i], 'a sign') != s:
                        raise Wrong('wrong sign for a state with %s' % types(o))
            if ph:
                got = [val(r, x, 'a sign') for x in p.a]
                if signs is not None and got != signs:
                    raise Wrong('the signs of the representatives depend on whether the group elements are asked for')
                signs = got
    exp = {l: n for l, n, v in W.basis(q)}
    tot = len(W.G.els)
    r = Rig(W, q, threads)
    n = r.out(len(labs))
    if r.call('general_normalization', r.b, ar(labs), n, len(labs), part='unsigned short *'):
        raise Wrong('normalisation refused')
    for i, l in enumerate(labs):
        w = exp.get(l, 0) * tot
        if val(r, n.a[i], 'a normalisation') != w:
            raise Wrong('normalisation %s instead of %s for a state with %s' % (n.a[i], w, types(W.where[l][0])))
    if not any(q) and threads == 1:
        c_width()
    return '%d states' % len(labs)


def c_width():
    """normalisations that do not fit the array are refused"""
    W = World((16,), False)
    q = (0,)
    full = {l: n * 16 for l, n, v in W.basis(q)}
    small = [l for l in sorted(W.where) if full.get(l, 0) < 256]
    for labs, ok in ((small, True), (sorted(W.where), False)):
        r = Rig(W, q, 1)
        n = r.out(len(labs), 0)
        err = r.call('general_normalization', r.b, ar(labs), n, len(labs), part='unsigned char *')
        if ok and (err or any(val(r, x, 'a normalisation') != full.get(l, 0) for x, l in zip(n.a, labs))):
            raise Wrong('normalisations of up to 255 do not fit an array of bytes')
        if not ok and not err:
            raise Wrong('a normalisation of 256 is stored in an array of bytes without an error')


def c_status(W, q, threads, real):
    """a failing operator or a complex element in a real array is reported"""
    bas = W.basis(q)
    basis, n = [x[0] for x in bas], [x[1] for x in bas]
    Ns = len(basis)
    z = 0.0 if real else 0j

    def each(opf, A):
        def rig():
            return Rig(W, q, threads, op=opf)
        r = rig()
        yield 'matrix elements', r.call('general_op', r.b, 1, ar([122]), ar([0]), A, False, Ns, ar(basis), ar(n), ar([0]), ar([Ns]), 0, cpp.LV({0: 0}, 0), r.out(Ns), r.out(Ns), r.out(Ns), part=T(real))
        r = rig()
        yield 'application', r.call('general_inplace_op', r.b, False, False, 1, ar([122]), ar([0]), A, False, Ns, 1, ar(basis), ar(n), ar([0]), ar([Ns]), 0, ar([1.0] * Ns), ar([z] * Ns), part=T(real))
        r = rig()
        yield 'application between sectors', r.call('general_op_shift_sectors', r.b, 1, ar([122]), ar([0]), A, Ns, ar(basis), ar(n), Ns, ar(basis), ar(n), 1, ar([1.0] * Ns), ar([z] * Ns), part=T(real))
        r = rig()
        yield 'bra and ket', r.call('general_op_bra_ket', r.b, 1, ar([122]), ar([0]), A, Ns, ar(basis), r.out(Ns, 0), r.out(Ns, z), part=T(real))
        r = rig()
        yield 'bra and ket of a fixed number', r.call('general_op_bra_ket_pcon', r.b, 1, ar([122]), ar([0]), A, Ns, ar([ar([1])]), ar(basis), r.out(Ns, 0), r.out(Ns, z), part=T(real))
    for bad in (basis[0], basis[-1]):
        for what, err in each(lambda s: (s, 1.0, -1 if s == bad else 0), 1.0):
            if err != -1:
                raise Wrong('%s: the status of a failing operator is %s' % (what, err))
    if real:
        for bad in (basis[0], basis[-1]):
            for what, err in each(lambda s: (s, 0.5j if s == bad else 1.0, 0), 1.0):
                if err != 1:
                    raise Wrong('%s: a complex element in a real array gives status %s' % (what, err))
    return ''


def c_free(W, threads, real):
    """without symmetries: whole space and an arbitrary set of states"""
    labs = sorted(W.where, reverse=True)
    z = 0.0 if real else 0j
    cnt = 0
    for full, N_p in ((True, 0), (False, 0), (False, 2)):
        basis = labs if full else labs[::2]
        pos = {l: i for i, l in enumerate(basis)}
        Ns = len(basis)
        width = 3
        top = (W.n - 1) // width + 1
        b, e = [-1] * top, [-1] * top
        for i, l in enumerate(basis):
            p = l // width
            b[p] = i if b[p] < 0 else b[p]
            e[p] = i + 1
        if not N_p:
            b, e = [0], [Ns]
        for d in (0, 1, 2, 5):
            t = {l: labs[(i * 3 + d) % len(labs)] if d else l for i, l in enumerate(labs)}
            x, A = (1.5, -2.0) if real else (1j, 1.0 - 0.5j)
            want = {(pos[t[s]], i): x * A for i, s in enumerate(basis) if t[s] in pos}
            for who in ('general_op', 'general_inplace_op'):
                r = Rig(W, (), threads, op=lambda s: (t[s], x, 0), prefix=lambda s: s // width)
                if who == 'general_op':
                    row, col, M = r.out(Ns), r.out(Ns), r.out(Ns)
                    err = r.call(who, r.b, 1, ar([122]), ar([0]), A, full, Ns, ar(basis), ar([1] * Ns), ar(b), ar(e), N_p, cpp.LV({0: 0}, 0), row, col, M, part=T(real))
                    got = {}
                    for a_, c_, y in zip(row.a, col.a, M.a):
                        y = val(r, y, 'a matrix element')
                        if y == y and abs(y) > TOL:
                            got[val(r, a_, 'a row'), val(r, c_, 'a column')] = y
                    if err or set(got) != set(want) or any(abs(got[k] - want[k]) > TOL for k in want):
                        raise Wrong('%d of %d elements of an operator on %s are wrong' % (len([k for k in want if abs(got.get(k, 0) - want[k]) > TOL]), len(want), 'the whole space' if full else 'a set of states'))
                    cnt += len(want)
                    continue
                for tr, cj in ((0, 0), (1, 0), (0, 1), (1, 1)):
                    r = Rig(W, (), threads, op=lambda s: (t[s], x, 0), prefix=lambda s: s // width)
                    vin = [(0.5 + i) * (1 if real else (1 + 0.5j * (i % 3))) for i in range(Ns)]
                    vout = ar([z] * Ns)
                    err = r.call(who, r.b, bool(cj), bool(tr), 1, ar([122]), ar([0]), A, full, Ns, 1, ar(basis), ar([1] * Ns), ar(b), ar(e), N_p, ar(vin), vout, part=T(real))
                    w = [0] * Ns
                    for (a_, c_), y in want.items():
                        y = complex(y).conjugate() if cj else y
                        a_, c_ = (c_, a_) if tr else (a_, c_)
                        w[a_] += y * vin[c_]
                    if err or any(abs(val(r, g, 'a component') - v) > TOL for g, v in zip(vout.a, w)):
                        raise Wrong('operator application (transpose %d, conjugate %d) on %s is wrong' % (tr, cj, 'the whole space' if full else 'a set of states'))
                    cnt += 1
    return '%d' % cnt


GROUPS = [(2,), (3,), (4,), (2, 2), (3, 2), (4, 2), (3, 3), (2, 2, 2), (6,), (6, 2), (3, 2, 2), (4, 4)]
WHERE = {'basis': 'make_general_basis.h', 'blocks': 'make_general_basis.h', 'op': 'general_basis_op.h', 'apply': 'general_basis_op.h', 'shift': 'general_basis_op.h', 'braket': 'general_basis_op.h',
         'braket-number': 'general_basis_op.h', 'project': 'general_basis_get_vec.h', 'project-number': 'general_basis_get_vec.h', 'amplitude': 'general_basis_get_amp.h',
         'representative': 'general_basis_rep.h', 'status': 'general_basis_op.h', 'free': 'general_basis_op.h'}


def scenarios(tier):
    deep = tier == 'thorough'
    out = []
    for pers in GROUPS:
        if not deep and pers in ((4, 4), (6, 2), (3, 2, 2)):
            continue
        for signed in (False, True):
            W = World(pers, signed)
            if W.n > 90 and not deep:
                continue
            qs = list(itertools.product(*[range(p) for p in pers]))
            # a sector and its complex conjugate behave alike: keep one of each pair in the quick tier
            if not deep:
                qs = [q for q in qs if q <= tuple((-a) % p for a, p in zip(q, pers))]
            for k, q in enumerate(qs):
                for th in (1, 3):
                    if th == 3 and not deep and (k + signed) % 2:
                        continue
                    out.append((pers, signed, q, th))
    return out


def clauses(W, q, th):
    real = isreal(W, q)
    yield 'basis', lambda: c_basis(W, q, th)
    yield 'representative', lambda: c_rep(W, q, th)
    if not W.basis(q):
        return
    yield 'blocks', lambda: c_blocks(W, q, th)
    for rl in ((False, True) if real else (False,)):
        sfx = ' real' if rl else ''
        yield 'op' + sfx, lambda: c_op(W, q, th, rl)
        yield 'apply' + sfx, lambda: c_inplace(W, q, th, rl)
        yield 'braket' + sfx, lambda: c_braket(W, q, th, rl, False)
        yield 'braket-number' + sfx, lambda: c_braket(W, q, th, rl, True)
        yield 'project' + sfx, lambda: c_project(W, q, th, rl, False)
        yield 'project-number' + sfx, lambda: c_project(W, q, th, rl, True)
        yield 'amplitude' + sfx, lambda: c_amp(W, q, th, rl)
        yield 'status' + sfx, lambda: c_status(W, q, th, rl)
        for k in range(len(q) + 1):
            q2 = tuple((a + (k == j or k == 0)) % p for j, (a, p) in enumerate(zip(q, W.G.pers)))
            if k and len(q) == 1:
                continue
            if rl and not isreal(W, q2):
                continue
            yield 'shift%s' % sfx, lambda: c_shift(W, q, q2, th, rl)
            if th == 3:
                break
        yield 'shift' + sfx, lambda: c_shift(W, q, q, th, rl)
    if not any(q):
        yield 'free', lambda: c_free(W, th, False)
        yield 'free real', lambda: c_free(W, th, True)


def run_lattice(prog, it):
    pers, signed, q, th = it
    W = World(pers, signed)
    where = 'cycles=%s sector=%s %s threads=%d' % ('x'.join(map(str, pers)), ','.join(map(str, q)), 'signed' if signed else 'unsigned', th)
    for name, f in clauses(W, q, th):
        rule = name.split()[0]
        lab = '%s %s' % (name, where)
        loc = '%s/%s' % (SRC, WHERE.get(rule, ''))
        try:
            r = f()
            yield (rule, lab, 'held', '', r or '', None)
        except Wrong as e:
            yield (rule, lab, 'violated', 'wrong value', str(e), loc)
        except cpp.Fault as e:
            yield (rule, lab, 'violated', 'fault', str(e), loc)
        except Undecided as e:
            if 'uninitialised' in str(e):
                yield (rule, lab, 'violated', 'uninitialised', 'an uninitialised value is read', loc)
            else:
                yield (rule, lab, 'undecided', 'Undecided %s' % e, '', None)
        except (Missing, RecursionError, RuntimeError) as e:
            yield (rule, lab, 'undecided', '%s %s' % (type(e).__name__, e), '', None)
