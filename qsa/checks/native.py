"""What the compiled cores do to a product state (operator strings, symmetry maps), by abstract interpretation of their sources."""
import itertools
import os
import re
from .. import pyx
from ..program import REPO
from ..native import cpp, cyt
from ..native.dom import *
from ..native.cpp import CppExc
from . import symm

D1 = 'quspin/basis/basis_1d/_basis_1d_core'
DG = 'quspin/basis/basis_general/_basis_general_core/source'
CORES = ('hcb_basis_core', 'spinless_fermion_basis_core', 'spinful_fermion_basis_core', 'boson_basis_core', 'higher_spin_basis_core', 'two_hcb_basis_core', 'local_pcon_basis_core')
WID = {32: ('npy_uint32', 'NP_UINT32_t'), 64: ('npy_uint64', 'NP_UINT64_t'), 0: (None, 'object')}
EPS = 1e-9


class Missing(Exception):
    """a construct the rule is anchored to is not there"""


def tu():
    inc = os.path.join(REPO, DG)
    text = ''
    for c in CORES:
        f = os.path.join(inc, c + '.h')
        if os.path.isfile(f):
            text += '#include "%s.h"\n' % c
    for c in CORES[:5]:
        if os.path.isfile(os.path.join(inc, c + '.h')):
            for w in ('npy_uint32', 'npy_uint64'):
                text += 'template class basis_general::%s<%s>;\n' % (c, w)
    return cpp.load(inc, text)


def bitcounter():
    """bitcount.h as functions of a machine"""
    inc = os.path.join(REPO, D1, 'sources')
    if not os.path.isfile(os.path.join(inc, 'bitcount.h')):
        raise Missing('bitcount.h')
    return cpp.load(inc, '#include "bitcount.h"\n', 'bitcount')


def machine(mod, P, bt, mt='double complex'):
    f = os.path.join(REPO, D1, mod + '.pyx')
    if not os.path.isfile(f):
        raise Missing(mod)
    ix = cyt.index(pyx.load(f, REPO))
    m = cyt.Mach(ix, P, {'basis_type': bt, 'matrix_type': mt, 'scalar_type': 'double complex', 'N_type': 'NP_INT32_t', 'M1_type': 'NP_UINT32_t', 'M2_type': 'NP_UINT32_t'})

    def count(name):
        def f(m, a):
            t = bitcounter()
            k = cpp.Machine(t, P)
            fn = [x for x in t.fn.values() if x.get('name') == name]
            if not fn:
                raise Missing(name)
            return k.call(fn[0], list(a)), (True, 32)
        return f
    for n in ('bitcount_32_C', 'bitcount_64_C'):
        m.intr[n] = count(n)
    return m


# ------------------------------------------------------------------ states
class Sys(object):
    """n sites of d levels; fermionic sites anticommute"""

    def __init__(self, n, d=2, fermi=False, spinme=False):
        self.n, self.d, self.fermi, self.spinme = n, d, fermi, spinme

    def state(self, tag=''):
        """one unknown product state: (machine word, list of site contents)"""
        n = self.n
        if self.d == 2:
            v = [pvar('%s%d' % (tag or 's', i)) for i in range(n)]
            return Bits([v[n - 1 - k] for k in range(n)]), v
        v = [Digit('%s%d' % (tag or 's', i), self.d) for i in range(n)]
        return Lin(0, {v[i]: self.d ** (n - 1 - i) for i in range(n)}), v

    def word(self, P, v):
        n = self.n
        if self.d == 2:
            return P.norm(Bits([v[n - 1 - k] for k in range(n)]))
        c, t = 0, {}
        for i, x in enumerate(v):
            w = self.d ** (n - 1 - i)
            if isinstance(x, tuple):          # ('flip', digit)
                c, x, w = c + w * (self.d - 1), x[1], -w
            if isinstance(x, Digit):
                t[x] = t.get(x, 0) + w
            else:
                c += w * x
        return P.norm(Lin(c, t))


def apply(P, sy, v, word, sites):
    """reference: operator word (rightmost letter first) on site contents v -> (coefficient, contents) or None when annihilated"""
    v, c, ph = list(v), 1.0, ZERO
    S = (sy.d - 1) / 2.0
    for l, i in reversed(list(zip(word, sites))):
        if l == 'I':
            continue
        if sy.d == 2 and not isinstance(v[i], (int, Digit)):
            b = P.red(v[i])
            jw = ZERO
            if sy.fermi and l in '+-xy':
                for k in range(i + 1, sy.n):
                    jw = jw ^ v[k]
            if l == 'z':
                c, ph = c * 0.5, ph ^ b ^ ONE
            elif l == 'x':
                c, ph, v[i] = c * 0.5, ph ^ jw, b ^ ONE
            elif l == 'y':
                c, ph, v[i] = c * 0.5j, ph ^ b ^ ONE ^ jw, b ^ ONE
            elif l == 'n':
                if not P.truth(b):
                    return None
                v[i] = ONE
            else:
                if P.truth(b) == (l == '+'):
                    return None
                ph, v[i] = ph ^ jw, ONE if l == '+' else ZERO
        else:
            o = v[i] if isinstance(v[i], int) else P.digit(v[i])
            if l == 'z':
                c *= o - S
            elif l == 'n':
                c *= o
            elif l == '+':
                if o + 1 >= sy.d:
                    return None
                c *= ((o + 1) * (sy.d - 1 - o if sy.spinme else 1)) ** 0.5
                o += 1
            elif l == '-':
                if o == 0:
                    return None
                c *= (o * (sy.d - o if sy.spinme else 1)) ** 0.5
                o -= 1
            v[i] = o
            if c == 0:
                return None
    return (Ph(c, ph), v)


def decided(P, v):
    """number represented by v on this path (splits if needed)"""
    v = P.norm(v)
    if not isinstance(v, (int, float, complex)):
        v = Ops(P).concretize(v)
    return v


def same(P, x, y):
    x, y = P.norm(x), P.norm(y)
    if isinstance(x, Ph) and isinstance(y, Ph) and x.p == y.p:
        return abs(x.c - y.c) < EPS
    if isinstance(x, Ph) and isinstance(y, Ph) and abs(abs(x.c) - abs(y.c)) > EPS:
        return False
    x, y = decided(P, x), decided(P, y)
    return abs(x - y) < EPS


def show(P):
    d = dict(P.val)
    d.update(P.dig)
    s = ', '.join('%s=%s' % (getattr(k, 'name', k), v) for k, v in sorted(d.items(), key=lambda x: str(x[0]))[:10])
    return 'for %s' % (s or 'every state')


def verdicts(fn, maxpaths=3000):
    """run fn(P) -> None (as specified) or a message; first message of a violating partition"""
    n = 0
    for P, r in explore(lambda P: (fn(P),), maxpaths):
        n += 1
        if r[0]:
            return '%s %s' % (r[0], show(P)), n
    return None, n


def check_act(P, sy, v, got, me, word, sites, J):
    """compare one result with the reference"""
    ref = apply(P, sy, v, word, sites)
    if ref is None:
        z = decided(P, me)
        if z != z or abs(z) > EPS:
            return 'matrix element %r instead of 0' % (z,)
        try:
            g = tolin(P.norm(got))
            if g.lo() < 0 or g.hi() >= sy.d ** sy.n:
                return 'annihilated state leaves the range of states'
        except Undecided:
            pass
        return None
    c, w = ref
    want = Ph(c.c * J, c.p)
    if not same(P, me, want):
        return 'matrix element %s instead of %s' % (val(P, me), val(P, want))
    if not sameword(P, got, sy.word(P, w)):
        return 'wrong final state'
    return None


def val(P, v):
    v = P.norm(v)
    return repr(v) if isinstance(v, (int, float, complex)) else 'a wrong sign'


def sameword(P, x, y):
    x, y = P.norm(x), P.norm(y)
    try:
        a, b = tobits(x), tobits(y)
        return a.b == b.b or all(P.red(p ^ q) == ZERO for p, q in itertools.zip_longest(a.b, b.b, fillvalue=ZERO)) or split(P, a, b)
    except Undecided:
        d = ladd(tolin(x), tolin(y), -1)
        if not d.t:
            return d.c == 0
        if all(isinstance(k, Digit) for k in d.t):      # independent digits: a non-trivial linear form vanishes only by chance
            return False
        return decided(P, x) == decided(P, y)


def split(P, a, b):
    for p, q in itertools.zip_longest(a.b, b.b, fillvalue=ZERO):
        if P.truth(p ^ q):
            return False
    return True


# ------------------------------------------------------------------ constructors: parameter arrays handed to the compiled code
_PARS = {}


def params(prog, src):
    """(chain length, parameter list) the Python constructor hands to the compiled basis module"""
    if src in _PARS:
        return _PARS[src]
    c, S = symm.client(prog)
    old, got = c.I.hooks['native'], []

    def nat(I, path, args, kw, S, node):
        if '_basis_1d_core.' in path and path.endswith('basis'):
            arrs = []
            for a in args:
                if isinstance(a, symm.Ref):
                    o = S.g(a)
                    it = getattr(o, 'items', None)
                    if it is not None and not callable(it):
                        arrs.append(list(it))
            got.append(arrs)
        return old(I, path, args, kw, S, node)
    c.I.hooks['native'] = nat
    c.run(S, 'b = ' + src)
    c.I.hooks['native'] = old
    arrs = [x for g in got for x in g]
    cand = []
    for x in arrs:
        y = [getattr(e, 'v', e) for e in x]
        if y and all(isinstance(e, int) for e in y) and y not in cand:
            cand.append(y)
    if len(cand) != 1:
        raise Missing('parameters of %s: %d candidates' % (src, len(cand)))
    _PARS[src] = cand[0]
    return cand[0]


def letters(fam):
    return {'spin': 'Izxyn+-', 'fermion': 'Izn+-', 'boson': 'Izn+-', 'higher': 'Iz+-'}[fam]


def words(fam, n, deep):
    """operator words with their sites"""
    L = letters(fam)
    for l in L:
        for i in range(n):
            yield l, (i,)
    prs = [(0, 1), (1, 0), (n - 1, 0), (1, 1)] if n > 1 else [(0, 0)]
    for a in L[1:]:
        for b in L[1:]:
            for p in prs if deep else prs[:1] + prs[-1:]:
                yield a + b, p
    if n > 2:
        tri = [(a, b, c) for a in '+-' for b in L[1:] for c in '+-'] if deep else [('+', 'z', '-'), ('+', '-', '+'), ('-', 'n' if 'n' in L else 'z', '+')]
        for t in tri:
            yield ''.join(t), (0, 1, 2)
            yield ''.join(t), (2, 0, 2)


def wide(fam, n):
    """edge sites of long chains"""
    for l in letters(fam):
        for i in (0, 1, n // 2, n - 1):
            yield l, (i,)
    yield '+-', (n - 1, 0)
    yield '+-', (0, n - 1)


# name, constructor, module, family, levels, fermionic, spin matrix elements, sites per L
CHAINS = [
    ('spin_basis_1d', 'spin_basis_1d(%d)', 'hcp_ops', 'spin', 2, False, False, 1),
    ('spinless_fermion_basis_1d', 'spinless_fermion_basis_1d(%d)', 'hcp_ops', 'fermion', 2, True, False, 1),
    ('spinful_fermion_basis_1d', 'spinful_fermion_basis_1d(%d)', 'spf_ops', 'fermion', 2, True, False, 2),
    ('boson_basis_1d', 'boson_basis_1d(%d,sps=3)', 'boson_ops', 'boson', 3, False, False, 1),
    ('boson_basis_1d sps=4', 'boson_basis_1d(%d,sps=4)', 'boson_ops', 'boson', 4, False, False, 1),
    ('spin_basis_1d S=1', "spin_basis_1d(%d,S='1')", 'boson_ops', 'higher', 3, False, True, 1),
    ('spin_basis_1d S=3/2', "spin_basis_1d(%d,S='3/2')", 'boson_ops', 'higher', 4, False, True, 1),
]
GENERAL = [
    ('hcb_basis_core', 'spin', 2, False, False),
    ('spinless_fermion_basis_core', 'fermion', 2, True, False),
    ('spinful_fermion_basis_core', 'fermion', 2, True, False),
    ('boson_basis_core', 'boson', 3, False, False),
    ('boson_basis_core', 'boson', 4, False, False),
    ('higher_spin_basis_core', 'higher', 3, False, True),
    ('higher_spin_basis_core', 'higher', 4, False, True),
]


def width(n, d):
    k = (d ** n - 1).bit_length()
    return 32 if k <= 32 else 64 if k <= 64 else 0


def act_scenarios(tier):
    out = []
    deep = tier == 'thorough'
    for i, c in enumerate(CHAINS):
        L0 = 2 if c[7] == 2 else 3 if c[4] > 2 else 4
        out.append(('chain', i, L0, 'words', deep))
        if c[4] == 2:
            for L in (32, 64, 66, 33) if c[7] == 1 else (16, 32, 40):
                out.append(('chain', i, L, 'wide', deep))
        else:
            out.append(('chain', i, 20, 'wide', deep))
        out.append(('chain', i, L0, 'reject', deep))
        out.append(('chain', i, L0, 'real', deep))
    for i, c in enumerate(GENERAL):
        n = 3 if c[2] > 2 else 4
        for w in (32, 64):
            out.append(('general', i, n, w, 'words', deep))
            if c[2] == 2:
                out.append(('general', i, w, w, 'wide', deep))
            else:
                out.append(('general', i, int(w / (c[2] - 1).bit_length()), w, 'wide', deep))
        out.append(('general', i, n, 32, 'reject', deep))
    return out


def chain_op(prog, c, L, bt, mt, word, sites, J, P, two=False):
    sy = Sys(L * c[7], c[4], c[5], c[6])
    m = machine(c[2], P, bt, mt)
    pars = params(prog, c[1] % L)
    ty = m.tyname(bt)
    st = [sy.state('s')] + ([sy.state('t')] if two else [])
    row, ME = cyt.View([cyt.UNSET] * len(st), ty), cyt.View([cyt.UNSET] * len(st), m.tyname(mt))
    if 'op_func' not in m.ix.f:
        raise Missing('op_func')
    e = m.call('op_func', [len(st), cyt.View([s[0] for s in st], ty), word, cyt.View(list(sites), (True, 32)), J, row, ME, cyt.View(list(pars), ty)])[0]
    return sy, st, e, row.a, ME.a


def general_obj(t, P, c, n, w, maps=()):
    cls = t.find('%s<%s>' % (c[0], WID[w][0]))
    if cls is None:
        raise Missing('%s<%s>' % (c[0], WID[w][0]))
    m = cpp.Machine(t, P)
    args = [n] if c[0] != 'spinful_fermion_basis_core' else [n // 2]
    if c[2] > 2 or c[0] in ('boson_basis_core', 'higher_spin_basis_core'):
        args.append(c[2])
    if maps:
        args += [len(maps), cpp.Ptr([x for p in maps for x in p], 0), cpp.Ptr([1] * len(maps), 0), cpp.Ptr([0] * len(maps), 0)]
    if c[0] in ('spinful_fermion_basis_core', 'hcb_basis_core'):
        args.append(c[0] == 'spinful_fermion_basis_core')
    return m, m.new(cls, args)


def run_act(prog, it):
    kind = it[0]
    try:
        for r in (chain_rows if kind == 'chain' else general_rows)(prog, it):
            yield r
    except (Missing, Undecided, cyt.NotFound, RecursionError) as e:
        yield ('act', str(it[:4]), 'undecided', '%s %s' % (type(e).__name__, e), '', None)


def one(rule, lab, fn, loc=None):
    try:
        bad, n = verdicts(fn)
    except Fault as e:
        return (rule, lab, 'violated', 'fault', str(e), loc)
    except (Undecided, Missing, cyt.NotFound, RecursionError, CppExc) as e:
        return (rule, lab, 'undecided', '%s %s' % (type(e).__name__, str(e)[:120]), '', None)
    if bad:
        return (rule, lab, 'violated', re.sub(r'[-\d.]+(e-?\d+)?j?', '#', bad.split(' for ')[0]), bad, loc)
    return (rule, lab, 'held', '', '%d partitions' % n, None)


def chain_loc(c):
    f = os.path.join(REPO, D1, c[2] + '.pyx')
    try:
        p = pyx.load(f, REPO)
        n = cyt.index(p).f.get('op_func')
        a, l = p.loc(n)
        return '%s:%d (op_func)' % (os.path.relpath(a, REPO), l)
    except Exception:
        return os.path.relpath(f, REPO)


def chain_rows(prog, it):
    _, i, L, mode, deep = it
    c = CHAINS[i]
    bt = WID[width(L * c[7], c[4])][1]
    loc = chain_loc(c)
    fam = c[3]
    ws = list(words(fam, L * c[7], deep)) if mode == 'words' else list(wide(fam, L * c[7])) if mode == 'wide' else []
    tag = '%s L=%d' % (c[0], L)
    for word, sites in ws:
        def fn(P):
            two = mode == 'words' and len(word) <= 2 and c[4] == 2
            sy, st, e, row, ME = chain_op(prog, c, L, bt, 'double complex', word, sites, 0.7, P, two)
            if e != 0:
                return 'error code %r' % (e,)
            for k, s in enumerate(st):
                r = check_act(P, sy, s[1], row[k], ME[k], word, sites, 0.7)
                if r:
                    return r
        yield one('act', '%s "%s" at %s' % (tag, word, sites), fn, loc)
    if mode == 'reject':
        for word, sites in (('q', (0,)), ('+q', (0, 1)), ('q-', (0, 1))):
            def fn(P):
                try:
                    sy, st, e, row, ME = chain_op(prog, c, L, bt, 'double complex', word, sites, 0.7, P)
                except Undecided as x:
                    raise
                ref = apply(P, sy, st[0][1], word[word.index('q') + 1:], sites[word.index('q') + 1:])
                if e == 0 and ref is not None:
                    return 'unknown letter accepted'
            yield one('reject', '%s "%s"' % (tag, word), fn, loc)
    if mode == 'real':
        cases = [('z', (0,), 0.5j), ('z', (0,), 0.7)] + ([('y', (1,), 0.7), ('yy', (0, 1), 0.7), ('xy', (0, 1), 0.7), ('y', (1,), 1j)] if fam == 'spin' else [('+', (0,), 0.3), ('+', (0,), 1j)])
        for word, sites, J in cases:
            def fn(P):
                sy, st, e, row, ME = chain_op(prog, c, L, bt, 'double', word, sites, J, P)
                ref = apply(P, sy, st[0][1], word, sites)
                if ref is None:
                    return None if e == 0 or J.imag else 'error code %r' % (e,)
                x = complex(ref[0].c * J)
                if abs(x.imag) > EPS:
                    return 'complex matrix element accepted for a real type' if e == 0 else None
                return ('error code %r for a real matrix element' % (e,)) if e != 0 else check_act(P, sy, st[0][1], row[0], ME[0], word, sites, J)
            yield one('reject', '%s "%s" real J=%s' % (tag, word, J), fn, loc)


def general_rows(prog, it):
    _, i, n, w, mode, deep = it
    c = GENERAL[i]
    t = tu()
    fam = c[1]
    cls = t.find('%s<%s>' % (c[0], WID[w][0]))
    loc = '%s/%s.h (op)' % (DG, c[0])
    tag = '%s<%d>%s n=%d' % (c[0], w, '' if c[2] == 2 else ' levels=%d' % c[2], n)
    ws = list(words(fam, n, deep)) if mode == 'words' else list(wide(fam, n)) if mode == 'wide' else [('q', (0,)), ('+q', (0, 1)), ('q-', (0, 1))]

    def act(P, word, sites):
        sy = Sys(n, c[2], c[3], c[4])
        m, o = general_obj(t, P, c, n, w)
        s, v = sy.state()
        r, me = {0: s}, {0: 0.7 + 0j}
        e = m.method(o, 'op', [cpp.LV(r, 0), cpp.LV(me, 0), len(word), cpp.Ptr([ord(x) for x in word], 0), cpp.Ptr(list(sites), 0)])
        return sy, v, e, r[0], me[0]
    for word, sites in ws:
        def fn(P):
            sy, v, e, r, me = act(P, word, sites)
            if 'q' in word:
                ref = apply(P, sy, v, word[word.index('q') + 1:], sites[word.index('q') + 1:])
                return 'unknown letter accepted' if e == 0 and ref is not None else None
            if e != 0:
                return 'error code %r' % (e,)
            return check_act(P, sy, v, r, me, word, sites, 0.7)
        yield one('reject' if mode == 'reject' else 'act', '%s "%s" at %s' % (tag, word, sites), fn, loc)


# ------------------------------------------------------------------ symmetry maps
def inversions(v, m):
    """sign polynomial of the relabelling i -> m[i] of fermionic sites"""
    p = ZERO
    for k in range(len(v)):
        for i in range(k):
            if m[i] > m[k]:
                p = p ^ pmul(v[i], v[k])
    return p


def moved(sy, v, m, flip):
    out = [None] * sy.n
    for i in range(sy.n):
        x = v[i]
        if flip[i]:
            x = (x ^ ONE) if sy.d == 2 and not isinstance(x, Digit) else ('flip', x)
        out[m[i]] = x
    return out


def chain_maps(c, L):
    """(function, extra arguments, site map, flipped sites)"""
    h = c[7]
    def both(f):
        return [f(i) for i in range(L)] + ([L + f(i) for i in range(L)] if h == 2 else [])
    no = [False] * (L * h)
    for d in (1, -1, 2, -2, -L):
        yield 'shift', (d,), both(lambda i: (i - d) % L), no
    yield 'fliplr', (), both(lambda i: L - 1 - i), no
    if h == 2:
        yield 'flip_all', (), list(range(L, 2 * L)) + list(range(L)), no
    elif not c[5]:
        yield 'flip_all', (), list(range(L)), [True] * L
        yield 'flip_sublat_A', (), list(range(L)), [i % 2 == 0 for i in range(L)]
        yield 'flip_sublat_B', (), list(range(L)), [i % 2 == 1 for i in range(L)]


def site_maps(n, fermi):
    """maps in the notation of the general bases: m[i] >= 0 sends site i to m[i], m[i] < 0 sends it to -m[i]-1 and inverts it"""
    t = [(i + 1) % n for i in range(n)]
    r = [n - 1 - i for i in range(n)]
    odd = [i for i in range(n)]
    odd[0], odd[2] = 2, 0
    mix = list(range(0, n, 2)) + list(range(1, n, 2))
    out = [('translation', t), ('reflection', r), ('exchange', odd), ('shuffle', mix), ('inversion', [-i - 1 for i in range(n)]),
           ('sublattice inversion', [-i - 1 if i % 2 == 0 else i for i in range(n)]), ('translation with inversion', [-x - 1 for x in t]),
           ('shuffle with inversion', [-x - 1 if k % 3 == 0 else x for k, x in enumerate(mix)])]
    return out


def dense_maps(n):
    out = [('sites times %d' % k, [(k * (i + 1)) % (n + 1) - 1 for i in range(n)]) for k in (2, 3, 5) if all((k * j) % (n + 1) for j in range(1, n + 1))]
    half = n // 2
    out.append(('in-shuffle', [2 * i + 1 if i < half else 2 * (i - half) for i in range(2 * half)] + list(range(2 * half, n))))
    out.append(('shuffle', list(range(0, n, 2)) + list(range(1, n, 2))))
    out.append(('halves exchanged', [(i + half) % n for i in range(n)]))
    out.append(('blocks of three reversed', [min(3 * (i // 3) + 2, n - 1) - i % 3 if 3 * (i // 3) + 2 < n else i for i in range(n)]))
    return [(a, m) for a, m in out if sorted(m) == list(range(n))]


def map_scenarios(tier):
    out = []
    for i, c in enumerate(CHAINS):
        for L in (((2, 3) if c[7] == 2 else (3, 4, 5)) if c[4] == 2 else (3, 4)):
            out.append(('chain', i, L))
        if c[4] == 2:
            for L in (31, 32, 33, 64, 66) if c[7] == 1 else (16, 17, 32, 34):
                out.append(('chain', i, L))
        else:
            out.append(('chain', i, 16))
            out.append(('chain', i, 40))
    for i, c in enumerate(GENERAL):
        ns = (4, 5) if c[3] and c[0].startswith('spinless') else (4,) if c[3] else (4, 5)
        for w in (32, 64):
            for n in ns:
                out.append(('general', i, n, w))
            out.append(('general', i, w if c[2] == 2 else int(w / (c[2] - 1).bit_length()), w))
        if c[3]:                             # many particles: the sorting that gives the sign recurses several times
            out += [('dense', i, n, 32) for n in (8, 10) + ((16,) if tier == 'thorough' else ())]
    return out


def run_map(prog, it):
    try:
        for r in (chain_map_rows if it[0] == 'chain' else general_map_rows)(prog, it):
            yield r
    except (Missing, Undecided, cyt.NotFound, RecursionError) as e:
        yield ('map', str(it[:4]), 'undecided', '%s %s' % (type(e).__name__, e), '', None)


def chain_map_rows(prog, it):
    _, i, L = it
    c = CHAINS[i]
    bt = WID[width(L * c[7], c[4])][1]
    pars = params(prog, c[1] % L)
    for f, extra, m, flip in chain_maps(c, L):
        for call in ('py_', ''):
            if call == '' and L > 5:
                continue
            def fn(P):
                k = machine(c[2].replace('_ops', '_basis'), P, bt)
                name = call + f
                if name not in k.ix.f:
                    raise Missing(name)
                ty = k.tyname(bt)
                sy = Sys(L * c[7], c[4], c[5])
                pv = cyt.View(list(pars), ty)
                st = [sy.state('s')] + ([sy.state('t')] if call and L <= 4 and L * c[7] <= 4 and f != 'fliplr' else [])
                g = [pvar('g%d' % j) for j in range(len(st))]
                x, sg = cyt.View([s[0] for s in st], ty), cyt.View([Ph(1, p) for p in g], (True, 8))
                if call:
                    k.call(name, [x] + list(extra) + [L, pv, sg])
                    res = x.a
                else:
                    res = [k.call(name, [x.a[0]] + list(extra) + [L, sg, pv])[0]]
                for j, s in enumerate(st):
                    if not sameword(P, res[j], sy.word(P, moved(sy, s[1], m, flip))):
                        return 'wrong final state'
                    want = Ph(1, g[j] ^ (inversions(s[1], m) if c[5] else ZERO))
                    if not same(P, sg.a[j], want):
                        return 'wrong sign'
            yield one('map', '%s L=%d %s%s%s' % (c[0], L, call, f, extra if extra else ''), fn, '%s/sources/%s_bitops.pyx (%s)' % (D1, c[2].split('_')[0], f))


_OBJ = {}


def general_map_rows(prog, it):
    _, i, n, w = it
    c = GENERAL[i]
    t = tu()
    loc = '%s/%s.h (map_state)' % (DG, c[0])
    small, dense = n <= 6, it[0] == 'dense'
    for name, sm in dense_maps(n) if dense else site_maps(n, c[3]):
        maps = [list(range(n)), sm]
        m = [x if x >= 0 else -x - 1 for x in sm]
        flip = [x < 0 for x in sm]
        if c[3] and any(flip) and not small:
            continue
        try:
            obj = general_obj(t, Path(), c, n, w, maps)[1]
        except (Undecided, Missing) as e:
            yield ('map', '%s<%d> n=%d %s' % (c[0], w, n, name), 'undecided', '%s %s' % (type(e).__name__, e), '', None)
            continue
        sy = Sys(n, c[2], c[3])
        table = {}
        for arr in (False, True):
            def fn(P):
                k = cpp.Machine(t, P)
                s, v = sy.state()
                if c[3] and not small:       # few particles, at both ends and in the middle
                    keep = (0, 1, n // 2, n - 1)
                    v = [x if j in keep else ONE if dense else ZERO for j, x in enumerate(v)]
                    s = sy.word(P, v)
                g = pvar('g')
                if arr:
                    ps, pg = [s], [Ph(1, g)]
                    k.method(obj, 'map_state', [cpp.Ptr(ps, 0), 1, 1, cpp.Ptr(pg, 0)])
                    r, sg = ps[0], pg[0]
                else:
                    ref = {0: Ph(1, g)}
                    r = k.method(obj, 'map_state', [s, 1, cpp.LV(ref, 0)])
                    sg = ref[0]
                if not sameword(P, r, sy.word(P, moved(sy, v, m, flip))):
                    return 'wrong final state'
                if c[3] and any(flip):
                    x = tuple(decided(P, Bits([p])) for p in v)
                    for y in sgs(P, sg, g):
                        table[x] = y
                    return None
                if not same(P, sg, Ph(1, g ^ (inversions(v, m) if c[3] else ZERO))):
                    return 'wrong sign'
            row = one('map', '%s<%d>%s n=%d %s%s' % (c[0], w, '' if c[2] == 2 else ' levels=%d' % c[2], n, name, ' (array)' if arr else ''), fn, loc)
            if row[2] == 'held' and c[3] and any(flip):
                bad = graded(n, m, flip, table)
                if bad:
                    row = row[:2] + ('violated', 'wrong sign', bad, loc)
            yield row


def sgs(P, sg, g):
    """sign relative to the incoming one"""
    r = P.norm(Ops(P).bin('*', sg, Ph(1, g), 'f'))
    r = decided(P, r)
    return [r]


def graded(n, m, flip, table):
    """the signs make the map send every c_i to a fixed multiple of c_m(i) (or its adjoint)"""
    for i in range(n):
        seen = {}
        for v, s in table.items():
            if v[i]:
                continue
            u = v[:i] + (1,) + v[i + 1:]
            if u not in table:
                return None
            img = [0] * n
            for k in range(n):
                img[m[k]] = v[k] ^ flip[k]
            jw = sum(v[i + 1:]) + sum(img[m[i] + 1:])
            seen.setdefault(s * table[u] * (-1) ** jw, v)
        if len(seen) > 1:
            return 'wrong sign: site %d acquires different signs on %s and %s' % ((i,) + tuple(seen.values()))
        if not any(flip) and -1 in seen:
            return 'wrong sign: site %d acquires a sign on %s although the map only moves sites' % (i, seen[-1])
    return None
