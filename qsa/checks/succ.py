"""Fixed-number bases: successor functions, first states, counts and sector loops of the compiled cores."""
import ast
import itertools
import math
import os
import re
from .. import pyx
from ..program import REPO
from ..native import cpp, cyt
from ..native import pyrun
from ..native.dom import *
from .native import (Missing, WID, GENERAL, D1, DG, machine, general_obj, one, sameword, tu)

MODS = {'hcp': 'next_state_pcon_hcp', 'boson': 'next_state_pcon_boson', 'spf': 'next_state_pcon_spf'}


# ------------------------------------------------------------------ reference
def bits_case(L, k, z, tag='h'):
    """every state ...h 0 1^k 0^z and its successor, h unknown"""
    h = [pvar('%s%d' % (tag, i)) for i in range(L - k - z - 1)]
    return [ZERO] * z + [ONE] * k + [ZERO] + h, [ONE] * (k - 1) + [ZERO] * (z + 1) + [ONE] + h


def bits_cases(L, deep):
    if L <= 8 or deep:
        return [(k, z) for k in range(1, L) for z in range(0, L - k)]
    ks = lambda m: sorted({x for x in (1, 2, 3, m // 2, m - 1, m) if 1 <= x <= m})
    return [(k, z) for z in sorted({0, 1, 2, L // 2, L - 3, L - 2}) for k in ks(L - 1 - z)]


def pack(n, d):
    """fewest-sites filling of n particles, lowest site first"""
    out = []
    while n > 0:
        out.append(min(n, d - 1))
        n -= out[-1]
    return out


def digit_cases(L, d, deep):
    """(low digits, successor's low digits); higher digits unchanged"""
    big = L > 6
    few = lambda *v: sorted({x for x in v})
    for z in range(0, L - 1) if not big or deep else (0, 1, 2, L // 2, L - 2):
        for x in range(1, d) if d <= 8 else few(1, 2, d // 2, d - 2, d - 1):
            for r in range(0, L - 1 - z) if not big or deep else sorted({q for q in (0, 1, 2, L - 2 - z) if 0 <= q <= L - 2 - z}):
                if x == d - 1 and r:          # x is then itself part of the run
                    continue
                for y in range(0, d - 1) if d <= 8 else few(0, 1, d // 2, d - 2):
                    low = [0] * z + [x] + [d - 1] * r
                    n = sum(low) - 1
                    p = pack(n, d)
                    yield low + [y], p + [0] * (len(low) - len(p)) + [y + 1]


def digit_word(ds, hi, d):
    n = len(ds)
    return Lin(sum(x * d ** i for i, x in enumerate(ds)), {v: d ** (n + i) for i, v in enumerate(hi)})


def width(n, d):
    k = (d ** n - 1).bit_length()
    return 32 if k <= 32 else 64 if k <= 64 else 0


def sector(fam, L, d, N):
    """all words of the sector, ascending"""
    if fam == 'spf':
        lo = sector('hcp', L, 2, N[1])
        return [(a << L) + b for a in sector('hcp', L, 2, N[0]) for b in lo]
    if fam == 'hcp':
        return sorted(sum(1 << i for i in c) for c in itertools.combinations(range(L), N))
    out = [(0, N)]
    for i in range(L - 1, -1, -1):
        out = [(w * d + x, n - x) for w, n in out for x in range(max(0, n - (d - 1) * i), min(d - 1, n) + 1)]
    return sorted(w for w, n in out)


def count(fam, L, d, N):
    if fam == 'spf':
        return math.comb(L, N[0]) * math.comb(L, N[1])
    if fam == 'hcp':
        return math.comb(L, N)
    c = [1] + [0] * N
    for _ in range(L):
        c = [sum(c[j - k] for k in range(min(d - 1, j) + 1)) for j in range(N + 1)]
    return c[N]


def first(fam, L, d, N):
    if fam == 'spf':
        return (((1 << N[0]) - 1) << L) + (1 << N[1]) - 1
    if fam == 'hcp':
        return (1 << N) - 1
    return sum(x * d ** i for i, x in enumerate(pack(N, d)))


# ------------------------------------------------------------------ successor functions
def chain_parts(fam, L, d, P, w):
    m = machine(fam + '_basis', P, WID[w][1])
    nm = MODS[fam]
    if nm not in m.ix.f:
        raise Missing(nm)
    return m, nm, m.tyname(WID[w][1])


def chain_next(fam, L, d, P, w, s, pars):
    m, nm, ty = chain_parts(fam, L, d, P, w)
    return m.call(nm, [s, cyt.View(list(pars), ty)])[0]


def gen_next(c, n, w, P, s):
    k, o = general_obj(tu(), P, c, n, w)
    return k.method(o, 'next_state_pcon', [s, 0])


def where(kind, a):
    if kind == 'chain':
        p = '%s/sources/%s_next_state.pyx' % (D1, a)
        return '%s (%s)' % (p, MODS[a])
    return '%s/%s.h (next_state_pcon)' % (DG, a)


def spf_pars(L, nr, dbl=1):
    return [L, (1 << L) - 1, ((1 << nr) - 1) << (L - nr), (1 << nr) - 1, dbl]


def next_rows(tag, fam, L, d, run, loc, deep):
    """run(P, word, sector pars) -> successor word"""
    def held(P, got, want, what):
        if got is None:
            return '%s: no successor' % what
        if not sameword(P, got, P.norm(want)):
            return '%s: wrong successor' % what
    if fam == 'hcp':
        for k, z in bits_cases(L, deep):
            def fn(P):
                s, t = bits_case(L, k, z)
                return held(P, run(P, P.norm(Bits(s)), None), Bits(t), '..01^%d0^%d' % (k, z))
            yield one('next', '%s ..01^%d0^%d' % (tag, k, z), fn, loc)
        for k in range(0, L + 1):
            def fn(P):
                run(P, ((1 << k) - 1) << (L - k), None)
            yield one('last', '%s %d particles' % (tag, k), fn, loc)
    elif fam == 'spf':
        small = L <= 4
        for nr in range(L + 1) if small or deep else sorted({0, 1, 2, L // 2, L - 1, L}):
            top = ((1 << nr) - 1) << (L - nr)
            rights = sector('hcp', L, 2, nr) if small else sorted({(1 << nr) - 1, top} | ({first_gap(L, nr)} if 0 < nr < L else set()))
            for r in rights:
                if r < top:
                    def fn(P):
                        h = [pvar('h%d' % i) for i in range(L)]
                        w = [ONE if r >> i & 1 else ZERO for i in range(L)]
                        q = hcp_succ(r)
                        u = [ONE if q >> i & 1 else ZERO for i in range(L)]
                        return held(P, run(P, P.norm(Bits(w + h)), nr), Bits(u + h), 'right %s' % bin(r))
                    yield one('next', '%s right %s' % (tag, bin(r)), fn, loc)
            lo, hi = [ONE] * nr + [ZERO] * (L - nr), [ZERO] * (L - nr) + [ONE] * nr
            for k, z in bits_cases(L, deep and L <= 16):
                def fn(P):
                    s, t = bits_case(L, k, z)
                    return held(P, run(P, P.norm(Bits(hi + s)), nr), Bits(lo + t), '%d right, left ..01^%d0^%d' % (nr, k, z))
                yield one('next', '%s right full %d, left ..01^%d0^%d' % (tag, nr, k, z), fn, loc)
            for k in sorted({0, 1, L // 2, L}):
                def fn(P):
                    run(P, ((((1 << k) - 1) << (L - k)) << L) + top, nr)
                yield one('last', '%s %d, %d particles' % (tag, k, nr), fn, loc)
    else:
        for low, want in digit_cases(L, d, deep):
            def fn(P):
                hi = [Digit('h%d' % i, d) for i in range(L - len(low))]
                return held(P, run(P, P.norm(digit_word(low, hi, d)), None), digit_word(want, hi, d), 'digits %s from the lowest site' % (low,))
            yield one('next', '%s %s' % (tag, ''.join(map(str, low))), fn, loc)
        for n in sorted({0, 1, d - 1, d, (d - 1) * L}):
            def fn(P):
                run(P, digit_word([0] * (L - len(pack(n, d))) + pack(n, d)[::-1], [], d).c, None)
            yield one('last', '%s %d particles' % (tag, n), fn, loc)


def hcp_succ(s):
    c = s & -s
    r = s + c
    return r | (((s ^ r) // c) >> 2)


def first_gap(L, nr):
    """a right half whose pivot is not at the bottom"""
    return (1 << (L - 1)) | (1 << (nr - 1)) - 1


def run_next(prog, it):
    kind = it[1]
    try:
        if kind == 'chain':
            _, _, fam, L, d, w, deep = it
            tag = '%s core, %d sites%s, %s' % (fam, L, '' if d == 2 else ' of %d levels' % d, 'Python integers' if w == 0 else '%d-bit words' % w)

            def run(P, s, nr):
                pars = spf_pars(L, nr) if fam == 'spf' else [L] + [d ** i for i in range(L)] if fam == 'boson' else [0] * 5
                return chain_next(fam, L, d, P, w, s, pars)
            for r in next_rows(tag, fam, L, d, run, where('chain', fam), deep):
                yield r
        else:
            _, _, i, n, w, deep = it
            c = GENERAL[i] if isinstance(i, int) else GENERAL[i[0]][:2] + (i[1],) + GENERAL[i[0]][3:]
            fam = 'spf' if c[0].startswith('spinful') else 'hcp' if c[2] == 2 else 'boson'
            tag = '%s<%d>%s, %d sites' % (c[0], w, '' if c[2] == 2 else ' levels=%d' % c[2], n)
            for r in next_rows(tag, fam, n // 2 if fam == 'spf' else n, c[2], lambda P, s, nr: gen_next(c, n, w, P, s), where('general', c[0]), deep):
                yield r
    except (Missing, Undecided, cyt.NotFound, RecursionError) as e:
        yield ('next', str(it[1:]), 'undecided', '%s %s' % (type(e).__name__, e), '', None)


def next_scenarios(tier):
    deep = tier == 'thorough'
    out = []
    for L in (2, 3, 6, 31, 32, 33, 64):
        out.append(('next', 'chain', 'hcp', L, 2, width(L, 2), deep))
    out.append(('next', 'chain', 'hcp', 6, 2, 0, deep))
    out.append(('next', 'chain', 'hcp', 70, 2, 0, False))
    for L in (2, 3, 16, 17, 32):
        out.append(('next', 'chain', 'spf', L, 2, width(2 * L, 2), deep))
    for L, d in ((2, 3), (4, 3), (5, 3), (3, 4), (4, 5), (20, 3), (16, 4), (40, 3), (32, 4), (50, 3), (4, 100), (3, 300), (6, 20), (10, 20)):
        out.append(('next', 'chain', 'boson', L, d, width(L, d), deep and L < 30))
    for i, c in enumerate(GENERAL):
        for w in (32, 64):
            if c[0].startswith('spinful'):
                out += [('next', 'general', i, n, w, deep) for n in (4, 8, w)]
            elif c[2] == 2:
                out += [('next', 'general', i, n, w, deep) for n in (3, 6, w)]
            else:
                out += [('next', 'general', i, n, w, deep) for n in (3, 5, int(w / math.log(c[2], 2) + 1e-9))]
                out += [('next', 'general', (i, d), n, w, False) for d, n in ((100, 4), (300, 3), (20, 6 if w == 32 else 10)) if c[2] == 3]
    return out


# ------------------------------------------------------------------ plain functions of the extension modules
def source(f):
    p = os.path.join(REPO, f)
    if not os.path.isfile(p):
        raise Missing(f)
    with open(p, encoding='utf8') as h:
        return h.read().expandtabs(8)


def plain(text, name):
    """one untyped function of a Cython source as Python source"""
    ls = text.split('\n')
    at = [i for i, l in enumerate(ls) if re.match(r'\s*(cp?)?def\s[^=]*\b%s\s*\(' % re.escape(name), l)]
    if len(at) != 1:
        raise Missing(name)
    i = at[0]
    ind = len(ls[i]) - len(ls[i].lstrip())
    j, depth = i, 0
    while True:
        depth += ls[j].count('(') - ls[j].count(')')
        if depth <= 0:
            break
        j += 1
    head = ' '.join(l.strip() for l in ls[i:j + 1])
    body = []
    for l in ls[j + 1:]:
        if l.strip() and len(l) - len(l.lstrip()) <= ind and not l.lstrip().startswith('#'):
            break
        body.append(l[ind:] if l[:ind].strip() == '' else l)
    ps = []
    d = 0
    cur = ''
    inner = head[head.index('(') + 1:head.rindex(')')]
    for ch in inner + ',':
        d += (ch in '([') - (ch in ')]')
        if ch == ',' and d == 0:
            m = re.search(r'(\*{0,2}\w+)\s*(=.*)?$', cur.strip())
            if m:
                ps.append(m.group(1) + (m.group(2) or ''))
            cur = ''
        else:
            cur += ch
    typed = {}
    for q in re.findall(r'[^,]+', inner):
        ctype(typed, q)
    out = 'def %s(%s):\n' % (name, ', '.join(ps))
    for l in body:
        l = re.sub(r'<\s*object\s*>\s*(\w+|\(\s*\w+\s*\))', r'_object(\1)', l)
        l = re.sub(r'<\s*\w+\s*>', '', l)
        if re.match(r'\s*cdef\s', l):
            ty = re.match(r'\s*cdef\s+(\w[\w ]*?)\s+\w+\s*[=,\n]?', l)
            for q in re.split(',', l.strip()[4:]):
                ctype(typed, q if ' ' in q.strip().split('=')[0].strip() or not ty else ty.group(1) + ' ' + q)
        m = re.match(r'(\s*)cdef\s+(?:[\w\[\]:, ]+?\s)?(\w+)\s*=(?!=)(.*)$', l)
        if m:
            l = '%s%s =%s' % m.groups()
        elif re.match(r'\s*cdef\s', l):
            l = re.match(r'\s*', l).group(0) + 'pass'
        out += l + '\n'
    try:
        t = ast.parse(out).body[0]
    except SyntaxError:
        raise Undecided('%s is not plain' % name)
    return ast.fix_missing_locations(CInts(typed).visit(t))


CTYPES = {'int': 32, 'unsigned int': 32, 'long': 64, 'npy_intp': 64, 'npy_int64': 64, 'npy_uint64': 64, 'int64_t': 64, 'uint64_t': 64, 'size_t': 64, 'Py_ssize_t': 64,
          'npy_uint32': 32, 'npy_int32': 32, 'uint32_t': 32, 'int32_t': 32, 'short': 16, 'npy_int16': 16, 'npy_uint16': 16, 'npy_int8': 8, 'npy_uint8': 8, 'uint8_t': 8, 'int8_t': 8, 'unsigned long': 64}


def ctype(typed, decl):
    m = re.match(r'\s*(\w[\w ]*?)\s+(\w+)\s*(=.*)?$', decl)
    if m and m.group(1) in CTYPES:
        typed[m.group(2)] = (CTYPES[m.group(1)], 'u' not in m.group(1)[:5].replace('npy_', '')[:1])


class CInts(ast.NodeTransformer):
    """arithmetic on C integers wraps around"""
    OPS = (ast.Add, ast.Sub, ast.Mult, ast.LShift, ast.RShift, ast.BitAnd, ast.BitOr, ast.BitXor)

    def __init__(self, typed):
        self.typed = typed

    def kind(self, e):
        if isinstance(e, ast.Name):
            return self.typed.get(e.id)
        if isinstance(e, ast.Constant) and type(e.value) is int:
            return (32, True) if abs(e.value) < 2 ** 31 else (64, True)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, (ast.USub, ast.Invert)):
            return self.kind(e.operand)
        if isinstance(e, ast.BinOp) and isinstance(e.op, self.OPS):
            a, b = self.kind(e.left), self.kind(e.right)
            if a is None or b is None:
                return None
            if isinstance(e.op, (ast.LShift, ast.RShift)):
                return max(a, (32, True), key=lambda t: t[0])
            w = max(32, a[0], b[0])
            return w, all(t[1] for t in (a, b) if t[0] == w)

    def visit_BinOp(self, e):
        k = self.kind(e) if any(isinstance(n, ast.Name) for n in ast.walk(e)) else None
        e = self.generic_visit(e)
        if k is None:
            return e
        if isinstance(e.op, (ast.LShift, ast.RShift)):
            e.right = ast.BinOp(e.right, ast.BitAnd(), ast.Constant(k[0] - 1))
        return ast.Call(ast.Name('_cint', ast.Load()), [e, ast.Constant(k[0]), ast.Constant(k[1])], [])


def cint(x, w, signed):
    if type(x) is not int:
        return x
    x &= (1 << w) - 1
    return x - (1 << w) if signed and x >> (w - 1) else x


def comb(n, k, exact=False, repetition=False):
    if n < 0 or k < 0 or k > n:
        return 0
    return math.comb(int(n), int(k))


class Plain(object):
    """functions of one extension module run over their syntax trees"""

    def __init__(self, f, names, extra=()):
        text = source(f)
        t = ast.Module([], [])
        for nm in names:
            try:
                t.body.append(plain(text, nm))
            except Missing:
                if nm == names[0]:
                    raise
        ex = {'comb': comb, '_np': pyrun.libs()[0], 'np': pyrun.libs()[0], 'numpy': pyrun.libs()[0], 'object': object, '_object': lambda x: x, '_cint': cint}
        ex.update(extra)
        self.mod = pyrun.Mod(t, ex)
        self.run = pyrun.Run(self.mod, 200000000)

    def call(self, name, *args, **kw):
        f = self.mod.g[name]
        if args and isinstance(args[0], pyrun.Obj):
            f = pyrun.Func(self.mod, f.node, {}, args[0])
            args = args[1:]
        try:
            return self.run.invoke(f, list(args), kw)
        except pyrun.HostRaise as e:
            raise Undecided(str(e))


def stub(**kw):
    o = pyrun.Obj(pyrun.Cls(None, ast.parse('class stub: pass').body[0]))
    o.d.update(kw)
    return o


def facts(rule, rows, loc):
    """rows yield (label, message or None); one obligation per label"""
    it = rows()
    while True:
        try:
            lab, msg = next(it)
        except StopIteration:
            return
        except (Missing, Undecided, cyt.NotFound, RecursionError) as e:
            yield (rule, 'rest', 'undecided', '%s %s' % (type(e).__name__, str(e)[:150]), '', None)
            return
        except pyrun.PyRaise as e:
            yield (rule, 'raise', 'violated', 'raises %s' % e.name, str(e), loc)
            return
        if msg:
            yield (rule, lab, 'violated', re.sub(r'-?\d+', '#', msg), '%s: %s' % (lab, msg), loc)
        else:
            yield (rule, lab, 'held', '', '', None)


# ------------------------------------------------------------------ counts and room
LEVELS = {'hcp': (2,), 'boson': (3, 4, 5), 'spf': (2,)}


def sectors(fam, L, d, deep):
    if fam == 'spf':
        k = range(L + 1) if deep or L <= 6 else sorted({0, 1, 2, L // 2, L - 1, L})
        return [(a, b) for a in k for b in k]
    top = L * (d - 1)
    return list(range(top + 1)) if deep or top <= 40 else sorted({0, 1, 2, 3, d, top // 3, top // 2, top - 1, top} | {L, L // 2, L + 1})


def orbits(fam, L, d, N, a):
    """number of classes of configurations under shifts by a sites"""
    T = L // a
    tot = 0
    for j in range(T):
        g = math.gcd(a * j, L) if j else L
        q = L // g
        if fam == 'spf':
            tot += 0 if N[0] % q or N[1] % q else count('spf', g, d, (N[0] // q, N[1] // q))
        else:
            tot += 0 if N % q else count(fam, g, d, N // q)
    return tot // T


def run_room(prog, it):
    _, fam, d, deep = it
    f = '%s/%s_basis.pyx' % (D1, fam)

    def rows():
        p = Plain(f, ['get_Ns', 'H_dim'])
        for L in list(range(1, 13)) + ([16, 20, 24, 30, 32, 36, 48, 60, 64] if d == 2 else [16, 20, 24, 40]):
            secs = sectors(fam, L, d, deep)
            bad = None
            for N in secs:
                n = count(fam, L, d, N)
                e = p.call('get_Ns', L, [N], d)
                if e != n:
                    bad = bad or 'sector %s has %d states, not %r' % (N, n, e)
            e = p.call('get_Ns', L, secs[:3], d)
            if e != sum(count(fam, L, d, N) for N in secs[:3]):
                bad = bad or 'sectors %s are not counted together' % (secs[:3],)
            e = p.call('get_Ns', L, None, d)
            if e != d ** (2 * L if fam == 'spf' else L):
                bad = bad or 'the full space is counted as %r' % (e,)
            yield '%s levels=%d, %d sites: number of states' % (fam, d, L), bad
            bad = None
            for a in [x for x in range(1, L + 1) if L % x == 0] if L <= 24 or deep else [1, 2]:
                for N in secs:
                    for k in sorted({0, 1 % (L // a)}):
                        e = p.call('get_Ns', L, [N], d, kblock=k, a=a)
                        if e < orbits(fam, L, d, N, a):
                            bad = bad or 'room for %r states of sector %s with unit cell %d, %d exist' % (e, N, a, orbits(fam, L, d, N, a))
                e = p.call('get_Ns', L, secs, d, kblock=0, a=a)
                if e < sum(orbits(fam, L, d, N, a) for N in secs):
                    bad = bad or 'room for %r states of all sectors with unit cell %d' % (e, a)
                if fam != 'spf' or L < 13:
                    e = p.call('get_Ns', L, None, d, kblock=0, a=a)
                    o = sum(orbits(fam, L, d, N, a) for N in sectors(fam, L, d, True))
                    if e < o:
                        bad = bad or 'room for %r states without particle conservation with unit cell %d, %d exist' % (e, a, o)
            yield '%s levels=%d, %d sites: room for momentum sectors' % (fam, d, L), bad
    for r in facts('room', rows, '%s (get_Ns)' % f):
        yield r


# ------------------------------------------------------------------ loops over sectors
def run_loop(prog, it):
    _, fam, L, d, lists = it
    f = '%s/%s_basis.pyx' % (D1, fam)
    w = width(L * (2 if fam == 'spf' else 1), d)
    try:
        names = [n for n, x in machine(fam + '_basis', Path(), WID[w][1]).ix.f.items() if pyx.tname(x) == 'DefNode' and re.match(r'(n_)?(\w+_)?basis$', n)]
    except (Missing, Undecided) as e:
        yield ('loop', fam, 'undecided', str(e), '', None)
        return
    for name in sorted(names):
        number = name.startswith('n_')
        for secs in lists if number else [None]:
            for counted in (False, True) if number else (False,):
                def fn(P):
                    return loop_once(P, fam, L, d, w, name, secs, counted)
                yield one('loop', '%s.%s %s%s' % (fam, name, secs if number else '', ', counted' if counted else ''), fn, '%s/sources/%s_basis.pyx (%s)' % (D1, fam, name))


def loop_once(P, fam, L, d, w, name, secs, counted):
    m = machine(fam + '_basis', P, WID[w][1])
    ty = m.tyname(WID[w][1])
    seen, size = [], 40

    def grab(mm, args):
        k = len(seen)
        ns = (2, 3, 1)[k % 3]
        fn = [a for a in args if isinstance(a[0] if isinstance(a, tuple) else a, cyt.Fn)]
        vals = [a[0] if isinstance(a, tuple) else a for a in args]
        fn = [v for v in vals if isinstance(v, cyt.Fn)]
        arrs = [v for v in vals if isinstance(v, cyt.View)]
        par = [v for v in arrs if v.a is pars.a]
        if len(fn) != 1 or len(par) != 1:
            raise Undecided('arguments of the basis template')
        for q, v in enumerate(arrs):
            if v.a is not pars.a:
                for i in range(ns):
                    v.a[v.i + i] = (k, i)
        ints = [v for v in vals if isinstance(v, int) and not isinstance(v, bool)]
        seen.append((fn[0], list(par[0].a), ints))
        return ns, (True, 64)
    for n in m.ix.f:
        if re.match(r'make_\w*template$', n):
            m.intr[n] = grab
    m.intr['comb'] = lambda mm, args: (comb(*[x[0] if isinstance(x, tuple) else x for x in args[:2]]), 'py')
    base = spf_pars(L, 0) if fam == 'spf' else [L] + [d ** i for i in range(L)] if fam == 'boson' else [0] * 5
    if fam == 'boson':
        base = [L] + [d ** i for i in range(L + 1)]
    pars = cyt.View(list(base), ty)
    out = {n: cyt.View([cyt.UNSET] * size, m.tyname(t)) for n, t in (('N', 'N_type'), ('M', 'M1_type'), ('basis', WID[w][1]))}
    npl = cyt.View([cyt.UNSET] * size, (True, 8))
    args = []
    for arg in cyt.funcargs(m.ix.f[name]):
        nm = cyt.cname(arg.declarator) or arg.base_type.name
        if nm == 'L':
            args.append(L)
        elif nm == 'pars':
            args.append(pars)
        elif nm == 'Np_list':
            args.append(npl if counted else None)
        elif nm in out:
            args.append(out[nm])
        elif nm.endswith('_list'):
            args.append([tuple(s) if isinstance(s, tuple) else s for s in secs])
        elif nm.endswith('block'):
            args.append(-1)
        elif nm == 'a':
            args.append(1)
        else:
            raise Undecided('argument %s' % nm)
    try:
        ns = m.call(name, args)[0]
    except cyt.Raised:
        return None
    todo = secs if secs is not None else [None]
    if len(seen) != len(todo):
        return '%d sectors built, %d requested' % (len(seen), len(todo))
    got = sum((2, 3, 1)[k % 3] for k in range(len(seen)))
    if ns != got:
        return 'dimension %r instead of %d' % (ns, got)
    want = [(k, i) for k in range(len(seen)) for i in range((2, 3, 1)[k % 3])]
    for n, v in out.items():
        if any(x is not cyt.UNSET for x in v.a) and v.a != want + [cyt.UNSET] * (size - len(want)):
            return 'sectors overlap or leave gaps in %s' % n
    if out['basis'].a[0] is cyt.UNSET:
        return 'no states stored'
    if counted:
        exp = []
        for k, s in enumerate(secs):
            exp += [sum(s) if isinstance(s, tuple) else s] * (2, 3, 1)[k % 3]
        if npl.a != exp + [cyt.UNSET] * (size - len(exp)):
            return 'wrong particle numbers recorded'
    for (fn, ps, ints), s in zip(seen, todo):
        if s is None:
            n, s0, st = d ** (2 * L if fam == 'spf' else L), 0, None
        else:
            st = sector(fam, L, d, s)
            n, s0 = len(st), st[0]
        if n not in ints:
            return 'sector %s: %d states expected' % (s, n)
        if s0 not in ints:
            return 'sector %s does not start from its lowest state' % (s,)
        x = s0
        mm = machine(fam + '_basis', P, WID[w][1])
        for t in (st[1:] if st else range(1, min(n, 5))):
            x = mm.call(fn.name, [x, cyt.View(list(ps), ty)])[0]
            if x != t:
                return 'sector %s: state %r is followed by a wrong state' % (s, t)
    return None


# ------------------------------------------------------------------ general lattices: first state, count, loops
GEN = (('hcb', 'hcp', 2), ('spinless_fermion', 'hcp', 2), ('spinful_fermion', 'spf', 2), ('boson', 'boson', 3), ('boson', 'boson', 4), ('higher_spin', 'boson', 3), ('higher_spin', 'boson', 5))


def run_ends(prog, it):
    _, core, fam, d, deep = it
    f = '%s/%s_core.pyx' % (os.path.dirname(DG), core)

    def ends():
        p = Plain(f, ['get_s0_pcon', 'H_dim'])
        q = Plain(f, ['get_Ns_pcon', 'H_dim'])
        for n in list(range(1, 9)) + [16, 20, 32, 64]:
            o = stub(_N=n, _sps=d)
            bad = None
            for N in sectors(fam, n, d, deep):
                s, k = p.call('get_s0_pcon', o, N), q.call('get_Ns_pcon', o, N)
                if s != first(fam, n, d, N):
                    bad = bad or 'sector %s starts from %r' % (N, s)
                if k != count(fam, n, d, N):
                    bad = bad or 'sector %s has %d states, not %r' % (N, count(fam, n, d, N), k)
            yield '%s levels=%d, %d sites' % (core, d, n), bad
    for r in facts('ends', ends, '%s (get_s0_pcon, get_Ns_pcon)' % f):
        yield r

    def loops():
        np = pyrun.libs()[0]
        seen = []

        def part(o, N, basis, n):
            k = len(seen)
            ns = (2, 3, 1)[k % 3]
            seen.append(N)
            if fail[0] == k:
                return -1
            if len(basis) < ns:
                return -1
            basis[:ns] = 10 * k + np.arange(ns)
            n[:ns] = 10 * k + np.arange(ns)
            return ns

        def full(o, basis, n):
            seen.append(None)
            return 2
        for wrap in ('general_basis_core_wrap',):
            p = Plain(f, ['make_basis', 'H_dim'], {wrap: stub(_make_basis_pcon=part, _make_basis_full=full)})
        one_ = [1, 2] if fam != 'spf' else [(1, 0), (1, 1)]
        tests = [([one_[0]],), (one_,), (one_ + [(2, 0) if fam == 'spf' else 3],)]
        for (secs,) in tests:
            for counted in (False, True):
                for bad_at in (None, 0, len(secs) - 1):
                    fail = [bad_at]
                    del seen[:]
                    b, n, c = np.full(12, 77), np.full(12, 77), np.full(12, 77)
                    r = p.call('make_basis', stub(_N=4, _sps=d), b, n, list(secs), c if counted else None)
                    lab = '%s levels=%d sectors %s%s%s' % (core, d, secs, ', counted' if counted else '', '' if bad_at is None else ', no room in part %d' % bad_at)
                    if bad_at is not None:
                        yield lab, None if r < 0 else 'a part without room goes unnoticed'
                        continue
                    want = [10 * k + i for k in range(len(secs)) for i in range((2, 3, 1)[k])]
                    cnt = [sum(s) if isinstance(s, tuple) else s for k, s in enumerate(secs) for i in range((2, 3, 1)[k])]
                    msg = None
                    if seen != secs:
                        msg = 'sectors %s built' % (seen,)
                    elif r != len(want):
                        msg = 'dimension %r instead of %d' % (r, len(want))
                    elif list(b) != want + [77] * (12 - len(want)) or list(n) != list(b):
                        msg = 'sectors overlap or leave gaps'
                    elif counted and list(c) != cnt + [77] * (12 - len(cnt)):
                        msg = 'wrong particle numbers recorded'
                    yield lab, msg
        fail = [None]
        for N in (one_[1], None):
            del seen[:]
            b, n = np.full(12, 77), np.full(12, 77)
            r = p.call('make_basis', stub(_N=4, _sps=d), b, n, N, None)
            yield '%s levels=%d sector %s' % (core, d, N), None if r == 2 and seen == [N] else 'dimension %r, sectors %s' % (r, seen)
    for r in facts('loop', loops, '%s (make_basis)' % f):
        yield r


# ------------------------------------------------------------------ words wide enough
def bits_of(t):
    s = getattr(t, 'name', None) or str(t)
    if s == 'object':
        return 10 ** 9
    m = re.search(r'(\d+)$', s)
    if not m:
        raise Undecided('type %s' % s)
    return int(m.group(1))


def run_width(prog, it):
    _, fam, deep = it
    np = pyrun.libs()[0]
    gen = fam == 'general'
    f = '%s/general_basis_utils.pyx' % os.path.dirname(DG) if gen else '%s/%s_basis.pyx' % (D1, fam)
    wide = [stub() for w in (32, 64, 256, 1024, 4096, 16384)]

    class W(object):
        def __init__(self, w):
            self.name = 'uint%d' % w
    ex = {'uint%d' % w: W(w) for w in (32, 64, 256, 1024, 4096, 16384)} if gen else {}

    def rows():
        p = Plain(f, ['get_basis_type', 'H_dim'], ex)
        for d in (2, 3, 4, 5, 7, 10) if gen else LEVELS[fam]:
            for L in [1, 2, 5] + list(range(6, 90)) + ([100, 161, 162, 256, 257, 400] if gen else []):
                if gen:
                    secs = [None] + [n for n in (0, 1, 2, d, L // 2, L, L * (d - 1)) if n <= L * (d - 1)] + [[0, 1], [1], [min(2, L)], [0]]
                elif fam == 'spf':
                    secs = [None] + [[s] for s in ((0, 0), (0, 1), (1, 0), (0, L), (L, 0), (L // 2, L // 2), (L, L))] + [[(0, 1), (0, 0)], [(0, 1), (1, 0)]]
                else:
                    secs = [None] + [[n] for n in sorted({0, 1, 2, d, L // 2, L, L * (d - 1)}) if n <= L * (d - 1)] + [[0, 1]]
                need = (d ** (2 * L if fam == 'spf' else L) - 1).bit_length()
                bad = None
                for s in secs:
                    t = p.call('get_basis_type', L, s, d)
                    if bits_of(t) < need:
                        bad = bad or 'particle numbers %s: %d-bit words for %d bits of site contents' % (s, bits_of(t), need)
                yield '%s levels=%d, %d sites' % (fam, d, L), bad
    for r in facts('width', rows, '%s (get_basis_type)' % f):
        yield r


def scenarios(tier):
    deep = tier == 'thorough'
    out = next_scenarios(tier)
    out += [('room', fam, d, deep) for fam in MODS for d in LEVELS[fam]]
    out += [('loop', 'hcp', 4, 2, [[2], [1, 3], [0, 4, 2]]), ('loop', 'hcp', 5, 2, [[3, 2]]), ('loop', 'boson', 3, 3, [[2], [1, 4], [0, 6, 3]]), ('loop', 'boson', 2, 5, [[5, 3]]),
            ('loop', 'spf', 3, 2, [[(1, 2)], [(0, 1), (2, 1)], [(3, 0), (0, 0), (1, 1)]])]
    out += [('ends',) + g + (deep,) for g in GEN]
    return out


def width_scenarios(tier):
    return [('width', fam, tier == 'thorough') for fam in ('hcp', 'boson', 'spf', 'general')]


def run_succ(prog, it):
    return {'next': run_next, 'room': run_room, 'loop': run_loop, 'ends': run_ends, 'width': run_width}[it[0]](prog, it)
