"""Hermiticity, particle-conservation and symmetry checks of coupling lists."""
from ..values import *
from ..terms import Poly, ZERO, declare
from ..ctx import Client
from .hamops import C128, F64, excsig
from ..runner import settle

IMP = ("import numpy as np\n"
       "from quspin.basis.basis_1d import spin_basis_1d, boson_basis_1d, spinless_fermion_basis_1d, spinful_fermion_basis_1d\n"
       "from quspin.basis.basis_general import spin_basis_general, boson_basis_general, spinless_fermion_basis_general, spinful_fermion_basis_general\n"
       "from quspin.basis.tensor import tensor_basis\nfrom quspin.basis.photon import photon_basis, ho_basis\n")


def native(I, path, args, kw, S, node):
    """native constructors: dimensions and state arrays are irrelevant here"""
    last = path.split('.')[-1]
    if last == 'get_basis_type':
        return K(DT('uint32'))
    if last == 'get_Ns' or last.endswith('_basis') and '_basis_1d_core.' in path:
        return K(50)
    if last.endswith('_core_wrap'):
        return S.new(Opaque('native core'))
    if last == 'basis_zeros':
        return I.top('state array')
    return None


def reply(I, args, kw, S, node):
    yield S, K('<reply>')


def client(prog):
    c = Client(prog, IMP)
    c.I.hooks.update({'carr': True, 'native': native, 'builtins.input': reply})
    S = c.start()
    for n in ('J', 'J1', 'J2'):
        c.scalar(S, n, C128)
    for n in ('R', 'R1', 'R2'):
        c.scalar(S, n, F64)
    c.ufn(S, 'f', C128)
    c.ufn(S, 'g', F64)
    return c, S


# ---------------------------------------------------------------- reference
# a word is a tuple of letters (part, letter, site); a list entry is (coupling source, word, drive or None)
HC = {'+': '-', '-': '+', 'n': 'n', 'z': 'z', 'x': 'x', 'y': 'y', 'I': 'I'}


class B(object):
    """a basis: how it is built and what its operator strings mean.  parts: (letters, fermionic family or None, indexed)"""

    def __init__(self, name, build, parts, L=4, sps=2):
        self.name, self.build, self.parts, self.L, self.sps = name, build, parts, L, sps

    def odd(self, m):
        return self.parts[m[0]][1] if m[1] in '+-' else None

    def modes(self, w):
        return [(p, s) for p, _, s in w]

    def sort(self, w, key):
        """stable reordering of a product: (sign, word)"""
        w, sg = list(w), 1
        for i in range(len(w)):
            for j in range(len(w) - 1 - i):
                a, b = w[j], w[j + 1]
                if key(a) > key(b):
                    if self.odd(a) and self.odd(a) == self.odd(b):
                        sg = -sg
                    w[j], w[j + 1] = b, a
        return sg, tuple(w)

    def canon(self, w):
        return self.sort(w, lambda m: (m[0], m[2]))

    def parted(self, w):
        return self.sort(w, lambda m: m[0])

    def adj(self, w):
        """(sign, word in writable order) of the hermitian conjugate"""
        return self.parted(tuple((p, HC[c], s) for p, c, s in reversed(w)))

    def render(self, w):
        """operator string and site indices"""
        ps = [''.join(c for q, c, _ in w if q == p) for p in range(len(self.parts))]
        return '|'.join(ps), [s for p, _, s in w if self.parts[p][2]]



SP = ('I+-zxy', None, True)
S1 = ('I+-z', None, True)
BO = ('I+-nz', None, True)
FE = ('I+-nz', 'f', True)
FEU, FED = ('I+-nz', 'f', True), ('I+-nz', 'f', True)
PH = ('I+-n', None, False)


def bases():
    out = [B('spin_basis_1d', 'spin_basis_1d(4)', [SP]),
           B('spin_basis_1d S=1', "spin_basis_1d(4,S='1')", [S1]),
           B('boson_basis_1d', 'boson_basis_1d(4,sps=3)', [BO]),
           B('spinless_fermion_basis_1d', 'spinless_fermion_basis_1d(4)', [FE]),
           B('spinful_fermion_basis_1d', 'spinful_fermion_basis_1d(4)', [FEU, FED]),
           B('spin_basis_general', 'spin_basis_general(4,make_basis=False)', [SP]),
           B('spin_basis_general S=1', "spin_basis_general(4,S='1',make_basis=False)", [S1]),
           B('boson_basis_general', 'boson_basis_general(4,sps=3,make_basis=False)', [BO]),
           B('spinless_fermion_basis_general', 'spinless_fermion_basis_general(4,make_basis=False)', [FE]),
           B('spinful_fermion_basis_general', 'spinful_fermion_basis_general(4,make_basis=False)', [FEU, FED]),
           B('tensor_basis spin*boson', 'tensor_basis(spin_basis_1d(4),boson_basis_1d(4,sps=3))', [SP, BO]),
           B('tensor_basis fermion*spin', 'tensor_basis(spinless_fermion_basis_1d(4),spin_basis_1d(4))', [FE, SP]),
           B('tensor_basis of three', 'tensor_basis(spin_basis_1d(4),spinless_fermion_basis_1d(4),spin_basis_1d(4))', [SP, FE, SP]),
           B('photon_basis Nph', 'photon_basis(spin_basis_1d,L=4,Nph=5)', [SP, PH]),
           B('photon_basis Ntot', 'photon_basis(spin_basis_1d,L=4,Ntot=3)', [SP, PH]),
           B('ho_basis', 'ho_basis(5)', [PH])]
    return out


# letter/site patterns; a letter a part does not have makes the word unavailable
SHAPES = ['+:0', 'z:1', 'n:2', 'x:0', 'y:3', '+-:01', '-+:20', '++:31', 'xy:12', 'zz:03', 'nn:30', 'x+:21', 'n+:02', '+z:13', 'xzy:013', '+-n:023', '+n-:310', '-z+:120', '+++:012',
          '+-+-:0213', '++--:3012', '+--:103', 'n+-+:2013', 'I+:01', '+I-:231']
PAIRS = ['+:0|-:1', '+:2|+:0', '+-:01|+-:01', '+-:02|n:1', 'n:1|n:1', 'z:0|z:2', '+:1|z:3', '+-:10|:', ':|+-:12', ':|++-:123', '++:01|--:01', '+-:13|+:0', '+n:02|-:2', 'z+:01|-+:10', 'x:0|x:1',
         'y:2|+:0', 'x:1|n:1', '-:0|-+z:013']


def part(txt, p, spec):
    ls, _, ss = txt.partition(':')
    if any(c not in spec[0] for c in ls):
        return None
    return tuple((p, c, int(s)) for c, s in zip(ls, ss))


def words(b):
    out = []
    if len(b.parts) == 1:
        for t in SHAPES:
            if not b.parts[0][2]:
                t = t.partition(':')[0] + ':' + '0' * 9
                if len(t.partition(':')[0]) > 1:
                    continue
            w = part(t, 0, b.parts[0])
            if w:
                out.append(w)
        return out
    for t in PAIRS:
        l, _, r = t.partition('|')
        for at in ((0, 1), (1, 2)) if len(b.parts) > 2 else ((0, 1),):
            ws = [part(l, at[0], b.parts[at[0]]), part(r, at[1], b.parts[at[1]])]
            if None in ws:
                continue
            if not b.parts[at[1]][2] and len(ws[1]) > 1:
                continue
            out.append(ws[0] + tuple((p, c, s if b.parts[p][2] else 0) for p, c, s in ws[1]))
    return out


def lists(b, entries):
    """client source of the static and dynamic lists"""
    st, dy = [], []
    for J, w, f in entries:
        op, ix = b.render(w)
        bond = '[%s]' % ','.join([J] + [str(i) for i in ix])
        if f is None:
            st.append("['%s',[%s]]" % (op, bond))
        else:
            dy.append("['%s',[%s],%s,[]]" % (op, bond, f))
    return '[%s],[%s]' % (','.join(st), ','.join(dy))


def sg(s, J):
    return J if s > 0 else '-' + J


def herm(b):
    """(label, entries, accept?)"""
    for w in words(b):
        s, wh = b.adj(w)
        c1, k1 = b.canon(w)
        c2, k2 = b.canon(wh)
        own = k1 == k2                     # w+ = s*c1*c2 * w
        sf = s * c1 * c2
        n = b.render(w)[0]
        n = '%s%s' % (n, tuple(b.render(w)[1]))
        if own:
            yield n + ' complex', [('J', w, None)], False
            yield n + ' real', [('R', w, None)], sf > 0
            yield n + ' imaginary', [('1j*R', w, None)], sf < 0
            yield n + ' driven', [('R', w, 'g' if sf > 0 else 'f')], sf > 0
            yield n + ' complex drive', [('R', w, 'f')], False
            continue
        Jc = sg(s, 'np.conj(J)')
        Jw = sg(-s, 'np.conj(J)')
        yield n + ' alone', [('J', w, None)], False
        yield n + ' real alone', [('R', w, None)], False
        yield n + '+hc', [('J', w, None), (Jc, wh, None)], True
        yield 'hc+' + n, [(Jc, wh, None), ('J', w, None)], True
        yield n + '+hc unconjugated', [('J', w, None), (sg(s, 'J'), wh, None)], False
        yield n + '+hc wrong sign', [('J', w, None), (Jw, wh, None)], False
        yield n + '+hc real', [('R', w, None), (sg(s, 'R'), wh, None)], True
        yield n + '+hc other coupling', [('J', w, None), (sg(s, 'np.conj(J1)'), wh, None)], False
        yield n + '+hc driven', [('J', w, 'g'), (Jc, wh, 'g')], True
        yield n + '+hc complex drive', [('J', w, 'f'), (Jc, wh, 'f')], False
        yield n + '+hc two drives', [('J', w, 'g'), (Jc, wh, 'f')], False
        yield n + '+hc mixed', [('J', w, None), (Jc, wh, 'g')], False
        yield n + ' twice+hc', [('J', w, None), ('J', w, None), (Jc, wh, None)], False
        yield n + ' twice+hc twice', [('J', w, None), ('J', w, None), (Jc, wh, None), (Jc, wh, None)], True
        for nm, perm in (('rev', lambda x: tuple(reversed(x))), ('rot', lambda x: x[1:] + x[:1])):
            # the same product written in another order
            v = perm(wh)
            if len(wh) < 2 or len(set(b.modes(wh))) < len(wh):
                continue
            cv, kv = b.canon(v)
            cw, kw = b.canon(wh)
            if kv != kw:
                continue
            ps, v2 = b.parted(v)
            c3, _ = b.canon(v2)
            t = s * cw * c3
            yield n + '+hc ' + nm, [('J', w, None), (sg(t, 'np.conj(J)'), v2, None)], True
            yield n + '+hc %s wrong sign' % nm, [('J', w, None), (sg(-t, 'np.conj(J)'), v2, None)], False
    ws = words(b)
    for w1, w2 in zip(ws, ws[1:]):
        s1, h1 = b.adj(w1)
        s2, h2 = b.adj(w2)
        if b.canon(h1)[1] == b.canon(w1)[1] or b.canon(h2)[1] == b.canon(w2)[1] or b.canon(h1)[1] == b.canon(w2)[1] or b.canon(w1)[1] == b.canon(w2)[1]:
            continue
        n = '%s,%s' % (b.render(w1), b.render(w2))
        full = [('J1', w1, None), ('J2', w2, None), (sg(s1, 'np.conj(J1)'), h1, None), (sg(s2, 'np.conj(J2)'), h2, None)]
        yield n + '+hc', full, True
        yield n + '+one hc', full[:3], False
        yield n + ' crossed', full[:2] + [(sg(s1, 'np.conj(J2)'), h1, None), (sg(s2, 'np.conj(J1)'), h2, None)], False
        yield n + ' driven', [(J, w, 'g') for J, w, _ in full], True
        yield n + ' driven, one hc', [(J, w, 'g') for J, w, _ in full[:3]], False


# x and y in terms of raising and lowering (the overall normalisation of + and - is common to both)
EXP = {'x': (('+', 1), ('-', 1)), 'y': (('+', -1j), ('-', 1j))}


def expand(w):
    out = [((), 1)]
    for p, c, s in w:
        out = [(v + ((p, d, s),), a * b) for v, a in out for d, b in EXP.get(c, ((c, 1),))]
    return out


def conserved(b, entries):
    tot = {}
    for J, w, f in entries:
        J, _, k = J.partition('*')
        for v, a in expand(w):
            g, key = b.canon(v)
            q = sum({'+': 1, '-': -1}.get(c, 0) for _, c, _ in key)
            if q:
                d = tot.setdefault((key, f), {})
                d[J] = d.get(J, 0) + a * g * (float(k) if k else 1)
    return all(abs(x) < 1e-9 for d in tot.values() for x in d.values())


def W(txt, b, p=0):
    return part(txt, p, b.parts[p])


def pcon(b):
    spn = 'x' in b.parts[0][0]
    raw = []
    for w in words(b):
        raw.append([('J', w, None)])
        raw.append([('J', w, 'f')])
    if len(b.parts) == 1:
        ones = ['+-:01', '-+:32', 'z:2', '+:1', '+-z:012', '++--:0123', '++:03', '--+:012', 'n:0', 'n+:02']
        ones = [W(t, b) for t in ones]
        ones = [w for w in ones if w]
        for w, v in zip(ones, ones[1:] + ones[:1]):
            raw.append([('J1', w, None), ('J2', v, None)])
            raw.append([('J1', w, 'f'), ('J2', v, 'g')])
            raw.append([('J1', w, None), ('J2', v, 'g')])
        for t in ('+-+:000', '-+-:111', '+z:22', '+-+-:0102', '-:0', '++-:300'):
            if not (b.sps == 2 and t == '++-:300'):
                raw.append([('J', W(t, b), None)])
        if spn:
            xx, yy, xy, yx = (W(t + ':01', b) for t in ('xx', 'yy', 'xy', 'yx'))
            raw += [[('J', xx, None)], [('J', xx, None), ('J', yy, None)], [('J', xx, None), ('J1', yy, None)], [('J', xx, 'f'), ('J', yy, 'f')], [('J', xx, 'f'), ('J', yy, 'g')],
                    [('J', xx, 'f'), ('J', yy, None)], [('J', xx, None), ('J', yy, None), ('J', xx, 'f'), ('J', yy, 'f')], [('J', xx, None), ('J*-1', yy, None)],
                    [('J', xy, None), ('J*-1', yx, None)], [('J', xy, None), ('J', yx, None)], [('J', W('xx:01', b), None), ('J', W('yy:02', b), None)],
                    [('J', W('xx:01', b), None), ('J', W('yy:10', b), None)], [('J', W('xxz:013', b), None), ('J', W('yzy:031', b), None)],
                    [('J1', W('xx:12', b), 'f'), ('J1', W('yy:12', b), 'f'), ('J2', W('xx:12', b), 'g'), ('J2', W('yy:12', b), 'g')],
                    [('J1', W('xx:12', b), 'f'), ('J1', W('yy:12', b), 'f'), ('J2', W('xx:12', b), 'g')], [('J', W('x:0', b), 'f'), ('J*-1', W('x:0', b), 'g')]]
    for e in raw:
        ok = conserved(b, e)
        yield ' + '.join('%s %s%s%s' % ((J,) + b.render(w) + (' ' + f if f else '',)) for J, w, f in e), e, ok


# ---------------------------------------------------------------- symmetries
FLIP = {'+': '-', '-': '+', 'z': 'z', 'y': 'y', 'x': 'x', 'I': 'I'}


def move(parts, f):
    """the site of the letters of the parts is mapped"""
    return lambda m: (1, (m[0], m[1], f(m[2]))) if m[0] in parts else (1, m)


def flip(sites, f=None):
    """spin inversion on the given sites, then a map of the sites"""
    def g(m):
        if m[0] != 0:
            return 1, m
        p, c, i = m
        j = f(i) if f else i
        if i in sites:
            return (-1 if c in 'zy' else 1), (p, FLIP[c], j)
        return 1, (p, c, j)
    return g


def swap(f=None):
    """exchange of the two species"""
    return lambda m: (1, (1 - m[0], m[1], f(m[2]) if f else m[2])) if m[0] < 2 else (1, m)


ALL = (0, 1, 2, 3)
T1, T2, PP = (lambda i: (i + 1) % 4), (lambda i: (i + 2) % 4), (lambda i: 3 - i)
S02, SQ = (lambda i: {0: 2, 2: 0}.get(i, i)), (lambda i: {0: 1, 1: 0, 2: 3, 3: 2}[i])


def apply(b, g, w):
    s, out = 1, []
    for m in w:
        t, m = g(m)
        s *= t
        out.append(m)
    t, v = b.parted(tuple(out))
    return s * t, v


def orbit(b, gens, w):
    """[(sign, word)] of the orbit of w, or None when some group element maps w to -w"""
    s0, k0 = b.canon(w)
    seen, todo = {k0: (1, w)}, [(1, w)]
    while todo:
        s, v = todo.pop()
        for g in gens:
            t, u = apply(b, g, v)
            c, k = b.canon(u)
            c0, _ = b.canon(seen[k][1]) if k in seen else (c, k)
            if k in seen:
                if seen[k][0] * c0 != s * t * c:
                    return None
            else:
                seen[k] = (s * t, u)
                todo.append((s * t, u))
    return list(seen.values())


def rotated(b, w):
    """the same product written in another order: (sign, word) or None"""
    if len(w) < 2 or len(set(b.modes(w))) < len(w):
        return None
    s0, k0 = b.canon(w)
    t, v = b.parted(w[1:] + w[:1])
    s1, k1 = b.canon(v)
    return (s0 * s1, v) if k0 == k1 and v != w else None


class Sym(B):
    def __init__(self, name, build, parts, gens, no='', only=None, even=False, **kw):
        B.__init__(self, name, build, parts, **kw)
        self.gens, self.no, self.only, self.even = gens, no, only, even


def symmetric():
    sp, bo, fe, sf = [SP], [BO], [FE], [FEU, FED]
    A, s2 = (0,), (0, 1)
    inv = 'n'
    out = []
    for nm, kw, gens, no in (
            ('kblock', 'kblock=0', [move(A, T1)], ''), ('kblock a=2', 'kblock=0,a=2', [move(A, T2)], ''), ('pblock', 'pblock=1', [move(A, PP)], ''),
            ('kblock pblock', 'kblock=0,pblock=1', [move(A, T1), move(A, PP)], ''), ('zblock', 'zblock=1', [flip(ALL)], inv), ('pzblock', 'pzblock=1', [flip(ALL, PP)], inv),
            ('zAblock', 'zAblock=1', [flip((0, 2))], inv), ('zBblock', 'zBblock=1', [flip((1, 3))], inv), ('zAblock zBblock', 'zAblock=1,zBblock=1', [flip((0, 2)), flip((1, 3))], inv),
            ('pblock zblock', 'pblock=1,zblock=1', [move(A, PP), flip(ALL)], inv), ('kblock zblock', 'kblock=0,zblock=1', [move(A, T1), flip(ALL)], inv),
            ('kblock zAblock zBblock', 'kblock=0,a=2,zAblock=1,zBblock=1', [move(A, T2), flip((0, 2)), flip((1, 3))], inv),
            ('kblock pblock zblock', 'kblock=0,pblock=1,zblock=1', [move(A, T1), move(A, PP), flip(ALL)], inv), ('kblock pzblock', 'kblock=0,pzblock=1', [move(A, T1), flip(ALL, PP)], inv)):
        out.append(Sym('spin_basis_1d ' + nm, 'spin_basis_1d(4,%s)' % kw, sp, gens, no))
        if nm in ('kblock', 'pblock', 'zblock', 'pzblock', 'zAblock'):
            out.append(Sym('spin_basis_1d S=1 ' + nm, "spin_basis_1d(4,S='1',%s)" % kw, [S1], gens, no, sps=3))
        if not no:
            out.append(Sym('boson_basis_1d ' + nm, 'boson_basis_1d(4,sps=3,%s)' % kw, bo, gens, no, sps=3))
            out.append(Sym('spinless_fermion_basis_1d ' + nm, 'spinless_fermion_basis_1d(4,%s)' % kw, fe, gens, no))
        if nm in ('kblock', 'pblock', 'zblock', 'pzblock', 'kblock zblock', 'zAblock'):
            out.append(Sym('photon_basis ' + nm, 'photon_basis(spin_basis_1d,L=4,Nph=5,%s)' % kw, [SP, PH], gens, no))
            out.append(Sym('photon_basis Ntot ' + nm, 'photon_basis(spin_basis_1d,L=4,Ntot=3,%s)' % kw, [SP, PH], gens, no)) if not no else None
    for nm, kw, gens in (('kblock', 'kblock=0', [move(s2, T1)]), ('kblock a=2', 'kblock=0,a=2', [move(s2, T2)]), ('pblock', 'pblock=1', [move(s2, PP)]), ('sblock', 'sblock=1', [swap()]),
                         ('psblock', 'psblock=1', [swap(PP)]), ('pblock sblock', 'pblock=1,sblock=1', [move(s2, PP), swap()]), ('kblock sblock', 'kblock=0,sblock=1', [move(s2, T1), swap()])):
        out.append(Sym('spinful_fermion_basis_1d ' + nm, 'spinful_fermion_basis_1d(4,%s)' % kw, sf, gens))
    for nm, m, f in (('translation', '[1,2,3,0]', T1), ('reflection', '[3,2,1,0]', PP), ('exchange', '[2,1,0,3]', S02), ('pairs', '[1,0,3,2]', SQ)):
        for cls, kw, pt, k in (('spin', '', sp, 2), ('spin', "S='1',", [S1], 3), ('boson', 'sps=3,', bo, 3), ('spinless_fermion', '', fe, 2), ('spinful_fermion', '', sf, 2)):
            pp = s2 if len(pt) == 2 else A
            out.append(Sym('%s_basis_general %s%s' % (cls, kw, nm), '%s_basis_general(4,%smake_basis=False,blk=(%s,0))' % (cls, kw, m), pt, [move(pp, f)], sps=k))
    for nm, m, g in (('inversion', '[-1,-2,-3,-4]', flip(ALL)), ('partial inversion', '[-1,1,-3,3]', flip((0, 2))), ('inversion of one', '[0,1,-3,3]', flip((2,))),
                     ('reflected inversion', '[-4,-3,-2,-1]', flip(ALL, PP)), ('partial inversion exchange', '[2,-2,0,-4]', flip((1, 3), S02))):
        out.append(Sym('spin_basis_general ' + nm, 'spin_basis_general(4,make_basis=False,blk=(%s,0))' % m, sp, [g], inv))
        out.append(Sym('spin_basis_general S=1 ' + nm, "spin_basis_general(4,S='1',make_basis=False,blk=(%s,0))" % m, [S1], [g], inv, sps=3))
        out.append(Sym('boson_basis_general sps=2 ' + nm, 'boson_basis_general(4,sps=2,make_basis=False,blk=(%s,0))' % m, [('I+-z', None, True)], [g], inv))
    out.append(Sym('spin_basis_general translation inversion', 'spin_basis_general(4,make_basis=False,kb=([1,2,3,0],0),zb=([-1,-2,-3,-4],0))', sp, [move(A, T1), flip(ALL)], inv))
    out.append(Sym('spinful_fermion_basis_general inversion', 'spinful_fermion_basis_general(4,make_basis=False,blk=([-1,-2,-3,-4],0))', sf, [swap()]))
    out.append(Sym('spinful_fermion_basis_general reflected inversion', 'spinful_fermion_basis_general(4,make_basis=False,blk=([-4,-3,-2,-1],0))', sf, [swap(PP)]))
    for nm, m, g in (('inversion', '[-1,-2,-3,-4]', flip(ALL)), ('partial inversion', '[-1,1,-3,3]', flip((0, 2))), ('reflection', '[3,2,1,0]', move(A, PP))):
        out.append(Sym('photon_basis general ' + nm, 'photon_basis(spin_basis_general,4,Nph=5,make_basis=False,blk=(%s,0))' % m, [SP, PH], [g], 'n'))
    ph = lambda f=None: lambda m: (-1 if m[1] in '+-z' else 1, (m[0], FLIP[m[1]], f(m[2]) if f else m[2]))
    out.append(Sym('spinless_fermion_basis_general particle-hole', 'spinless_fermion_basis_general(4,make_basis=False,blk=([-1,-2,-3,-4],0))', fe, [ph()], inv, even=True))
    out.append(Sym('spinless_fermion_basis_general reflected particle-hole', 'spinless_fermion_basis_general(4,make_basis=False,blk=([-4,-3,-2,-1],0))', fe, [ph(PP)], inv, even=True))
    out.append(Sym('spinful_fermion_basis_general(simple_symm=False) particle-hole', 'spinful_fermion_basis_general(2,simple_symm=False,make_basis=False,blk=([-1,-2,-3,-4],0))',
                   [FE], [ph()], inv, only=('+-:01', 'incomplete')))
    return [x for x in out if x]


SW = ['z:1', 'n:2', 'x:0', 'y:3', '+:1', '+-:01', '-+:20', '++:31', 'xy:12', 'zz:03', 'zz:02', 'nn:30', 'x+:21', 'n+:02', '+z:13', 'yz:01', 'zy:20', 'xzy:013', '+n-:310', '-z+:120', '+++:012', '++--:3012', 'n+-+:2013', '+-+-:0213', 'zzz:012', 'yy:12']
SPW = ['+-:01|:', '+-:01|n:1', 'n:1|n:1', 'z:0|z:2', '+:1|z:3', ':|++-:123', '++:01|--:01', '+n:02|-:2', 'z+:01|-+:10', '+:2|+:0', '+:2|-:1', '+-:01|+-:32', 'n:0|:', '+z:03|++-:120']
SPH = ['z:1|+:0', '+-:01|n:0', '+-:01|:', 'x:2|-:0', 'z:0|:', 'zz:12|:', '+:3|-:0', 'y:1|-:0', '+z-:012|+:0', ':|n:0', ':|+:0', 'yz:13|n:0', '-:2|+:0', '-:1|+-:00', '+:1|-+:00', 'z:3|+-:00']


def symwords(b):
    ph = not b.parts[-1][2]
    for t in SW if len(b.parts) == 1 else SPH if ph else SPW:
        l, _, r = t.partition('|')
        ws = [part(l, 0, b.parts[0])] + ([part(r, 1, b.parts[1])] if len(b.parts) > 1 else [])
        if None in ws or any(c in b.no for c in l.partition(':')[0]):
            continue
        w = sum(ws, ())
        if b.even and sum(c in '+-' for _, c, _ in w) % 2 or b.only and b.only[0] != t:
            continue
        yield w


def symm(b):
    ws = list(symwords(b))
    prev = None
    for w in ws:
        n = '%s%s' % b.render(w)
        ob = orbit(b, b.gens, w)
        if ob is None:
            yield n + ' odd', [('J', w, None)], False
            yield n + ' odd driven', [('J', w, 'f')], False
            continue
        full = [(sg(s, 'J'), v, None) for s, v in ob]
        yield n + ' orbit', full, True
        yield n + ' orbit driven', [(J, v, 'f') for J, v, _ in full], True
        if not any(c in 'zy' for _, c, _ in w) or any(s < 0 for s, _ in ob):
            pass
        if len(ob) > 1:
            yield n + ' incomplete', full[:-1], False
            yield n + ' incomplete reversed', full[1:], False
            yield n + ' unequal', full[:-1] + [(sg(ob[-1][0], 'J1'), ob[-1][1], None)], False
            yield n + ' wrong sign', full[:-1] + [(sg(-ob[-1][0], 'J'), ob[-1][1], None)], False
            yield n + ' incomplete driven', [(J, v, 'f') for J, v, _ in full[:-1]], False
            yield n + ' two drives', [(J, v, 'f') for J, v, _ in full[:-1]] + [full[-1][:2] + ('g',)], False
            yield n + ' partly driven', full[:-1] + [full[-1][:2] + ('f',)], False
        for i, (s, v) in enumerate(ob):
            r = rotated(b, v)
            if r:
                e = list(full)
                e[i] = (sg(s * r[0], 'J'), r[1], None)
                yield n + ' rewritten', e, True
                if b.odd(v[0]) and len(ob) > 1:
                    e[i] = (sg(-s * r[0], 'J'), r[1], None)
                    yield n + ' rewritten wrong sign', e, False
                break
        if prev and b.canon(prev[0][1])[1] not in [b.canon(v)[1] for _, v in ob]:
            e = [(sg(s, 'J1'), v, None) for s, v in prev]
            yield n + ' two orbits', e + full, True
            if len(ob) > 1:
                yield n + ' two orbits incomplete', e + full[1:], False
        prev = ob


KINDS = {'herm': (herm, 'check_hermitian'), 'pcon': (pcon, 'check_pcon'), 'symm': (symm, 'check_symm')}


def conserving():
    """bases with a fixed particle number or magnetisation"""
    out = [B('spin_basis_1d', 'spin_basis_1d(4,Nup=2)', [SP]),
           B('spin_basis_1d S=1', "spin_basis_1d(4,S='1',Nup=4)", [S1], sps=3),
           B('boson_basis_1d', 'boson_basis_1d(4,Nb=2,sps=3)', [BO], sps=3),
           B('spinless_fermion_basis_1d', 'spinless_fermion_basis_1d(4,Nf=2)', [FE]),
           B('spinful_fermion_basis_1d', 'spinful_fermion_basis_1d(4,Nf=(2,2))', [FEU, FED]),
           B('spin_basis_general', 'spin_basis_general(4,Nup=2,make_basis=False)', [SP]),
           B('spin_basis_general S=1', "spin_basis_general(4,S='1',Nup=4,make_basis=False)", [S1], sps=3),
           B('boson_basis_general', 'boson_basis_general(4,Nb=2,sps=3,make_basis=False)', [BO], sps=3),
           B('spinless_fermion_basis_general', 'spinless_fermion_basis_general(4,Nf=2,make_basis=False)', [FE]),
           B('photon_basis Ntot', 'photon_basis(spin_basis_1d,L=4,Ntot=3)', [SP, PH])]
    return out


def scenarios(tier):
    return [(b, 'herm') for b in bases()] + [(b, 'pcon') for b in conserving()] + [(i, 'symm') for i in range(len(symmetric()))]


def run_symm(prog, it):
    b, kind = it
    if kind == 'symm':
        b = symmetric()[b]
    gen, meth = KINDS[kind]
    c, S = client(prog)
    lab = '%s.%s' % (b.name, meth)
    outs = c.run(S, 'b = ' + b.build)
    good = [o for o in outs if o.exc is None]
    if not good or len(good) < len(outs) or len(good) > 4:
        yield (kind, lab, 'undecided', 'construction: %s' % [o.exc for o in outs][:2], '', None)
        return
    for n, entries, accept in gen(b):
        src = 'b.%s(%s)' % (meth, lists(b, entries))
        if kind == 'symm' and b.only and not n.endswith(b.only[1]):
            continue
        rows, c.I.steps = [], 0
        for o in [o for g in good for o in c.run(g.S.fork(), src)]:
            rows.append(('@', o.S.unsure))
            sig = excsig(o.exc) if o.exc is not None else None
            if o.exc is not None and not sig.startswith('TypeError'):
                rows.append((kind, 'violated', sig, '`%s` fails: %r' % (src, o.exc), o.exc.loc))
            elif accept != (o.exc is None):
                rows.append((kind, 'violated', 'rejected' if accept else 'accepted', '`%s` is %s on %s' % (src, 'rejected' if accept else 'accepted', b.build),
                             o.exc.loc if o.exc is not None else None))
            else:
                rows.append((kind, 'held', '', '', None))
        for cl, vd, oc, msg, loc in settle(rows):
            yield (cl, lab + ' ' + n, vd, oc, msg, loc)
