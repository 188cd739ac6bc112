"""C30: every requested particle-number sector is in the basis, once, with the right particle and photon numbers.

The constructors of all lattice bases, the chain and general base classes and the photon basis are interpreted from their
syntax trees; the compiled enumeration routines are replaced by their specification (decided by C27), which fills in all
states of one sector after the other in the order of the list it is given."""
import ast
import os
from ..native import cyt, pyrun
from ..native.dom import Undecided, Path
from ..program import REPO
from . import succ
from .native import machine, Missing

B = 'quspin/basis'
FILES = [B + '/base.py', B + '/lattice.py', B + '/tensor.py', B + '/photon.py', B + '/basis_1d/base_1d.py', B + '/basis_1d/spin.py', B + '/basis_1d/boson.py', B + '/basis_1d/fermion.py',
         B + '/basis_general/base_general.py', B + '/basis_general/base_hcb.py', B + '/basis_general/boson.py', B + '/basis_general/base_higher_spin.py', B + '/basis_general/fermion.py',
         B + '/basis_general/spin.py']
NP8 = {'NP_INT8_t': 'int8', 'NP_UINT8_t': 'uint8'}


def blank(name):
    return pyrun.Obj(pyrun.Cls(None, ast.parse('class %s: pass' % name).body[0]))


def states(kind, L, d, s):
    """states of one sector, ascending"""
    if s is None:
        return list(range(d ** (2 * L if kind == 'spf' else L)))
    return succ.sector(kind, L, d, s)


def total(s):
    return sum(s) if isinstance(s, tuple) else s


LOG = []
BIG = 20000


def fill(kind, L, d, secs, basis, count, np, down=False):
    k = 0
    LOG[:] = list(secs)
    if any(d ** (2 * L if kind == 'spf' else L) > BIG if s is None else succ.count(kind, L, d, s) > BIG for s in secs):      # only the request matters
        return min(1, len(basis))
    for s in secs:
        st = states(kind, L, d, s)
        if down:                                              # the general bases store each sector from its highest state
            st = st[::-1]
        if k + len(st) > len(basis):
            return None
        if basis.dtype.kind == 'V':
            for i, x in enumerate(st):
                basis[k + i] = np.frombuffer(encode(x, basis.dtype), basis.dtype)[0]
        else:
            basis[k:k + len(st)] = st
        if count is not None:
            count[k:k + len(st)] = total(s)
        k += len(st)
    return k


class Word(object):
    """one of the wide integer types of the general bases"""

    def __init__(self, w):
        self.name = 'uint%d' % w


WIDE = (32, 64, 256, 1024, 4096, 16384)


def encode(x, dt):
    """wide integers are stored as their limbs, lowest first, and two words of bookkeeping"""
    return int(x).to_bytes(dt.itemsize - 16, 'little') + b'\2' + bytes(15) if dt.kind == 'V' else x


def decode(x):
    t = getattr(x, 'dtype', None)
    return int.from_bytes(x.tobytes()[:t.itemsize - 16], 'little') if t is not None and t.kind == 'V' else int(x)


def position(basis, s):
    x = decode(s)
    for i in range(len(basis)):
        if decode(basis[i]) == x:
            return i
    raise pyrun.PyRaise('ValueError', 's must be representive state in basis.', None)


def zeros(n, dtype=None):
    np = pyrun.libs()[0]
    return np.zeros(min(int(n), 10 ** 7), dtype='V%d' % (int(dtype.name[4:]) // 8 + 16) if isinstance(dtype, Word) else dtype or np.uint32)


def word(w):
    np = pyrun.libs()[0]
    return np.dtype('uint%d' % w) if w <= 64 else Word(w)


def chooser(f, ex):
    """the routine that selects the integer type, interpreted from its source"""
    try:
        p = succ.Plain(f, ['get_basis_type', 'H_dim'], ex)
    except Missing:
        return lambda *a, **k: pyrun.libs()[0].dtype('uint64')

    def call(L, Np, sps, **bl):
        return p.call('get_basis_type', L, Np, sps)
    return call


CORE = []
ROOM = []


def chain_module(name):
    kind = name.split('_')[0]
    np = pyrun.libs()[0]
    o = blank(name)
    o.d['__name__'] = name
    if name.endswith('_ops'):
        for n in ('op', 'n_op', 't_op', 'p_op', 'z_op', 'zA_op', 'zB_op', 'zA_zB_op', 'pz_op', 'p_z_op', 't_p_op', 't_z_op', 't_pz_op', 't_p_z_op', 't_zA_op', 't_zB_op', 't_zA_zB_op'):
            o.d[n] = lambda *a, **k: None
        return o
    # room for the largest request: the whole lattice
    def room(L, Np, sps, **bl):
        ROOM[:] = [kind, L, sps]
        return min(BIG, sps ** (2 * L if kind == 'spf' else L))
    o.d['get_Ns'] = room
    o.d['get_basis_type'] = chooser('%s/%s.pyx' % (succ.D1, name), {})
    ix = machine(name, Path(), 'uint32_t').ix
    for nm, f in ix.f.items():
        if cyt.tname(f) == 'DefNode' and (nm == 'basis' or nm.endswith('_basis')):
            o.d[nm] = builder(kind, nm, f)
    for nm, f in ix.f.items():
        if nm.startswith('py_'):
            o.d[nm] = lambda *a, **k: None
    return o


def builder(kind, nm, f):
    np = pyrun.libs()[0]
    ps = []
    for x in cyt.funcargs(f):
        b = x.base_type
        fu = getattr(b.base_type_node, 'name', None) if cyt.tname(b) == 'MemoryViewSliceTypeNode' else None
        ps.append((cyt.cname(x.declarator) or getattr(b, 'name', None), fu))

    def call(*args, **kw):
        v = dict(zip([p for p, _ in ps], args))
        v.update(kw)
        for p, fu in ps:
            if isinstance(v.get(p), np.ndarray) and fu in NP8 and v[p].dtype.name != NP8[fu]:
                raise pyrun.PyRaise('ValueError', 'array of %s where the native routine expects %s' % (v[p].dtype.name, NP8[fu]), None)
        L, basis = v['L'], v['basis']
        if len(args) > len(ps):
            raise pyrun.PyRaise('TypeError', 'too many arguments', None)
        lst = [p for p, _ in ps if p.endswith('_list') and p != 'Np_list']
        if ROOM[:2] != [kind, L]:
            raise Undecided('basis of unknown levels')
        d = ROOM[2]
        if nm.startswith('n_') != bool(lst):
            raise Undecided('arguments of %s' % nm)
        secs = list(v[lst[0]]) if lst else [None]
        cnt = v.get('Np_list')
        if cnt is not None and not isinstance(cnt, np.ndarray):
            raise pyrun.PyRaise('TypeError', 'array expected', None)
        for a in ('N', 'M'):
            if isinstance(v.get(a), np.ndarray):
                v[a][:] = 1
        k = fill(kind, L, d, secs, basis, cnt, np)
        if k is None:
            raise pyrun.PyRaise('MemoryError', 'array too small', None)
        return k
    return call


def general_core(kind, spinful=False, sps=False):
    np = pyrun.libs()[0]

    def ctor(dtype, N, *args):
        d = args[0] if sps else 2
        CORE[:] = [(dtype, N, d)]
        o = blank('core')

        def make_basis(basis, n, Np=None, count=None):
            secs = [None] if Np is None else list(Np) if isinstance(Np, (list, range)) or (isinstance(Np, tuple) and not (spinful and len(Np) == 2 and isinstance(Np[0], int))) else [Np]
            n[:] = 1
            k = fill(kind, N, d, secs, basis, count, np, True)
            return -1 if k is None else k
        o.d['make_basis'] = make_basis
        o.d['make_basis_blocks'] = lambda *a, **k: (np.zeros(1, int), np.zeros(1, int))
        return o
    return ctor


_MODS = {}


def mods():
    if not _MODS:
        np = pyrun.libs()[0]
        ex = {n: chain_module(n) for n in ('hcp_basis', 'hcp_ops', 'boson_basis', 'boson_ops', 'spf_basis', 'spf_ops')}
        ex.update(hcb_basis_core_wrap=general_core('hcp'), higher_spin_basis_core_wrap=general_core('boson', sps=True), boson_basis_core_wrap=general_core('boson', sps=True),
                  spinless_fermion_basis_core_wrap=general_core('hcp'), spinful_fermion_basis_core_wrap=general_core('spf', True),
                  get_basis_type=chooser('%s/general_basis_utils.pyx' % os.path.dirname(succ.DG), {'uint%d' % w: word(w) for w in WIDE}), basis_zeros=zeros, basis_int_to_python_int=decode, _get_basis_index=position, comb=succ.comb, ModuleType=pyrun.Obj)
        for f in FILES:
            p = os.path.join(REPO, f)
            if not os.path.isfile(p):
                raise Missing(f)
            with open(p, encoding='utf8') as h:
                t = ast.parse(h.read())
            own = {s.name for s in t.body if isinstance(s, (ast.FunctionDef, ast.ClassDef))}
            m = pyrun.Mod(t, {k: v for k, v in ex.items() if k not in own})
            m.g.setdefault('np', np)
            ex.update((k, v) for k, v in m.g.items() if k in own)
            _MODS[f] = m
        _MODS['all'] = ex
    return _MODS


# constructor, kind of states, levels, keyword of the numbers, extra keywords, sizes
CT = [('spin_basis_1d', 'hcp', 2, 'Nup', {}), ('spin_basis_1d', 'boson', 3, 'Nup', {'S': '1'}), ('spin_basis_1d', 'boson', 4, 'Nup', {'S': '3/2'}), ('boson_basis_1d', 'hcp', 2, 'Nb', {'sps': 2}),
      ('boson_basis_1d', 'boson', 3, 'Nb', {'sps': 3}), ('boson_basis_1d', 'boson', 5, 'Nb', {'sps': 5}), ('spinless_fermion_basis_1d', 'hcp', 2, 'Nf', {}), ('spinful_fermion_basis_1d', 'spf', 2, 'Nf', {}),
      ('spin_basis_general', 'hcp', 2, 'Nup', {}), ('spin_basis_general', 'boson', 3, 'Nup', {'S': '1'}), ('spin_basis_general', 'boson', 4, 'Nup', {'S': '3/2'}), ('boson_basis_general', 'hcp', 2, 'Nb', {'sps': 2}),
      ('boson_basis_general', 'boson', 3, 'Nb', {'sps': 3}), ('boson_basis_general', 'boson', 5, 'Nb', {'sps': 5}), ('spinless_fermion_basis_general', 'hcp', 2, 'Nf', {}),
      ('spinful_fermion_basis_general', 'spf', 2, 'Nf', {})]


def build(cls, args, kw):
    m = mods()
    r = pyrun.Run(m[FILES[0]], 60000000)
    c = m['all'].get(cls)
    if not isinstance(c, pyrun.Cls):
        raise Missing(cls)
    return r, r.call(c, list(args), dict(kw))


def numbers(r, o, nm):
    v = r.attr(o, nm)
    return [decode(x) for x in v]


def verdict(rule, lab, cls, thunk):
    loc = '%s (%s)' % (B, cls)
    try:
        msg = thunk()
    except (Undecided, pyrun.HostRaise, RecursionError) as e:
        return (rule, lab, 'undecided', '%s %s' % (type(e).__name__, str(e)[:150]), '', loc)
    except pyrun.PyRaise as e:
        return (rule, lab, 'violated', 'raises %s' % e.name, 'raises %s: %s' % (e.name, getattr(e, 'msg', '')), loc)
    except Missing as e:
        return (rule, lab, 'undecided', str(e), '', loc)
    return (rule, lab, 'held' if msg is None else 'violated', msg or '', msg or '', loc)


def compare(r, o, kind, L, d, secs):
    want = sorted((s for x in secs for s in states(kind, L, d, x)), reverse=True)
    if int(r.attr(o, 'Ns')) != len(want):
        return 'dimension %d instead of %d' % (int(r.attr(o, 'Ns')), len(want))
    got = numbers(r, o, '_basis')
    if got != want:
        return 'states are not those of the sectors in descending order'
    return None


def run_filling(prog, it):
    what, (cls, kind, d, key, kw), L, deep = it
    lab0 = '%s(%d%s)' % (cls, L, ''.join(', %s=%s' % x for x in sorted(kw.items())))
    top = L * (d - 1)
    if what == 'sectors':
        if kind == 'spf':
            al = [(i, j) for i in range(L + 1) for j in range(L + 1) if L < 7 or (i in (0, 1, L) and j in (0, 1, L))]
            secs = [(s, [s]) for s in al] + [([s], [s]) for s in al[:3]] + [(l, l) for l in ([al[1], al[2]], [al[-1], al[0], al[3]], al[::2], list(al))] + [(tuple(al[:3]), al[:3]), (tuple(al[1::2]), al[1::2])]
        else:
            al = list(range(top + 1)) if L < 7 else [0, 1, top - 1, top]
            secs = [(s, [s]) for s in al] + [([s], [s]) for s in al[:3]] + [(l, l) for l in ([0, 1], [1, 0], [top, 1], [1, top, 0], list(al), al[::2])] + [((0, 1), [0, 1]), ((top, 0), [top, 0]),
                                                                                                                                 (range(1, top), al[1:top])]
        if L > 6:
            secs = [x for x in secs if sum(succ.count(kind, L, d, s) for s in x[1]) <= 3000 and (kind != 'spf' or len(x[1]) > 1)]
        else:
            secs.append((None, [None]))
        for arg, sl in secs:
            if not sl or L > 6 and isinstance(arg, range) or len(set(sl)) != len(sl) or kind == 'spf' and isinstance(arg, tuple) and isinstance(arg[0], tuple) and len(arg) == 2:
                continue
            lab = '%s %s=%s' % (lab0, key, arg)

            def fn():
                r, o = build(cls, [L], dict(kw, **{key: arg}))
                return compare(r, o, kind, L, d, sl)
            yield verdict('sectors', lab, cls, fn)
    elif what == 'photon':
        cap = 2 * L if kind == 'spf' else top
        for N in range(cap + 3):
            if kind == 'spf':
                sl = [(i, j) for i in range(L + 1) for j in range(L + 1) if i + j <= N]
            else:
                sl = list(range(min(N, top) + 1))
            for bl in ({}, {'pblock': 1}, {'kblock': 0}, {'kblock': 0, 'pblock': 1}) if cls.endswith('_1d') else ({},):
                lab = 'photon_basis(%s, %d%s, Ntot=%d)' % (cls, L, ''.join(', %s=%s' % x for x in sorted(dict(kw, **bl).items())), N)

                def fn():
                    r, o = build('photon_basis', [m_cls(cls), L], dict(kw, Ntot=N, **bl))
                    left = r.attr(o, '_basis_left')
                    want = sorted(((s, total(x)) for x in sl for s in states(kind, L, d, x)), reverse=True)
                    if int(r.attr(o, 'Ns')) != len(want):
                        return 'dimension %d instead of %d' % (int(r.attr(o, 'Ns')), len(want))
                    if numbers(r, left, '_basis') != [s for s, _ in want]:
                        return 'lattice states are not those with at most the total number of particles'
                    if numbers(r, o, '_n') != [N - k for _, k in want]:
                        return 'wrong photon numbers'
                    return None
                yield verdict('photon', lab, cls, fn)
        for N in (0, 1, 3):
            lab = 'photon_basis(%s, %d%s, Nph=%d)' % (cls, L, ''.join(', %s=%s' % x for x in sorted(kw.items())), N)

            def fn():
                r, o = build('photon_basis', [m_cls(cls), L], dict(kw, Nph=N))
                left = r.attr(o, '_basis_left')
                want = states(kind, L, d, None)[::-1]
                if int(r.attr(o, 'Ns')) != len(want) * (N + 1):
                    return 'dimension %d instead of %d' % (int(r.attr(o, 'Ns')), len(want) * (N + 1))
                if numbers(r, left, '_basis') != want:
                    return 'lattice states missing'
                return None
            yield verdict('photon', lab, cls, fn)
    elif what == 'density':
        for L in range(2, (27 if deep else 25) if kind == 'hcp' else (16 if deep else 13) if kind == 'spf' else 10 if deep else 9 if d < 5 else 6):
            top = L * (d - 1)
            for n in range(top + 1) if kind != 'spf' else [(i, (7 * i + L) % (L + 1)) for i in range(L + 1)]:
                k = {'Nup': 'm', 'Nb': 'nb', 'Nf': 'nf'}[key]
                v = tuple(x / L for x in n) if kind == 'spf' else n / L - (d - 1) / 2 if k == 'm' else n / L
                lab = '%s %s=%r' % (cls + '(%d%s)' % (L, ''.join(', %s=%s' % x for x in sorted(kw.items()))), k, v)

                def fn():
                    LOG[:] = []
                    build(cls, [L], dict(kw, **{k: v}))
                    if [x for x in LOG] != [n]:
                        return 'sector %s instead of %s' % (LOG, n)
                    return None
                yield verdict('density', lab, cls, fn)


def run_word(prog, it):
    """the integer type a constructor settles on"""
    _, (cls, kind, d, key, kw), deep = it
    gen = cls.endswith('_general')
    for L in [1, 2, 5] + list(range(8, 34)) + [40, 63, 64, 65] + ([80, 128, 129, 200, 300, 520] if gen else [90]):
        top = L * (d - 1)
        if kind == 'spf':
            reqs = [(0, 0), (0, 1), (1, 0), [(0, 1), (0, 0)]]
        else:
            reqs = [0, 1, [0, 1], [1], top] + ([min(top, 2)] if L < 70 else [])
        for req in reqs:
            lab = '%s(%d%s) %s=%s' % (cls, L, ''.join(', %s=%s' % x for x in sorted(kw.items())), key, req)

            def fn():
                del CORE[:]
                r, o = build(cls, [L], dict(kw, **dict({key: req}, **({'make_basis': False} if gen else {}))))
                t = CORE[0][0] if gen else r.attr(o, '_basis').dtype
                need = (d ** (2 * L if kind == 'spf' else L) - 1).bit_length()
                if succ.bits_of(t) < need:
                    return '%d-bit words for %d bits of site contents' % (succ.bits_of(t), need)
                return None
            yield verdict('word', lab, cls, fn)


def digits(x, L, d):
    out = ''
    for _ in range(L):
        out = '0123456789abcdefghijklmnopqrstuvwxyz'[x % d] + out
        x //= d
    return out


def run_index(prog, it):
    """the position of a product state"""
    _, what, (cls, kind, d, key, kw), L, deep = it
    lab0 = '%s(%d%s)' % (cls, L, ''.join(', %s=%s' % x for x in sorted(kw.items())))

    def keys(x, text):
        w = (x >> L, x & ((1 << L) - 1)) if kind == 'spf' else (x,)
        return [digits(q, L, d) for q in w] if text else list(w)

    def look(r, o, a, want):
        f = r.attr(o, 'index')
        try:
            got = int(r.call(f, a, {}))
        except pyrun.PyRaise as e:
            if e.name in ('ValueError', 'OverflowError') and want is None:
                return None
            return 'state not found' if e.name == 'ValueError' else 'raises %s' % e.name
        if want is None:
            return 'state outside the basis found'
        return None if got == want else 'wrong position'
    top = L * (d - 1)
    if what == 'lattice':
        half = (L // 2, (L + 1) // 2) if kind == 'spf' else top // 2
        reqs = ([(1, 0), [(1, 0), (0, 1)], (0, L)] if kind == 'spf' else [1, [0, 1], top - 1]) if L > 6 else (None, half, [half, (0, 1) if kind == 'spf' else 1] if half not in (1, (0, 1)) else [half])
        for req in reqs:
            for text in (False, True):
                def fn():
                    r, o = build(cls, [L], dict(kw, **({} if req is None else {key: req})))
                    st = numbers(r, o, '_basis')
                    allst = range(d ** (2 * L if kind == 'spf' else L)) if len(st) < 5000 and L < 7 else [st[0], st[-1], st[len(st) // 2], 0]
                    for x in allst:
                        m = look(r, o, keys(x, text), st.index(x) if x in st else None)
                        if m:
                            return m
                    if kind != 'spf' and not text and L <= 64:
                        for x in st:
                            t = r.call(r.attr(o, 'int_to_state'), [x], {'bracket_notation': False})
                            if d < 10 and (t != digits(x, L, d) or int(r.call(r.attr(o, 'state_to_int'), [t], {})) != x):
                                return 'names of states do not invert'
                yield verdict('index', '%s %s=%s, states as %s' % (lab0, key, req, 'text' if text else 'integers'), cls, fn)
    elif what == 'photon':
        for req in ({'Nph': 0}, {'Nph': 3}, {'Nph': 12}, {'Ntot': 0}, {'Ntot': 1}, {'Ntot': 2}, {'Ntot': 11}, {'Ntot': 13}):
            for text in (False, True):
                def fn():
                    r, o = build('photon_basis', [m_cls(cls), L], dict(kw, **req))
                    st = numbers(r, r.attr(o, '_basis_left'), '_basis')
                    for i, x in enumerate(st):
                        full = sum(int(c) for c in map(lambda t: int(t, 36), ''.join(map(str, keys(x, True))))) if True else 0
                        for n in range(14):
                            if 'Nph' in req:
                                want = i * (req['Nph'] + 1) + n if n <= req['Nph'] else None
                            else:
                                want = i if full + n == req['Ntot'] else None
                            m = look(r, o, keys(x, text) + [str(n) if text else n], want)
                            if m:
                                return m
                yield verdict('index', 'photon_basis(%s, %s), states as %s' % (lab0, ', '.join('%s=%d' % q for q in req.items()), 'text' if text else 'integers'), cls, fn)
    else:
        for text in (False, True):
            def fn():
                r, a = build(cls, [L], dict(kw))
                r, b = build('spin_basis_1d', [2], {'Nup': 1})
                r, c = build('spinless_fermion_basis_1d', [2], {})
                r, o = build('tensor_basis', [a, b, c], {})
                st = [numbers(r, q, '_basis') for q in (a, b, c)]
                k = 0
                for x in st[0]:
                    for y in st[1]:
                        for z in st[2]:
                            m = look(r, o, keys(x, text) + ([digits(y, 2, 2), digits(z, 2, 2)] if text else [y, z]), k)
                            if m:
                                return m
                            k += 1
                if int(r.attr(o, 'Ns')) != k:
                    return 'dimension %d instead of %d' % (int(r.attr(o, 'Ns')), k)
            yield verdict('index', 'tensor_basis(%s, two spins, two fermions), states as %s' % (lab0, 'text' if text else 'integers'), cls, fn)


def index_scenarios(tier):
    deep = tier == 'thorough'
    out = []
    for c in CT + [('boson_basis_1d', 'boson', 12, 'Nb', {'sps': 12}), ('boson_basis_general', 'boson', 12, 'Nb', {'sps': 12})]:
        out += [('index', 'lattice', c, L, deep) for L in ((2, 3) if c[2] < 12 else (2,))]
        out += [('index', 'lattice', c, L, deep) for L in WIDEST.get((c[1], c[2]), [])[-2:] + ([] if c[1] != 'spf' else [33, 40] if c[0].endswith('_general') else [56])]
        if c[2] < 12:
            out.append(('index', 'photon', c, 2, deep))
        if c[1] != 'spf':
            out.append(('index', 'tensor', c, 2, deep))
    return out


def word_scenarios(tier):
    return [('word', c, tier == 'thorough') for c in CT]


def m_cls(cls):
    return mods()['all'][cls]


WIDEST = {('hcp', 2): [31, 32, 33, 63, 64], ('boson', 3): [19, 20, 21, 40], ('boson', 4): [15, 16, 17, 31, 32], ('boson', 5): [13, 14, 27], ('spf', 2): [15, 16, 17, 31, 32]}


def scenarios(tier):
    deep = tier == 'thorough'
    out = []
    for c in CT:
        big = c[1] == 'spf' or c[2] > 2
        out += [('sectors', c, L, deep) for L in ((1, 2, 3) if big else (1, 2, 3, 4, 5))]
        big = WIDEST[c[1], c[2]] + ([70] if not c[0].endswith('_general') else {'hcp': [65, 130], 'spf': [33, 40]}.get(c[1], []))
        out += [('sectors', c, L, deep) for L in big]
        out.append(('density', c, 0, deep))
        out += [('photon', c, L, deep) for L in ((2, 3) if c[1] == 'spf' or c[2] > 2 else (2, 3, 4))]
    return out
