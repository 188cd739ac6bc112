"""Abstract domain for words of the compiled basis code.

bits: GF(2) polynomials (frozenset of monomials, a monomial is a frozenset of variables)
Bits: a word given bit by bit;  Lin: an integer linear combination of 0/1 atoms and digits;  Ph: coefficient * (-1)**poly
Conditions that the domain does not fix split the path (trace partitioning)."""
ZERO = frozenset()
UNIT = frozenset()
ONE = frozenset([UNIT])


class Undecided(Exception):
    pass


class Fault(Exception):
    """definite misuse: shift out of range, index out of bounds"""


def pvar(v):
    return frozenset([frozenset([v])])


def padd(a, b):
    return a ^ b


def pmul(a, b):
    if a == ZERO or b == ZERO:
        return ZERO
    if a == ONE:
        return b
    if b == ONE:
        return a
    r = set()
    for x in a:
        for y in b:
            r ^= {x | y}
    return frozenset(r)


class Bits(object):
    __slots__ = ('b',)

    def __init__(self, b):
        b = list(b)
        while b and b[-1] == ZERO:
            b.pop()
        self.b = tuple(b)

    def __repr__(self):
        return 'Bits[%s]' % ', '.join('+'.join('*'.join(map(str, sorted(m, key=str))) or '1' for m in p) or '0' for p in self.b)


class Digit(object):
    """an unknown digit in range(n)"""
    __slots__ = ('name', 'n')

    def __init__(self, name, n):
        self.name, self.n = name, n

    def __repr__(self):
        return '%s' % (self.name,)


def atommax(v):
    return v.n - 1 if isinstance(v, Digit) else 1


class Lin(object):
    """c + sum coef*atom; atoms are Digits or non-constant polynomials without constant term"""
    __slots__ = ('c', 't')

    def __init__(self, c, t):
        self.c = c
        self.t = {k: v for k, v in t.items() if v}

    def lo(self):
        return self.c + sum(min(0, v * atommax(k)) for k, v in self.t.items())

    def hi(self):
        return self.c + sum(max(0, v * atommax(k)) for k, v in self.t.items())

    def __repr__(self):
        return 'Lin(%s)' % ' + '.join([str(self.c)] + ['%d*%r' % (v, k if isinstance(k, Digit) else Bits([k])) for k, v in self.t.items()])


class Ph(object):
    """c * (-1)**p"""
    __slots__ = ('c', 'p')

    def __init__(self, c, p):
        self.c, self.p = c, p

    def __repr__(self):
        return 'Ph(%r, %r)' % (self.c, Bits([self.p]))


class Path(object):
    """decisions of one partition and the facts they establish"""

    def __init__(self, dec=(), limit=4000):
        self.dec, self.taken, self.val, self.eqs, self.dig = list(dec), [], {}, [], {}
        self.steps, self.limit = 0, limit

    def choose(self, n):
        i = len(self.taken)
        k = self.dec[i][0] if i < len(self.dec) else 0
        self.taken.append((k, n))
        return k

    # ---- GF(2) facts
    def red(self, p):
        if len(p) == 1 and p == ONE or not p:
            return p
        if self.val:
            r = set()
            for m in p:
                z, keep = False, []
                for v in m:
                    x = self.val.get(v)
                    if x is None:
                        keep.append(v)
                    elif x == 0:
                        z = True
                        break
                if not z:
                    r ^= {frozenset(keep)}
            p = frozenset(r)
        for piv, e in self.eqs:
            if piv in p:
                p = p ^ e
        return p

    def assume(self, p, x):
        """poly p has value x"""
        p = self.red(p)
        e = p if x == 0 else p ^ ONE          # e == 0
        if e == ZERO:
            return
        if e == ONE:
            raise Undecided('contradictory partition')
        ms = [m for m in e if m]
        if len(ms) == 1 and len(ms[0]) == 1:
            self.val[next(iter(ms[0]))] = 1 if frozenset() in e else 0
            old, self.eqs = self.eqs, []
            for _, q in old:
                self.assume(q, 0)
            return
        if len(ms) == 1 and UNIT in e:        # a product equal to one
            for v in ms[0]:
                self.assume(pvar(v), 1)
            return
        piv = max(ms, key=lambda m: (len(m), sorted(map(str, m))))
        self.eqs = [(a, b ^ e if piv in b else b) for a, b in self.eqs]
        self.eqs.append((piv, e))

    def truth(self, p):
        p = self.red(p)
        if p == ONE:
            return True
        if p == ZERO:
            return False
        k = self.choose(2)
        self.assume(p, k)
        return bool(k)

    def digit(self, d):
        if d not in self.dig:
            self.dig[d] = self.choose(d.n)
        return self.dig[d]

    # ---- normal forms
    def norm(self, v):
        if isinstance(v, Bits):
            b = Bits([self.red(p) for p in v.b])
            if all(p in (ZERO, ONE) for p in b.b):
                return sum(1 << i for i, p in enumerate(b.b) if p == ONE)
            return b
        if isinstance(v, Lin):
            c, t = v.c, {}
            for k, w in v.t.items():
                if isinstance(k, Digit):
                    if k in self.dig:
                        c += w * self.dig[k]
                    else:
                        t[k] = t.get(k, 0) + w
                else:
                    q = self.red(k)
                    c, t = addatom(c, t, q, w)
            r = Lin(c, t)
            return r.c if not r.t else r
        if isinstance(v, Ph):
            p = self.red(v.p)
            c = v.c
            if UNIT in p:
                c, p = -c, p ^ ONE
            return c if not p or not c else Ph(c, p)
        return v


def addatom(c, t, q, w):
    if UNIT in q:
        c, q, w = c + w, q ^ ONE, -w
    if q:
        t[q] = t.get(q, 0) + w
    return c, t


def explore(fn, maxpaths=3000):
    """run fn(path) once per partition; yields (path, result)"""
    dec = []
    for _ in range(maxpaths):
        p = Path(dec)
        try:
            r = fn(p)
        except Undecided as e:
            if 'contradictory' not in str(e):
                raise
            r = None
        if r is not None:
            yield p, r
        dec = list(p.taken)
        while dec and dec[-1][0] + 1 >= dec[-1][1]:
            dec.pop()
        if not dec:
            return
        dec[-1] = (dec[-1][0] + 1, dec[-1][1])
    raise Undecided('too many partitions')


# ------------------------------------------------------------------ conversions
def isint(v):
    return isinstance(v, (bool, int))


def tobits(v):
    if isinstance(v, Bits):
        return v
    if isint(v):
        if v < 0:
            raise Undecided('negative word')
        return Bits([ONE if v >> i & 1 else ZERO for i in range(v.bit_length())])
    if isinstance(v, Lin):
        out = {}
        c = v.c
        for k, w in v.t.items():
            if isinstance(k, Digit) and k.n == 2:
                k = pvar(k)
            if isinstance(k, Digit):
                raise Undecided('digit as bits')
            if w < 0:
                c, w, k = c + w, -w, k ^ ONE
            if w & (w - 1):
                raise Undecided('weight %d' % w)
            i = w.bit_length() - 1
            if i in out:
                raise Undecided('carry')
            out[i] = k
        if c < 0:
            raise Undecided('negative word')
        for i in range(c.bit_length()):
            if c >> i & 1:
                if i in out:
                    raise Undecided('carry')
                out[i] = ONE
        return Bits([out.get(i, ZERO) for i in range(max(out) + 1 if out else 0)])
    raise Undecided('bits of %r' % (v,))


def tolin(v):
    if isinstance(v, Lin):
        return v
    if isint(v):
        return Lin(int(v), {})
    if isinstance(v, float):
        return Lin(v, {})
    if isinstance(v, Bits):
        c, t = 0, {}
        for i, p in enumerate(v.b):
            c, t = addatom(c, t, p, 1 << i)
        return Lin(c, t)
    raise Undecided('linear form of %r' % (v,))


def unlin(l):
    return l.c if not l.t else l


def ladd(a, b, s=1):
    t = dict(a.t)
    for k, v in b.t.items():
        t[k] = t.get(k, 0) + s * v
    return Lin(a.c + s * b.c, t)


def lscale(a, k):
    return Lin(a.c * k, {x: v * k for x, v in a.t.items()})


def posform(l):
    """same value with non-negative weights (negative weights of 0/1 atoms are complemented)"""
    return l


def lsplit(l, m):
    """l = hi*m + lo with 0 <= lo < m for all values, or None"""
    lo = Lin(l.c % m, {k: v % m for k, v in l.t.items()})
    hi = Lin(l.c // m, {k: v // m for k, v in l.t.items()})
    if lo.hi() < m:
        return hi, lo
    # weights close to m from below stand for negative ones
    t, h = {}, {}
    for k, v in l.t.items():
        r = v % m
        if r * 2 > m:
            t[k], h[k] = r - m, v // m + 1
        else:
            t[k], h[k] = r, v // m
    lo = Lin(l.c % m, t)
    if lo.lo() >= 0 and lo.hi() < m:
        return Lin(l.c // m, h), lo
    return None


def parity(l):
    p = ONE if l.c & 1 else ZERO
    for k, v in l.t.items():
        if isinstance(k, Digit):
            if v % 2 == 0:
                continue
            if k.n != 2:
                raise Undecided('parity of a digit')
            k = pvar(k)
        if v & 1:
            p = p ^ k
    return p


def second(l):
    """bit 1 of a sum of 0/1 atoms"""
    us, p = [], ZERO
    for k, v in list(l.t.items()):
        if isinstance(k, Digit):
            if k.n != 2:
                raise Undecided('second bit of a digit')
            k = pvar(k)
        v %= 4
        if v & 1:
            us.append(k)
        if v & 2:
            p = p ^ k
    c = l.c % 4
    if c & 1:
        us.append(ONE)
    if c & 2:
        p = p ^ ONE
    for i in range(len(us)):
        for j in range(i):
            p = p ^ pmul(us[i], us[j])
    return p


# ------------------------------------------------------------------ operations
class Ops(object):
    """arithmetic on one path; ty = (signed, width) for machine integers, None for unbounded integers, 'f' floating/complex"""

    def __init__(self, path):
        self.P = path

    def wrap(self, v, ty):
        if not isinstance(ty, tuple):
            return v
        signed, w = ty
        if isint(v):
            v = int(v) & ((1 << w) - 1)
            return v - (1 << w) if signed and v >> (w - 1) else v
        v = self.P.norm(v)
        if isint(v):
            return self.wrap(v, ty)
        if isinstance(v, Ph):
            if v.c in (1, -1, 1.0, -1.0) and signed:
                return v
            raise Undecided('sign in an unsigned word')
        if isinstance(v, Bits):
            if len(v.b) > (w - 1 if signed else w):
                if signed:
                    raise Undecided('sign bit')
                return Bits(v.b[:w])
            return v
        if isinstance(v, Lin):
            lo, hi = v.lo(), v.hi()
            if signed and -(1 << (w - 1)) <= lo and hi < 1 << (w - 1) or not signed and 0 <= lo and hi < 1 << w:
                return v
            if not signed:
                s = lsplit(v, 1 << w)
                if s:
                    return unlin(s[1])
                return self.ripple(v, w)
            raise Undecided('possible overflow')
        raise Undecided('wrap %r' % (v,))

    def bits(self, v):
        try:
            return tobits(v)
        except Undecided:
            if isinstance(v, Lin) and v.lo() >= 0 and all(isint(x) for x in v.t.values()) and not any(isinstance(k, Digit) and k.n > 2 for k in v.t):
                return self.ripple(v, max(v.hi(), 1).bit_length())
            raise

    def ripple(self, l, w):
        """l modulo 2**w bit by bit; the path splits where a carry is not determined"""
        cols, out, carry = [[] for _ in range(w)], [], 0
        if any(isinstance(k, Digit) and k.n > 2 for k in l.t) or not all(isint(x) for x in l.t.values()):
            raise Undecided('carry over digits')
        const = l.c
        for k, x in l.t.items():
            if isinstance(k, Digit):
                k = pvar(k)
            if x < 0:                       # -x*k = x*(1-k) - x
                const, x, k = const + x, -x, k ^ ONE
            i = 0
            while x and i < w:
                if x & 1:
                    cols[i].append(k)
                x, i = x >> 1, i + 1
        const &= (1 << w) - 1
        for i in range(w):
            n = carry + (const >> i & 1)
            sym = []
            for k in cols[i]:
                k = self.P.red(k)
                if k == ONE:
                    n += 1
                elif k:
                    sym.append(k)
            while sym and len(sym) + n > 1:
                n += 1 if self.P.truth(sym.pop()) else 0
                sym = [self.P.red(k) for k in sym]
                n += sum(1 for k in sym if k == ONE)
                sym = [k for k in sym if k not in (ZERO, ONE)]
            if sym:
                out.append(sym[0])
                carry = 0
            else:
                out.append(ONE if n & 1 else ZERO)
                carry = n >> 1
        return self.P.norm(Bits(out))

    def num(self, v):
        v = self.P.norm(v)
        return v

    def bin(self, op, a, b, ty):
        a, b = self.num(a), self.num(b)
        return self.P.norm(self.wrap(self._bin(op, a, b, ty), ty))

    def _bin(self, op, a, b, ty):
        ca, cb = isinstance(a, (bool, int, float, complex)), isinstance(b, (bool, int, float, complex))
        if op in ('<<', '>>'):
            if not isint(b):
                raise Undecided('symbolic shift')
            if isinstance(ty, tuple) and not 0 <= b < ty[1]:
                raise Fault('shift by %d of a %d-bit word' % (b, ty[1]))
            if b < 0:
                raise Fault('shift by %d' % b)
            if isint(a):
                return int(a) << b if op == '<<' else int(a) >> b
            if isinstance(a, Bits):
                return Bits((ZERO,) * b + a.b) if op == '<<' else Bits(a.b[b:])
            l = tolin(a)
            if op == '<<':
                return lscale(l, 1 << b)
            s = lsplit(l, 1 << b)
            return unlin(s[0]) if s else Bits(self.bits(l).b[b:])
        if ca and cb:
            return self.conc(op, a, b, ty)
        if isinstance(a, Ph) or isinstance(b, Ph):
            if op == '*':
                if isinstance(a, Ph) and isinstance(b, Ph):
                    return Ph(a.c * b.c, a.p ^ b.p)
                x, y = (a, b) if isinstance(a, Ph) else (b, a)
                if isinstance(y, (bool, int, float, complex)):
                    return Ph(x.c * y, x.p)
            if op == '/' and isinstance(a, Ph) and cb:
                return Ph(a.c / b, a.p)
            raise Undecided('sign arithmetic %s' % op)
        if op == '+' or op == '-':
            return unlin(ladd(tolin(a), tolin(b), 1 if op == '+' else -1))
        if op == '*':
            if ca:
                return self.scale(b, a)
            if cb:
                return self.scale(a, b)
            a = self.concretize(a)
            return self._bin(op, a, self.P.norm(b), ty)
        if op in ('/', '//', '%'):
            if ty == 'f':
                return self.conc(op, self.concretize(a), self.concretize(b), ty)
            if not isint(b):
                b = self.concretize(b)
            if b == 0:
                raise Fault('division by zero')
            l = tolin(a)
            if l.lo() < 0 or b < 0:
                raise Undecided('signed division')
            s = lsplit(l, b)
            if s:
                return unlin(s[0] if op != '%' else s[1])
            if op == '%' and b == 2:
                return Bits([parity(l)])
            if b & (b - 1) == 0:
                k = b.bit_length() - 1
                try:
                    t = self.bits(l)
                except Undecided:
                    if len(l.t) > 4:
                        raise
                    return self._bin(op, self.concretize(a), b, ty)
                return Bits(t.b[k:]) if op != '%' else Bits(t.b[:k])
            if len(l.t) <= 4:
                return self._bin(op, self.concretize(a), b, ty)
            raise Undecided('division')
        if op in ('&', '|', '^'):
            return self.logic(op, a, b)
        raise Undecided('operator %s' % op)

    def scale(self, v, k):
        if isinstance(k, bool):
            k = int(k)
        if isint(k) or isinstance(k, float):
            return unlin(lscale(tolin(v), k))
        return self._bin('*', self.concretize(v), k, 'f')

    def logic(self, op, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Lin) and isint(y):
                if op == '&' and y == 1:
                    return Bits([parity(x)])
                if op == '&' and y == 2:
                    return Bits([ZERO, second(x)])
                if op == '&' and y >= 0:
                    r = self.fields(x, y)
                    if r is not None:
                        return r
            if isinstance(x, Bits) and isint(y) and y < 0 and op == '&':
                return Bits([p if y >> i & 1 else ZERO for i, p in enumerate(x.b)])
        if op == '&':
            for x, y in ((a, b), (b, a)):     # x & -y depends on y modulo the width of x only
                if isinstance(y, Lin) and y.lo() < 0 and (isinstance(x, Bits) or isinstance(x, Lin) and x.lo() >= 0):
                    x = self.bits(x)
                    y = self.ripple(y, max(1, len(x.b)))
                    a, b = x, y
                    break
        if op in ('|', '^') and not isint(a) and not isint(b):
            r = self.disjoint(tolin(a), tolin(b)) if isinstance(a, Lin) or isinstance(b, Lin) else None
            if r is not None:
                return r
        x, y = self.bits(a).b, self.bits(b).b
        n = max(len(x), len(y))
        x, y = x + (ZERO,) * (n - len(x)), y + (ZERO,) * (n - len(y))
        f = {'&': pmul, '^': padd, '|': lambda p, q: p ^ q ^ pmul(p, q)}[op]
        return Bits([self.P.red(f(p, q)) for p, q in zip(x, y)])

    def disjoint(self, a, b):
        for x, y in ((a, b), (b, a)):
            if x.lo() >= 0:
                n = 1 << x.hi().bit_length()
                if y.c % n == 0 and all(v % n == 0 for v in y.t.values()):
                    return unlin(ladd(x, y))
        return None

    def fields(self, l, mask):
        out = Lin(0, {})
        i = 0
        try:
            n = max(l.hi(), 0).bit_length()
            if l.lo() < 0:
                return None
            while mask >> i:
                if not mask >> i & 1:
                    i += 1
                    continue
                j = i
                while mask >> j & 1:
                    j += 1
                s = lsplit(l, 1 << i)
                if not s:
                    return None
                if j < n:
                    s = lsplit(s[0], 1 << (j - i))
                    if not s:
                        return None
                    f = s[1]
                else:
                    f = s[0]
                out = ladd(out, lscale(f, 1 << i))
                i = j
            return unlin(out)
        except Undecided:
            return None

    def conc(self, op, a, b, ty):
        if op == '+':
            return a + b
        if op == '-':
            return a - b
        if op == '*':
            return a * b
        if op in ('/', '//', '%'):
            if b == 0:
                raise Fault('division by zero')
            if ty == 'f':
                return a / b if op == '/' else a // b if op == '//' else a % b
            q = abs(a) // abs(b)
            q = q if (a >= 0) == (b >= 0) else -q
            if ty == 'py':
                q = a // b
            return q if op != '%' else a - q * b
        if op == '&':
            return a & b
        if op == '|':
            return a | b
        if op == '^':
            return a ^ b
        if op == '**':
            return a ** b
        raise Undecided('operator %s' % op)

    def concretize(self, v):
        """fix the unknowns v depends on (splits the path)"""
        v = self.P.norm(v)
        if isinstance(v, Ph):
            self.P.truth(v.p)
        elif isinstance(v, Bits):
            for p in reversed(v.b):
                self.P.truth(p)
        elif isinstance(v, Lin):
            for k in list(v.t):
                if isinstance(k, Digit):
                    self.P.digit(k)
                else:
                    self.P.truth(k)
        return self.P.norm(v)

    def neg(self, v, ty):
        v = self.num(v)
        if isinstance(v, Ph):
            return Ph(-v.c, v.p)
        if isinstance(v, (int, float, complex)):
            return self.wrap(-v, ty)
        return self.bin('-', 0, v, ty)

    def inv(self, v, ty):
        v = self.num(v)
        if not isinstance(ty, tuple):
            if isint(v):
                return ~v
            raise Undecided('~')
        if isint(v):
            return self.wrap(~int(v), ty)
        w = ty[1]
        b = self.bits(v).b
        return Bits([p ^ ONE for p in b + (ZERO,) * (w - len(b))])

    def cmp(self, op, a, b):
        """truth value as a polynomial or bool; may split the path"""
        a, b = self.num(a), self.num(b)
        prim = (bool, int, float, complex)
        if isinstance(a, prim) and isinstance(b, prim):
            if isinstance(a, complex) or isinstance(b, complex):
                return (a == b) if op == '==' else a != b
            return {'==': a == b, '!=': a != b, '<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
        if isinstance(a, Ph) or isinstance(b, Ph):
            if op in ('==', '!=') and isinstance(a, Ph) and b == 0 or isinstance(b, Ph) and a == 0:
                return op == '!='
            return self.cmp(op, self.concretize(a), self.concretize(b))
        if isint(b) and op in ('==', '!=') and isinstance(a, Bits):
            n = [i for i, p in enumerate(a.b) if p not in (ZERO, ONE)]
            for i, p in enumerate(a.b):
                if p in (ZERO, ONE) and (p == ONE) != bool(b >> i & 1):
                    return op == '!='
            if b < 0 or b.bit_length() > len(a.b):
                return op == '!='
            eq = True
            if len(n) == 1:
                p = a.b[n[0]]
                q = p if b >> n[0] & 1 else p ^ ONE
                return q if op == '==' else q ^ ONE
            for i in reversed(n):
                if self.P.truth(a.b[i]) != bool(b >> i & 1):
                    eq = False
                    break
            return eq if op == '==' else not eq
        if isint(a) and op in ('==', '!='):
            return self.cmp(op, b, a)
        # ranges
        try:
            d = ladd(tolin(a), tolin(b), -1)
            lo, hi = d.lo(), d.hi()
            if op == '<' and (hi < 0 or lo >= 0):
                return hi < 0
            if op == '<=' and (hi <= 0 or lo > 0):
                return hi <= 0
            if op == '>' and (lo > 0 or hi <= 0):
                return lo > 0
            if op == '>=' and (lo >= 0 or hi < 0):
                return lo >= 0
            if op in ('==', '!=') and (lo > 0 or hi < 0):
                return op == '!='
            if op in ('==', '!=') and not d.t:
                return (d.c == 0) == (op == '==')
        except Undecided:
            pass
        return self.order(op, a, b)

    def order(self, op, a, b):
        return self.cmp(op, self.concretize(a), self.concretize(b))

    def truth(self, v):
        v = self.num(v)
        if isinstance(v, frozenset):
            return self.P.truth(v)
        if isinstance(v, (Bits, Lin)):
            return self.truth(self.cmp('!=', v, 0))
        if isinstance(v, Ph):
            return True
        if isinstance(v, (bool, int, float, complex)) or v is None:
            return bool(v)
        return True

    def poly(self, v):
        """truth value as polynomial if that needs no split, else None"""
        v = self.num(v)
        if isinstance(v, frozenset):
            return self.P.red(v)
        if isinstance(v, Bits) and sum(p != ZERO for p in v.b) == 1:
            return [p for p in v.b if p != ZERO][0]
        if isinstance(v, (bool, int, float)):
            return ONE if v else ZERO
        return None


def popc(x, l=None):
    """number of set bits among the lowest l"""
    b = tobits(x).b
    if l is not None:
        b = b[:l]
    c, t = 0, {}
    for p in b:
        c, t = addatom(c, t, p, 1)
    r = Lin(c, t)
    return r.c if not r.t else r
