"""Boolean values as algebraic normal forms (polynomials over GF(2), x^2 = x).

A polynomial is a frozenset of monomials; a monomial is an int used as a set of
variable numbers (bit i set = variable i occurs).  Empty set = 0, {0} = 1.  The
form is canonical: two bits are equal for every input iff their polynomials are
equal.  TOP is "not known".
"""

ZERO = frozenset()
ONE = frozenset([0])
TOP = None
LIMIT = 60000        # monomials per bit before giving up
NODES = 400          # tokens per variable name


class Vars:
    def __init__(self):
        self.names = []
        self.eqs = {}      # canonical conjunction -> variable number

    def new(self, name):
        self.names.append(name)
        return frozenset([1 << (len(self.names) - 1)])

    def vec(self, name, n):
        return [self.new('%s[%d]' % (name, i)) for i in range(n)]

    def show(self, p, limit=4):
        if p is TOP:
            return 'unknown'
        if not p:
            return '0'
        out = []
        for m in sorted(p)[:limit]:
            if m == 0:
                out.append('1')
                continue
            s = []
            i = 0
            while m:
                if m & 1:
                    s.append(self.names[i])
                m >>= 1
                i += 1
            out.append('*'.join(s))
        return ' ^ '.join(out) + (' ^ ... (%d terms)' % len(p) if len(p) > limit else '')


def const(v, w):
    return [ONE if (v >> i) & 1 else ZERO for i in range(w)]


def is_const(bits):
    return all(b is not TOP and (not b or b == ONE) for b in bits)


def to_int(bits):
    v = 0
    for i, b in enumerate(bits):
        if b is TOP:
            return None
        if b:
            if b != ONE:
                return None
            v |= 1 << i
    return v


def bxor(a, b):
    if a is TOP or b is TOP:
        return TOP
    if not a:
        return b
    if not b:
        return a
    r = a ^ b
    return r if len(r) <= LIMIT else TOP


def band(a, b):
    if a is not TOP and not a:
        return ZERO
    if b is not TOP and not b:
        return ZERO
    if a is TOP or b is TOP:
        return TOP
    if a == ONE:
        return b
    if b == ONE:
        return a
    if a == b:
        return a
    if len(a) * len(b) > 4 * LIMIT:
        return TOP
    r = set()
    for m in a:
        for n in b:
            r ^= {m | n}
    return frozenset(r) if len(r) <= LIMIT else TOP


def bnot(a):
    return bxor(a, ONE)


def bor(a, b):
    return bxor(bxor(a, b), band(a, b))


def bite(c, a, b):
    if c is not TOP:
        if not c:
            return b
        if c == ONE:
            return a
    if a is not TOP and a == b:
        return a
    return bxor(b, band(c, bxor(a, b)))


def add(a, b, cin=ZERO):
    out = []
    c = cin
    for x, y in zip(a, b):
        s = bxor(bxor(x, y), c)
        out.append(s)
        # carry = x&y ^ c&(x^y)
        c = bxor(band(x, y), band(c, bxor(x, y)))
    return out, c


def clmul(a, b):
    """carry-less product of two bit lists"""
    n = len(a) + len(b)
    acc = [set() for _ in range(n)]
    top = [False] * n
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            p = band(x, y)
            if p is TOP:
                top[i + j] = True
            else:
                acc[i + j] ^= p
    return [TOP if top[k] else frozenset(acc[k]) for k in range(n)]
