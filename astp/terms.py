"""Hash-consed terms: the value domain of the AST analyser.

Numbers (C++ integers, 128-bit blocks and ring elements alike) are polynomials with rational coefficients over atoms;
an identity between two such polynomials holds in Z and in every commutative ring.  `mod` is expressed through floor
division (x mod q = x - q*div(x,q)), so hi/lo splits and bit tests recombine by themselves.  Arrays are functional:
fill / map / list of guarded writes over iteration spaces / slice / concat.  Bound variables are named by binder height,
which makes alpha-equivalent terms identical objects.
"""
from fractions import Fraction

_table = {}
_byid = []


class Term:
    __slots__ = ('op', 'args', 'id', 'h', 'bvs', 'phis', '_sel')

    def __repr__(self):
        return show(self)

    def __bool__(self):
        raise TypeError('term used as python bool')


def _walk_terms(a):
    if isinstance(a, Term):
        yield a
    elif isinstance(a, tuple):
        for x in a:
            yield from _walk_terms(x)


def _intern(op, args):
    k = (op, args)
    t = _table.get(k)
    if t is not None:
        return t
    t = Term()
    t.op, t.args = op, args
    t.id = len(_byid)
    _byid.append(t)
    h = 0
    b = frozenset()
    p = frozenset()
    if op == 'poly':
        subs = [_byid[i] for m, _ in args for i, _ in m]
    else:
        subs = list(_walk_terms(args))
    for s in subs:
        h = max(h, s.h)
        if s.bvs:
            b |= s.bvs
        if s.phis:
            p |= s.phis
    t.h = h
    if op == 'bv':
        b = frozenset([args[0]])
    elif op == 'sum' or op == 'exists' or op == 'forall' or op == 'map' or op == 'xsum':
        pass
    if op == 'phi':
        p = frozenset([t])
    t.bvs = b
    t.phis = p
    _table[k] = t
    return t


# ---------------------------------------------------------------- numbers
def poly(d):
    """d: {mono: coeff}; mono = tuple sorted of (atom id, exp)."""
    d = {m: c for m, c in d.items() if c != 0}
    if len(d) == 1:
        (m, c), = d.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return _byid[m[0][0]]
    return _intern('poly', tuple(sorted((m, norm_c(c)) for m, c in d.items())))


def norm_c(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return int(c)
    return c


def pd(t):
    """poly dict of a term"""
    if t.op == 'poly':
        return dict(t.args)
    return {((t.id, 1),): 1}


def num(n):
    return poly({(): n})


ZERO = None  # set below


def const_of(t):
    if t.op == 'poly':
        if len(t.args) == 0:
            return 0
        if len(t.args) == 1 and t.args[0][0] == ():
            return t.args[0][1]
    return None


def add(*ts):
    d = {}
    for t in ts:
        for m, c in pd(t).items():
            d[m] = d.get(m, 0) + c
    if len(d) > 1:
        r = telescope(d)
        if r is not None:
            return r
    return poly(d)


def telescope(d):
    """sum over [lo, h+c) - sum over [lo, h) = the last c terms"""
    ss = [(m, c, _byid[m[0][0]]) for m, c in d.items() if c and len(m) == 1 and m[0][1] == 1 and _byid[m[0][0]].op == 'sum']
    for m1, c1, x in ss:
        for m2, c2, y in ss:
            if c1 > 0 and c2 < 0 and x.args[3] is y.args[3] and x.args[1] is y.args[1] and x.args[0] is y.args[0]:
                k = const_of(sub(x.args[2], y.args[2]))
                if isinstance(k, int) and 0 < abs(k) <= 4:
                    lo = y.args[2] if k > 0 else x.args[2]
                    if not nonneg(sub(lo, y.args[1]), 1):
                        continue
                    c = min(c1, -c2)
                    d = dict(d)
                    d[m1] = d[m1] - c
                    d[m2] = d[m2] + c
                    part = [scale(subst(x.args[3], {x.args[0]: add(lo, num(j))}), c if k > 0 else -c) for j in range(abs(k))]
                    return add(poly(d), *part)
    return None


def neg(t):
    return poly({m: -c for m, c in pd(t).items()})


def sub(a, b):
    return add(a, neg(b))


def _mono_mul(m1, m2):
    e = dict(m1)
    for a, k in m2:
        e[a] = e.get(a, 0) + k
    # pow2(a)*pow2(b) = pow2(a+b)
    p2 = [(a, k) for a, k in e.items() if _byid[a].op == 'pow2']
    if len(p2) > 1 or (p2 and p2[0][1] != 1):
        for a, k in p2:
            del e[a]
        expo = add(*[scale(_byid[a].args[0], k) for a, k in p2])
        t = pow2(expo)
        dd = pd(t)
        assert len(dd) == 1
        (m, c), = dd.items()
        for a, k in m:
            e[a] = e.get(a, 0) + k
        return tuple(sorted((a, k) for a, k in e.items() if k)), c
    pw = [a for a, k in e.items() if k and _byid[a].op == 'fn' and _byid[a].args[0] == 'pow']
    if pw:
        # b * pow(b, x - 1) = pow(b, x),  pow(b,x)*pow(b,y) = pow(b,x+y)
        for a in pw:
            if not e.get(a):
                continue
            b, x = _byid[a].args[1:]
            same = [q for q in pw if e.get(q) and _byid[q].args[1] is b]
            j = e.get(b.id, 0)
            c0 = pd(x).get((), 0)
            if len(same) == 1 and e[a] == 1 and (j <= 0 or not isinstance(c0, int) or c0 >= 0):
                continue
            expo = add(*[scale(_byid[q].args[2], e[q]) for q in same])
            for q in same:
                e[q] = 0
            cx = pd(expo).get((), 0)
            mv = min(j, max(0, -cx)) if j > 0 and isinstance(cx, int) else 0
            if mv:
                e[b.id] = j - mv
            (m, c), = pd(tpow(b, add(expo, num(mv)))).items()
            for q, k in m:
                e[q] = e.get(q, 0) + k
    return tuple(sorted((a, k) for a, k in e.items() if k)), 1


def mul(a, b):
    d = {}
    pa, pb = pd(a), pd(b)
    if len(pa) * len(pb) > 4000:
        return _intern('fn', ('bigmul', a, b))
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m, k = _mono_mul(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2 * k
    return poly(d)


def scale(t, k):
    return poly({m: c * k for m, c in pd(t).items()})


def pow2(e):
    c = const_of(e)
    if c is not None and isinstance(c, int):
        if 0 <= c < 4096:
            return num(1 << c)
    # pull out the constant
    d = pd(e)
    k = d.get((), 0)
    if k and isinstance(k, int) and k > 0:
        d2 = dict(d)
        del d2[()]
        return scale(pow2(poly(d2)), 1 << k)
    return _intern('pow2', (e,))


def tpow(b, e):
    """b ** e for e >= 0"""
    if const_of(b) == 2:
        return pow2(e)
    d = pd(e)
    k = d.get((), 0)
    if isinstance(k, int) and 0 <= k < 64 and (len(d) == 1 or k) or not d:
        p = num(1)
        for _ in range(k):
            p = mul(p, b)
        if len(d) <= 1 and not [m for m in d if m]:
            return p
        d2 = dict(d)
        d2.pop((), None)
        return mul(p, _intern('fn', ('pow', b, poly(d2))))
    return _intern('fn', ('pow', b, e))


def _mono_divides(q, m):
    e = dict(m)
    for a, k in q:
        if e.get(a, 0) < k:
            return None
        e[a] -= k
        if not e[a]:
            del e[a]
    return tuple(sorted(e.items()))


def _modform(p):
    return any(len(m) == 2 and any(_byid[i].op == 'div' for i, _ in m) for m, _ in p.args)


def div(p, q):
    """floor division"""
    c = const_of(q)
    if c == 1:
        return p
    if c == 0:
        return _intern('div', (p, q))
    cp = const_of(p)
    if cp is not None and c is not None and isinstance(cp, int) and isinstance(c, int):
        return num(cp // c)
    if cp == 0:
        return num(0)
    if p.op == 'div':
        # div(div(x,a),b) = div(x,a*b)   (positive divisors)
        return div(p.args[0], mul(p.args[1], q))
    if isinstance(c, int) and c >= 1 << 8 and (FACTS or BASEFACTS) and p.op == 'poly' and len(p.args) <= 12 and _modform(p) and \
            all(isinstance(k, int) for _, k in p.args):
        # balanced representatives of the coefficients modulo c
        bal = {m: ((k + c // 2) % c - c // 2) for m, k in p.args}
        pb = poly(bal)
        for off in (0, 1):
            z = add(pb, num(off * c))
            if nonneg(z, 3) and nonneg(sub(num(c - 1), z), 3):
                return add(poly({m: (k - bal[m]) // c for m, k in p.args}), num(-off))
    qd = pd(q)
    if len(qd) == 1:
        (qm, qc), = qd.items()
        out, rest = {}, {}
        pdx = pd(p)
        if all(isinstance(k, int) for k in pdx.values()) and isinstance(qc, int) and qc > 0:
            # exactly divisible part first, then the complement rule  -1 - x  ->  -1 - div(x)
            ex, ot = {}, {}
            for m, k in pdx.items():
                r = _mono_divides(qm, m)
                if r is not None and k % qc == 0:
                    ex[r] = k // qc
                else:
                    ot[m] = k
            if len(ot) > 1 and ot.get((), 0) == -1 and all(k < 0 for k in ot.values()):
                x = neg(add(poly(ot), num(1)))
                return add(poly(ex), sub(num(-1), div(x, q)))
        for m, k in pdx.items():
            r = _mono_divides(qm, m)
            if r is not None and isinstance(k, int) and isinstance(qc, int):
                kq, kr = (k // qc, k % qc) if qc > 0 else (0, k)
                if kq:
                    out[r] = out.get(r, 0) + kq
                if kr:
                    rest[m] = rest.get(m, 0) + kr
            else:
                rest[m] = rest.get(m, 0) + k
        rp = poly(rest)
        cr = const_of(rp)
        if cr == 0:
            return poly(out)
        if qc == 1 and qm and len(qm) >= 1 and cr == -1:
            return add(poly(out), num(-1))
        if out:
            return add(poly(out), div(rp, q))
        if rp.op == 'div':
            return div(rp, q)
        return _intern('div', (rp, q))
    return _intern('div', (p, q))


def mod(p, q):
    return sub(p, mul(q, div(p, q)))


def is01(t):
    """t is provably 0 or 1: z - 2*div(z,2) or 1 - (that)"""
    c = const_of(t)
    if c is not None:
        return c in (0, 1)
    if t.op == 'ite' and is01(t.args[1]) and is01(t.args[2]):
        return True
    if t.op == 'b2i':
        return True
    for m, k in pd(t).items():
        if len(m) == 1 and m[0][1] == 1 and k in (-2, 2):
            a = _byid[m[0][0]]
            if a.op == 'div':
                for z in (a.args[0],):
                    # div(x, 2) or div(x, 2*y): z' = div(x,y)
                    q2 = const_of(a.args[1])
                    if q2 == 2:
                        zz = z
                    else:
                        half = _half(a.args[1])
                        if half is None:
                            continue
                        zz = div(z, half)
                    bit = sub(zz, scale(div(zz, num(2)), 2))
                    if t is bit or t is sub(num(1), bit):
                        return True
    return False


def _half(q):
    d = pd(q)
    if all(isinstance(c, int) and c % 2 == 0 for c in d.values()):
        return poly({m: c // 2 for m, c in d.items()})
    return None


def _mm(op, ts):
    s = {}
    best = None
    for t in ts:
        for x in (t.args if t.op == op else (t,)):
            c = const_of(x)
            if c is not None:
                best = c if best is None else (min if op == 'min' else max)(best, c)
            else:
                s[x.id] = x
    if best is not None:
        x = num(best)
        s[x.id] = x
    # constant-difference domination
    xs = sorted(s.values(), key=lambda t: t.id)
    keep = []
    for x in xs:
        dom = False
        for y in xs:
            if x is y:
                continue
            c = const_of(sub(y, x))
            if c is not None and ((op == 'min' and c < 0) or (op == 'max' and c > 0)):
                dom = True
        if not dom:
            keep.append(x)
    if len(keep) == 1:
        return keep[0]
    return _intern(op, tuple(keep))


def tmin(*ts):
    return _mm('min', ts)


def tmax(*ts):
    return _mm('max', ts)


def xor(*ts):
    s = {}
    k = 0
    for t in ts:
        for x in (t.args if t.op == 'xor' else (t,)):
            c = const_of(x)
            if c is not None and isinstance(c, int):
                k ^= c
                continue
            if x.id in s:
                del s[x.id]
            else:
                s[x.id] = x
    if k:
        x = num(k)
        s[x.id] = x
    xs = sorted(s.values(), key=lambda t: t.id)
    if not xs:
        return num(0)
    if len(xs) == 1:
        return xs[0]
    return _intern('xor', tuple(xs))


# ---------------------------------------------------------------- booleans
TRUE = _intern('true', ())
FALSE = _intern('false', ())


def tbool(b):
    return TRUE if b else FALSE


def ge0(p):
    """p >= 0 over the integers"""
    c = const_of(p)
    if c is not None:
        return tbool(c >= 0)
    d = pd(p)
    cs = [c for m, c in d.items() if m != ()]
    if all(isinstance(c, int) for c in d.values()):
        import math
        g = 0
        for c in cs:
            g = math.gcd(g, abs(c))
        if g > 1:
            d = {m: (c // g) for m, c in d.items()}
            p = poly(d)
    # min / max: a bound on each argument, or on one of them
    for m, c in d.items():
        if len(m) == 1 and m[0][1] == 1:
            a = _byid[m[0][0]]
            if a.op in ('min', 'max') and len(a.args) <= 3:
                rest = sub(p, scale(a, c))
                return (tand if (a.op == 'min') == (c > 0) else tor)(*[ge0(add(rest, scale(x, c))) for x in a.args])
    # bit constraints: ge0(bit - 1) etc. are kept as eq on the bit
    return _intern('ge0', (p,))


def rgt0(p):
    c = const_of(p)
    if c is not None:
        return tbool(c > 0)
    if p.op == 'poly' and all(isinstance(c, int) and all((_byid[i].op in ('len', 'pow2', 'bv') or _byid[i].op == 'sym' and _byid[i].args[1] != 'real') or
                              _byid[i].op == 'fn' and _byid[i].args[0] in ('pow', 'ceil', 'floor') for i, _ in m) for m, c in p.args):
        return ge0(sub(p, num(1)))
    return _intern('rgt0', (p,))


def lt(a, b):
    return ge0(sub(sub(b, a), num(1)))


def le(a, b):
    return ge0(sub(b, a))


def eq0(p):
    c = const_of(p)
    if c is not None:
        return tbool(c == 0)
    if p.op == 'ite':
        c, a, b = p.args
        ca, cb = const_of(a), const_of(b)
        if ca is not None and cb is not None:
            return ite(c, tbool(ca == 0), tbool(cb == 0))
    if p.op in BOOLOPS:
        return tnot(p)
    d = pd(p)
    if () not in d:
        for a, k in next(iter(d)):
            if _byid[a].op == 'pow2' and all(any(x == a for x, _ in m) for m in d):
                return eq0(poly({tuple((x, e - (x == a)) for x, e in m if e - (x == a)): c for m, c in d.items()}))
    lead = min(m for m in d if m != ())
    if d[lead] < 0:
        p = neg(p)
        d = pd(p)
    if d.get((), 0) == -1 and len(d) <= 5:
        b = add(p, num(1))
        if is01(b):
            return tnot(_intern('eq0', (b,)))
    return _intern('eq0', (p,))


def eq(a, b):
    if a is b:
        return TRUE
    if a.op in NONNUM or b.op in NONNUM:
        return eqv(a, b)
    return eq0(sub(a, b))


def eqv(a, b):
    if a is b:
        return TRUE
    if a.op == 'ite':
        return ite(a.args[0], eqv(a.args[1], b), eqv(a.args[2], b))
    if b.op == 'ite':
        return ite(b.args[0], eqv(a, b.args[1]), eqv(a, b.args[2]))
    if a.op == 'st' and b.op == 'st':
        return FALSE
    if a.op == 'str' and b.op == 'str':
        return FALSE
    if {a.op, b.op} <= {'null', 'ptr'} or {a.op, b.op} == {'null', 'str'}:
        return FALSE
    if a.id > b.id:
        a, b = b, a
    return _intern('eqv', (a, b))


NONNUM = frozenset(['st', 'str', 'null', 'ptr', 'span', 'obj', 'true', 'false', 'enum'])


_NOT = {}
_AO = {}


def tnot(b):
    r = _NOT.get(b.id)
    if r is None:
        r = _NOT[b.id] = _tnot(b)
        _NOT.setdefault(r.id, b)
    return r


def _tnot(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.op == 'not':
        return b.args[0]
    if b.op == 'ge0':
        return ge0(sub(neg(b.args[0]), num(1)))
    if b.op == 'and':
        return tor(*[tnot(x) for x in b.args])
    if b.op == 'or':
        return tand(*[tnot(x) for x in b.args])
    if b.op in ('exists', 'forall'):
        t = _intern('forall' if b.op == 'exists' else 'exists', b.args[:-1] + (tnot(b.args[-1]),))
        t.h, t.bvs = max(t.h, b.h), b.bvs
        return t
    if b.op == 'ite':
        return ite(b.args[0], tnot(b.args[1]), tnot(b.args[2]))
    return _intern('not', (b,))


def _andor(op, ts):
    k = (op,) + tuple(sorted(t.id for t in ts))
    r = _AO.get(k)
    if r is None:
        r = _AO[k] = _andor1(op, ts)
    return r


def _andor1(op, ts):
    unit, zero = (TRUE, FALSE) if op == 'and' else (FALSE, TRUE)
    s = {}
    for t in ts:
        for x in (t.args if t.op == op else (t,)):
            if x is zero:
                return zero
            if x is unit:
                continue
            s[x.id] = x
    for x in list(s.values()):
        if tnot(x).id in s:
            return zero
    xs = sorted(s.values(), key=lambda t: t.id)
    # interval reasoning on ge0 with constant differences
    ges = [x for x in xs if x.op == 'ge0']
    drop = set()
    for i, x in enumerate(ges):
        for y in ges:
            if x is y:
                continue
            c = const_of(sub(x.args[0], y.args[0]))
            if c is not None:
                # x.p = y.p + c ; c>0: x weaker
                if (op == 'and' and c > 0) or (op == 'or' and c < 0):
                    drop.add(x.id)
            c = const_of(add(x.args[0], y.args[0]))
            if c is not None and op == 'and' and c < 0:
                return FALSE
            if c is not None and op == 'or' and c >= -1:
                return TRUE
    # a >= 0 and -a >= 0  is  a == 0 ; and:  eq0(p) with ge0(p+c) implied or contradictory
    for x in xs:
        if x.op == 'eq0' and op == 'and':
            for y in ges:
                for s_ in (1, -1):
                    c = const_of(sub(y.args[0], scale(x.args[0], s_)))
                    if c is not None:
                        if c >= 0:
                            drop.add(y.id)
                        else:
                            return FALSE
            for y in xs:
                if y.op == 'eq0' and y is not x:
                    for s_ in (1, -1):
                        c = const_of(sub(y.args[0], scale(x.args[0], s_)))
                        if c is not None and c != 0:
                            return FALSE
                if y.op == 'not' and y.args[0].op == 'eq0':
                    for s_ in (1, -1):
                        c = const_of(sub(y.args[0].args[0], scale(x.args[0], s_)))
                        if c is not None and c != 0:
                            drop.add(y.id)
        if x.op == 'not' and x.args[0].op == 'eq0' and op == 'and':
            # p != 0 and p >= 0  ->  p >= 1
            for y in ges:
                for s_ in (1, -1):
                    if y.args[0] is scale(x.args[0].args[0], s_):
                        return _andor(op, [z for z in xs if z is not x and z is not y] + [ge0(sub(y.args[0], num(1)))])
        if x.op == 'eq0' and op == 'or':
            for y in ges:
                for s_ in (1, -1):
                    c = const_of(sub(y.args[0], scale(x.args[0], s_)))
                    if c == -1:   # p==0 or p>=1  -> p>=0
                        return _andor(op, [z for z in xs if z is not x and z is not y] + [ge0(scale(x.args[0], s_))])
    # absorption
    sids = set(t.id for t in xs)
    other = 'or' if op == 'and' else 'and'
    for x in xs:
        if x.op == other and any(a.id in sids for a in x.args):
            drop.add(x.id)
    xs = [x for x in xs if x.id not in drop]
    # a and (not a or b)  =  a and b
    nids = set(tnot(t).id for t in xs if t.op != other)
    for x in xs:
        if x.op == other and any(a.id in nids for a in x.args):
            y = _andor(other, [a for a in x.args if a.id not in nids])
            return _andor(op, [z for z in xs if z is not x] + [y])
    if not xs:
        return unit
    if len(xs) == 1:
        return xs[0]
    return _intern(op, tuple(xs))


def tand(*ts):
    return _andor('and', ts)


def tor(*ts):
    return _andor('or', ts)


def b2i(b):
    return ite(b, num(1), num(0))


def i2b(p):
    if p.op in ('true', 'false', 'ge0', 'eq0', 'not', 'and', 'or', 'exists', 'forall', 'eqv', 'rgt0', 'bfn'):
        return p
    return tnot(eq0(p))


BOOLOPS = frozenset(['true', 'false', 'ge0', 'eq0', 'not', 'and', 'or', 'exists', 'forall', 'eqv', 'rgt0', 'bfn'])


def isbool(t):
    return t.op in BOOLOPS or (t.op == 'ite' and isbool(t.args[1]))


def remainder_of(p):
    """(x, m) if p is x mod m (or its negation) for a constant m > 2, spelled x - m*div(x, m)"""
    for k, c in pd(p).items():
        if len(k) == 1 and k[0][1] == 1 and isinstance(c, int) and abs(c) > 2:
            a = _byid[k[0][0]]
            if a.op == 'div' and const_of(a.args[1]) == abs(c) and not a.bvs:
                q = p if c < 0 else neg(p)
                if add(q, scale(a, abs(c))) is a.args[0]:
                    return a.args[0], abs(c)
    return None


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if c.op == 'ite':
        return ite(c.args[0], ite(c.args[1], a, b), ite(c.args[2], a, b))
    if isbool(a) and isbool(b):
        return tand(tor(tnot(c), a), tor(c, b))
    if a.op in ('sum', 'xsum') and c.op == 'ge0' and const_of(b) == 0 and c.args[0] is sub(sub(a.args[2], a.args[1]), num(1)):
        return a
    # ite(p == 0, 0, 1) for 0/1 valued p
    if c.op == 'eq0':
        p = c.args[0]
        ca, cb = const_of(a), const_of(b)
        if {ca, cb} == {0, 1} and not (ca is None or cb is None):
            if is01(p):
                return p if (ca, cb) == (0, 1) else sub(num(1), p)
            if is01(add(p, num(1))):   # p = bit - 1
                return add(p, num(1)) if (ca, cb) == (1, 0) else neg(p)
            if is01(neg(p)):
                return neg(p) if (ca, cb) == (0, 1) else add(num(1), p)
        # x % m == 0 ? 0 : 1 is how many blocks of m more than x / m hold x elements
        if isinstance(ca, int) and isinstance(cb, int) and ca != cb:
            r = remainder_of(p)
            if r is not None:
                x, m = r
                return add(num(ca), scale(sub(div(add(x, num(m - 1)), num(m)), div(x, num(m))), cb - ca))
    if c.op == 'eq0' and not isarr(a) and a.op not in ('obj', 'ptr', 'st') and len(pd(c.args[0])) <= 4:
        # the two values agree where they meet
        for v in pd(c.args[0]):
            if len(v) == 1 and v[0][1] == 1 and _byid[v[0][0]].op in ('bv', 'sym', 'fn'):
                x = _byid[v[0][0]]
                so = solve_lin(c.args[0], x)
                if so is not None and x.args and _mentions(b, x):
                    try:
                        if subst(b, {x: so}) is subst(a, {x: so}):
                            return b
                    except (ZeroDivisionError, TypeError):
                        pass
                break
    if a.op == 'obj' and b.op == 'obj' and a.args[0] == b.args[0]:
        da, db = dict(a.args[1]), dict(b.args[1])
        if set(da) == set(db):
            return _intern('obj', (a.args[0], tuple((k, ite(c, da[k], db[k])) for k in sorted(da))))
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a.op == 'ite' and b is a.args[2]:
        return ite(tand(c, a.args[0]), a.args[1], b)
    if a.op == 'ite' and b is a.args[1]:
        return ite(tand(c, tnot(a.args[0])), a.args[2], b)
    if b.op == 'ite' and a is b.args[1]:
        return ite(tor(c, b.args[0]), a, b.args[2])
    if b.op == 'ite' and a is b.args[2]:
        return ite(tand(tnot(c), b.args[0]), b.args[1], a)
    if a is b:
        return a
    wa, wb = (a.op == 'w'), (b.op == 'w')
    if wa or wb:
        ba, xa = (a.args[0], a.args[1]) if wa else (a, ())
        bb, xb = (b.args[0], b.args[1]) if wb else (b, ())
        if ba is bb:
            n = 0
            while n < len(xa) and n < len(xb) and xa[n] == xb[n]:
                n += 1
            base = mk_w(ba, xa[:n])
            ws = tuple(_guard_write(w, c) for w in xa[n:]) + tuple(_guard_write(w, tnot(c)) for w in xb[n:])
            return mk_w(base, ws)
    # polys sharing a big common part: factor? keep atoms simple
    return _intern('ite', (c, a, b))


def _mentions(t, x):
    if x.op == 'bv':
        return x.args[0] in t.bvs
    return has_term(t, x)


def has_term(t, x, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        u = st.pop()
        if u is x:
            return True
        if not isinstance(u, Term):
            if isinstance(u, (tuple, list)):
                st.extend(u)
            continue
        if u.id in seen:
            continue
        seen.add(u.id)
        if u.op == 'poly':
            for m, _ in u.args:
                st.extend(_byid[i] for i, _ in m)
        else:
            st.extend(u.args)
    return False


def _guard_write(w, c):
    iters, g, idx, op, val = w
    return (iters, tand(c, g), idx, op, val)


# ---------------------------------------------------------------- binders
def bvar(h):
    return _intern('bv', ('b%d' % h,))


_fresh = [0]


def fresh_bv(hint='i'):
    _fresh[0] += 1
    return _intern('bv', ('%s~%d' % (hint, _fresh[0]),))


def binder_h(t):
    return t.h


def _set_h(t, h):
    t.h = max(t.h, h)
    return t


def mk_bind(op, bv, lo, hi, body):
    """sum / xsum / exists / forall over bv in [lo,hi)"""
    h = body.h + 1
    v = bvar(h)
    if bv is not v:
        body = subst(body, {bv: v})
        h2 = body.h + 1
        while h2 != h:
            nv = bvar(h2)
            body = subst(body, {v: nv})
            v, h = nv, h2
            h2 = body.h + 1
    t = _intern(op, (v, lo, hi, body))
    t.h = max(t.h, h)
    t.bvs = (body.bvs - {v.args[0]}) | lo.bvs | hi.bvs
    return t


def rng_empty(lo, hi):
    c = const_of(sub(hi, lo))
    return c is not None and c <= 0


def tsum(bv, lo, hi, body):
    if rng_empty(lo, hi) or const_of(body) == 0:
        return num(0)
    if bv.args[0] not in body.bvs:
        c = const_of(sub(hi, lo))
        if c is not None:
            return scale(body, c)
        return mul(tmax(num(0), sub(hi, lo)), body)
    c = const_of(sub(hi, lo))
    if c is not None and c <= 4:
        return add(*[subst(body, {bv: add(lo, num(k))}) for k in range(c)])
    # linear: sum of poly terms
    d = pd(body)
    if len(d) > 1:
        return add(*[tsum(bv, lo, hi, poly({m: c})) for m, c in d.items()])
    if len(d) == 1:
        (m, c), = d.items()
        free = tuple((a, k) for a, k in m if bv.args[0] not in _byid[a].bvs)
        dep = tuple((a, k) for a, k in m if bv.args[0] in _byid[a].bvs)
        if free or c != 1:
            return mul(poly({free: c}), tsum(bv, lo, hi, poly({dep: 1})))
    # ite guards that restrict the range: ite(bv == e, x, y)
    if body.op == 'ite':
        g, x, y = body.args
        r = sum_split(bv, lo, hi, g, x, y)
        if r is not None:
            return r
    return mk_bind('sum', bv, lo, hi, body)


def sum_split(bv, lo, hi, g, x, y):
    """sum of ite(bv == e, x, y): sum y + [lo<=e<hi](x(e)-y(e))"""
    if g.op == 'eq0':
        e = solve_lin(g.args[0], bv)
        if e is not None:
            xe, ye = subst(x, {bv: e}), subst(y, {bv: e})
            inr = tand(le(lo, e), lt(e, hi))
            inr = decide(inr)
            return add(tsum(bv, lo, hi, y), ite(inr, sub(xe, ye), num(0)))
    if g.op == 'ge0':
        # bv >= e  or bv <= e : split the range
        d = pd(g.args[0])
        k = d.get(((bv.id, 1),), 0)
        rest = add(g.args[0], scale(bv, -k))
        if k in (1, -1) and bv.args[0] not in rest.bvs:
            if k == 1:   # bv >= -rest
                m = tmin(tmax(lo, neg(rest)), tmax(lo, hi))
                return add(tsum(bv, m, hi, x), tsum(bv, lo, m, y))
            m = tmax(tmin(hi, add(rest, num(1))), lo)   # bv <= rest
            return add(tsum(bv, lo, m, x), tsum(bv, m, hi, y))
    return None


def solve_lin(p, bv):
    """p == 0 solved for bv with coefficient +-1, else None"""
    d = pd(p)
    k = d.get(((bv.id, 1),), 0)
    if k not in (1, -1):
        return None
    rest = add(p, scale(bv, -k))
    if _mentions(rest, bv):
        return None
    return scale(rest, -k)


def xsum(bv, lo, hi, body):
    if rng_empty(lo, hi) or const_of(body) == 0:
        return num(0)
    c = const_of(sub(hi, lo))
    if c is not None and c <= 4:
        return xor(*[subst(body, {bv: add(lo, num(k))}) for k in range(c)])
    if body.op == 'xor':
        return xor(*[xsum(bv, lo, hi, x) for x in body.args])
    if body.op == 'ite':
        g, x, y = body.args
        if g.op == 'ge0':
            d = pd(g.args[0])
            k = d.get(((bv.id, 1),), 0)
            rest = add(g.args[0], scale(bv, -k))
            if k in (1, -1) and bv.args[0] not in rest.bvs:
                if k == 1:
                    m = tmin(tmax(lo, neg(rest)), tmax(lo, hi))
                    return xor(xsum(bv, m, hi, x), xsum(bv, lo, m, y))
                m = tmax(tmin(hi, add(rest, num(1))), lo)
                return xor(xsum(bv, lo, m, x), xsum(bv, m, hi, y))
        if g.op == 'eq0':
            # one index treated differently
            e = solve_lin(g.args[0], bv)
            if e is not None:
                inr = decide(tand(le(lo, e), lt(e, hi)))
                return xor(xsum(bv, lo, hi, y), ite(inr, xor(subst(x, {bv: e}), subst(y, {bv: e})), num(0)))
        if g.op == 'and' and const_of(y) == 0:
            for c in g.args:
                if c.op == 'not' and c.args[0].op == 'eq0':
                    e = solve_lin(c.args[0].args[0], bv)
                    if e is not None:
                        r = tand(*[z for z in g.args if z is not c])
                        inr = decide(tand(le(lo, e), lt(e, hi), subst(r, {bv: e})))
                        return xor(xsum(bv, lo, hi, ite(r, x, y)), ite(inr, subst(x, {bv: e}), num(0)))
    return mk_bind('xsum', bv, lo, hi, body)


def exists(bv, lo, hi, body):
    if rng_empty(lo, hi) or body is FALSE:
        return FALSE
    if body.op == 'or':
        return tor(*[exists(bv, lo, hi, x) for x in body.args])
    if bv.args[0] not in body.bvs:
        return tand(lt(lo, hi), body)
    if body.op == 'and':
        fr = [x for x in body.args if bv.args[0] not in x.bvs]
        if fr:
            return tand(*fr, exists(bv, lo, hi, tand(*[x for x in body.args if bv.args[0] in x.bvs])))
    return mk_bind('exists', bv, lo, hi, body)


def forall(bv, lo, hi, body):
    return tnot(exists(bv, lo, hi, tnot(body)))


# ---------------------------------------------------------------- arrays
def sym(name, kind='num'):
    return _intern('sym', (name, kind))


def fn(name, *args):
    if name == 'store8':
        pass
    return _intern('fn', (name,) + args)


def bfn(name, *args):
    return _intern('bfn', (name,) + args)


def fill(n, v):
    return _intern('fill', (n, v))


def amap(bv, n, body):
    h = body.h + 1
    v = bvar(h)
    if bv is not v:
        body = subst(body, {bv: v})
    t = _intern('map', (v, n, body))
    t.h = max(t.h, body.h + 1)
    t.bvs = (body.bvs - {v.args[0]}) | n.bvs
    return t


def mk_write(iters, guard, idx, op, val):
    """iters: tuple of (bv, lo, hi)"""
    one = [(k, bv, lo) for k, (bv, lo, hi) in enumerate(iters) if const_of(sub(hi, lo)) == 1]
    if one:
        k, bv, lo = one[0]
        r = {bv: lo}
        rest = tuple((b, subst(l, r), subst(h, r)) for b, l, h in iters[:k] + iters[k + 1:])
        return mk_write(rest, subst(guard, r), subst_any(idx, r), op, subst(val, r))
    if not iters:
        return ((), guard, idx, op, val)
    if len(iters) == 1:
        # walk upwards: an index falling linearly in the iteration is the same set of writes in reverse order
        bv, lo, hi = iters[0]
        for ix in idx:
            d = pd(ix) if not isarr(ix) else {}
            c = [k for mono, k in d.items() if mono == ((bv.id, 1),)]
            if c and c[0] < 0 and bv.args[0] not in sub(ix, scale(bv, c[0])).bvs and bv.args[0] not in (lo.bvs | hi.bvs):
                r = {bv: sub(add(lo, hi), add(bv, num(1)))}
                guard, idx, val = subst(guard, r), subst_any(idx, r), subst(val, r)
                break
    allt = list(_walk_terms((guard, idx, val))) + list(_walk_terms(iters))
    h = 1 + max([t.h for t in allt if t.op != 'bv'] + [0])
    m = {}
    out = []
    for k, (bv, lo, hi) in enumerate(iters):
        v = _intern('bv', ('b%d.%d' % (h, k),))
        lo, hi = subst(lo, m), subst(hi, m)
        m[bv] = v
        out.append((v, lo, hi))
    return (tuple(out), subst(guard, m), subst_any(idx, m), op, subst(val, m))


def mk_w(base, writes):
    writes = tuple(w for w in writes if w[1] is not FALSE and not any(rng_empty(lo, hi) for _, lo, hi in w[0]))
    if not writes:
        return base
    if base.op == 'w':
        return mk_w(base.args[0], base.args[1] + writes)
    t = _intern('w', (base, writes))
    hh = t.h
    bound = set()
    for w in writes:
        for v, _, _ in w[0]:
            bound.add(v.args[0])
            try:
                hh = max(hh, int(v.args[0][1:].split('.')[0]))
            except ValueError:
                pass
    t.h = hh
    t.bvs = frozenset(b for b in t.bvs if b not in bound)
    return t


def store(a, idx, v):
    # overwrite of an identical index
    if a.op == 'w':
        ws = a.args[1]
        l = ws[-1]
        if l[0] == () and l[1] is TRUE and l[2] == idx and l[3] == 'set':
            return mk_w(mk_w(a.args[0], ws[:-1]), (((), TRUE, idx, 'set', v),))
    return mk_w(a, (((), TRUE, idx, 'set', v),))


def tlen(a):
    o = a.op
    if o == 'fill':
        return a.args[0]
    if o == 'map':
        return a.args[1]
    if o == 'lit':
        return num(len(a.args[0]))
    if o == 'w':
        return tlen(a.args[0])
    if o == 'resize':
        return a.args[1]
    if o == 'slice':
        return a.args[2]
    if o == 'concat':
        return add(*[tlen(x) for x in a.args])
    if o == 'ite':
        return ite(a.args[0], tlen(a.args[1]), tlen(a.args[2]))
    if o == 'fn' and a.args[0] in LENS:
        return LENS[a.args[0]](a)
    if o == 'mu':
        k, tau, phis, inits, nexts = a.args[:5]
        L = tlen(phis[k])
        if tlen(nexts[k]) is L and (a.args[7] is FALSE or tlen(a.args[8][k]) is L) and tlen(inits[k]) is L:
            return L
    if o == 'poly':
        for m, _ in a.args:
            for i, _ in m:
                if isarr(_byid[i]):
                    return tlen(_byid[i])
    if o == 'span':
        return a.args[3]
    if o == 'fn' and a.args[0].startswith('arr:') and len(a.args) > 2:
        return a.args[2]
    if o == 'phi' and a.args[2] is not None:
        return a.args[2]
    if o == 'sel':
        x = a.args[0]
        if x.op == 'w' and all(len(w[2]) > len(a.args[1]) for w in x.args[1]):
            return tlen(sel(x.args[0], a.args[1]))
        if x.op == 'mu':
            # writes below the row leave its length alone
            k = x.args[0]
            if x.args[7] is FALSE and keeps(x.args[4][k], x.args[2][k], len(a.args[1])):
                return tlen(sel(x.args[3][k], a.args[1]))
    return _intern('len', (a,))


def keeps(t, ph, depth):
    """t is ph with writes strictly below the given depth only"""
    if t is ph:
        return True
    if t.op == 'w':
        return all(len(w[2]) > depth for w in t.args[1]) and keeps(t.args[0], ph, depth)
    if t.op == 'ite':
        return keeps(t.args[1], ph, depth) and keeps(t.args[2], ph, depth)
    if t.op == 'mu':
        k = t.args[0]
        return t.args[7] is FALSE and keeps(t.args[4][k], t.args[2][k], depth) and keeps(t.args[3][k], ph, depth)
    return False


ARROPS = frozenset(['fill', 'map', 'lit', 'w', 'resize', 'slice', 'concat', 'asym'])
class _Lens(dict):
    """array-valued functions and their lengths; 'arr:...' are fresh arrays (site, length, iteration...)"""

    def __contains__(self, k):
        return k.startswith('arr:') or dict.__contains__(self, k)

    def __getitem__(self, k):
        return (lambda t: t.args[2]) if k.startswith('arr:') else dict.__getitem__(self, k)


LENS = _Lens()


def isarr(t):
    if t.op in ARROPS:
        return True
    if t.op == 'phi':
        return t.args[1] == 'arr'
    if t.op == 'fn':
        return t.args[0] in LENS
    if t.op == 'ite':
        return isarr(t.args[1]) or isarr(t.args[2])
    if t.op == 'poly':
        return any(isarr(_byid[i]) for m, _ in t.args for i, _ in m)
    return False


def asym(name):
    return _intern('asym', (name,))


def phi(name, kind, ln=None):
    return _intern('phi', (name, kind, ln))


def mu(k, tau, phis, inits, nexts, N, cond=None, brk=None, brkv=()):
    """component k of the state after a loop: iterate nexts from inits for tau = 0,1,... below N (if given) while cond (if given);
    an iteration in which brk holds ends the loop with brkv.  tau and phis are bound."""
    if brk is None:
        brk = FALSE
    if N is not None and const_of(N) is not None and const_of(N) <= 0:
        return inits[k]
    if N is not None and const_of(N) == 1:
        r = dict(zip(phis, inits))
        r[tau] = num(0)
        x = subst(nexts[k], r)
        if brk is not FALSE:
            x = ite(subst(brk, r), subst(brkv[k], r), x)
        if cond is not None:
            x = ite(subst(cond, r), x, inits[k])
        return x
    t = _intern('mu', (k, tau, tuple(phis), tuple(inits), tuple(nexts), N, cond, brk, tuple(brkv)))
    t.phis = t.phis - frozenset(phis) if not _inits_use(inits, N, phis) else t.phis
    b = frozenset()
    for x in list(inits) + ([N] if N is not None else []):
        b |= x.bvs
    for x in list(nexts) + ([cond] if cond is not None else []) + [brk] + list(brkv):
        b |= x.bvs - {tau.args[0]}
    t.bvs = b
    return t


def _inits_use(inits, N, phis):
    s = set(phis)
    return any(s & x.phis for x in inits)


def mu_with_N(t, N):
    a = t.args
    return mu(a[0], a[1], a[2], a[3], a[4], N, a[6], a[7], a[8])


def resize(a, n, f):
    if a.op == 'fill' and a.args[1] is f:
        return fill(n, f)
    if tlen(a) is n:
        return a
    if decide(le(n, tlen(a))) is TRUE:
        return aslice(a, num(0), n)
    if const_of(tlen(a)) == 0:
        return fill(n, f)
    return _intern('resize', (a, n, f))


def aslice(a, off, n):
    if const_of(off) == 0 and tlen(a) is n:
        return a
    if a.op == 'slice':
        return aslice(a.args[0], add(a.args[1], off), n)
    if a.op == 'fill':
        return fill(n, a.args[1])
    if a.op == 'map':
        b = fresh_bv()
        return amap(b, n, subst(a.args[2], {a.args[0]: add(b, off)}))
    if a.op == 'poly':
        d = []
        for m, c in a.args:
            fac = num(c)
            for i, k in m:
                t = _byid[i]
                fac = mul(fac, aslice(t, off, n) if isarr(t) else t)
            d.append(fac)
        return add(*d)
    if a.op == 'concat':
        pos = num(0)
        for x in a.args:
            lx = tlen(x)
            if off is pos and n is lx:
                return x
            rel = sub(off, pos)
            if decide(ge0(rel)) is TRUE and decide(le(add(rel, n), lx)) is TRUE:
                return aslice(x, rel, n)
            pos = add(pos, lx)
        # prefix / suffix trimming
        parts = list(a.args)
        l0 = tlen(parts[0])
        if len(parts) > 1 and decide(le(l0, off)) is TRUE:
            return aslice(concat(*parts[1:]), sub(off, l0), n)
        ll = tlen(parts[-1])
        tot = tlen(a)
        if len(parts) > 1 and decide(le(add(off, n), sub(tot, ll))) is TRUE:
            return aslice(concat(*parts[:-1]), off, n)
    if a.op == 'resize' and decide(le(add(off, n), tlen(a.args[0]))) is TRUE:
        return aslice(a.args[0], off, n)
    if a.op == 'ite':
        return ite(a.args[0], aslice(a.args[1], off, n), aslice(a.args[2], off, n))
    return _intern('slice', (a, off, n))


def concat(*xs):
    out = []
    for x in xs:
        if x.op == 'concat':
            out += x.args
        elif const_of(tlen(x)) == 0:
            continue
        else:
            out.append(x)
    if not out:
        return fill(num(0), num(0))
    if len(out) == 1:
        return out[0]
    return _intern('concat', tuple(out))


def lit(xs):
    return _intern('lit', (tuple(xs),))


# facts used to decide conditions: list of boolean terms (see engine)
FACTS = []
BASEFACTS = []


def with_facts(fs):
    class _C:
        def __enter__(s):
            s.n = len(FACTS)
            for f in fs:
                if f.op == 'and':
                    FACTS.extend(f.args)
                else:
                    FACTS.append(f)

        def __exit__(s, *a):
            del FACTS[s.n:]
    return _C()


NONNEG_FN = set(['NumBuckets', 'num_levels', 'SizeOf', 'NumBits'])


def nonneg_atom(t):
    o = t.op
    if o in ('len', 'pow2'):
        return True
    if o == 'fn':
        if t.args[0] == 'ceil' and t.args[1].op == 'fn' and t.args[1].args[0] == 'rdiv' and \
                all(x.op == 'fn' and x.args[0] == 'ln' for x in t.args[1].args[1:]):
            # ceil(log n / log a), n >= 1, a >= 2
            n, a = [x.args[1] for x in t.args[1].args[1:]]
            return nonneg(sub(a, num(2)), 1) and (nonneg(sub(n, num(1)), 1) or nonneg(n, 1) and decide(eq0(n)) is FALSE)
        return t.args[0] in NONNEG_FN or t.args[0] == 'pow' and nonneg(t.args[1])
    if o == 'div':
        if t in _ACTIVE:
            return False
        _ACTIVE.append(t)
        try:
            return nonneg(t.args[0]) and nonneg(t.args[1])
        finally:
            _ACTIVE.pop()
    if o == 'min':
        return all(nonneg(x) for x in t.args)
    if o == 'max':
        return any(nonneg(x) for x in t.args)
    if o == 'ite':
        if t in _ACTIVE:
            return False
        _ACTIVE.append(t)
        try:
            if nonneg(t.args[1]) and nonneg(t.args[2]):
                return True
            with with_facts([t.args[0]]):
                if not nonneg(t.args[1]):
                    return False
            with with_facts([tnot(t.args[0])]):
                return nonneg(t.args[2])
        finally:
            _ACTIVE.pop()
    if o == 'sum':
        return nonneg(t.args[3])
    if o == 'bv':
        return False
    if o == 'sym':
        return t.args[1] == 'nat'
    if o == 'sel':
        return t.args[0].op == 'asym' and t.args[0].args[0].endswith('.len')
    return False


_ACTIVE = []          # quotients whose sign is being decided


def nonneg(p, depth=2):
    """p >= 0 provable?"""
    c = const_of(p)
    if c is not None:
        return c >= 0
    if p.op == 'poly':
        ok = True
        for m, c in p.args:
            if c < 0:
                ok = False
                break
            for i, k in m:
                if k % 2 and not _nn_fact(_byid[i]):
                    ok = False
        if ok:
            return True
    elif _nn_fact(p):
        return True
    if depth <= 0:
        return False
    # subtract a fact f>=0 :  p - f nonneg
    d = pd(p)
    # max/min elimination on negative/positive occurrences
    for m, c in d.items():
        if len(m) == 1 and m[0][1] == 1:
            a = _byid[m[0][0]]
            rest = sub(p, scale(a, c))
            if a.op == 'pow2':
                if c > 0:
                    if () in d and d[()] < 0 and nonneg(add(rest, num(c)), depth - 1):
                        return True
                else:
                    ub = upper_const(a.args[0])
                    if ub is not None and 0 <= ub < 4096 and nonneg(add(rest, num(c * (1 << ub))), depth - 1):
                        return True
            if a.op == 'min' and c < 0:
                # -min >= -x for every x
                return any(nonneg(add(rest, scale(x, c)), depth - 1) for x in a.args)
            if a.op == 'min' and c > 0:
                return all(nonneg(add(rest, scale(x, c)), depth - 1) for x in a.args)
            if a.op == 'max' and c > 0:
                if any(nonneg(add(rest, scale(x, c)), depth - 1) for x in a.args):
                    return True
            if a.op == 'max' and c < 0:
                return all(nonneg(add(rest, scale(x, c)), depth - 1) for x in a.args)
            if a.op == 'ite' and not isarr(a):
                return all(nonneg(add(rest, scale(x, c)), depth - 1) for x in a.args[1:])
            if a.op == 'div' and c > 0 and nonneg(a.args[1], 0):
                # q*div(x,q) > x - q  : only when coefficient is a multiple of q constant
                q = const_of(a.args[1])
                if q and isinstance(c, int) and c % q == 0:
                    k = c // q
                    if nonneg(add(rest, scale(sub(a.args[0], num(q - 1)), k)), depth - 1):
                        return True
                elif q and q > 0 and isinstance(c, int) and rest is not num(0):
                    # q*c*div(x,q) >= c*(x-q+1)
                    if nonneg(add(scale(rest, q), scale(sub(a.args[0], num(q - 1)), c)), depth - 1):
                        return True
            if a.op == 'div' and c < 0:
                q = const_of(a.args[1])
                if q and isinstance(c, int) and c % q == 0:
                    k = (-c) // q
                    if nonneg(sub(rest, scale(a.args[0], k)), depth - 1):
                        return True
                if q and q > 0 and nonneg(a.args[0], 1) and isinstance(c, int) and c % q:
                    # q*c*div(x,q) >= c*x
                    if nonneg(add(scale(rest, q), scale(a.args[0], c)), depth - 1):
                        return True
        elif len(m) == 2 and all(k == 1 for _, k in m):
            # div(x,P) - q + 1 <= q*div(x,q*P) <= div(x,P)
            a, b = _byid[m[0][0]], _byid[m[1][0]]
            for q, dv in ((a, b), (b, a)):
                if dv.op != 'div':
                    continue
                P = _quot(dv.args[1], q)
                if P is None:
                    continue
                x = div(dv.args[0], P)
                rest = add(p, scale(mul(q, dv), -c))
                low = sub(x, sub(q, num(1))) if c > 0 else x
                if nonneg(add(rest, scale(low, c)), depth - 1):
                    return True
    # div(x, q*P) - div(y, q)  with  y <= div(x, P)
    dvs = [(c, _byid[m[0][0]]) for m, c in d.items() if len(m) == 1 and m[0][1] == 1 and _byid[m[0][0]].op == 'div']
    for c1, x in dvs:
        for c2, y in dvs:
            if c1 > 0 and c2 < 0 and c1 == -c2:
                if x.args[1] is y.args[1] and nonneg(y.args[1], 1):
                    # div(A, P) - div(B, P) >= k  if  A - B >= k*P
                    for k in (1, 0):
                        if nonneg(sub(sub(x.args[0], y.args[0]), scale(y.args[1], k)), depth - 1) and \
                                nonneg(add(add(p, scale(sub(y, x), c1)), num(c1 * k)), depth - 1):
                            return True
                P = _quot(x.args[1], y.args[1])
                if P is not None and nonneg(sub(div(x.args[0], P), y.args[0]), 1) and nonneg(add(p, scale(sub(y, x), c1)), depth - 1):
                    return True
    for f in FACTS + BASEFACTS:
        if f.op == 'ge0':
            q = f.args[0]
            qd = pd(q)
            # only facts sharing a negative monomial
            for m, c in d.items():
                if c < 0 and qd.get(m, 0) < 0 and m != ():
                    k = Fraction(c, qd[m]) if c % qd[m] else c // qd[m]
                    if nonneg(sub(p, scale(q, k)), depth - 1):
                        return True
            if () in d and d[()] < 0:
                for m, c in d.items():
                    if m != () and c > 0 and qd.get(m, 0) > 0:
                        k = Fraction(c, qd[m]) if c % qd[m] else c // qd[m]
                        if nonneg(sub(p, scale(q, k)), depth - 1):
                            return True
            # positive monomial not known nonneg
            for m, c in d.items():
                if c > 0 and m and qd.get(m, 0) > 0 and len(m) == 1 and not _nn_fact(_byid[m[0][0]]):
                    k = Fraction(c, qd[m]) if c % qd[m] else c // qd[m]
                    if nonneg(sub(p, scale(q, k)), depth - 1):
                        return True
        elif f.op == 'eq0':
            q = f.args[0]
            qd = pd(q)
            for m, c in d.items():
                if m in qd and m != ():
                    k = Fraction(c, qd[m]) if c % qd[m] else c // qd[m]
                    if nonneg(sub(p, scale(q, k)), depth - 1):
                        return True
    return False


def _quot(t, q):
    """t/q when q divides every monomial of t"""
    qd = pd(q)
    if len(qd) != 1:
        return None
    (qm, qc), = qd.items()
    out = {}
    for m, k in pd(t).items():
        r = _mono_divides(qm, m)
        if r is None or not isinstance(k, int) or k % qc:
            return None
        out[r] = k // qc
    return poly(out)


def upper_const(e):
    """constant K with e <= K from the facts"""
    c = const_of(e)
    if c is not None:
        return c
    best = None
    for f in FACTS + BASEFACTS:
        if f.op == 'ge0':
            k = const_of(add(f.args[0], e))
            if isinstance(k, int) and (best is None or k < best):
                best = k
    return best


def _nn_fact(a):
    if nonneg_atom(a):
        return True
    for f in FACTS + BASEFACTS:
        if f.op == 'ge0':
            q = f.args[0]
            if q is a:
                return True
            qd = pd(q)
            if qd.get(((a.id, 1),)) == 1 and len(qd) == 2 and qd.get((), 1) < 0:
                return True
    return False


def decide(b):
    """simplify a boolean under FACTS"""
    if b is TRUE or b is FALSE:
        return b
    nb = tnot(b)
    for f in FACTS + BASEFACTS:
        if f is b:
            return TRUE
        if f is nb:
            return FALSE
        if f.op == 'or' and b.op != 'or':
            pass
    if b.op == 'ge0':
        if nonneg(b.args[0], 3):
            return TRUE
        if nonneg(sub(neg(b.args[0]), num(1)), 3):
            return FALSE
        return b
    if b.op == 'eq0':
        p = b.args[0]
        if nonneg(sub(p, num(1)), 3) or nonneg(sub(neg(p), num(1)), 3):
            return FALSE
        if (FACTS or BASEFACTS) and nonneg(p, 2) and nonneg(neg(p), 2):
            return TRUE
        return b
    if b.op == 'and':
        return tand(*[decide(x) for x in b.args])
    if b.op == 'or':
        return tor(*[decide(x) for x in b.args])
    if b.op == 'not':
        return tnot(decide(b.args[0]))
    if b.op == 'ite':
        c = decide(b.args[0])
        return ite(c, decide(b.args[1]), decide(b.args[2]))
    if b.op == 'forall' or b.op == 'exists':
        v, lo, hi, body = b.args
        f = fresh_bv('q')
        with with_facts([le(lo, f), lt(f, hi)]):
            r = decide(subst(body, {v: f}))
        if b.op == 'forall' and r is TRUE:
            return TRUE
        if b.op == 'exists' and r is FALSE:
            return FALSE
    return b


def sel(a, idx):
    """select element(s) at index tuple"""
    if not idx:
        return a
    if a.op == 'sel':
        return sel(a.args[0], a.args[1] + tuple(idx))
    o = a.op
    if o == 'fill':
        return sel(a.args[1], idx[1:])
    if o == 'lit':
        c = const_of(idx[0])
        if c is not None and 0 <= c < len(a.args[0]):
            return sel(a.args[0][c], idx[1:])
    if o == 'map':
        return sel(subst(a.args[2], {a.args[0]: idx[0]}), idx[1:])
    if o == 'slice':
        return sel(a.args[0], (add(a.args[1], idx[0]),) + tuple(idx[1:]))
    if o == 'ite':
        return ite(a.args[0], sel(a.args[1], idx), sel(a.args[2], idx))
    if o == 'resize':
        c = decide(lt(idx[0], tlen(a.args[0])))
        if c is TRUE:
            return sel(a.args[0], idx)
        if c is FALSE:
            return sel(a.args[2], idx[1:])
        return ite(c, sel(a.args[0], idx), sel(a.args[2], idx[1:]))
    if o == 'concat':
        pos = num(0)
        for k, x in enumerate(a.args):
            if k == len(a.args) - 1:
                return sel(x, (sub(idx[0], pos),) + tuple(idx[1:]))
            c = decide(lt(idx[0], add(pos, tlen(x))))
            if c is TRUE:
                return sel(x, (sub(idx[0], pos),) + tuple(idx[1:]))
            if c is not FALSE:
                break
            pos = add(pos, tlen(x))
    if o == 'poly' and isarr(a):
        d = []
        for m, c in a.args:
            fac = num(c)
            for i, k in m:
                t = _byid[i]
                f1 = sel(t, idx) if isarr(t) else t
                for _ in range(k):
                    fac = mul(fac, f1)
            d.append(fac)
        return add(*d)
    if o == 'w':
        r = _sel_w(a, tuple(idx))
        if r is not None:
            return r
    if o == 'fn' and a.args[0] in SELFN:
        r = SELFN[a.args[0]](a, tuple(idx))
        if r is not None:
            return r
    if o == 'span':
        raise ValueError('select on span')
    return _intern('sel', (a, tuple(idx)))


SELFN = {}


def packed_blocks(e, t, un, bvs, m, guard):
    """index sum_{u<v1} size(u) + v2 with v2 < size(v1): blocks laid out one after the other; q = sum_{u<x} size(u) + y with
    0 <= y < size(x) is element y of block x"""
    for v1, v2 in ((un[0], un[1]), (un[1], un[0])):
        S = [a for a in pd_atoms(e) if a.op == 'sum' and a.args[2] is v1 and pd(e).get(((a.id, 1),)) == 1]
        if len(S) != 1:
            continue
        S = S[0]
        c0 = sub(sub(e, S), v2)
        if c0.bvs & {v1.args[0], v2.args[0]}:
            continue
        lo1, hi1 = [subst(x, m) for x in bvs[v1]]
        lo2, hi2 = [subst(x, m) for x in bvs[v2]]
        if const_of(lo2) != 0 or lo1 is not S.args[1]:
            continue
        size = lambda x: subst(S.args[3], {S.args[0]: x})
        with with_facts([ge0(sub(v1, lo1)), lt(v1, hi1)]):
            if not nonneg(_simp(size(v1), {}), 2):
                continue
        with with_facts([guard, ge0(sub(v1, lo1)), lt(v1, hi1)]):
            if _simp(sub(size(v1), hi2), {}) is not ZERO and not nonneg(_simp(sub(size(v1), hi2), {}), 2):
                continue
        for a in pd_atoms(t):
            if a.op != 'sum' or a.args[3] is not S.args[3] or a.args[1] is not S.args[1] or pd(t).get(((a.id, 1),)) != 1:
                continue
            x = a.args[2]
            y = sub(sub(t, a), c0)
            if decide(ge0(sub(x, lo1))) is TRUE and nonneg(y, 2) and \
                    (decide(lt(y, size(x))) is TRUE or decide(lt(_simp(y, {}), _simp(size(x), {}))) is TRUE):
                m[v1], m[v2] = x, y
                return True
    return False


def pd_atoms(t):
    return [_byid[mm[0][0]] for mm in pd(t) if len(mm) == 1 and mm[0][1] == 1]


def match_write(w, q):
    """Returns (cond, value-substitution, unresolved iters) or None if undecidable; cond FALSE if provably no match."""
    iters, guard, idx, op, val = w
    if len(idx) > len(q):
        return None
    m = {}
    extra = []
    pend = [(idx[r], q[r]) for r in range(len(idx))]
    bvs = {v: (lo, hi) for v, lo, hi in iters}
    conds = []
    changed = True
    while pend and changed:
        changed = False
        for it in list(pend):
            e, t = it
            e = subst(e, m)
            un = [v for v in bvs if v not in m and v.args[0] in e.bvs]
            if not un:
                conds.append(eq(e, t))
                pend.remove(it)
                changed = True
                continue
            if len(un) == 1:
                s = solve_lin(sub(e, t), un[0])
                if s is not None:
                    m[un[0]] = s
                    pend.remove(it)
                    changed = True
                    continue
                # a*v + c == t  with coefficient a (non unit): v = div(t-c, a), need remainder 0
                d = pd(e)
                key = None
                coef = {}
                for mono, k in d.items():
                    names = dict(mono)
                    if un[0].id in names:
                        if names[un[0].id] != 1:
                            coef = None
                            break
                        mm = tuple(x for x in mono if x[0] != un[0].id)
                        coef[mm] = k
                if coef:
                    a_ = poly(coef)
                    if un[0].args[0] not in a_.bvs:
                        c_ = sub(e, mul(a_, un[0]))
                        if un[0].args[0] not in c_.bvs:
                            s = div(sub(t, c_), a_)
                            m[un[0]] = s
                            conds.append(eq(mul(a_, s), sub(t, c_)))
                            pend.remove(it)
                            changed = True
                            continue
                        r = mod_classes(e, t, un[0], bvs, m)
                        if r is not None:
                            # v mod a == t: v = a*u + t for the classes u
                            u, hi, c, v = r
                            m[un[0]] = v
                            bvs[u] = (num(0), hi)
                            conds += c
                            extra.append((u, num(0), hi))
                            pend.remove(it)
                            changed = True
                            continue
            if len(un) == 2:
                # mixed radix a*v1 + v2 + c
                for v1, v2 in ((un[0], un[1]), (un[1], un[0])):
                    s2 = solve_lin(sub(e, t), v2)
                    if s2 is None:
                        continue
                    lo2, hi2 = bvs[v2]
                    lo2, hi2 = subst(lo2, m), subst(hi2, m)
                    # coefficient of v1
                    c0 = subst(e, {v1: num(0), v2: num(0)})
                    a_ = sub(subst(e, {v1: num(1), v2: num(0)}), c0)
                    if v1.args[0] in a_.bvs or v2.args[0] in a_.bvs:
                        continue
                    if e is not add(mul(a_, v1), v2, c0):
                        continue
                    # need 0<=lo2, hi2<=a
                    if const_of(lo2) != 0:
                        continue
                    ok = decide(le(hi2, a_)) is TRUE
                    if not ok and hi2.op == 'min':
                        ok = any(decide(le(x, a_)) is TRUE for x in hi2.args)
                    if not ok:
                        continue
                    x = sub(t, c0)
                    m[v1] = div(x, a_)
                    m[v2] = sub(x, mul(a_, m[v1]))
                    pend.remove(it)
                    changed = True
                    break
                if it in pend and packed_blocks(e, t, un, bvs, m, guard):
                    pend.remove(it)
                    changed = True
    if pend:
        return None
    unresolved = [(v, lo, hi) for v, lo, hi in iters if v not in m] + extra
    for v, lo, hi in iters:
        if v in m:
            lo_, hi_ = subst(lo, m), subst(hi, m)
            conds += [le(lo_, m[v]), lt(m[v], hi_)]
    conds.append(subst(guard, m))
    c = decide(tand(*[decide(x) for x in conds]))
    return c, m, unresolved


def mod_classes(e, t, v, bvs, m):
    """e == t where e = v - a*div(v, a) with the iterations v starting at 0: (class u, classes, conditions, v)"""
    lo, hi = bvs[v]
    lo, hi = subst(lo, m), subst(hi, m)
    if const_of(lo) != 0:
        return None
    for x in {_byid[i] for mono in pd(e) for i, _ in mono}:
        if x.op == 'div' and x.args[0] is v and v.args[0] not in x.args[1].bvs:
            a = x.args[1]
            if e is sub(v, mul(a, x)) and decide(ge0(sub(a, num(1)))) is TRUE:
                u = fresh_bv('u')
                return u, div(add(hi, sub(a, num(1))), a), [ge0(t), lt(t, a)], add(mul(a, u), t)
    return None


def _sel_w(a, q):
    base, writes = a.args
    out = []   # (kind, cond, value)
    for w in reversed(writes):
        iters, guard, idx, op, val = w
        if len(idx) > len(q):
            # partial read of a sub-array that has element writes
            r = _sub_w(a, q)
            return r
        mt = match_write(w, q)
        if mt is None:
            return None
        c, m, un = mt
        if c is FALSE:
            continue
        v = sel(subst(val, m), q[len(idx):])
        if op == 'set':
            if un:
                # reached through more than one iteration: last one wins, only fine if value independent of them
                names = [u[0].args[0] for u in un]
                if any(n in v.bvs for n in names) or any(n in c.bvs for n in names):
                    return None
                for u, lo, hi in un:
                    c = tand(c, lt(subst(lo, m), subst(hi, m)))
            out.append(('set', c, v))
            if c is TRUE:
                break
        elif op == 'app':
            if un or len(idx) != len(q):
                return None
            out.append(('app', c, v))
        else:
            val_ = ite(c, v, num(0))
            for u, lo, hi in reversed(un):
                lo, hi = subst(lo, m), subst(hi, m)
                val_ = (tsum if op == 'add' else xsum)(u, lo, hi, val_)
            out.append((op, TRUE, val_))
    else:
        out.append(('set', TRUE, sel(base, q)))
    # replay from the last collected (oldest) to the newest
    r = None
    for kind, c, v in reversed(out):
        if kind == 'set':
            r = v if r is None else ite(c, v, r)
        elif kind == 'app':
            r = ite(c, concat(r, v), r)
        elif kind == 'add':
            r = add(r, v)
        else:
            r = xor(r, v)
    return r


def _sub_w(a, q):
    """read of a sub-array a[q]: keep the writes whose leading index matches"""
    base, writes = a.args
    n = len(q)
    nb = sel(base, q)
    nw = []
    for w in writes:
        iters, guard, idx, op, val = w
        if len(idx) <= n:
            # whole sub-array replaced
            mt = match_write((iters, guard, idx, op, val), q[:len(idx)])
            if mt is None or op != 'set':
                return None
            c, m, un = mt
            if c is FALSE:
                continue
            if c is not TRUE or un:
                return None
            nb = sel(subst(val, m), q[len(idx):])
            nw = []
            continue
        # solve the leading part only
        lead = (iters, TRUE, idx[:n], op, val)
        mt = match_write(lead, q)
        if mt is None:
            return None
        c, m, un = mt
        if c is FALSE:
            continue
        it2 = tuple((v, subst(lo, m), subst(hi, m)) for v, lo, hi in un)
        nw.append(mk_write(it2, tand(c, subst(guard, m)), subst_any(idx[n:], m), op, subst(val, m)))
    return mk_w(nb, tuple(nw))


# ---------------------------------------------------------------- objects
def obj(ty, fields):
    return _intern('obj', (ty, tuple(sorted(fields.items()))))


def fld(o, name):
    if o.op == 'obj':
        d = dict(o.args[1])
        if name in d:
            return d[name]
    if o.op == 'ite':
        return ite(o.args[0], fld(o.args[1], name), fld(o.args[2], name))
    return _intern('fld', (o, name))


def setfld(o, name, v):
    if o.op == 'obj':
        d = dict(o.args[1])
        d[name] = v
        return _intern('obj', (o.args[0], tuple(sorted(d.items()))))
    if o.op == 'upd':
        d = dict(o.args[1])
        d[name] = v
        return _intern('upd', (o.args[0], tuple(sorted(d.items()))))
    return _intern('upd', (o, ((name, v),)))


# ---------------------------------------------------------------- substitution
def subst_any(a, m):
    if isinstance(a, Term):
        return subst(a, m)
    if isinstance(a, tuple):
        return tuple(subst_any(x, m) for x in a)
    return a


def subst(t, m, _memo=None):
    if not m:
        return t
    if _memo is None:
        _memo = {}
        need_b = set(k.args[0] for k in m if k.op == 'bv')
        need_p = set(k for k in m if k.op != 'bv')
        _memo['__nb'] = need_b
        _memo['__np'] = need_p
        _memo['__all'] = any(k.op not in ('bv', 'phi') for k in m)
    return _subst(t, m, _memo)


def _subst(t, m, memo):
    r = m.get(t)
    if r is not None:
        return r
    if not memo['__all']:
        if not (t.bvs and memo['__nb'] & t.bvs) and not (t.phis and memo['__np'] & t.phis):
            return t
    r = memo.get(t)
    if r is not None:
        return r
    o = t.op
    S = lambda x: _subst(x, m, memo)
    if o == 'poly':
        acc = []
        for mono, c in t.args:
            f = num(c)
            for i, k in mono:
                x = S(_byid[i])
                for _ in range(k):
                    f = mul(f, x)
            acc.append(f)
        r = add(*acc)
    elif o in ('sym', 'bv', 'phi', 'asym', 'true', 'false', 'null', 'str', 'st'):
        r = t if o != 'phi' else t
    elif o == 'w':
        base = S(t.args[0])
        ws = []
        for it, g, idx, op, val in t.args[1]:
            mm = m
            if it:
                # avoid capture: rename binders fresh, then canonicalise
                ren = {}
                it2 = []
                for v, lo, hi in it:
                    fv = fresh_bv('w')
                    lo2 = subst(subst(lo, ren), m)
                    hi2 = subst(subst(hi, ren), m)
                    ren[v] = fv
                    it2.append((fv, lo2, hi2))
                g2 = subst(subst(g, ren), m)
                idx2 = subst_any(subst_any(idx, ren), m)
                val2 = subst(subst(val, ren), m)
                ws.append(mk_write(tuple(it2), g2, idx2, op, val2))
            else:
                ws.append(((), S(g), tuple(S(x) for x in idx), op, S(val)))
        r = mk_w(base, tuple(ws))
    elif o in ('sum', 'xsum', 'exists', 'forall'):
        v, lo, hi, body = t.args
        fv = fresh_bv('s')
        b2 = subst(subst(body, {v: fv}), m)
        f = {'sum': tsum, 'xsum': xsum, 'exists': exists, 'forall': forall}[o]
        r = f(fv, S(lo), S(hi), b2)
    elif o == 'map':
        v, n, body = t.args
        fv = fresh_bv('m')
        r = amap(fv, S(n), subst(subst(body, {v: fv}), m))
    elif o == 'mu':
        k, tau, phis, inits, nexts, N, cond, brk, brkv = t.args
        bound = set(phis) | {tau}
        m2 = {x: y for x, y in m.items() if x not in bound}
        T = (lambda x: subst(x, m2)) if len(m2) < len(m) else S
        r = mu(k, tau, phis, tuple(S(x) for x in inits), tuple(T(x) for x in nexts), S(N) if N is not None else None,
               T(cond) if cond is not None else None, T(brk), tuple(T(x) for x in brkv))
    else:
        r = rebuild(o, _map_args(t.args, S))
    memo[t] = r
    return r


def _map_args(a, S):
    if isinstance(a, Term):
        return S(a)
    if isinstance(a, tuple):
        return tuple(_map_args(x, S) for x in a)
    return a


def rebuild(o, a):
    if o == 'pow2':
        return pow2(a[0])
    if o == 'div':
        return div(a[0], a[1])
    if o == 'min':
        return tmin(*a)
    if o == 'max':
        return tmax(*a)
    if o == 'xor':
        return xor(*a)
    if o == 'ge0':
        return ge0(a[0])
    if o == 'rgt0':
        return rgt0(a[0])
    if o == 'eq0':
        return eq0(a[0])
    if o == 'eqv':
        return eqv(a[0], a[1])
    if o == 'not':
        return tnot(a[0])
    if o == 'and':
        return tand(*a)
    if o == 'or':
        return tor(*a)
    if o == 'ite':
        return ite(*a)
    if o == 'sel':
        return sel(a[0], a[1])
    if o == 'len':
        return tlen(a[0])
    if o == 'slice':
        return aslice(*a)
    if o == 'concat':
        return concat(*a)
    if o == 'resize':
        return resize(*a)
    if o == 'fld':
        return fld(a[0], a[1])
    if o == 'mu':
        return mu(*a)
    if o == 'fn':
        f = FNRULES.get(a[0])
        if f:
            return f(*a[1:])
        return _intern('fn', a)
    return _intern(o, a)


FNRULES = {'pow': tpow}


def simp(t, facts=()):
    """re-simplify a term under facts (conditions and selects are decided again)"""
    with with_facts(list(facts)):
        return _simp(t, {})


def _simp(t, memo):
    r = memo.get(t)
    if r is not None:
        return r
    o = t.op
    S = lambda x: _simp(x, memo)
    if o == 'poly':
        acc = []
        for mono, c in t.args:
            f = num(c)
            for i, k in mono:
                x = S(_byid[i])
                for _ in range(k):
                    f = mul(f, x)
            acc.append(f)
        r = add(*acc)
    elif o in ('sym', 'bv', 'phi', 'asym', 'true', 'false', 'null', 'str', 'st'):
        r = t
    elif o == 'ite':
        c = decide(S(t.args[0]))
        if c is TRUE:
            r = S(t.args[1])
        elif c is FALSE:
            r = S(t.args[2])
        else:
            with with_facts([c]):
                a = _simp(t.args[1], {})
            with with_facts([tnot(c)]):
                b = _simp(t.args[2], {})
            r = ite(c, a, b)
    elif o in ('ge0', 'eq0', 'and', 'or', 'not'):
        r = decide(rebuild(o, _map_args(t.args, S)))
    elif o in ('sum', 'xsum', 'exists', 'forall'):
        v, lo, hi, body = t.args
        lo, hi = S(lo), S(hi)
        fv = fresh_bv('s')
        with with_facts([le(lo, fv), lt(fv, hi)]):
            b2 = _simp(subst(body, {v: fv}), {})
        f = {'sum': tsum, 'xsum': xsum, 'exists': exists, 'forall': forall}[o]
        r = f(fv, lo, hi, b2)
    elif o == 'map':
        v, n, body = t.args
        fv = fresh_bv('m')
        n = S(n)
        with with_facts([ge0(fv), lt(fv, n)]):
            b2 = _simp(subst(body, {v: fv}), {})
        r = amap(fv, n, b2)
    elif o == 'w':
        base = S(t.args[0])
        ws = []
        for it, g, idx, op, val in t.args[1]:
            ren, it2, fs = {}, [], []
            for v, lo, hi in it:
                fv = fresh_bv('w')
                lo2, hi2 = _simp(subst(lo, ren), {}), _simp(subst(hi, ren), {})
                ren[v] = fv
                it2.append((fv, lo2, hi2))
                fs += [le(lo2, fv), lt(fv, hi2)]
            with with_facts(fs):
                g2 = decide(_simp(subst(g, ren), {}))
                with with_facts([g2]):
                    idx2 = tuple(_simp(subst(x, ren), {}) for x in idx)
                    val2 = _simp(subst(val, ren), {})
            ws.append(mk_write(tuple(it2), g2, idx2, op, val2))
        r = mk_w(base, tuple(ws))
    elif o == 'min' or o == 'max':
        xs = [S(x) for x in t.args]
        keep = []
        for i, x in enumerate(xs):
            dom = False
            for j, y in enumerate(xs):
                if i == j or y is x:
                    continue
                # min: y <= x always -> drop x
                cond = le(y, x) if o == 'min' else le(x, y)
                if decide(cond) is TRUE and not (decide(eq(x, y)) is TRUE and j > i):
                    dom = True
                    break
            if not dom:
                keep.append(x)
        r = (tmin if o == 'min' else tmax)(*keep) if keep else t
    elif o == 'div':
        p, q = S(t.args[0]), S(t.args[1])
        if decide(ge0(p)) is TRUE and decide(lt(p, q)) is TRUE:
            r = num(0)
        else:
            r = div(p, q)
            # q*a + r with 0<=r<q where q not a plain monomial of p: handled in div
    else:
        r = rebuild(o, _map_args(t.args, S))
    memo[t] = r
    return r


# ---------------------------------------------------------------- printing
def show(t, depth=0):
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            return '(' + ', '.join(show(x, depth + 1) for x in t) + ')'
        return str(t)
    if depth > 14:
        return '…'
    o = t.op
    D = lambda x: show(x, depth + 1)
    if o == 'poly':
        if not t.args:
            return '0'
        out = []
        for m, c in t.args:
            f = [str(c)] if (c != 1 or not m) else []
            for i, k in m:
                s = D(_byid[i])
                f.append(s if k == 1 else '%s^%d' % (s, k))
            out.append('*'.join(f))
        return '(' + ' + '.join(out) + ')' if len(out) > 1 else out[0]
    if o in ('sym', 'bv', 'asym', 'str'):
        return str(t.args[0])
    if o == 'mu':
        k, tau, phis, inits, nexts, N, cond, brk, brkv = t.args
        if depth > 6:
            return 'loop…'
        return 'loop.%d(%s%s%s)' % (k, '%s<%s; ' % (show(tau), D(N)) if N is not None else '', 'while %s; ' % D(cond) if cond is not None else '',
                                    '; '.join('%s: %s -> %s' % (show(p), D(i), D(n)) for p, i, n in zip(phis, inits, nexts)) +
                                    ('; break if %s' % D(brk) if brk is not FALSE else ''))
    if o == 'phi':
        return 'φ' + str(t.args[0])
    if o == 'sel':
        return D(t.args[0]) + ''.join('[%s]' % D(x) for x in t.args[1])
    if o == 'fn' or o == 'bfn':
        return '%s(%s)' % (t.args[0], ', '.join(D(x) for x in t.args[1:]))
    if o in ('sum', 'xsum', 'exists', 'forall'):
        return '%s{%s∈[%s,%s)} %s' % (o, D(t.args[0]), D(t.args[1]), D(t.args[2]), D(t.args[3]))
    if o == 'w':
        return 'W(%s%s)' % (D(t.args[0]), ''.join('; %s%s[%s] %s %s' % (
            ''.join('∀%s∈[%s,%s) ' % (D(v), D(l), D(h)) for v, l, h in it), '' if g is TRUE else 'if %s ' % D(g),
            ']['.join(D(x) for x in idx), op, D(val)) for it, g, idx, op, val in t.args[1]))
    if o == 'ge0':
        return D(t.args[0]) + '>=0'
    if o == 'eq0':
        return D(t.args[0]) + '==0'
    if o == 'obj':
        return '{' + ', '.join('%s:%s' % (k, D(v)) for k, v in t.args[1]) + '}'
    if o == 'fld':
        return D(t.args[0]) + '.' + t.args[1]
    return '%s(%s)' % (o, ', '.join(D(x) for x in t.args))


def atoms(t, seen=None):
    """all subterms"""
    if seen is None:
        seen = {}
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen[x] = 1
        if x.op == 'poly':
            st += [_byid[i] for m, _ in x.args for i, _ in m]
        else:
            st += list(_walk_terms(x.args))
    return seen


def has_op(t, ops):
    return any(x.op in ops for x in atoms(t))


def st(kind, msg=''):
    return _intern('st', (kind, msg))


OK = st('ok')
NULL = _intern('null', ())


def tstr(s):
    return _intern('str', (s,))


def ptr(root, path, ety):
    return _intern('ptr', (root, path, ety))


def span(root, path, off, ln):
    return _intern('span', (root, path, off, ln))


ZERO = num(0)
ONE = num(1)
