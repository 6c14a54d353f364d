"""Random interpretation of summary terms: refutes an equality/entailment that the normal form could not prove.

Only the terms computed by the analysis are interpreted (free symbols and uninterpreted functions get arbitrary values);
the program is never run.  A difference that survives all preconditions is a counterexample to the claimed identity
of the two summaries; agreement on every sample proves nothing and leaves the obligation undecided.
"""
import hashlib
import math
import random
from . import terms as TT_
from fractions import Fraction
from .terms import _byid, LENS, FALSE, TRUE, subst


class NE(Exception):
    """not evaluable under this valuation"""


class U:
    """uninterpreted value, usable as number / array / object"""
    __slots__ = ('key',)

    def __init__(self, key):
        self.key = key

    def __eq__(self, o):
        return isinstance(o, U) and o.key == self.key

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return 'U%r' % (self.key,)


class Arr:
    __slots__ = ('n', 'get', 'memo', 'ident')

    def __init__(self, n, get, ident=None):
        self.n, self.get, self.memo, self.ident = n, get, {}, ident

    def at(self, i):
        i = toint(i)
        if i < 0 or i >= self.n:
            raise NE('index %d out of [0,%d)' % (i, self.n))
        if i not in self.memo:
            self.memo[i] = self.get(i)
        return self.memo[i]


def toint(x):
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, Fraction):
        if x.denominator == 1:
            return int(x)
        raise NE('fraction')
    raise NE('not an integer: %r' % (x,))


LIM = 4096


SCALARS = ('sym', 'sel', 'fn')


class Val:
    """dom(key)->int|None picks values of free symbols/uninterpreted applications; lens(name) of input arrays"""

    def __init__(self, seed, dom=None, interp=None):
        self.seed = seed
        self.lim = LIM
        self.dom = dom
        self.interp = interp or {}
        self.memo = {}
        self.pool = self.lpool = ()
        self.truth = {}

    def h(self, key, lo, hi):
        d = hashlib.blake2b(repr((self.seed, key)).encode(), digest_size=40).digest()
        return lo + int.from_bytes(d, 'big') % (hi - lo)

    def number(self, key):
        k = ('#', key)
        if k not in self.memo:
            v = None
            if self.pool and key[0] == 'sym' and self.h(('pool', key), 0, 5) < 2:
                # values around the constants the code compares with
                v = self.pool[self.h(('pi', key), 0, len(self.pool))] + self.h(('pd', key), -1, 2)
                if v < 0:
                    v = None
            if v is None and self.dom:
                v = self.dom(self, key)
            if v is None:
                v = self.default(key)
            self.memo[k] = v
        return self.memo[k]

    def default(self, key):
        c = self.h(('c', key), 0, 10)
        if c < 4:
            return self.h(key, 0, 2)
        if c < 7:
            return self.h(key, 0, 7)
        return self.h(key, 0, 1 << 20)

    def num(self, x):
        if isinstance(x, U):
            return self.number(x.key)
        if isinstance(x, (int, Fraction, float)):
            return int(x) if isinstance(x, bool) else x
        raise NE('not a number %r' % (x,))

    def key(self, x):
        """canonical hashable form: an uninterpreted value may be equal to a number computed elsewhere, so it counts by its number"""
        if isinstance(x, U):
            return self.number(x.key) if x.key[0] in SCALARS else ('u', x.key)
        if isinstance(x, Arr):
            if x.ident is not None:
                if x.ident[0] == 'u' and x.ident[1][0] in SCALARS:
                    return self.number(x.ident[1])
                return x.ident
            if x.n > self.lim:
                raise NE('large')
            return ('a',) + tuple(self.key(x.at(i)) for i in range(x.n))
        if isinstance(x, dict):
            return ('o',) + tuple((k, self.key(v)) for k, v in sorted(x.items()))
        if isinstance(x, tuple):
            return ('t',) + tuple(self.key(y) for y in x)
        if isinstance(x, bool):
            return int(x)
        if isinstance(x, Fraction) and x.denominator == 1:
            return int(x)
        return x

    # ------------------------------------------------------------
    def ev(self, t, env=None):
        env = env or {}
        return self._ev(t, env)

    def nev(self, t, env):
        return self.num(self._ev(t, env))

    def _ev(self, t, env):
        if not t.bvs and not t.phis:
            r = self.memo.get(t)
            if r is None:
                r = self._ev1(t, env)
                self.memo[t] = r
            return r
        c = env.get('#')
        if c is None:
            return self._ev1(t, env)
        r = c.get(t)
        if r is None:
            r = self._ev1(t, env)
            c[t] = r
        return r

    def ev_mu(self, t, env):
        k, tau, phis, inits, nexts, N, cond, brk, brkv = t.args
        key = ('mu',) + t.args[1:]
        c = self.memo if not t.bvs and not t.phis else env.get('#')
        if c is not None and key in c:
            return c[key][k]
        state = [self._ev(x, env) for x in inits]
        n = None if N is None else toint(self.nev(N, env))
        if n is not None and n > self.lim:
            raise NE('iterations')
        i = 0
        while n is None or i < n:
            e2 = dict(env)
            e2['#'] = {}
            e2[tau] = i
            for p, v in zip(phis, state):
                e2[p] = v
            if cond is not None and not self.cond(cond, e2):
                break
            if brk is not FALSE and self.cond(brk, e2):
                state = [self.fix(self._ev(x, e2)) for x in brkv]
                break
            state = [self.fix(self._ev(x, e2)) for x in nexts]
            i += 1
            if i > self.lim:
                raise NE('iterations')
        if c is not None:
            c[key] = state
        return state[k]

    def fix(self, v):
        """arrays over a loop state are computed when the iteration ends (bounds recursion)"""
        if isinstance(v, Arr) and v.n <= 64:
            for i in range(v.n):
                try:
                    self.fix(v.at(i))
                except NE:
                    pass
        return v

    def arr_at(self, a, idx, env):
        for i in idx:
            if isinstance(a, Arr):
                a = a.at(self.num(i))
            elif isinstance(a, U):
                a = U(('sel', a.key, self.key(toint(self.num(i)))))
            else:
                raise NE('select on %r' % (a,))
        return a

    def alen(self, a):
        if isinstance(a, Arr):
            return a.n
        if isinstance(a, U):
            lp = self.lpool or self.pool
            if lp and self.h(('lp', a.key), 0, 5) < 2:
                # lengths around multiples of the constants the code compares with
                v = lp[self.h(('pi', a.key), 0, len(lp))] * self.h(('pm', a.key), 1, 6) + self.h(('pd', a.key), -1, 3)
                if 0 <= v <= self.lim:
                    return v
            v = self.number(('len', a.key))
            return abs(v) % 9 if not self.dom or self.dom(self, ('len', a.key)) is None else v
        raise NE('length of %r' % (a,))

    def toarr(self, a):
        if isinstance(a, Arr):
            return a
        if isinstance(a, U):
            return Arr(self.alen(a), lambda i: U(('sel', a.key, i)), ('u', a.key))
        raise NE('array expected')

    def small(self, n):
        n = toint(n)
        if n < 0 or n > self.lim:
            raise NE('size %d' % n)
        return n

    def cond(self, t, env):
        v = self._ev(t, env)
        if isinstance(v, bool):
            return v
        if isinstance(v, U):
            return bool(self.h(('bool', v.key), 0, 2))
        if isinstance(v, int):
            return v != 0
        raise NE('bool')

    def _ev1(self, t, env):
        o, a = t.op, t.args
        if o == 'poly':
            r = 0
            for m, c in a:
                p = c
                for i, k in m:
                    x = self._ev(_byid[i], env)
                    x = self.num(x) if not isinstance(x, Arr) else x
                    if isinstance(x, Arr):
                        if k != 1 or isinstance(p, Arr):
                            raise NE('array product')
                        p0 = p
                        p = Arr(x.n, lambda i, x=x, p0=p0: p0 * self.num(x.at(i)))
                    elif isinstance(p, Arr):
                        q = p
                        p = Arr(q.n, lambda i, q=q, f=x ** k: q.at(i) * f)
                    else:
                        p = p * x ** k
                if isinstance(p, Arr) or isinstance(r, Arr):
                    if not isinstance(r, Arr) and r == 0:
                        r = p
                    elif isinstance(p, Arr) and isinstance(r, Arr):
                        if p.n != r.n:
                            raise NE('lengths')
                        r = Arr(p.n, lambda i, p=p, r0=r: p.at(i) + r0.at(i))
                    else:
                        raise NE('array + number')
                else:
                    r = r + p
            if isinstance(r, Fraction) and r.denominator == 1:
                r = int(r)
            if isinstance(r, float) and r != r:
                raise NE('nan')
            return r
        if o == 'sym':
            return U(('sym', a[0]))
        if o == 'asym':
            return U(('asym', a[0]))
        if o == 'mu':
            return self.ev_mu(t, env)
        if o == 'bv' or o == 'phi':
            if t not in env:
                raise NE('unbound ' + a[0])
            return env[t]
        if o == 'true':
            return True
        if o == 'false':
            return False
        if o == 'null':
            return ('null',)
        if o == 'str':
            return ('str', a[0])
        if o == 'st':
            return ('st', a[0])
        if o == 'enum':
            return ('enum', a)
        if o == 'pow2':
            e = toint(self.nev(a[0], env))
            if e < 0 or e > 4000:
                raise NE('pow2')
            return 1 << e
        if o == 'div':
            p, q = self.nev(a[0], env), self.nev(a[1], env)
            if isinstance(p, float) or isinstance(q, float):
                raise NE('float div')
            if q == 0:
                raise NE('division by zero')
            return toint(Fraction(p) // Fraction(q)) if isinstance(p, Fraction) or isinstance(q, Fraction) else p // q
        if o == 'min':
            return min(self.nev(x, env) for x in a)
        if o == 'max':
            return max(self.nev(x, env) for x in a)
        if o == 'xor':
            r = 0
            for x in a:
                r ^= toint(self.nev(x, env))
            return r
        if o == 'ge0':
            return self.nev(a[0], env) >= 0
        if o == 'rgt0':
            return self.nev(a[0], env) > 0
        if o == 'eq0':
            return self.nev(a[0], env) == 0
        if o == 'eqv':
            return self.key(self._ev(a[0], env)) == self.key(self._ev(a[1], env))
        if o == 'not':
            return not self.cond(a[0], env)
        if o == 'and':
            bad = None
            for x in a:            # conditions are unordered in the normal form
                try:
                    if not self.cond(x, env):
                        return False
                except NE as e:
                    bad = e
            if bad:
                raise bad
            return True
        if o == 'or':
            bad = None
            for x in a:
                try:
                    if self.cond(x, env):
                        return True
                except NE as e:
                    bad = e
            if bad:
                raise bad
            return False
        if o == 'b2i':
            return int(self.cond(a[0], env))
        if o == 'ite':
            return self._ev(a[1] if self.cond(a[0], env) else a[2], env)
        if o in ('sum', 'xsum', 'exists', 'forall'):
            v, lo, hi, body = a
            lo, hi = toint(self.nev(lo, env)), toint(self.nev(hi, env))
            if hi - lo > self.lim:
                raise NE('range')
            e2 = dict(env)
            if o in ('exists', 'forall'):
                for k in range(lo, hi):
                    e2[v] = k
                    e2['#'] = {}
                    if self.cond(body, e2) == (o == 'exists'):
                        return o == 'exists'
                return o == 'forall'
            r = 0
            for k in range(lo, hi):
                e2[v] = k
                e2['#'] = {}
                x = self.nev(body, e2)
                r = r + x if o == 'sum' else toint(r) ^ toint(x)
            return r
        if o == 'fill':
            n = self.small(self.nev(a[0], env))
            x = self._ev(a[1], env)
            return Arr(n, lambda i: x)
        if o == 'lit':
            xs = [self._ev(x, env) for x in a[0]]
            return Arr(len(xs), lambda i: xs[i])
        if o == 'map':
            v, n, body = a
            n = self.small(self.nev(n, env))

            def g(i):
                e2 = dict(env)
                e2['#'] = {}
                e2[v] = i
                return self._ev(body, e2)
            return Arr(n, g)
        if o == 'slice':
            x = self.toarr(self._ev(a[0], env))
            off, n = toint(self.nev(a[1], env)), self.small(self.nev(a[2], env))
            if off < 0 or off + n > x.n:
                raise NE('slice')
            return Arr(n, lambda i: x.at(off + i))
        if o == 'resize':
            x = self.toarr(self._ev(a[0], env))
            n = self.small(self.nev(a[1], env))
            f = self._ev(a[2], env)
            return Arr(n, lambda i: x.at(i) if i < x.n else f)
        if o == 'concat':
            xs = [self.toarr(self._ev(x, env)) for x in a]
            flat = [(x, i) for x in xs for i in range(self.small(x.n))]
            return Arr(len(flat), lambda i: flat[i][0].at(flat[i][1]))
        if o == 'w':
            return self.ev_w(t, env)
        if o == 'sel':
            return self.arr_at(self._ev(a[0], env), [self.nev(i, env) for i in a[1]], env)
        if o == 'len':
            return self.alen(self._ev(a[0], env))
        if o == 'obj':
            return {k: self._ev(v, env) for k, v in a[1]}
        if o == 'upd':
            b = self._ev(a[0], env)
            b = dict(b) if isinstance(b, dict) else {'': b}
            for k, v in a[1]:
                b[k] = self._ev(v, env)
            return b
        if o == 'fld':
            b = self._ev(a[0], env)
            if isinstance(b, dict):
                if a[1] in b:
                    return b[a[1]]
                if '' in b:
                    b = b['']
            if isinstance(b, U):
                return U(('fld', b.key, a[1]))
            raise NE('field')
        if o in ('fn', 'bfn'):
            name = a[0]
            if name in self.interp:
                args = [self._ev(x, env) if hasattr(x, 'op') else x for x in a[1:]]
                return self.interp[name](self, *args)
            args = [self._ev(x, env) if hasattr(x, 'op') else x for x in a[1:]]
            if name in BUILTIN:
                return BUILTIN[name](self, *args)
            while name == 'ok' and isinstance(args[0], dict) and 'st' in args[0]:
                args = [args[0]['st']]
            key = (name,) + tuple(self.key(x) for x in self.canon(args))
            if o == 'bfn':
                if name == 'ok' and isinstance(args[0], tuple) and args[0][:1] == ('st',):
                    return args[0][1] == 'ok'
                if key in self.truth:
                    return self.truth[key]
                if self.dom:
                    v = self.dom(self, ('bfn', key))
                    if v is not None:
                        return bool(v)
                return bool(self.h(('bfn', key), 0, 2))
            if name in LENS:
                n = self.small(self.nev(LENS[name](t), env))
                return Arr(n, lambda i: U(('sel', ('fn', key), i)), ('u', ('fn', key)))
            return U(('fn', key))
        if o == 'ptr':
            return ('ptr', a[0], tuple((k, self.key(self._ev(x, env)) if hasattr(x, 'op') else x) for k, x in a[1]) if a[1] else ())
        raise NE('cannot interpret ' + o)

    def force(self, g, v):
        """chooses the value of an uninterpreted condition"""
        self.memo[g] = v
        if g.op == 'bfn' and g.args[0] not in BUILTIN and g.args[0] not in self.interp:
            args = [self._ev(x, {}) if hasattr(x, 'op') else x for x in g.args[1:]]
            self.truth[(g.args[0],) + tuple(self.key(x) for x in self.canon(args))] = v

    def app(self, name, *args):
        """value of an uninterpreted function"""
        return U(('fn', (name,) + tuple(self.key(x) for x in self.canon(args))))

    def canon(self, args):
        """an uninterpreted value used as an argument: distinguish by its number when it is scalar"""
        out = []
        for x in args:
            if isinstance(x, U) and x.key[0] == 'sym':
                x = self.number(x.key)
            out.append(x)
        return out

    def ev_w(self, t, env):
        base, writes = t.args
        b = self._ev(base, env)
        if isinstance(b, U):
            b = self.toarr(b)
        if not isinstance(b, Arr):
            raise NE('write into non array')
        ov = {}

        def read(idx):
            for k in range(len(idx), 0, -1):
                if idx[:k] in ov:
                    x = ov[idx[:k]]
                    return self.arr_at(x, idx[k:], env)
            return self.arr_at(b, idx, env)
        count = [0]

        def run(its, e, w):
            if not its:
                count[0] += 1
                if count[0] > 4 * self.lim:
                    raise NE('many writes')
                _, g, idx, op, val = w
                if not self.cond(g, e):
                    return
                ii = tuple(toint(self.nev(x, e)) for x in idx)
                if ii and not (0 <= ii[0] < b.n):
                    raise NE('write out of bounds')
                v = self._ev(val, e)
                if op == 'add':
                    v = self.num(read(ii)) + self.num(v)
                elif op == 'xor':
                    v = toint(self.num(read(ii))) ^ toint(self.num(v))
                elif op == 'app':
                    x, y = self.toarr(read(ii)), self.toarr(v)
                    c = [x.at(q) for q in range(self.small(x.n))] + [y.at(q) for q in range(self.small(y.n))]
                    v = Arr(len(c), c.__getitem__)
                for k in [k for k in ov if len(k) > len(ii) and k[:len(ii)] == ii]:
                    del ov[k]
                # write into an already overridden prefix
                for k in range(1, len(ii)):
                    if ii[:k] in ov:
                        ov[ii[:k]] = self.put(ov[ii[:k]], ii[k:], v)
                        return
                ov[ii] = v
                return
            v, lo, hi = its[0]
            lo, hi = toint(self.nev(lo, e)), toint(self.nev(hi, e))
            if hi - lo > self.lim:
                raise NE('range')
            for k in range(lo, hi):
                e2 = dict(e)
                e2['#'] = {}
                e2[v] = k
                run(its[1:], e2, w)
        for w in writes:
            run(w[0], dict(env), w)

        def get(i):
            if (i,) in ov:
                return ov[(i,)]
            sub = {k[1:]: v for k, v in ov.items() if k[0] == i}
            x = b.at(i)
            for k, v in sorted(sub.items(), key=lambda kv: len(kv[0])):
                x = self.put(x, k, v)
            return x
        return Arr(b.n, get)

    def put(self, x, idx, v):
        if not idx:
            return v
        x = self.toarr(x)
        if not 0 <= idx[0] < x.n:
            raise NE('write out of bounds')
        return Arr(x.n, lambda i: self.put(x.at(i), idx[1:], v) if i == idx[0] else x.at(i))

    # ------------------------------------------------------------ comparison
    def same(self, x, y, why=''):
        """None when equal, else a description"""
        if isinstance(x, U) and isinstance(y, U) and x.key == y.key:
            return None
        if isinstance(x, Arr) or isinstance(y, Arr):
            x, y = self.toarr(x), self.toarr(y)
            if x.ident is not None and x.ident == y.ident:
                return None
            if x.n != y.n:
                return '%s length %d vs %d' % (why, x.n, y.n)
            for i in range(self.small(x.n)):
                d = self.same(x.at(i), y.at(i), why + '[%d]' % i)
                if d:
                    return d
            return None
        if isinstance(x, dict) or isinstance(y, dict):
            def f(o, k):
                if isinstance(o, dict):
                    return o[k] if k in o else self.f2(o, k)
                if isinstance(o, U):
                    return U(('fld', o.key, k))
                raise NE('object')
            ks = set(x if isinstance(x, dict) else ()) | set(y if isinstance(y, dict) else ())
            for k in sorted(ks - {''}):
                d = self.same(f(x, k), f(y, k), why + '.' + k)
                if d:
                    return d
            return None
        if isinstance(x, tuple) or isinstance(y, tuple):
            if isinstance(x, tuple) and isinstance(y, tuple):
                return None if x == y else '%s %r vs %r' % (why, x, y)
            if isinstance(x, U) or isinstance(y, U):
                raise NE('incomparable')
            return '%s %r vs %r' % (why, x, y)
        if isinstance(x, bool) != isinstance(y, bool):
            x = int(x) if isinstance(x, bool) else x
            y = int(y) if isinstance(y, bool) else y
        a, b = self.num(x), self.num(y)
        if isinstance(a, float) or isinstance(b, float):
            if math.isclose(a, b, rel_tol=1e-9, abs_tol=1e-9):
                return None
            return '%s %r vs %r' % (why, a, b)
        return None if a == b else '%s %s vs %s' % (why, a, b)

    def f2(self, o, k):
        if '' in o and isinstance(o[''], U):
            return U(('fld', o[''].key, k))
        raise NE('field ' + k)


def _flt(f):
    def g(V, x):
        try:
            return f(float(V.num(x)))
        except (ValueError, OverflowError):
            raise NE('float domain')
    return g


def _bit(f):
    return lambda V, *xs: f(*[toint(V.num(x)) for x in xs])


def _sorted(V, a):
    a = V.toarr(a)
    xs = sorted(V.num(a.at(i)) for i in range(V.small(a.n)))
    return Arr(len(xs), xs.__getitem__)


def _whole(f, x):
    return x if isinstance(x, float) and not math.isfinite(x) else f(x)


BUILTIN = {
    'sorted': _sorted,
    'NumBits': lambda V, x: abs(toint(V.num(x))).bit_length(),
    'log2': _flt(lambda x: math.log2(x) if x else -math.inf), 'ln': _flt(math.log), 'sqrt': _flt(math.sqrt), 'erf': _flt(math.erf),
    'ceil': lambda V, x: _whole(math.ceil, V.num(x)), 'floor': lambda V, x: _whole(math.floor, V.num(x)),
    'trunc': lambda V, x: _whole(math.trunc, V.num(x)),
    'abs': lambda V, x: abs(V.num(x)),
    'bitand': _bit(lambda x, y: x & y), 'bitor': _bit(lambda x, y: x | y),
}


def _rdiv(V, x, y):
    x, y = V.num(x), V.num(y)
    if y == 0:
        raise NE('division by zero')
    if isinstance(x, float) or isinstance(y, float):
        return x / y
    return Fraction(x) / Fraction(y)


def _rpow(V, x, y):
    try:
        return float(V.num(x)) ** float(V.num(y))
    except (OverflowError, ZeroDivisionError, ValueError):
        raise NE('pow')


def _signed(V, n, x):
    n, x = toint(V.num(n)), toint(V.num(x))
    x %= 1 << n
    return x - (1 << n) if x >> (n - 1) else x


def _pow(V, x, y):
    e = toint(V.num(y))
    if e < 0 or e > 64:
        raise NE('pow')
    return V.num(x) ** e


def _bytes(V, arr, off, n):
    a = V.toarr(arr)
    off, n = toint(V.num(off)), toint(V.num(n))
    return sum((toint(V.num(a.at(off + i))) % 256) << (8 * i) for i in range(n))


def _mulmat(V, v, m):
    if not isinstance(m, dict) or not isinstance(v, (Arr, U)):
        raise NE('matrix')
    v = V.toarr(v)
    n, r = V.small(V.num(m['cols'])), toint(V.num(m['rows']))
    if v.n != r:
        raise NE('matrix dimensions')
    c = V.key(m['cells'])
    return Arr(n, lambda p: sum(V.num(v.at(k)) * V.h(('mat', c, k, p), 0, 1 << 16) for k in range(r)))


def _f32(V, x):
    import struct
    try:
        return struct.unpack('f', struct.pack('f', float(V.num(x))))[0]
    except OverflowError:
        raise NE('float')




def _search(kind):
    def f(V, x, v):
        x = V.toarr(x)
        xs, v = [V.num(x.at(i)) for i in range(V.small(x.n))], V.num(v)
        if kind == 'find':
            return xs.index(v) if v in xs else len(xs)
        if any(p > q for p, q in zip(xs, xs[1:])):
            raise NE('search in an unordered range')
        return sum(y < v or kind == 'upper_bound' and y == v for y in xs)
    return f


for _k in ('find', 'lower_bound', 'upper_bound'):
    BUILTIN[_k] = _search(_k)
BUILTIN['mulmat'] = _mulmat
BUILTIN['signed'] = _signed
BUILTIN['pow'] = _pow
BUILTIN['bytes'] = _bytes
BUILTIN['float32'] = _f32
BUILTIN['rdiv'] = _rdiv
BUILTIN['rpow'] = _rpow


def constants(*ts):
    seen, out = {}, set()
    for t in ts:
        TT_.atoms(t, seen)
    for x in seen:
        if x.op in ('min', 'max'):
            out.update(abs(k) for k in map(TT_.const_of, (y for y in x.args if hasattr(y, 'op'))) if isinstance(k, int) and 7 < abs(k) < 1 << 200)
        if x.op == 'div':
            k = TT_.const_of(x.args[1])
            if isinstance(k, int) and 7 < k < 1 << 130:
                out.add(k)
        if x.op not in ('ge0', 'eq0'):
            continue
        d = TT_.pd(x.args[0])
        c = d.get((), 0)
        for m, k in d.items():
            if m == () or not isinstance(c, int) or not isinstance(k, int):
                continue
            v = abs(c) // abs(k)
            if 7 < v < 1 << 200:
                out.add(v)
    return tuple(sorted(out)[:40])


def refute(a, b, facts=(), dom=None, interp=None, tries=1200, want=160, seed=1):
    """(description of a refuting valuation or None, number of agreeing valuations)"""
    agree = 0
    forced = {}
    try:
        from .check import eq_subst
        facts = list(facts)
        for i in range(len(facts)):
            m = eq_subst(facts[i])  # as the earlier equations left it
            if m and not any(x.bvs for x in m.values()):
                a, b = subst(a, m), subst(b, m)
                facts = [subst(x, m) for x in facts]
        for f in facts:
            # uninterpreted conditions are chosen as the facts require
            g, v = (f.args[0], False) if f.op == 'not' else (f, True)
            if g.op in ('bfn', 'ok') and not g.bvs and not g.phis and (interp is None or g.args[0] not in interp):
                forced[g] = v
        facts = [f for f in facts if f is not TRUE]
    except (AttributeError, TypeError, ValueError, KeyError):
        pass
    try:
        pool = constants(a, b, *facts)
    except (AttributeError, TypeError):
        pool = ()
    want += min(50 * len(pool), 500)
    nbig = 0
    big = tuple(x for x in pool if LIM // 8 <= x <= 4 * LIM)
    for k in range(tries):
        V = Val((seed, k), dom, interp)
        if k % 2:
            V.pool = pool
            if big and k % 4 == 1 and nbig < 60:
                V.pool, V.lpool, V.lim = (), big, 8 * LIM
        try:
            ok = True
            for g, v in forced.items():
                V.force(g, v)
            for f in facts:
                if not V.cond(f, {}):
                    ok = False
                    break
            if not ok:
                continue
            x, y = V.ev(a), V.ev(b)
            d = V.same(x, y)
        except NE:
            continue
        except (RecursionError, OverflowError, MemoryError):
            continue
        if d:
            w = {repr(kk[1][1:] if len(kk[1]) > 1 else kk[1]): v for kk, v in V.memo.items()
                 if isinstance(kk, tuple) and kk[0] == '#' and isinstance(v, int) and kk[1][0] == 'sym'}
            return d + '  with ' + ', '.join('%s=%s' % (k_.strip("(',)"), v) for k_, v in sorted(w.items())[:12]), agree
        agree += 1
        nbig += bool(V.lpool)
        if agree >= want:
            break
    return None, agree
