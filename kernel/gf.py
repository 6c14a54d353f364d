"""Checks of the GF(2^128) code (properties G01-G04)."""
import re
import sys
from lib.common import *
from kernel.absint import *

MOD = (1 << 128) | 0x87
VARIANTS = [('portable', ()), ('clmul', ('-DUSE_ASM',))]


def ref_mul(a, b):
    """bit polynomials of a*b in GF(2)[x]/(x^128+x^7+x^2+x+1)"""
    prod = clmul(a, b)
    for i in range(254, 127, -1):
        p = prod[i]
        for d in (7, 2, 1, 0):
            prod[i - 128 + d] = bxor(prod[i - 128 + d], p)
        prod[i] = ZERO
    return prod[:128]


def compare(rep, I, name, got, want, where):
    """bitwise comparison of canonical forms"""
    und = [i for i, (g, w) in enumerate(zip(got, want)) if g is TOP]
    bad = []
    for i, (g, w) in enumerate(zip(got, want)):
        if g is not TOP and w is not TOP and g != w:
            r = I.same(g, w)
            if r is False:
                bad.append(i)
                break
            if r is None:
                und.append(i)
    if bad:
        i = bad[0]
        return rep.fail(name, 'bit %d is %s; the property requires %s ' % (
            i, I.vars.show(got[i]), I.vars.show(want[i])), where)
    if und:
        return rep.undecided(name, '%d bits not determined' % len(und), where)
    return rep.ok(name, '', where)


CELL = [None]      # the set of inputs looked at: all (None), or the cell of a partition given by a function (name, bits) -> int


HIST = [0]         # 0: first call; 1: an earlier call with other arguments was made; 2: any number of earlier calls
CHANGED, WIDEN = set(), set()


def written(m):
    """mutable globals that some function of the module may write outside of static initialisation"""
    if not hasattr(m, 'written'):
        m.written = set()
        for n, f in m.funcs.items():
            if n.startswith(('@_GLOBAL__', '@__cxx_global', '@__tls_init')):
                continue
            for l in f.src:
                for g in re.findall(r'@[-\w$.]+', l):
                    if g in m.globals and not m.globals[g][2] and '@_ZGV' + g[3:] not in m.globals and '_ZGV' not in g and not re.search(r'= load |= icmp |call .*threadlocal', l):
                        m.written.add(g)
    return m.written


def guard_acquire(I, st, av):
    b = to_int(I.loadbits(st, av[0], 8))
    if b is None:
        raise Imprecise('state of a guard')
    return const(int(b == 0), 32)


def guard_release(I, st, av):
    I.storebits(st, av[0], const(1, 8))


class K:
    """one kernel call"""

    def __init__(self, mod, hooks=None):
        self.I = Interp(mod, dict(hooks or {}, __cxa_guard_acquire=guard_acquire, __cxa_guard_release=guard_release))
        self.st = State()

    def input(self, name, n):
        """the n bits of an input"""
        return self.I.vars.vec(name, n) if CELL[0] is None else const(CELL[0](name, n), n)

    def buf(self, name, words, sym=False):
        bits = self.input(name, 64 * words) if sym else self.I.vars.vec('uninitialised ' + name, 64 * words)
        p = self.I.new_obj(self.st, 8 * words, name, bits)
        return p, bits

    def run(self, f, *args):
        if HIST[0]:
            self.earlier(f, args)
        start = {g: list(b) for g, b in self.st.mem.items() if g.startswith('@')}
        r, self.st = self.I.call('@' + f, list(args), self.st)
        for g, bits in self.st.mem.items():
            if g.startswith('@') and not self.I.m.globals[g][2]:
                if g not in start:
                    s0 = State()
                    self.I.glob(s0, g)
                    start[g] = s0.mem[g]
                if start[g] != bits or g in written(self.I.m):
                    CHANGED.add(g)
        return r

    def earlier(self, f, args):
        """the state an earlier call with other arguments leaves behind; changing variables are widened to anything at HIST 2"""
        first = len(self.I.vars.names)
        st = self.st.copy()
        for a in args:
            if isinstance(a, Ptr) and a.obj in st.mem:
                st.mem[a.obj] = self.I.vars.vec('input', len(st.mem[a.obj]))
        _, st = self.I.call('@' + f, list(args), st)
        for i in range(first, len(self.I.vars.names)):
            self.I.vars.names[i] = 'earlier ' + self.I.vars.names[i]
        for g in list(st.mem):
            if g.startswith('@') and not self.I.m.globals[g][2]:
                self.st.mem[g] = st.mem[g]
                if HIST[0] == 2 and g in WIDEN and 'ZGV' not in g and 'guard' not in g:
                    self.st.mem[g] = self.I.vars.vec('state left in %s by earlier calls' % g, len(st.mem[g]))
        for q, v in st.ptrs.items():
            if q[0].startswith('@'):
                self.st.ptrs[q] = v

    def out(self, p, n=2, off=0):
        return self.st.mem[p.obj][64 * off:64 * (off + n)]


class Sub:
    """a report on one cell of a partition of the inputs"""

    def __init__(self):
        self.failed, self.extra, self.assumptions = [], {}, []

    def fail(self, name, detail='', where=''):
        self.failed.append((name, detail, where))

    def ok(self, *a):
        pass

    seen = undecided = ok

    def check(self, name, ok, detail='', where=''):
        if not ok:
            self.fail(name, detail, where)

    def add(self, name, verdict, detail='', where=''):
        if verdict == 'fail':
            self.fail(name, detail, where)


def cells():
    """corner cells of a partition by the values of the inputs' words and halves"""
    ws = [0, 1, (1 << 64) - 1, 1 << 63, 0x8000000080000000, 0x0123456789abcdef, 0xf0f0f0f0f0f0f0f0, 1 << 32, 0xff, 0x100]
    def cell(i, j, same):
        def f(name, n):
            h = (0 if same else sum(map(ord, name)) % 7) + i
            lo, hi = ws[h % len(ws)], ws[(h + j) % len(ws)]
            if same == 2:
                lo, hi = (lo, -lo & ((1 << 64) - 1))
            v = 0
            for x in range(0, n, 64):
                v |= (hi if x // 64 % 2 else lo) << x
            return v & ((1 << n) - 1)
        return f
    for same in (0, 1, 2):
        for i in range(len(ws)):
            for j in (range(len(ws)) if same == 1 else (0, 1, 4)):
                yield 'inputs with words %#x, %#x%s' % (ws[i], ws[(i + j) % len(ws)], ' (first input)' if not same else ''), cell(i, j, same)


class Tee:
    """passes everything on, and remembers whether something was left undecided"""

    def __init__(self, rep):
        self.__dict__['rep'], self.__dict__['und'] = rep, []

    def __getattr__(self, a):
        return getattr(self.rep, a)

    def __setattr__(self, a, v):
        setattr(self.rep, a, v)

    def undecided(self, name, detail='', where=''):
        self.und.append((name, detail, where))

    def add(self, name, verdict, detail='', where=''):
        if verdict == 'undecided':
            self.und.append((name, detail, where))
        else:
            self.rep.add(name, verdict, detail, where)


def guarded(rep, name, where, fn, cellwise=None):
    """runs the obligation for all inputs at once; what that leaves undecided is looked at again on cells of a partition of the inputs, where
       definite differences are violations"""
    if cellwise is None:
        return guarded1(rep, name, where, fn)
    t = Tee(rep)
    guarded1(t, name, where, lambda: fn(t))
    if not t.und:
        return
    try:
        for what, c in cells():
            CELL[0] = c
            sub = Sub()
            guarded1(sub, name, where, lambda: fn(sub))
            if sub.failed:
                n, d, w = sub.failed[0]
                return rep.fail(n, 'for %s: %s' % (what, d), w)
    finally:
        CELL[0] = None
    for u in t.und:
        rep.undecided(*u)


def guarded1(rep, name, where, fn):
    """first with the initial values of static variables; if calls change any, also after an earlier call, and if that is not yet all that can
       happen, with anything an earlier call might have left"""
    CHANGED.clear()
    HIST[0] = 0
    try:
        guarded0(rep, name, where, fn)
        if CHANGED:
            CHANGED.clear()
            HIST[0] = 1
            guarded0(rep, name, where, fn)
        if CHANGED:
            WIDEN.clear()
            WIDEN.update(CHANGED)
            HIST[0] = 2
            guarded0(rep, name, where, fn)
    finally:
        HIST[0] = 0


def guarded0(rep, name, where, fn):
    try:
        fn()
    except Imprecise as e:
        rep.undecided(name, 'analysis imprecise: %s' % e, where)
    except (KeyError, AttributeError, TypeError, ValueError, IndexError, RecursionError, AssertionError) as e:
        rep.undecided(name, 'analyser limitation: %s: %s' % (type(e).__name__, e), where)


def where_of(fn):
    return 'distributed_vector_ole/gf128.cpp gf128::' + fn


def modules():
    for vn, defs in VARIANTS:
        yield vn, Module(emit_ir('gf.cpp', defs))


def G01(rep):
    rep.level = 'proof'
    for vn, m in modules():
        for fn, two, keep, label in [('k_mul_assign', True, True, 'operator*='), ('k_mul', True, True, 'operator*'),
                                     ('k_mul_self', False, False, 'operator*= (x *= x)'),
                                     ('k_mul_same', False, True, 'operator* (x * x)'),
                                     ('k_square', False, False, 'square'), ('k_squared', False, True, 'squared')]:
            nm = '%s [%s]: the result is the field product' % (label, vn)

            def go(rep):
                k = K(m)
                a, av = k.buf('a', 2, True)
                b, bv = k.buf('b', 2, True)
                o, _ = k.buf('o', 2)
                kp, _ = k.buf('keep', 4)
                args = [o, a] + ([b] if two else []) + ([kp] if keep else [])
                k.run(fn, *args)
                want = ref_mul(av, bv if two else av)
                compare(rep, k.I, nm, k.out(o), want, where_of(label))
                if keep:
                    other = bv if two else av
                    compare(rep, k.I, '%s [%s]: the other operand is left unchanged' % (label, vn), k.out(kp), other,
                            where_of(label))
                    if two:
                        compare(rep, k.I, '%s [%s]: the receiver holds the %s' % (
                            label, vn, 'result' if 'assign' in fn else 'original value'), k.out(kp, 2, 2),
                            want if 'assign' in fn else av, where_of(label))
                for f in k.I.funcs_seen:
                    rep.seen('functions', f)
                rep.extra['abstract_steps'] = rep.extra.get('abstract_steps', 0) + k.I.steps
            guarded(rep, nm, where_of(label), go, True)
    rep.assumptions += ['llvm.x86.pclmulqdq is the carry-less 64x64 product (Intel SDM)',
                        'the -O2 pipeline of clang 18 preserves meaning']


def G02(rep):
    rep.level = 'proof'
    for vn, m in modules():
        def xor(a, b):
            return [bxor(x, y) for x, y in zip(a, b)]
        for fn, label in [('k_add_assign', 'operator+='), ('k_sub_assign', 'operator-='), ('k_add', 'operator+'),
                          ('k_sub', 'operator-')]:
            nm = '%s [%s]: coefficient-wise sum in characteristic 2' % (label, vn)

            def go(rep):
                k = K(m)
                a, av = k.buf('a', 2, True)
                b, bv = k.buf('b', 2, True)
                o, _ = k.buf('o', 2)
                kp, _ = k.buf('keep', 4)
                k.run(fn, o, a, b, kp)
                compare(rep, k.I, nm, k.out(o), xor(av, bv), where_of(label))
                compare(rep, k.I, '%s [%s]: the other operand is left unchanged' % (label, vn), k.out(kp), bv,
                        where_of(label))
                compare(rep, k.I, '%s [%s]: receiver after the operation' % (label, vn), k.out(kp, 2, 2),
                        xor(av, bv) if 'assign' in fn else av, where_of(label))
                for f in k.I.funcs_seen:
                    rep.seen('functions', f)
            guarded(rep, nm, where_of(label), go, True)
        for fn, label, want, keep in [
                ('k_add_self', 'operator+= (x += x)', lambda a: const(0, 128), False),
                ('k_sub_self', 'operator-= (x -= x)', lambda a: const(0, 128), False),
                ('k_neg', 'operator- (unary)', lambda a: a, True),
                ('k_sum_neg', 'x + (-x)', lambda a: const(0, 128), False)]:
            nm = '%s [%s]: value' % (label, vn)

            def go(rep):
                k = K(m)
                a, av = k.buf('a', 2, True)
                o, _ = k.buf('o', 2)
                kp, _ = k.buf('keep', 2)
                k.run(fn, *([o, a] + ([kp] if keep else [])))
                compare(rep, k.I, nm, k.out(o), want(av), where_of(label))
                if keep:
                    compare(rep, k.I, '%s [%s]: operand unchanged' % (label, vn), k.out(kp), av, where_of(label))
            guarded(rep, nm, where_of(label), go, True)
        for fn, label, want in [('k_zero', 'zero()', 0), ('k_one', 'one()', 1), ('k_default', 'gf128()', 0)]:
            nm = '%s [%s]: value' % (label, vn)

            def go(rep):
                k = K(m)
                o, _ = k.buf('o', 2)
                k.run(fn, o)
                compare(rep, k.I, nm, k.out(o), const(want, 128), where_of(label))
            guarded(rep, nm, where_of(label), go, True)
        nm = 'gf128(low) [%s]: low word only' % vn

        def go(rep):
            k = K(m)
            o, _ = k.buf('o', 2)
            a, av = k.buf('a', 1, True)
            k.run('k_lowctor', o, a)
            compare(rep, k.I, nm, k.out(o), av + const(0, 64), where_of('gf128(uint64_t)'))
        guarded(rep, nm, where_of('gf128'), go, True)


FACT = [3, 5, 17, 257, 641, 65537, 274177, 6700417, 67280421310721]


def pmulmod(a, b):
    r = 0
    while b:
        if b & 1:
            r ^= a
        b >>= 1
        a <<= 1
        if a >> 128:
            a ^= MOD
    return r


def ppow(a, e):
    r = 1
    while e:
        if e & 1:
            r = pmulmod(r, a)
        a = pmulmod(a, a)
        e >>= 1
    return r


def inverse_of(rep, m, vn, el, nm):
    """constant propagation of one element through inverse(), products as decided by G01"""
    def bits(I, st, p):
        v = to_int(I.loadbits(st, p, 128))
        if v is None:
            raise Imprecise('an unknown operand')
        return v

    def mul(I, st, av):
        I.storebits(st, av[0], const(pmulmod(bits(I, st, av[0]), bits(I, st, av[1])), 128))
        return av[0]

    def square(I, st, av):
        v = bits(I, st, av[0])
        I.storebits(st, av[0], const(pmulmod(v, v), 128))
    k = K(m, {'_ZN22distributed_vector_ole5gf128mLERKS0_': mul, '_ZN22distributed_vector_ole5gf1286squareEv': square})
    a = k.I.new_obj(k.st, 16, 'el', const(el, 128))
    o, _ = k.buf('o', 2)
    k.run('k_inverse', o, a)
    got = k.out(o)
    if any(b is TOP for b in got):
        return
    v, want = to_int(got), ppow(el, (1 << 128) - 2)
    rep.check(nm, v == want, 'the inverse of %#x is %s, not %#x' % (el, '%#x' % v if v is not None else k.I.vars.show(got[0]), want), where_of('inverse'))


def G03(rep):
    """Inverse in the domain of formal powers: every field element that reaches a multiplication must be a known
    power of the operand; products add exponents.  Uses G01 for the meaning of *= and square."""
    import re as _re
    rep.level = 'proof'
    for vn, defs in VARIANTS:
        m = Module(emit_ir('gf.cpp', defs, '-O1', ('-fno-inline',)))
        for case in ('an element other than 0 and 1', 'zero', 'one'):
            where = where_of('inverse')
            nm = 'inverse() [%s] = operand^(2^128-2) for %s' % (vn, case)

            def go(rep):
                table = {}     # tuple(bits) -> exponent

                def power(I, bits):
                    t = tuple(bits)
                    if t in table:
                        return table[t]
                    v = to_int(list(bits))
                    if v == 1:
                        return 0
                    if v == 0:
                        return 'zero'
                    raise Imprecise('a field operation gets an operand that is not a known power')

                def make(I, e):
                    if e == 0 or case == 'one' and e != 'zero':
                        return const(1, 128)
                    if e == 'zero' or case == 'zero':
                        return const(0, 128)
                    for t, x in table.items():
                        if x == e:
                            return list(t)
                    v = I.vars.vec('el^%d' % e if e < 99 else 'el^(..)', 128)
                    table[tuple(v)] = e
                    return v

                count = [0]

                def mul(I, st, av):
                    x = power(I, I.loadbits(st, av[0], 128))
                    y = power(I, I.loadbits(st, av[1], 128))
                    e = 'zero' if 'zero' in (x, y) else x + y
                    count[0] += 1
                    I.storebits(st, av[0], make(I, e))
                    return av[0]

                def square(I, st, av):
                    x = power(I, I.loadbits(st, av[0], 128))
                    count[0] += 1
                    I.storebits(st, av[0], make(I, 'zero' if x == 'zero' else 2 * x))
                    return None

                full = (1 << 128) - 1

                def equal(I, x, y):
                    """of two powers of a generic element"""
                    if x == y:
                        return True
                    if 'zero' in (x, y):
                        return False
                    if (x - y) % full == 0:
                        return True
                    if sorted((x, y)) == [0, 1]:
                        return False
                    raise Imprecise('comparison of two powers')

                def eq(neg):
                    def f(I, st, av):
                        r = equal(I, power(I, I.loadbits(st, av[0], 128)), power(I, I.loadbits(st, av[1], 128)))
                        return const(int(r != neg), 1)
                    return f

                def zero(I, st, av):
                    return const(int(power(I, I.loadbits(st, av[0], 128)) == 'zero'), 1)
                ns, nk = '_ZN22distributed_vector_ole5gf128', '_ZNK22distributed_vector_ole5gf128'
                hooks = {ns + 'mLERKS0_': mul, ns + '6squareEv': square, nk + 'eqERKS0_': eq(False), nk + 'neERKS0_': eq(True), nk + '7is_zeroEv': zero}
                k = K(m, hooks)
                bits = make(k.I, 1)
                a = k.I.new_obj(k.st, 16, 'el', bits)
                o, _ = k.buf('o', 2)
                k.run('k_inverse', o, a)
                got = tuple(k.out(o))
                compare(rep, k.I, 'inverse() [%s]: operand unchanged (%s)' % (vn, case), k.st.mem[a.obj], bits, where_of('inverse'))
                for f in k.I.funcs_seen:
                    rep.seen('functions', f)
                v = to_int(list(got))
                if case != 'an element other than 0 and 1' or v is not None:
                    want = {'zero': 0, 'one': 1}.get(case)
                    if v is None:
                        return rep.undecided(nm, 'result not determined', where_of('inverse'))
                    return rep.check(nm, v == want, 'the result is the constant %d' % v, where_of('inverse'))
                e = table.get(got)
                if e is None:
                    return rep.undecided(nm, 'result is not a formal power of the operand', where_of('inverse'))
                rep.extra['field_products_' + vn] = count[0]
                rep.check(nm, e % full == full - 1 and e > 0, 'the result is operand^e with e mod (2^128-1) = %d; the inverse needs 2^128-2' % (e % full),
                          where_of('inverse'))
            t = Tee(rep)
            guarded1(t, nm, where, lambda: go(t))
            if not t.und:
                continue
            bad = None
            for el in (2, 3, 0x87, 1 << 63, 1 << 64, 1 << 127, (1 << 128) - 1, 0x0123456789abcdef << 40, 0xfedcba9876543210 << 64 | 5):
                sub = Sub()
                guarded1(sub, nm, where, lambda: inverse_of(sub, m, vn, el, nm))
                bad = bad or (sub.failed and sub.failed[0])
            if bad:
                rep.fail(*bad)
            else:
                for u in t.und:
                    rep.undecided(*u)
    for vn, m in modules():
        nm = 'multiplicative_generator [%s] has order 2^128-1' % vn

        def go():
            t, v, _ = next(iter([m.globals[g] for g in m.globals if 'multiplicative_generator' in g]))
            k = K(m)
            p = k.I.glob(k.st, next(g for g in m.globals if 'multiplicative_generator' in g))
            g = to_int(k.I.loadbits(k.st, p, 128))
            if g is None or (g == 0 and '__cxx_global_var_init' in str(list(m.funcs))):
                return rep.undecided(nm, 'initialiser not a constant', where_of('multiplicative_generator'))
            n = (1 << 128) - 1
            pr = 1
            for q in FACT:
                pr *= q
            assert pr == n
            bad = [q for q in FACT if ppow(g, n // q) == 1] if g else ['zero']
            rep.check(nm, not bad, 'element %#x has order dividing (2^128-1)/%s' % (g, bad and bad[0]),
                      where_of('multiplicative_generator'))
        guarded(rep, nm, where_of('multiplicative_generator'), go)


def G04(rep):
    rep.level = 'proof'
    for vn, m in modules():
        for fn, label, pol in [('k_eq', 'operator==', True), ('k_ne', 'operator!=', False)]:
            nm = '%s [%s]: true exactly when all 128 bits %s' % (label, vn, 'agree' if pol else 'do not agree')

            def go(rep):
                k = K(m)
                a, av = k.buf('a', 2, True)
                b, bv = k.buf('b', 2, True)
                r = k.run(fn, a, b)
                e = k.I.conj([bxor(x, y) for x, y in zip(av, bv)])
                compare(rep, k.I, nm, r, [e if pol else bnot(e)] + [ZERO] * 31, where_of(label))
                for f in k.I.funcs_seen:
                    rep.seen('functions', f)
            guarded(rep, nm, where_of(label), go, True)
        nm = 'is_zero() [%s]: true exactly for the zero element' % vn

        def go(rep):
            k = K(m)
            a, av = k.buf('a', 2, True)
            r = k.run('k_iszero', a)
            compare(rep, k.I, nm, r, [k.I.conj(av)] + [ZERO] * 31, where_of('is_zero'))
        guarded(rep, nm, where_of('is_zero'), go, True)
        for fn, label, n in [('k_from128', 'gf128(uint128) and back', 2), ('k_hilo', 'gf128(high, low)', 2),
                             ('k_words', 'as_words()', 2)]:
            nm = '%s [%s]: little-endian words preserved' % (label, vn)

            def go(rep):
                k = K(m)
                a, av = k.buf('a', 2, True)
                o, _ = k.buf('o', 3)
                k.run(fn, o, a)
                compare(rep, k.I, nm, k.out(o), av, where_of(label))
                if fn == 'k_words':
                    compare(rep, k.I, 'as_words() [%s]: exactly two words' % vn, k.out(o, 1, 2), const(2, 64),
                            where_of(label))
            guarded(rep, nm, where_of(label), go, True)
        nm = 'hash [%s]: every bit of the element reaches the hash state' % vn

        def go():
            k = K(m)
            a, av = k.buf('a', 2, True)
            o = k.I.new_obj(k.st, 256, 'o', const(0, 2048))
            n = to_int(k.run('k_hash', o, a))
            if n is None:
                return rep.undecided(nm, 'number of hashed words unknown', where_of('AbslHashValue'))
            bits = k.st.mem[o.obj][:64 * n]
            basis = {}
            lin = all(b is not TOP and all(bin(mm).count('1') <= 1 for mm in b) for b in bits)
            for b in bits:
                if b is TOP:
                    continue
                p = set(b) - {0}
                while p:
                    l = max(p)
                    if l in basis:
                        p ^= basis[l]
                    else:
                        basis[l] = p
                        break
            if len(basis) == 128:
                rep.ok(nm)
            elif lin or len(bits) < 128:
                rep.fail(nm, 'only %d of 128 independent bits are hashed: distinct elements collide' % len(basis),
                         where_of('AbslHashValue'))
            else:
                rep.undecided(nm, 'non-linear hash input', where_of('AbslHashValue'))
        guarded(rep, nm, where_of('AbslHashValue'), go)
        nm = 'serialize [%s]: load(save(x)) = x' % vn

        def go(rep):
            k = K(m)
            a, av = k.buf('a', 2, True)
            o, _ = k.buf('o', 5)
            k.run('k_serialize', o, a)
            compare(rep, k.I, nm, k.out(o), av, where_of('serialize'))
            compare(rep, k.I, 'serialize [%s]: saving leaves the element unchanged' % vn, k.out(o, 2, 2), av,
                    where_of('serialize'))
            compare(rep, k.I, 'serialize [%s]: save and load use the same number of bytes' % vn, k.out(o, 1, 4),
                    const(1, 64), where_of('serialize'))
        guarded(rep, nm, where_of('serialize'), go, True)
