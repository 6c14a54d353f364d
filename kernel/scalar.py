"""Checks of the scalar helpers for built-in integers and GF(2^128) (S01, S03) and of block packing (P01)."""
from lib.common import *
from kernel.absint import *
from kernel.gf import K, compare, guarded, VARIANTS

TYPES = [('u8', 1), ('u16', 2), ('u32', 4), ('u64', 8), ('i8', 1), ('i16', 2), ('i32', 4), ('i64', 8), ('u128', 16),
         ('gf128', 16)]
NAMES = {'u8': 'uint8_t', 'u16': 'uint16_t', 'u32': 'uint32_t', 'u64': 'uint64_t', 'i8': 'int8_t', 'i16': 'int16_t',
         'i32': 'int32_t', 'i64': 'int64_t', 'u128': 'absl::uint128', 'gf128': 'gf128'}


def W(t, fn):
    return 'distributed_vector_ole/internal/scalar_helpers.h ScalarHelper<%s>::%s' % (NAMES[t], fn)


def S01(rep):
    rep.level = 'proof'
    m = Module(emit_ir('scalar.cpp'))
    for t, n in TYPES:
        def from_(rep):
            k = K(m)
            o = k.I.new_obj(k.st, n, 'o')
            a, av = k.buf('a', 2, True)
            k.run('from_' + t, o, a)
            compare(rep, k.I, 'FromUint128<%s> keeps exactly the low %d bits' % (NAMES[t], 8 * n), k.st.mem[o.obj],
                    av[:8 * n], W(t, 'FromUint128'))
        guarded(rep, 'FromUint128<%s>' % NAMES[t], W(t, 'FromUint128'), from_, True)

        def to_(rep):
            k = K(m)
            v = k.input('x', 8 * n)
            a = k.I.new_obj(k.st, n, 'x', v)
            o, _ = k.buf('o', 2)
            k.run('to_' + t, o, a)
            ext = v[-1] if t[0] == 'i' else ZERO
            compare(rep, k.I, 'ToUint128<%s> is the value of the element' % NAMES[t], k.out(o), v + [ext] * (128 - 8 * n),
                    W(t, 'ToUint128'))
        guarded(rep, 'ToUint128<%s>' % NAMES[t], W(t, 'ToUint128'), to_, True)

        def trip(rep):
            k = K(m)
            v = k.input('x', 8 * n)
            a = k.I.new_obj(k.st, n, 'x', v)
            o = k.I.new_obj(k.st, n, 'o')
            k.run('trip_' + t, o, a)
            compare(rep, k.I, 'FromUint128(ToUint128(x)) = x for %s' % NAMES[t], k.st.mem[o.obj], v, W(t, 'FromUint128'))
        guarded(rep, 'round trip %s' % NAMES[t], W(t, 'FromUint128'), trip, True)

        def bits(rep):
            k = K(m)
            v = k.input('x', 8 * n)
            a = k.I.new_obj(k.st, n, 'x', v)
            o, _ = k.buf('o', 8 * n)
            k.run('bits_' + t, o, a)
            want = []
            for b in v:
                want += [b] + [ZERO] * 63
            compare(rep, k.I, 'GetBit<%s>(x, k) is bit k of x for every k' % NAMES[t], k.st.mem[o.obj], want,
                    W(t, 'GetBit'))
        guarded(rep, 'GetBit<%s>' % NAMES[t], W(t, 'GetBit'), bits, True)

        def setbit(rep):
            k = K(m)
            o = k.I.new_obj(k.st, n * 8 * n, 'o')
            k.run('setbit_' + t, o)
            want = []
            for i in range(8 * n):
                want += const(1 << i, 8 * n)
            compare(rep, k.I, 'SetBit<%s>(k) is the element with exactly bit k set' % NAMES[t], k.st.mem[o.obj], want,
                    W(t, 'SetBit'))
        guarded(rep, 'SetBit<%s>' % NAMES[t], W(t, 'SetBit'), setbit, True)

        def size(rep):
            k = K(m)
            o, _ = k.buf('o', 1)
            k.run('size_' + t, o)
            compare(rep, k.I, 'SizeOf<%s> is %d' % (NAMES[t], n), k.out(o, 1), const(n, 64), W(t, 'SizeOf'))
        guarded(rep, 'SizeOf<%s>' % NAMES[t], W(t, 'SizeOf'), size, True)
        for f in ('FromUint128', 'ToUint128', 'GetBit', 'SetBit', 'SizeOf'):
            rep.seen('functions', 'ScalarHelper<%s>::%s' % (NAMES[t], f))


def rand_hook(calls):
    def h(I, st, av):
        n = to_int(av[1])
        calls.append((av[0], av[1]))
        if len(calls) > 100:
            raise Imprecise('too many requests')
        if n is not None:
            if n >> 31:
                raise Imprecise('negative length')
            if n and isinstance(av[0], Ptr):
                I.storebits(st, av[0], I.vars.vec('rnd%d' % len(calls), 8 * n))
        return const(1, 32)
    return h


def S03(rep):
    m = Module(emit_ir('scalar.cpp'))
    rep.level = 'proof'
    for t, n in TYPES:
        nm = 'Randomize<%s> fills a span of any length' % NAMES[t]
        st = {'done': False}

        def general():
            calls = []
            k = K(m, {'RAND_bytes': rand_hook(calls)})
            p = k.I.new_obj(k.st, 16, 'span')
            cnt = k.I.vars.vec('n', 31 - n.bit_length() + 1) + []
            cnt = cnt + [ZERO] * (64 - len(cnt))
            try:
                k.run('rand_' + t, p, cnt)
            except Imprecise:
                return
            if len(calls) != 1 or not isinstance(calls[0][0], Ptr):
                return
            sh = n.bit_length() - 1
            want = ([ZERO] * sh + cnt)[:32]
            if calls[0][0] == p and all(b is not TOP for b in calls[0][1]) and to_int(calls[0][1]) is None:
                st['done'] = True
                compare(rep, k.I, nm + ': one request for size*sizeof(T) bytes at data()', calls[0][1], want,
                        W(t, 'Randomize'))
        try:
            general()
        except Exception as e:     # noqa: fall through to the fixed sizes
            pass
        for cntn in (0, 1, 5):
            nm2 = 'Randomize<%s>: every bit of %d elements is a distinct generator bit' % (NAMES[t], cntn)

            def fixed():
                calls = []
                k = K(m, {'RAND_bytes': rand_hook(calls)})
                size = max(1, n * cntn)
                old = k.I.vars.vec('old', 8 * size)
                p = k.I.new_obj(k.st, size, 'span', old)
                k.run('rand%d_%s' % (cntn, t), p)
                got = k.st.mem[p.obj]
                if cntn == 0:
                    return compare(rep, k.I, nm2, got, old, W(t, 'Randomize'))
                randvars = set()
                for i, b in enumerate(got):
                    if b is TOP:
                        return rep.undecided(nm2, 'bit %d unknown' % i, W(t, 'Randomize'))
                    if len(b) == 0 or b == ONE:
                        return rep.fail(nm2, 'bit %d of the output is constant' % i, W(t, 'Randomize'))
                    if b == old[i]:
                        return rep.fail(nm2, 'bit %d of the output is never overwritten' % i, W(t, 'Randomize'))
                    if len(b) != 1:
                        return rep.undecided(nm2, 'bit %d is a combination' % i, W(t, 'Randomize'))
                    (mm,) = b
                    if not k.I.vars.names[mm.bit_length() - 1].startswith('rnd'):
                        return rep.fail(nm2, 'bit %d is not produced by the generator' % i, W(t, 'Randomize'))
                    randvars.add(mm)
                if len(randvars) != len(got):
                    return rep.fail(nm2, 'generator bits are used twice', W(t, 'Randomize'))
                rep.ok(nm2)
            guarded(rep, nm2, W(t, 'Randomize'), fixed)
        for cntn in (2, 64, 1000, 5000):
            nm3 = 'Randomize<%s>: every byte of %d elements is produced by the generator' % (NAMES[t], cntn)

            def long():
                k = K(m)
                (old,), spans = k.I.vars.vec('old', 1), []

                def h(I, st, av):
                    c = to_int(av[1])
                    if c is None or c >> 31 or not isinstance(av[0], Ptr):
                        raise Imprecise('a request of unknown length')
                    spans.append((av[0].obj, av[0].off, c))
                    return const(1, 32)
                k.I.hooks['RAND_bytes'] = h
                p = k.I.new_obj(k.st, n * (cntn + 1), 'span', [old] * (8 * n * (cntn + 1)))
                k.run('rand_' + t, p, const(cntn, 64))
                if any(b != old for b in k.st.mem[p.obj]):
                    return rep.undecided(nm3, 'the span is not written by the generator directly', W(t, 'Randomize'))
                at = 0
                for o, lo, c in sorted(x for x in spans if x[0] == p.obj):
                    if lo > at:
                        break
                    at = max(at, lo + c)
                rep.check(nm3, at == n * cntn, 'byte %d %s' % (at, 'is not produced by the generator' if at < n * cntn else 'is beyond the span'), W(t, 'Randomize'))
            guarded(rep, nm3, W(t, 'Randomize'), long)
        rep.seen('functions', 'ScalarHelper<%s>::Randomize' % NAMES[t])
    for fn in ('k_randomize', 'k_random_element'):
        nm = 'gf128 %s: 128 distinct generator bits' % fn[2:]

        def go():
            calls = []
            k = K(m, {'RAND_bytes': rand_hook(calls)})
            o = k.I.new_obj(k.st, 16, 'o', const(0, 128))
            k.run(fn, o)
            got = k.st.mem[o.obj]
            bad = [i for i, b in enumerate(got) if b is not TOP and (b == ZERO or b == ONE)]
            if bad:
                return rep.fail(nm, 'bit %d is constant' % bad[0], 'gf128::' + fn[2:])
            used = [[k.I.vars.names[i] for mm in b for i in range(mm.bit_length()) if mm >> i & 1] for b in got if b is not TOP]
            old = [i for i, u in enumerate(used) if not any(x.startswith('rnd') for x in u)]
            if old:
                return rep.fail(nm, 'bit %d is not drawn in this call' % old[0], 'gf128::' + fn[2:])
            if any(b is TOP or len(b) != 1 for b in got):
                return rep.undecided(nm, '', 'gf128::' + fn[2:])
            rep.check(nm, len(set(got)) == 128, 'bits repeat', 'gf128::' + fn[2:])
        guarded(rep, nm, 'gf128::' + fn[2:], go)
    rep.assumptions.append('RAND_bytes succeeds and fills the requested range (its status is not examined by the code)')
    rep.assumptions.append('spans are shorter than 2 GiB (RAND_bytes takes an int)')
    from astp.ntl import S03_ntl
    S03_ntl(rep)


def PW(fn):
    f = 'all_but_one_random_ot_internal.h' if 'GGM' in fn else 'gilboa_internal.h'
    return 'distributed_vector_ole/internal/%s %s' % (f, fn)


def P01(rep):
    rep.level = 'proof'
    m = Module(emit_ir('pack.cpp'))
    for t, n in TYPES:
        if t[0] == 'i':
            continue
        cnt = 16 // n
        T = NAMES[t]

        def setup(words):
            k = K(m)
            v = k.input('x', 128)
            a = k.I.new_obj(k.st, 16, 'x', v)
            o, _ = k.buf('o', words)
            return k, v, a, o

        def simple(fn, label, want, wh):
            def go(rep):
                k, v, a, o = setup(2)
                k.run(fn + '_' + t, o, a)
                compare(rep, k.I, label, k.out(o), want(v), PW(wh))
                rep.seen('functions', '%s<%s>' % (wh, T))
            guarded(rep, label, PW(wh), go, True)
        simple('pack', 'SpanToEMPBlock<%s>: element i occupies bits [%d*i, %d*(i+1))' % (T, 8 * n, 8 * n), lambda v: v,
               'SpanToEMPBlock')
        simple('pack1', 'SpanToEMPBlock<%s>: a shorter span leaves the remaining bits zero' % T,
               lambda v: v[:8 * n] + const(0, 128 - 8 * n), 'SpanToEMPBlock')
        simple('pack0', 'SpanToEMPBlock<%s>: an empty span packs to zero' % T, lambda v: const(0, 128), 'SpanToEMPBlock')
        simple('unpack', 'EMPBlockToSpan<%s>: element i is bits [%d*i, %d*(i+1))' % (T, 8 * n, 8 * n), lambda v: v,
               'EMPBlockToSpan')
        simple('trip', 'EMPBlockToSpan(SpanToEMPBlock(x)) = x for %s' % T, lambda v: v, 'EMPBlockToSpan')
        simple('back', 'SpanToEMPBlock(EMPBlockToSpan(b)) = b for %s' % T, lambda v: v, 'SpanToEMPBlock')

        def scaled(rep):
            k, v, a, o = setup(2 * 8 * n)
            k.run('packs_' + t, o, a)
            want = []
            for j in range(8 * n):
                for i in range(cnt):
                    e = v[8 * n * i:8 * n * (i + 1)]
                    if t == 'gf128':
                        for _ in range(j):
                            hi = e[-1]
                            e = [ZERO] + e[:-1]
                            for d in (0, 1, 2, 7):
                                e[d] = bxor(e[d], hi)
                    else:
                        e = [ZERO] * j + e[:8 * n - j]
                    want += e
            compare(rep, k.I, 'SpanToEMPBlock<%s>(x, 2^j) packs x[i]*2^j with no carry between elements, every j' % T,
                    k.st.mem[o.obj], want, PW('SpanToEMPBlock'))
        guarded(rep, 'SpanToEMPBlock<%s>(x, 2^j)' % T, PW('SpanToEMPBlock'), scaled, True)
        if t in ('u8', 'u32', 'u64', 'u128'):
            def vec(rep):
                k, v, a, o = setup(2)
                r = k.run('vec_' + t, o, a)
                compare(rep, k.I, 'EMPBlockToVector<%s>' % T, k.out(o) + r, v + const(cnt, 64), PW('EMPBlockToVector'))
            guarded(rep, 'EMPBlockToVector<%s>' % T, PW('EMPBlockToVector'), vec, True)
    for fn, lab in (('to_ggm', 'EMPToGGMTreeBlock'), ('to_emp', 'GGMTreeToEMPBlock'),
                    ('ggm_trip', 'EMPToGGMTreeBlock(GGMTreeToEMPBlock(x))')):
        def go(rep):
            k = K(m)
            a, v = k.buf('x', 2, True)
            o, _ = k.buf('o', 2)
            k.run(fn, o, a)
            compare(rep, k.I, '%s keeps all 128 bits in place' % lab, k.out(o), v, PW(lab))
            rep.seen('functions', lab)
        guarded(rep, lab, PW(lab), go, True)
    mb = Module(emit_ir('bits.cpp'))
    for t, n in TYPES:
        if t[0] == 'i':
            continue

        def bits(rep):
            k = K(mb)
            v = k.input('x', 8 * n)
            a = k.I.new_obj(k.st, n, 'x', v)
            o = k.I.new_obj(k.st, 8 * n, 'o')
            r = k.run('bits_' + t, o, a)
            want = []
            for b in v:
                want += [b] + [ZERO] * 7
            compare(rep, k.I, 'GetBits<%s>: entry k is bit k, little-endian' % NAMES[t], k.st.mem[o.obj] + r,
                    want + const(8 * n, 64), PW('GetBits'))
            rep.seen('functions', 'GetBits<%s>' % NAMES[t])
        guarded(rep, 'GetBits<%s>' % NAMES[t], PW('GetBits'), bits, True)
