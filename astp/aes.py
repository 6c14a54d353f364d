"""A01: the AES generator is AES-128 in counter mode, whatever the buffer size and the history of calls."""
from .check import *
from .load import program
from .engine import strip_t, okof, okst
from . import terms as TT

NS = 'distributed_vector_ole::'
CLS = NS + 'AESUniformBitGenerator'
W = 'distributed_vector_ole/aes_uniform_bit_generator.cpp AESUniformBitGenerator::'
P128 = num(1 << 128)
P64 = num(1 << 64)


def roles(P):
    """fields by type"""
    rec = P.recs.get(CLS)
    if not rec:
        return None
    r = {'ints': []}
    for f in rec['fields']:
        t = f['t'].replace('const ', '')
        if t.startswith('std::vector<'):
            r.setdefault('buf', f['n'])
        elif 'uint128' in t:
            r.setdefault('nonce', f['n'])
        elif 'aes_key' in t:
            r.setdefault('key', f['n'])
        elif t in ('long', 'int', 'unsigned long', 'long long'):
            r['ints'].append(f['n'])
    return r if all(k in r for k in ('buf', 'nonce', 'key')) else None


def stream(key, n0, t):
    """t-th 64-bit output of AES-128-CTR from nonce n0"""
    blk = fn('AES', key, add(n0, div(t, num(2))))
    lo, hi = mod(blk, P64), div(blk, P64)
    return ite(eq(mod(t, num(2)), num(0)), lo, hi)


def const_static(P, name):
    g = P.gvars.get(CLS + '::' + name)
    return g


def merged(sm, pick=lambda v: TRUE):
    """(condition, state term of this) over returning outcomes"""
    val, cond = None, FALSE
    for k, s, v in reversed([o for o in sm.outs if o[0] in ('ret', 'next')]):
        x = s.vars.get('this')
        c = tand(*s.pc)
        val = x if val is None else ite(c, x, val)
        cond = tor(cond, c)
    return cond, val


def dom(V, key):
    if key[0] == 'sym' and key[1] in ('u/', 'i/'):
        h = V.number(('sym', 'h'))
        return V.h(key, 0, h + 1) if V.h(('uc', key), 0, 2) else h - V.h(key, 0, 3)
    if key[0] == 'sym':
        n = key[1]
        if n == 'N0':
            c = V.h(('nc', key), 0, 3)
            return V.h(key, 0, 9) if c else ((V.h(('nh', key), 1, 4) << 64) - V.h(key, 0, 5))
        if n == 'h':
            c = V.h(('hc', key), 0, 2)
            return V.h(key, 1, 6) if c else (1 << V.h(key, 3, 17)) + V.h(('hd', key), -1, 2)
        if n.startswith('this.') and n not in ('this.',):
            c = V.h(('tc', key), 0, 3)
            return V.h(key, 0, 9) if c else (1 << 48) + V.h(key, -3, 4)
        if n == 'n_seed':
            return 32 + V.h(key, -3, 4)
        if n == 'buffer_size':
            c = V.h(('bc', key), 0, 3)
            return V.h(key, -3, 12) if c else (1 << 17) + V.h(key, 0, 2)
        if n == 'r':
            c = V.h(('rc', key), 0, 3)
            h = V.number(('sym', 'h'))
            lim = (1 << 48) // h
            return V.h(key, 0, 5) if c else lim + V.h(key, -2, 3)
        if n == 'u':
            h = V.number(('sym', 'h'))
            return V.h(key, 0, 2 * h + 1) if V.h(('uc', key), 0, 2) else 2 * h - V.h(key, 0, 3)
    return None


def A01(rep):
    rep.level = 'proof'
    P = program('unit.cpp')
    rep.assumptions += ['AES_set_encrypt_key and AES_encrypt are uninterpreted functions of key bytes and of (key, block)',
                        'buffer sizes whose allocation succeeds; AES_set_encrypt_key accepts every 128-bit key']
    for q in ('Create', 'seed', 'operator()'):
        rep.seen('functions', CLS + '::' + q)
    R = roles(P)
    if not R:
        return rep.undecided('representation', 'no buffer/nonce/key fields recognised', W)
    guarded(rep, 'Create', W + 'Create', lambda: create(rep, P, R))
    guarded(rep, 'seed', W + 'seed', lambda: seed(rep, P, R))
    guarded(rep, 'operator()', W + 'operator()', lambda: op(rep, P, R))


def thisf(o, n):
    return fld(o, n)


def create(rep, P, R):
    sm = summary(P, CLS + '::Create')
    if sm is None:
        return rep.undecided('Create', 'not found', W)
    if sm.opaque:
        return rep.undecided('Create', why_opaque(sm), W)
    thr, v = total(sm)
    n = sym('n_seed', 'nat')
    f = [ge0(n)]
    settle(rep, 'Create succeeds exactly for seeds of at least 32 bytes', equal(okof(v), ge0(sub(n, num(32))), f, dom), W + 'Create')
    settle(rep, 'Create never throws', equal(thr, FALSE, f, dom), W + 'Create')
    g = f + [ge0(sub(n, num(32)))]
    st_ = simp(fld(v, 'val'), g)
    seedarr = [s for k, s, _ in sm.outs if k == 'ret'][0]
    arr = next((t for r, t in seedarr.vars.items() if r.startswith('m:') and isarr(t)), None)
    fresh(rep, P, R, st_, arr, g, 'Create', W + 'Create', newbuf=True)


def seed(rep, P, R):
    sm = summary(P, CLS + '::seed')
    if sm is None:
        return rep.undecided('seed', 'not found', W)
    if sm.opaque:
        return rep.undecided('seed', why_opaque(sm), W)
    thr, v = total(sm)
    n = sym('n_seed', 'nat')
    f = [ge0(n)]
    settle(rep, 'seed succeeds exactly for seeds of at least 32 bytes', equal(okst(v), ge0(sub(n, num(32))), f, dom), W + 'seed')
    arr = None
    for k, s, _ in sm.outs:
        arr = arr if arr is not None else next((t for r, t in s.vars.items() if r.startswith('m:') and isarr(t)), None)
    c, this = merged(sm)
    E0 = sm.eng
    g = f + [ge0(sub(n, num(32)))]
    fresh(rep, P, R, simp(this, g), arr, g, 'seed', W + 'seed', newbuf=False)
    bad = f + [ge0(sub(num(31), n))]
    this0 = summary_obj(P)
    t1 = simp(this, bad)
    for x in [R['buf'], R['nonce'], R['key']] + R['ints']:
        settle(rep, 'seed: a rejected seed leaves %s as it was' % x, equal(fld(t1, x), fld(this0, x), bad, dom), W + 'seed')


def summary_obj(P):
    from .engine import Engine
    E = Engine(P, {})
    return E.sym_object(CLS, 'this')


def fresh(rep, P, R, st_, arr, g, who, where, newbuf):
    """state after a successful Create/seed: key and nonce from the seed, nothing buffered, full budget"""
    key = fn('aeskey', num(128), fn('bytes', arr, num(0), num(16)))
    nonce = fn('bytes', arr, num(16), num(16))
    settle(rep, '%s: the AES key is the first 16 seed bytes' % who, equal(fld(st_, R['key']), key, g, dom), where)
    settle(rep, '%s: the counter starts at the second 16 seed bytes' % who, equal(fld(st_, R['nonce']), nonce, g, dom), where)
    B = tlen(fld(st_, R['buf']))
    if newbuf:
        settle(rep, 'Create: the buffer has an even, positive number of elements',
               implies(TRUE, tand(eq(mod(B, num(2)), num(0)), ge0(sub(B, num(2)))), g, dom), where)
    fresh_op(rep, P, R, st_, B, key, nonce, g, who, where, newbuf)


def fresh_op(rep, P, R, st_, B, key, nonce, g, who, where, newbuf):
    """the first call after it returns output 0"""
    h = sym('h', 'num')
    init = st_
    fs = list(g)
    if not newbuf:
        L = sym('n_this.' + R['buf'], 'nat')
        init = subst(st_, {L: scale(h, 2)})
        fs = [subst(x, {L: scale(h, 2)}) for x in g] + [ge0(sub(h, num(1)))]
    sm = summary(P, CLS + '::operator()', this_init=init, facts=fs)
    if sm.opaque:
        return rep.undecided('%s: first output' % who, why_opaque(sm), where)
    thr, v = total(sm)
    if not newbuf:
        small = fs + [ge0(sub(num(1 << 40), h))]
        settle(rep, 'the first call after %s does not throw' % who, equal(thr, FALSE, small, dom), where)
    settle(rep, 'the first output after %s is the first half of AES(key, nonce)' % who,
           equal(v, stream(key, nonce, num(0)), fs + [tnot(thr)], dom), where)


def op(rep, P, R):
    """induction over calls: h = half the buffer, r refills so far, u elements of the current buffer used"""
    where = W + 'operator()'
    h, r, u = sym('h', 'num'), sym('r', 'num'), sym('u', 'num')
    B = scale(h, 2)
    key, n0 = sym('key', 'any'), sym('N0', 'num')
    f = [ge0(sub(h, num(1))), ge0(r), ge0(u), le(u, B)]
    # which integer field is the position, which the number of AES calls: read off the state Create leaves
    smc = summary(P, CLS + '::Create')
    _, vc = total(smc)
    stc = simp(fld(vc, 'val'), [ge0(sub(sym('n_seed', 'nat'), num(32)))])
    BC = tlen(fld(stc, R['buf']))
    pos = [x for x in R['ints'] if decide(eq(fld(stc, x), BC)) is TRUE]
    cnt = [x for x in R['ints'] if x not in pos]
    if len(pos) != 1 or len(cnt) != 1 or const_of(fld(stc, cnt[0])) != 0:
        return unrolled(rep, P, R, stc, 'positions are kept in a way this rule does not know', where)
    junk = sym('stale', 'any')
    j = fresh_bv('j')
    start = sub(mul(r, B), B)     # stream position of element 0 of the current buffer
    buf = amap(j, B, ite(ge0(sub(j, u)), stream(key, n0, add(start, j)), fn('stale', j)))
    for units, name in ((h, 'AES calls'), (num(1), 'refills'), (B, 'outputs')):
        init = obj(CLS, {R['buf']: buf, R['nonce']: add(n0, mul(r, h)), R['key']: key, pos[0]: u, cnt[0]: mul(r, units)})
        sm = summary(P, CLS + '::operator()', this_init=init, facts=f)
        if sm.opaque:
            return unrolled(rep, P, R, stc, why_opaque(sm), where)
        thr, v = total(sm)
        c, this = merged(sm)
        r1 = ite(ge0(sub(u, B)), add(r, num(1)), r)
        u1 = add(ite(ge0(sub(u, B)), num(0), u), num(1))
        live = f + [tnot(thr)]
        steps = [(equal(fld(this, cnt[0]), mul(r1, units), live, dom), 'counter')]
        if steps[0][0][0] == 'ok':
            break
    else:
        return unrolled(rep, P, R, stc, 'the counter does not advance linearly with the refills', where)
    need = ge0(sub(mul(add(r, num(1)), h), num((1 << 48) + 1)))
    settle(rep, 'operator() refuses exactly when a refill would exceed kReseedInterval AES calls under this seed',
           equal(thr, tand(ge0(sub(u, B)), need), f, dom, tries=3000), where)
    s = add(start, u)
    outp = ('operator() returns the next output of AES-CTR, for every buffer size and position',
            by_residue(u, 2, v, stream(key, n0, s), live, dom, tries=4000))
    inv = []
    inv.append(('position', equal(fld(this, pos[0]), u1, live, dom)))
    inv.append(('nonce', equal(fld(this, R['nonce']), add(n0, mul(r1, h)), live, dom)))
    inv.append(('key', equal(fld(this, R['key']), key, live, dom)))
    inv.append(('buffer length', equal(tlen(fld(this, R['buf'])), B, live, dom)))
    i = sym('i', 'num')
    fi = live + [ge0(sub(i, u1)), lt(i, B)]
    want = stream(key, n0, add(sub(mul(r1, B), B), i))
    inv.append(('buffered outputs', by_residue(i, 2, sel(fld(this, R['buf']), (i,)), want, fi, dom, tries=4000)))
    # a refusal must leave a state that refuses again
    thr_this = None
    for k, st_, _ in sm.outs:
        if k == 'throw':
            thr_this = st_.vars['this'] if thr_this is None else ite(tand(*st_.pc), st_.vars['this'], thr_this)
    if thr_this is not None:
        sm2 = summary(P, CLS + '::operator()', this_init=thr_this, facts=f + [thr])
        t2, _ = total(sm2)
        settle(rep, 'operator() keeps refusing until seed() is called', equal(t2, TRUE, f + [thr], dom, tries=3000), where)
    bad = [n for n, x in inv if x[0] == 'fail']
    if bad == ['buffered outputs'] and outp[1][0] == 'ok' or not bad:
        # positions, nonce and length are as stated, so element i is what call i returns
        bad = []
        settle(rep, outp[0], outp[1], where)
    if bad:
        unrolled(rep, P, R, stc, 'the representation is not the one this rule knows (%s)' % ', '.join(bad), where)
    else:
        for n, x in inv:
            settle(rep, 'operator() preserves the representation: %s' % n, x, where)
        carries(rep, P, R, where)


def ndom(V, key):
    """nonces on both sides of a carry into the high word"""
    if key[0] == 'sym' and key[1] == 'N0':
        c = V.h(('nc', key), 0, 4)
        if c == 0:
            return V.h(key, 0, 9)
        return (V.h(('nh', key), 1, 1 << 64) << 64) - V.h(key, 0, 6)
    return dom(V, key)


def first_outputs(rep, P, R):
    """(number of first outputs shown equal, first that differs or None, why not all) in exact machine arithmetic, small buffers"""
    key, n0 = sym('key', 'any'), sym('N0', 'num')
    fs = [ge0(sub(sym('n_seed', 'nat'), num(32))), ge0(n0), lt(n0, num((1 << 128) - 64))]
    done, why = 0, ''
    for bs in (2, 4, 6):
        smc = summary(P, CLS + '::Create', args={1: num(bs)}, facts=fs)
        _, v = total(smc)
        cur = simp(fld(v, 'val'), fs)
        cur = setfld(setfld(cur, R['key'], key), R['nonce'], n0)
        for t in range(2 * bs + 1):
            sm = summary(P, CLS + '::operator()', this_init=cur, facts=fs, strict=True, unroll=16)
            if sm.opaque:
                return done, None, why_opaque(sm)
            thr, x = total(sm)
            blk = fn('AES', key, add(n0, num(t // 2)))
            res = equal(x, div(blk, P64) if t % 2 else mod(blk, P64), fs, ndom)
            if res[0] == 'fail':
                return done, ('output %d with a buffer of %d is the AES-CTR output %d' % (t, bs, t), res), ''
            if res[0] == 'ok':
                done += 1
            else:
                why = res[1]
            _, cur = merged(sm)
    return done, None, why


def carries(rep, P, R, where):
    """the induction treats machine words as numbers; the first outputs are compared in exact word arithmetic"""
    done, bad, why = first_outputs(rep, P, R)
    if bad:
        return settle(rep, bad[0], bad[1], where)
    if not why:
        settle(rep, 'the first outputs agree in exact word arithmetic (%d outputs)' % done, ('ok', ''), where)


def unrolled(rep, P, R, stc, why, where):
    """the invariant does not fit: compare the first outputs for concrete small buffers; a difference is a violation"""
    done, bad, why2 = first_outputs(rep, P, R)
    if bad:
        return settle(rep, bad[0], bad[1], where)
    rep.undecided('operator() preserves the representation', why + ('; ' + why2 if why2 else ''), where)
