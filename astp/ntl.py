"""S02, S04, N01: scalar helpers of NTL's modular integers, hash-to-scalar guard, cached modulus width."""
from fractions import Fraction
from .check import *
from .engine import strip_t
from .load import program
from . import terms as TT

NS = 'distributed_vector_ole::'
H = 'distributed_vector_ole/internal/scalar_helpers.h'
NTLS = (('ZZ_p', 'NTL::ZZ_p'), ('zz_p', 'NTL::zz_p'))
P2_128 = 1 << 128


def _mod(t):
    from .libmodel import MODULUS
    return MODULUS[t]


def prog():
    return program('unit_scalar.cpp')


def interesting(p_lo, p_hi):
    """values of moduli and scalars around the boundaries the code distinguishes"""
    def dom(V, key):
        if key[0] == 'fn' and key[1][0] == 'modulus':
            c = V.h(('mc', key), 0, 7)
            if c == 6:
                r = P2_128 + V.h(key, -2, 3)
            elif c == 0:
                r = V.h(key, 2, 300)
            elif c == 1:
                r = (1 << V.h(('ms', key), 1, p_hi)) + V.h(key, 0, 5)
            elif c == 2:
                r = (1 << V.h(('ms', key), 2, p_hi)) - V.h(key, 0, 5)
            else:
                r = V.h(key, 2, 1 << V.h(('ms', key), 2, p_hi))
            return max(2, min(r, (1 << p_hi) - 1))
        if key[0] == 'fn' and key[1][0] == 'old':
            return V.h(key, 0, 1 << V.h(('os', key), 1, 140))
        if key[0] == 'sym':
            n = key[1]
            if n in ('k',):
                return V.h(key, 0, 130)
            if n == 'hash_bits':
                c = V.h(('hb', key), 0, 4)
                return 128 if c == 0 else V.h(key, 125, 129) if c == 1 else V.h(key, 1, 129)
            if n == 'statistical_security':
                return V.h(key, 0, 100) if V.h(('sf', key), 0, 2) else Fraction(V.h(key, 0, 1600), 16)
            if n in ('x',):
                c = V.h(('xc', key), 0, 3)
                if c == 0:
                    return V.h(key, 0, 1 << V.h(('xs', key), 1, 200))
                if c == 1:
                    return (1 << V.h(('xs', key), 0, 128)) - V.h(key, 0, 2)
                return V.h(key, 0, 1 << 128)
        return None
    return dom


def facts_for(t, x='x'):
    p = _mod(t)
    f = [le(num(2), p)]
    if t == 'NTL::zz_p':
        f.append(lt(p, num(1 << 60)))
    return p, f


def opq(sm):
    return bool(sm.opaque)


def one(rep, P, name, q, want, facts, dom, where, args=None):
    sm = summary(P, q, facts=facts, args=args, strict=True, unroll=32)
    if sm is None:
        rep.undecided(name, 'function not found: ' + q, where)
        return None
    rep.seen('functions', q)
    for x in sm.eng.fn_seen:
        rep.seen('functions', strip_t(x))
    thr, v = total(sm)
    if v is None:
        rep.undecided(name, 'no returning path', where)
        return sm
    if thr is not FALSE:
        settle(rep, name + ' (never throws)', equal(thr, FALSE, facts, dom), where)
    if opq(sm):
        rep.undecided(name, why_opaque(sm), where)
        return sm
    settle(rep, name, equal(v, want, facts, dom, tries=3000), where)
    return sm


def argname(P, q, i=0):
    fo = P.find(q)
    return fo[0]['params'][i]['n'] if fo and len(fo[0]['params']) > i else 'x'


def S02(rep):
    rep.level = 'proof'
    P = prog()
    rep.assumptions += ['NTL: rep(x) is the canonical representative in [0,p); conv<ZZ_p>(ZZ), conv<zz_p>(unsigned long) reduce modulo p; '
                        'a single-precision modulus is below 2^60']
    for n, t in NTLS:
        q = NS + 'ScalarHelper<%s, int>::' % t
        p, f = facts_for(t)
        dom = interesting(2, 200 if n == 'ZZ_p' else 59)
        x = sym('x', 'num')
        W = '%s ScalarHelper<%s>' % (H, n)

        def each(fname, body):
            guarded(rep, '%s<%s>' % (fname, n), W + '::' + fname, body)
        inr = f + [ge0(x), lt(x, p)]
        u128 = f + [ge0(x), lt(x, num(P2_128))]
        each('ToUint128', lambda: one(rep, P, 'ToUint128<%s>(x) is the canonical representative of x, truncated to 128 bits' % n, q + 'ToUint128',
                                      mod(x, num(P2_128)) if n == 'ZZ_p' else x, inr, dom, W + '::ToUint128', {0: x}))
        each('FromUint128', lambda: one(rep, P, 'FromUint128<%s>(x) = x mod p for every 128-bit x and whatever earlier calls left behind' % n,
                                        q + 'FromUint128', mod(x, p), u128, dom, W + '::FromUint128', {0: x}))
        each('FromUint128', lambda: history_free(rep, P, n, q, x, u128, dom, W))
        k = sym('k', 'num')
        kf = inr + [ge0(k)]
        each('GetBit', lambda: one(rep, P, 'GetBit<%s>(x, k) is bit k of the representative' % n, q + 'GetBit',
                                   eq(mod(div(x, pow2(k)), num(2)), num(1)), kf, dom, W + '::GetBit', {0: x, 1: k}))
        kk = f + [ge0(k)] + ([le(k, num(59))] if n == 'zz_p' else [])
        each('SetBit', lambda: one(rep, P, 'SetBit<%s>(k) = 2^k mod p' % n, q + 'SetBit', mod(pow2(k), p), kk, dom, W + '::SetBit', {0: k}))
        nb = fn('NumBits', sub(p, num(1)))
        if n == 'zz_p':
            each('SizeOf', lambda: one(rep, P, 'SizeOf<%s>() = ceil(bits of p-1 / 8)' % n, q + 'SizeOf', div(add(nb, num(7)), num(8)),
                                       mf(n, p), dom, W + '::SizeOf'))
        else:
            each('SizeOf', lambda: cached(rep, P, n, q + 'SizeOf', lambda p: div(add(fn('NumBits', sub(p, num(1))), num(7)), num(8)),
                                          dom, W + '::SizeOf', 'SizeOf<ZZ_p>() = ceil(bits of p-1 / 8)'))


def mf(n, p):
    nb = fn('NumBits', sub(p, num(1)))
    return [le(num(2), p), le(num(1), nb), le(nb, num(1 << 20))] + ([lt(p, num(1 << 60))] if n == 'zz_p' else [])


def history_free(rep, P, n, q, x, facts, dom, W):
    """two calls in a row: what the first leaves in static storage does not reach the second's result"""
    name = 'FromUint128<%s> depends on nothing but its argument and the modulus' % n
    sm = summary(P, q + 'FromUint128', facts=facts, args={0: x}, strict=True, unroll=32)
    if sm is None:
        return rep.undecided(name, 'not found', W)
    thr, v = total(sm)
    roots = list(sm.eng.static_vars)
    rep.seen('static objects', ', '.join(r.split(':')[-1] for r in roots) or 'none')
    bad = [r for r in roots if any(y.op == 'sym' and y.args[0] == r for y in atoms(v))]
    if opq(sm):
        return rep.undecided(name, why_opaque(sm), W)
    if not bad:
        return rep.ok(name)
    # is the dependence semantic?  two interpretations of the old contents
    v1 = v
    sub_ = {}
    for r in bad:
        sub_[sym(r, 'any')] = sym(r + "'", 'any')
    settle(rep, name, equal(v1, subst(v1, sub_), facts, dom), W + '::FromUint128')


def cached(rep, P, n, q, want, dom, where, name):
    """result correct after every sequence of modulus changes: base call from the initial contents, then induction"""
    t = 'NTL::' + n
    p = _mod(t)
    p1, p2 = sym('p1', 'num'), sym('p2', 'num')

    def dom2(V, key):
        if key[0] == 'sym' and key[1] in ('p1', 'p2'):
            c = V.h('same', 0, 7)
            if key[1] == 'p2' and c < 4:
                a = V.number(('sym', 'p1'))
                hi = 1 << a.bit_length()
                b = (a, a + V.h('d1', -3, 4), a + V.h('d64', 0, 4) * (1 << 64), V.h('db', hi // 2, hi))[c]
                return b if b >= 2 else a
            return dom(V, ('fn', ('modulus', key[1])))
        return dom(V, key)
    f1 = mf(n, p1) + mf(n, p2)

    def at(sm, pp, v):
        return subst(v, {p: pp})
    sm0 = summary(P, q, facts=mf(n, p), strict=True, static_mode='init')
    if sm0 is None:
        return rep.undecided(name, 'function not found: ' + q, where)
    for x in sm0.eng.fn_seen:
        rep.seen('functions', strip_t(x))
    if opq(sm0):
        return rep.undecided(name, why_opaque(sm0), where)
    thr, v0 = total(sm0)
    settle(rep, name + ': first call on a thread', equal(at(sm0, p1, v0), want(p1), f1, dom2), where)
    roots = list(sm0.eng.static_vars)
    for r in roots:
        rep.seen('static objects', r.split(':')[-1])
    if not roots:
        return rep.ok(name + ': no state is kept between calls')
    st1 = {r: at(sm0, p1, total_var(sm0, r)) for r in roots}
    sm1 = summary(P, q, facts=mf(n, p) + mf(n, p1), strict=True, static_mode=dict(st1))
    if opq(sm1):
        return rep.undecided(name, why_opaque(sm1), where)
    thr, v1 = total(sm1)
    # one more call, under an arbitrary new modulus
    settle(rep, name + ': call after the modulus changed from p1 to p2', equal(at(sm1, p2, v1), want(p2), f1, dom2), where)
    # the state after it is the state a first call would have left: then every later call is covered
    for r in roots:
        a = at(sm1, p2, total_var(sm1, r))
        b = subst(st1[r], {p1: p2})
        res = equal(a, b, f1, dom2)
        if res[0] != 'ok':
            # another representation of the same history: compare its effect on a third call instead
            res = ('undecided' if res[0] == 'fail' else res[0], res[1])
            p3 = sym('p3', 'num')
            st2 = {r2: at(sm1, p2, total_var(sm1, r2)) for r2 in roots}
            sm2 = summary(P, q, facts=mf(n, p) + mf(n, p1) + mf(n, p2), strict=True, static_mode=st2)
            if not opq(sm2):
                _, v2 = total(sm2)
                d3 = lambda V, key: dom2(V, ('sym', 'p1')) if key == ('sym', 'p3') and V.h('s3', 0, 3) == 0 and False else (
                    (V.number(('sym', 'p1')) if V.h('s3', 0, 3) == 0 else dom(V, ('fn', ('modulus', 'p3')))) if key == ('sym', 'p3') else dom2(V, key))
                r3 = equal(subst(v2, {p: p3}), want(p3), f1 + mf(n, p3), d3)
                if r3[0] == 'fail':
                    res = r3
        settle(rep, name + ': %s after any call is what a first call leaves' % r.split(':')[-1], res, where)


def N01(rep):
    rep.level = 'proof'
    P = prog()
    rep.assumptions += ['NTL installs moduli per thread; NumBits(n) is the bit length']
    W = 'distributed_vector_ole/internal/ntl_helpers.cpp NTLNumBits'
    fs = P.find(NS + 'NTLNumBits')
    for n, t in NTLS:
        idx = [i for i, o in enumerate(fs) if o['f'].get('ta', [None])[0] == t]
        if not idx:
            rep.undecided('NTLNumBits<%s>' % n, 'no instantiation found', W)
            continue
        dom = interesting(2, 200 if n == 'ZZ_p' else 59)

        def go():
            cached_idx(rep, P, n, idx[0], dom, W)
        guarded(rep, 'NTLNumBits<%s>' % n, W, go)
    # moduli are per thread, so is everything derived from them
    for o in P.funs.values():
        if not o['loc'].startswith('distributed_vector_ole/') or not (o['f']['q'].startswith(NS)):
            continue
        for v in static_decls(o['body']):
            if v['t'].startswith('const ') and not any(z in v['t'] for z in ('ZZ', 'zz_p')):
                continue
            if any(z in v['t'] for z in ('atomic', 'mutex', 'Mutex', 'once_flag')) or not tied(v, o):
                continue  # unsynchronised writes to it in parallel code are R01's concern
            nm = '%s in %s' % (v['n'], strip_t(o['f']['q']))
            rep.seen('static objects', nm)
            rep.check('%s is thread-local or not tied to a modulus or to a call in progress' % nm,
                      bool(v.get('tls')) or (v['t'].startswith('const ') and not reads_modulus(v)), 'shared between threads', v.get('loc', o['loc']))
    for g, v in P.gvars.items():
        if not g.startswith(NS) or v['t'].startswith('const '):
            continue
        if not str(v.get('loc', '')).startswith('distributed_vector_ole/'):
            continue
        rep.seen('static objects', g)
        rep.check('%s is thread-local' % g, bool(v.get('tls')), 'mutable object shared between threads', v.get('loc', ''))


def tied(v, o):
    """does the object hold, or come from, something that belongs to a modulus?"""
    if any(z in v['t'] for z in ('ZZ', 'zz_p')):
        return True
    s = repr(o['body']) + repr(o.get('params'))
    return any(z in s for z in ('modulus', 'NumBits', 'ZZ', 'zz_p', 'SizeOf', 'FromUint128', 'SetBit'))


def reads_modulus(v):
    import json
    return 'modulus' in json.dumps(v.get('init') or '')


def static_decls(node):
    out = []
    st_ = [node]
    while st_:
        x = st_.pop()
        if isinstance(x, dict):
            if x.get('static') and 'd' in x and 'n' in x and 't' in x:
                out.append(x)
            st_ += [y for y in x.values() if isinstance(y, (dict, list))]
        elif isinstance(x, list):
            st_ += x
    return out


def cached_idx(rep, P, n, i, dom, W):
    q = NS + 'NTLNumBits'
    fo = P.find(q)[i]

    class OneOf:
        pass
    P2 = P
    real = P.find

    def find(qq, ta=None, pred=None, npar=None):
        return [fo] if qq == q else real(qq, ta, pred, npar)
    P2.find = find
    try:
        cached(rep, P2, n, q, lambda p: fn('NumBits', sub(p, num(1))), dom, W, 'NTLNumBits<%s>() = number of bits of p-1 for the installed p' % n)
    finally:
        P2.find = real


INT = [('unsigned char', 1), ('unsigned short', 2), ('unsigned int', 4), ('unsigned long', 8), ('signed char', 1), ('short', 2), ('int', 4),
       ('long', 8), ('absl::uint128', 16)]


def S04(rep):
    rep.level = 'proof'
    P = prog()
    rep.assumptions += ['the hash is uniform on [0, 2^hash_bits) and 1 <= hash_bits <= 128',
                        'double arithmetic is treated as real arithmetic']
    ss, hb = sym('statistical_security', 'real'), sym('hash_bits', 'num')
    hf = [ge0(sub(hb, num(1))), le(hb, num(128))]
    for n, t in NTLS:
        q = NS + 'ScalarHelper<%s, int>::CanBeHashedInto' % t
        p, f = facts_for(t)
        dom = interesting(2, 160 if n == 'ZZ_p' else 59)
        W = '%s ScalarHelper<%s>::CanBeHashedInto' % (H, n)

        def go():
            nm = ('CanBeHashedInto<%s>(s, b) accepts exactly when (2^b mod p)/2^b < 2^-s and p <= 2^b' if False else
                  'CanBeHashedInto<%s>(s, b) accepts only when reducing a uniform b-bit value modulo p is within 2^-s of uniform') % n
            sm = summary(P, q, facts=f + hf, args={0: ss, 1: hb}, strict=True)
            if sm is None:
                return rep.undecided(nm, 'not found', W)
            for x in sm.eng.fn_seen:
                rep.seen('functions', strip_t(x))
            thr, v = total(sm)
            if opq(sm):
                return rep.undecided(nm, why_opaque(sm), W)
            facts = f + hf + [ge0(ss)]
            hashable(rep, nm, v, p, ss, hb, facts, dom, W)
        guarded(rep, 'CanBeHashedInto<%s>' % n, W, go)
    for t, size in INT + [('gf128', 16)]:
        cls = 'ScalarHelper<%s>' % ('distributed_vector_ole::gf128' if t == 'gf128' else t + ', int')
        cands = [k for k in P.byq if k.startswith(NS + 'ScalarHelper<') and k.endswith('::CanBeHashedInto') and
                 (('<%s, ' % t) in k or ('gf128' in k and t == 'gf128'))]
        W = '%s %s::CanBeHashedInto' % (H, cls)
        nm = 'CanBeHashedInto<%s>(s, b) accepts exactly when b >= %d' % (t, 8 * size)
        if not cands:
            rep.undecided(nm, 'not found', W)
            continue

        def goi():
            def dom(V, key):
                if key == ('sym', 'hash_bits'):
                    return V.h(key, 1, 140)
                return V.h(key, 0, 100) if key[0] == 'sym' else None
            sm = summary(P, cands[0], args={0: ss, 1: hb}, facts=[ge0(sub(hb, num(1)))], strict=True)
            thr, v = total(sm)
            if opq(sm):
                return rep.undecided(nm, why_opaque(sm), W)
            rep.seen('functions', strip_t(cands[0]))
            f = [ge0(sub(hb, num(1)))]
            s_, d = equal(v, ge0(sub(hb, num(8 * size))), f, dom)
            if s_ == 'fail':      # refusing more than necessary is safe
                s2, d2 = implies(v, ge0(sub(hb, num(8 * size))), f, dom)
                s_, d = s2, d2
            rep.add(nm, s_, d, W)
        guarded(rep, nm, W, goi)


def hashable(rep, nm, v, p, ss, hb, facts, dom, W):
    # exact statement of the shipped rule (after normalisation): b - log2(2^b mod p) > s, and p <= 2^128
    rem = mod(pow2(hb), p)
    exact = rgt0(sub(sub(hb, fn('log2', rem)), ss))
    from .evalterm import Val, NE, toint
    import math
    n_true = n_false = 0
    bad = None

    def near(V, key):
        # security parameters around the exact bound
        if key == ('sym', 'statistical_security') and V.h(('near', key), 0, 3):
            r_ = (1 << toint(V.nev(hb, {}))) % toint(V.nev(p, {}))
            if r_:
                return max(Fraction(0), Fraction(round((toint(V.nev(hb, {})) - math.log2(r_)) * 16) + V.h(key, -24, 25), 16))
        return dom(V, key)
    for k in range(6000):
        V = Val((7, k), near, INTERP)
        try:
            if not all(V.cond(f, {}) for f in facts):
                continue
            r = V.cond(v, {})
            pv, b, s = toint(V.nev(p, {})), toint(V.nev(hb, {})), float(V.nev(ss, {}))
        except NE:
            continue
        N = 1 << b
        remv = N % pv
        # statistical distance of (uniform on [0,N)) mod p from uniform on [0,p)
        dist = remv * (pv - remv)          # / (N * p)
        num_, den = dist, N * pv
        if r:
            n_true += 1
            if num_ and math.log2(num_) - math.log2(den) > -s + 1e-6:
                bad = 'accepts p=%d, hash_bits=%d, statistical_security=%g where the distance from uniform is 2^%.2f' % (
                    pv, b, s, math.log2(num_) - math.log2(den))
                break
        else:
            n_false += 1
            # refusing although the distance is far below the bound makes valid parameters unusable
            if num_ == 0 and pv <= N or (num_ and remv and math.log2(remv) - b < -s - 1 and pv < N):
                bad = 'refuses p=%d, hash_bits=%d, statistical_security=%g where (2^b mod p)/2^b < 2^-s' % (pv, b, s)
                break
    rep.extra.setdefault('interpretations', 0)
    rep.extra['interpretations'] += n_true + n_false
    if bad:
        return rep.fail(nm, 'the summary %s' % bad, W)
    s_, d = equal(v, exact, facts, dom, INTERP)
    if s_ == 'ok':
        return rep.ok(nm)
    # proof by cases on the hash width and on the size of the modulus
    nb = fn('NumBits', sub(p, num(1)))
    ok, notes = True, []
    for hn, hfacts, hsub in (('b < 128', [le(hb, num(127))], {}), ('b = 128', [], {hb: num(128)})):
        for pn, pfacts, psub, want in (('p < 2^128', [lt(p, num(P2_128)), le(nb, num(128)), le(num(1), nb)], {}, exact),
                                       ('p = 2^128', [], {p: num(P2_128)}, TRUE if hsub else FALSE),
                                       ('p > 2^128', [lt(num(P2_128), p), le(num(129), nb)], {}, FALSE)):
            fs = [f for f in facts if f is not TRUE] + hfacts + pfacts
            m = dict(hsub)
            m.update(psub)
            g, w = subst(v, m), subst(want, m)
            fs = [subst(f, m) for f in fs]
            if psub:
                g = fold_numbits(g)
            with with_facts(fs):
                if any(decide(f) is FALSE for f in fs):
                    continue
            s2, d2 = equal(g, w, [f for f in fs if f is not TRUE], dom, INTERP)
            if s2 != 'ok':
                ok = False
                notes.append('%s, %s: %s' % (hn, pn, d2))
    rep.add(nm, 'ok' if ok else 'undecided', '; '.join(notes)[:1500], W)


def fold_numbits(t):
    m = {}
    for x in atoms(t):
        if x.op == 'fn' and x.args[0] == 'NumBits' and isinstance(const_of(x.args[1]), int):
            m[x] = num(const_of(x.args[1]).bit_length())
    return subst(t, m) if m else t


def _log2(V, x):
    import math
    from .evalterm import toint, NE
    x = V.num(x)
    if x == 0:
        return float('-inf')
    if x < 0:
        raise NE('log2')
    return math.log2(x)


INTERP = {'log2': _log2}


def S03_ntl(rep):
    """Randomize for NTL types: every element of the span is a distinct fresh output of NTL's generator"""
    from .evalterm import Val, NE, U
    P = prog()
    for n, t in NTLS:
        q = NS + 'ScalarHelper<%s, int>::Randomize' % t
        W = '%s ScalarHelper<%s>::Randomize' % (H, n)
        nm = 'Randomize<%s> sets every element of the span to a fresh random value' % n

        def go():
            sm = summary(P, q)
            if sm is None:
                return rep.undecided(nm, 'not found', W)
            for x in sm.eng.fn_seen:
                rep.seen('functions', strip_t(x))
            if opq(sm):
                return rep.undecided(nm, why_opaque(sm), W)
            pn = sm.fo['params'][0]['n']
            out = total_var(sm, 'm:' + pn)
            bad = None
            cnt = 0
            for ln in range(0, 9):
                for k in range(3):
                    V = Val((ln, k), lambda V, key: ln if key == ('sym', 'n_' + pn) else None)
                    try:
                        a = V.toarr(V.ev(out))
                        xs = [a.at(i) for i in range(a.n)]
                    except NE as e:
                        continue
                    cnt += 1
                    if a.n != ln:
                        bad = 'the span length changed'
                    keys = [repr(x.key) if isinstance(x, U) else None for x in xs]
                    for i, kk in enumerate(keys):
                        if kk is None or 'rand' not in kk:
                            bad = 'for length %d element %d is %s' % (ln, i, kk or xs[i])
                    if len(set(keys)) != len(keys):
                        bad = 'for length %d one random value is used for two elements' % ln
            if bad:
                return rep.fail(nm, bad, W)
            i = sym('i', 'num')
            nn = sym('n_' + pn, 'nat')
            with with_facts([ge0(i), lt(i, nn)]):
                v = simp(sel(out, (i,)), [ge0(i), lt(i, nn)])
            good = v.op == 'sel' and v.args[0].op == 'fn' and 'rand' in v.args[0].args[0] and v.args[1] == (i,)
            good = good or (v.op == 'fn' and 'rand' in v.args[0] and i in v.args)
            rep.add(nm, 'ok' if good and cnt else 'undecided', '' if good else show(v)[:300], W)
        guarded(rep, nm, W, go)
