"""C01-C04: cuckoo hashing."""
from .check import *
from .load import program
from .engine import okof, okst
from .proto import *
from . import terms as TT
from . import evalterm
from fractions import Fraction
from .mpfss import to_array

C = NS + 'CuckooHasher::'
W = 'distributed_vector_ole/cuckoo_hasher.h CuckooHasher::'
WC = 'distributed_vector_ole/cuckoo_hasher.cpp CuckooHasher::'
NIN, NB = sym('n_inputs', 'nat'), sym('num_buckets')
IN = fn('input', tstr('inputs'), NIN)
LIM63 = sub(num((1 << 63) - 1), NB)


class R:
    """the hasher's fields, by what Create stores in them"""
    def __init__(self, key, H, sec):
        self.key, self.H, self.sec = key, H, sec


def roles(P):
    sm = summary(P, C + 'Create')
    if sm is None or sm.opaque:
        return None, sm
    thr, v = total(sm)
    n, seed, sec = sym('num_hash_functions'), sym('seed'), sym('statistical_security', 'real')
    p = simp(fld(v, 'val'), [okof(v)])
    found = {}
    for k, s, val in sm.outs:
        if k != 'ret' or under(okof(val), list(s.pc)) is FALSE:
            continue
        p = simp(fld(val, 'val'), list(s.pc))
        if p.op != 'ptr' or p.args[0] not in s.vars:
            return None, sm
        o = s.vars[p.args[0]]
        for f in fields(o):
            x = fld(o, f)
            if x is n:
                found['H'] = f
            elif x.op == 'sym' and x.args[0] == sec.args[0]:
                found['sec'] = f
            elif x.op == 'fn' and x.args[0] == 'aeskey':
                found['key'] = f
                found['keyv'] = x
    if not all(k in found for k in ('H', 'sec', 'key')):
        return None, sm
    this = lambda f: fld(symobj(P), f)
    r = R(this(found['key']), this(found['H']), this(found['sec']))
    r.names, r.keyv = found, found['keyv']
    return r, sm


def symobj(P):
    from .engine import Engine
    return Engine(P, {}).sym_object(NS + 'CuckooHasher', 'this')


def fields(o):
    return [k for k, _ in o.args[1]] if o.op == 'obj' else []


def cdom(r):
    def d(V, key):
        if key[0] == 'sym':
            if key[1] == 'n_inputs':
                return V.h(key, 0, 6)
            if key[1] in ('num_buckets', 'num_inputs'):
                return V.h(key, -2, 9) if V.h('wild', 0, 6) == 0 else (V.number(('sym', 'n_inputs')) + V.h(key, 0, 4) if key[1] == 'num_buckets' else
                                                                      V.h(key, 0, 1 << V.h('e', 1, 20)))
            if key[1] in ('i', 'j', 'p'):
                return V.h(key, 0, 5)
            if key[1] == 'num_hash_functions':
                return V.h(key, -1, 5)
        if key[0] == 'fn' and key[1] and key[1][0] == 'AES':
            return V.h(key, 0, 1 << 128)
        if r is not None and key == keyof(r.H):
            return V.h(key, 1, 5) if V.h('wildH', 0, 4) == 0 else V.h(key, 2, 5)
        if r is not None and key == keyof(r.sec):
            return V.h(key, 1, 200) if V.h('widesec', 0, 3) == 0 else V.h(key, 20, 60)
        return None
    return d


def keyof(t):
    """the evaluator's key of an uninterpreted scalar"""
    V = evalterm.Val(0)
    x = V.ev(t)
    return x.key if isinstance(x, evalterm.U) else None


def run(P, q, ta=None, boundary=None, **kw):
    kw.setdefault("narrow", True)
    return summary(P, C + q, ta, boundary=boundary, **kw)


def first(P, q, tas):
    for ta in tas:
        sm = run(P, q, ta)
        if sm is not None:
            return sm
    return None


INTS = ['int', 'long', 'unsigned long', 'absl::uint128']


def hashval(sm, r):
    """(value of hash function j on input i, facts)"""
    thr, v = total(sm)
    i, j = sym('i', 'num'), sym('j', 'num')
    f = [ge0(sub(NB, num(1))), ge0(LIM63), ge0(sub(r.H, num(1))), ge0(i), lt(i, NIN), ge0(j), lt(j, r.H)]
    val = simp(fld(v, 'val'), f)
    return thr, v, val, simp(sel(sel(val, (i,)), (j,)), f), f


def C01(rep):
    rep.level = 'proof'
    P = program('unit.cpp')
    rep.assumptions += ['AES_encrypt is the AES block cipher on the native byte order of the 128-bit value; at most 2^63-1 buckets']
    rep.seen('functions', C + 'Create')
    rep.seen('functions', C + 'Hash')
    r, sm = roles(P)
    if r is None:
        return rep.undecided('representation', why_opaque(sm) if sm is not None else 'Create not found', WC + 'Create')
    guarded(rep, 'Create', WC + 'Create', lambda: create(rep, P, r, sm))
    n = 0
    for t in INTS:
        s = run(P, 'Hash', [t])
        if s is None:
            continue
        n += 1
        guarded(rep, 'Hash<%s>' % t, W + 'Hash', lambda: hashf(rep, s, r, t))
    if not n:
        rep.undecided('Hash', 'not found', W + 'Hash')


def create(rep, P, r, sm):
    thr, v = total(sm)
    n = sym('num_hash_functions')
    settle(rep, 'Create never throws', equal(thr, FALSE), WC + 'Create')
    settle(rep, 'Create succeeds exactly for a positive number of hash functions', equal(okof(v), ge0(sub(n, num(1))), [], cdom(None)), WC + 'Create')
    a = r.keyv.args[2]
    want = fn('bytes', sym('seed'), num(0), num(16))
    ok = sym('seed') in atoms(a)
    settle(rep, 'Create: the whole seed is the AES key', equal(tand(eq(r.keyv.args[1], num(128)), TRUE if ok else FALSE), TRUE), WC + 'Create')


def mmo(r, x):
    return xor(fn('AES', r.key, x), x)


def hashf(rep, sm, r, t):
    w = W + 'Hash'
    if sm.opaque:
        return rep.undecided('Hash<%s>' % t, why_opaque(sm), w)
    thr, v, val, h, f = hashval(sm, r)
    base = [ge0(LIM63), ge0(sub(r.H, num(1)))]
    d = cdom(r)
    settle(rep, 'Hash<%s> never throws' % t, equal(thr, FALSE, base, d), w)
    settle(rep, 'Hash<%s> succeeds exactly for a positive number of buckets' % t, equal(okof(v), ge0(sub(NB, num(1))), base, d), w)
    settle(rep, 'Hash<%s> returns one row per input' % t, equal(tlen(val), NIN, f, d), w)
    settle(rep, 'Hash<%s> returns one bucket per hash function' % t, equal(tlen(sel(val, (sym('i', 'num'),))), r.H, f, d), w)
    settle(rep, 'Hash<%s>: every bucket is in range' % t, equal(tand(ge0(h), lt(h, NB)), TRUE, f, d), w)
    x = sel(IN, (sym('i', 'num'),))
    j = sym('j', 'num')
    h0 = mmo(r, x)
    hj = ite(eq(j, num(0)), h0, mmo(r, xor(h0, j)))
    settle(rep, 'Hash<%s>: function j is AES(key, .) xor . of the input, re-hashed with j, modulo the number of buckets' % t,
           equal(h, mod(hj, NB), f, d), w)


# ---------------------------------------------------------------- bits needed
def log2(x):
    return fn('log2', x)


def toolarge(r):
    return TT.rgt0(sub(add(r.sec, log2(NIN), log2(r.H), log2(NB)), num(128)))


def bad_of(sm, *msgs):
    """condition of an argument error"""
    return tor(*[tand(*s.pc) for k, s, v in sm.outs if k == 'ret' and codeof(v) == 'InvalidArgument'])


def codeof(v):
    s = fld(v, 'st')
    if s.op == 'obj' or s.op == 'fn':
        pass
    if s.op == 'st':
        return s.args[0]
    return s.args[1].args[0] if s.op == 'fn' and s.args[0] == 'st' else None


def C02(rep):
    rep.level = 'proof'
    P = program('unit.cpp')
    rep.assumptions += ['the hash functions are those of Hash (C01); the parallel region is read for one thread, other numbers of threads by the '
                        'homomorphism rule']
    r, sm = roles(P)
    if r is None:
        return rep.undecided('representation', 'Create not understood', WC + 'Create')
    n = 0
    for t in INTS:
        s, hs = run(P, 'HashSimple', [t]), run(P, 'Hash', [t])
        if s is None or hs is None:
            continue
        n += 1
        rep.seen('functions', C + 'HashSimple<%s>' % t)
        guarded(rep, 'HashSimple<%s>' % t, W + 'HashSimple', lambda: simple(rep, P, s, hs, r, t))
    if not n:
        rep.undecided('HashSimple', 'not found', W + 'HashSimple')
    from . import omp
    t0 = next((t for t in INTS if P.find(C + 'HashSimple', [t])), None)
    guarded(rep, 'threads', W + 'HashSimple', lambda: omp.ordered_merge(rep, P, lambda: run(P, 'HashSimple', [t0]), W + 'HashSimple', 'HashSimple'))


def simple(rep, P, sm, hs, r, t):
    w = W + 'HashSimple'
    if sm.opaque or hs.opaque:
        return rep.undecided('HashSimple<%s>' % t, why_opaque(sm if sm.opaque else hs), w)
    thr, v = total(sm)
    d = cdom(r)
    base = [ge0(LIM63), ge0(sub(r.H, num(1)))]
    good = tand(ge0(sub(NB, num(1))), tnot(toolarge(r)))
    settle(rep, 'HashSimple<%s> never throws' % t, equal(thr, FALSE, base, d), w)
    settle(rep, 'HashSimple<%s> refuses exactly sizes without buckets or beyond 128-bit hashes' % t, equal(okof(v), good, base, d), w)
    _, _, _, h, _ = hashval(hs, r)
    b0, j0 = fresh_bv('b'), fresh_bv('j')
    f = base + [ge0(sub(NB, num(1))), tnot(toolarge(r))]
    hb = subst(h, {sym('i', 'num'): b0, sym('j', 'num'): j0})
    want = mk_w(fill(NB, fill(num(0), num(0))), [mk_write(((b0, num(0), NIN), (j0, num(0), r.H)), TRUE, (hb,), 'app', TT.lit([b0]))])
    got = simp(fld(v, 'val'), f)
    p = sym('p', 'num')
    settle(rep, 'HashSimple<%s> returns one list per bucket' % t, equal(tlen(got), NB, f, d), w)
    g1 = flat_rows(sel(got, (p,)))
    settle(rep, 'HashSimple<%s>: bucket p lists, in order, every input once per hash function that maps it there' % t,
           equal(g1, sel(want, (p,)), f + [ge0(p), lt(p, NB)], d), w)


def flat_rows(x):
    return x


# ---------------------------------------------------------------- cuckoo
def hash_boundary(r):
    def h(eng, e, f, thisn, nodes):
        a, nb = to_array(eng, eng.eval(nodes[0])), eng.eval(nodes[1])
        n = tlen(a)
        i, j = fresh_bv('i'), fresh_bv('j')
        return obj('StatusOr', {'st': fn('status:hash', nb), 'val': amap(i, n, amap(j, r.H, fn('hash', sel(a, (i,)), nb, j)))})
    return {C + 'Hash': h}


def C03(rep):
    rep.level = 'proof'
    P = program('unit.cpp')
    rep.assumptions += ['Hash is a function of its arguments with values in [0, num_buckets) (C01)']
    r, sm = roles(P)
    if r is None:
        return rep.undecided('representation', 'Create not understood', WC + 'Create')
    n = 0
    for t in INTS:
        s = run(P, 'HashCuckoo', [t], hash_boundary(r))
        if s is None:
            continue
        n += 1
        rep.seen('functions', C + 'HashCuckoo<%s>' % t)
        guarded(rep, 'HashCuckoo<%s>' % t, W + 'HashCuckoo', lambda: cuckoo(rep, P, s, r, t))
    if not n:
        rep.undecided('HashCuckoo', 'not found', W + 'HashCuckoo')


def vhash(V, x, nb, j):
    return V.h(('hash', V.key(x), V.key(nb), V.key(j)), 0, max(1, V.num(nb)))


def cuckoo(rep, P, sm, r, t):
    w = W + 'HashCuckoo'
    N = 'HashCuckoo<%s>' % t
    if sm.opaque:
        return rep.undecided(N, why_opaque(sm), w)
    thr, v = total(sm)
    d = cdom(r)
    it = {'hash': vhash}
    base = [ge0(LIM63), ge0(sub(r.H, num(1))), okst(fn('status:hash', NB))]
    good = tand(tnot(eq(r.H, num(1))), ge0(sub(NB, num(1))), le(NIN, NB), tnot(toolarge(r)))
    settle(rep, N + ' never throws', equal(thr, FALSE, base, d, it), w)
    settle(rep, N + ' refuses exactly one hash function, no buckets, more inputs than buckets, or sizes beyond 128-bit hashes',
           equal(bad_of(sm), tnot(good), base, d, it), w)
    f = base + [tnot(eq(r.H, num(1))), ge0(sub(NB, num(1))), le(NIN, NB), tnot(toolarge(r))]
    oks = [(s, x) for k, s, x in sm.outs if k == 'ret' and x.op == 'obj' and under(okof(x), list(s.pc)) is not FALSE]
    other = [x for k, s, x in sm.outs if k == 'ret' and x.op != 'obj']
    codes = set(c for x in other for c in exits(x))
    rep.check(N + ': leaving the insertion early is an error', len(oks) == 1 and (codes and 'ok' not in codes and None not in codes or not other) or
              (False if 'ok' in codes else None), 'early exits %s, %d ways to succeed' % (sorted(map(str, codes)), len(oks)), w)
    if len(oks) != 1:
        return
    s, x = oks[0]
    got = simp(fld(x, 'val'), f)
    why = []
    okc = False
    try:
        okc = invariant(got, r, f, why)
    except (KeyError, IndexError, TypeError, AttributeError, AssertionError, ValueError) as e:
        why.append('%s: %s' % (type(e).__name__, e))
    if okc:
        rep.check(N + ': every input is placed exactly once, in one of its own buckets, and every other bucket is -1', True, '', w)
        rep.check(N + ': insertion gives up only after n evictions', {1: None, 2: True, 3: False}[okc], '; '.join(why), w)
        return
    b, p, j, q = (fresh_bv(c) for c in 'bpjq')
    one = TT.forall(p, num(0), NIN, eq(TT.tsum(b, num(0), NB, b2i(eq(sel(got, (b,)), p))), num(1)))
    at = sel(got, (q,))
    own = TT.forall(q, num(0), NB, tor(eq(at, num(-1)), tand(ge0(at), lt(at, NIN), TT.exists(j, num(0), r.H, eq(fn('hash', sel(IN, (at,)), NB, j), q)))))
    dd, agree = evalterm.refute(tand(eq(tlen(got), NB), one, own), TRUE, f + list(s.pc), d, it, 1500)
    if dd:
        return rep.add(N + ': every input is placed exactly once, in one of its own buckets, and every other bucket is -1', 'fail',
                       'the result violates it: %s' % dd[:300], w)
    rep.undecided(N + ': every input is placed exactly once', 'no inductive argument found: %s' % '; '.join(why)[:500], w)


def exits(x):
    """status codes a loop may return early with"""
    if x.op == 'obj':
        return [codeof(x)]
    if x.op == 'ite':
        return exits(x.args[1]) + exits(x.args[2])
    if x.op == 'mu':
        k = x.args[0]
        out = []
        for t in (x.args[8][k] if x.args[8] else x.args[4][k], x.args[4][k]):
            out += [c for c in exits(t)]
        return out
    if x.op == 'phi' or x.op == 'none' or show(x) == 'none':
        return []
    return [None]


def inst(ts, r, arrs, f):
    """range facts for the hash values and array cells that occur"""
    out = []
    for t in ts:
        for a in atoms(t):
            if a.op == 'fn' and a.args[0] == 'hash':
                out += [ge0(a), lt(a, NB)]
            elif a.op == 'sel' and a.args[0] in arrs:
                out += arrs[a.args[0]](a)
    u = []
    for x in out:
        if x not in u:
            u.append(x)
    return u


def invariant(got, r, f, why):
    if got.op != 'mu':
        why.append('not a loop over the inputs')
        return 0
    k, tau, phis, inits, nexts, N, cond, brk, brkv = got.args
    if brk is not FALSE or cond is not None or N is None or equal(N, NIN, f)[0] != 'ok':
        why.append('the outer loop does not run once per input')
        return 0
    nx = nexts[k]
    if nx.op != 'mu':
        why.append('no eviction loop')
        return 0
    ik, itau, iphis, iinits, inexts, iN, icond, ibrk, ibrkv = nx.args
    if iinits[ik] is not phis[k]:
        why.append('buckets are not carried over')
        return 0
    B = sym('B', 'arr')
    # lengths of the arrays both loops carry
    olen = {}
    for n_, p in enumerate(phis):
        if n_ == k or isarr(inits[n_]):
            olen[p] = NB if n_ == k else tlen(inits[n_])
            if nexts[n_] is not p and not (nexts[n_].op == 'mu' and keep_len(nexts[n_], p)):
                why.append('an array changes its length')
                return 0
    ilen = {p: olen[x] for p, x in zip(iphis, iinits) if x in olen}
    # ---- state of the eviction loop as free symbols
    m = {itau: sym('step', 'num')}
    arrs, arrphi = {}, []
    for n_, p in enumerate(iphis):
        if n_ == ik:
            m[p] = fn('input', tstr('B'), NB)
        elif p in ilen:
            m[p] = fn('input', tstr('A%d' % n_), ilen[p])
            arrphi.append(n_)
        else:
            m[p] = sym('state%d' % n_, 'num')
    outer = {}
    for n_, p in enumerate(phis):
        if n_ == k:
            outer[p] = fn('input', tstr('B'), NB)
        elif p in olen:
            outer[p] = fn('input', tstr('O%d' % n_), olen[p])
        else:
            outer[p] = sym('ostate%d' % n_, 'num')
    outer[tau] = sym('i', 'num')
    B = m[iphis[ik]]
    Z = lambda t: subst(subst(t, m), outer)
    i = outer[tau]
    fi = f + [ge0(i), lt(i, NIN)]
    flags = [n_ for n_, p in enumerate(iphis) if n_ != ik and n_ not in arrphi and TT.isbool(inexts[n_]) or str(p.args[0]).startswith('return')]
    # ---- which variable carries the element, which the hash function number
    scal = [n_ for n_ in range(len(iphis)) if n_ != ik and n_ not in arrphi and n_ not in flags]
    cands = [n_ for n_ in scal if Z(iinits[n_]) is i or Z(iinits[n_]) is sub(sub(NIN, i), num(1))]
    for c in cands:
        e = m[iphis[c]]
        # invariants: element valid, every number used as a hash function valid
        hnum = [n_ for n_ in scal if n_ != c]
        res = attempt(got, r, fi, why, m, Z, B, ik, c, e, iphis, iinits, inexts, icond, ibrk, ibrkv, scal, arrphi, flags, phis, inits, nexts, outer, k)
        if res:
            return res
    why.append('no variable carries the element')
    return 0


def tlenof(p):
    try:
        return p.args[2] if p.op == 'phi' else None
    except IndexError:
        return None


def keep_len(mu, outer):
    k = mu.args[0]
    p = mu.args[2][k]
    return mu.args[3][k] is outer and keeps(mu.args[4][k], p) and (not mu.args[8] or keeps(mu.args[8][k], p))


def keeps(t, p):
    return t is p or t.op == 'w' and all(w[2] for w in t.args[1]) and keeps(t.args[0], p) or \
        t.op == 'ite' and keeps(t.args[1], p) and keeps(t.args[2], p)


def attempt(got, r, fi, why, m, Z, B, ik, c, e, iphis, iinits, inexts, icond, ibrk, ibrkv, scal, arrphi, flags, phis, inits, nexts, outer, k):
    inv = [ge0(e), lt(e, NIN)]
    rng = lambda x: [ge0(x), lt(x, r.H)]
    cell = {B: lambda a: [ge0(add(a, num(1))), lt(a, NIN)]}
    used = set()
    for a in TT._walk_terms((Z(ibrk), Z(inexts[ik]), Z(ibrkv[ik]) if ibrkv else FALSE)):
        if a.op == 'sym' and a.args[0].startswith('state'):
            used.add(a)
    # hash function numbers: scalars whose range invariant is inductive
    hs = [n_ for n_ in scal if n_ != c]
    hset = []
    keep = list(hs)
    karr = list(arrphi)
    while True:
        facts = fi + inv + [x for n_ in keep for x in rng(m[iphis[n_]])]
        for a in karr:
            cell[m[iphis[a]]] = rng
        for a in arrphi:
            if a not in karr:
                cell.pop(m[iphis[a]], None)
        bad = []
        Fs = facts + [tnot(Z(ibrk))] + ([Z(icond)] if icond is not None else [])
        for n_ in keep:
            t0, t1 = Z(iinits[n_]), Z(inexts[n_])
            if not holds(rng(t0), facts_for(fi, [t0], r, cell)) or not holds(rng(t1), facts_for(Fs, [t1], r, cell)):
                bad.append(n_)
        barr = []
        for a in karr:
            q = sym('q', 'num')
            L = tlen(m[iphis[a]])
            t1 = sel(Z(inexts[a]), (q,))
            t2 = sel(Z(ibrkv[a]), (q,)) if ibrkv else t1
            fq = [ge0(q), lt(q, L)]
            # initial content: the outer variable it continues, itself starting in range
            o = next((n_ for n_, p in enumerate(phis) if iinits[a] is p), None)
            ok = o is not None and holds(rng(sel(Z(inits[o]), (q,))), facts_for(fi + fq, [], r, cell)) and \
                nexts[o].op == 'mu' and nexts[o].args[0] == a
            ok = ok and holds(rng(t1), facts_for(Fs + fq, [t1], r, cell)) and holds(rng(t2), facts_for(facts + fq + [Z(ibrk)], [t2], r, cell))
            if not ok:
                barr.append(a)
        if not bad and not barr:
            break
        keep = [n_ for n_ in keep if n_ not in bad]
        karr = [a for a in karr if a not in barr]
    facts = fi + inv + [x for n_ in keep for x in rng(m[iphis[n_]])]
    ret = [n_ for n_ in flags if TT.isbool(inexts[n_])]
    p = sym('p', 'num')
    fp = [ge0(p), lt(p, NB)]
    # ---- leaving normally places the element into an empty bucket of its own
    if not ibrkv or ibrk is FALSE:
        why.append('the eviction loop has no exit')
        return 0
    R_ = FALSE
    for n_ in ret:
        if 'returned' in str(iphis[n_].args):
            R_ = Z(ibrkv[n_])
            m0 = m[iphis[n_]]
            R_ = subst(R_, {m0: FALSE})
    done = facts + [Z(ibrk), tnot(R_)]
    Bd = Z(ibrkv[ik])
    if not any(placed(Bd, B, idx, e, r, done, cell, fp, p, None) for idx in own(Bd, e, r, done, cell)):
        why.append('a normal exit is not "insert the element into an empty bucket of its own"')
        return 0
    # ---- otherwise the occupant of one of its buckets is evicted and carried on
    go = facts + [tnot(Z(ibrk))] + ([Z(icond)] if icond is not None else [])
    Bn, en = Z(inexts[ik]), Z(inexts[c])
    if not any(placed(Bn, B, idx, e, r, go, cell, fp, p, en) for idx in own(Bn, e, r, go, cell)):
        why.append('an eviction does not swap the carried element with the occupant of one of its buckets')
        return 0
    # ---- the loop ends in no other way
    if icond is not None:
        c0 = subst(subst(icond, {p_: x for p_, x in zip(iphis, iinits)}), outer)
        c1 = subst(Z(icond), {m[p_]: Z(x) for p_, x in zip(iphis, inexts)})
        if not holds([c0], fi) or not holds([c1], facts_for(go, [c1], r, cell)):
            why.append('the eviction loop can end with an element in hand')
            return 0
    # ---- initially all buckets are empty
    q = sym('q', 'num')
    if equal(tlen(inits[k]), NB, fi)[0] != 'ok' or equal(sel(inits[k], (q,)), num(-1), fi + [ge0(q), lt(q, NB)])[0] != 'ok':
        why.append('buckets do not start empty')
        return 0
    # ---- giving up
    lim = 1
    for n_ in scal:
        t = m[iphis[n_]]
        if n_ != c and Z(iinits[n_]) is num(0) and Z(inexts[n_]) is add(t, num(1)):
            fs = facts_for(facts, [Z(ibrk), R_], r, cell)
            goal = tand(Z(ibrk), R_, lt(t, NIN))
            if unsat(goal, fs):
                lim = 2
                break
            # an exit that depends on the counter alone
            idx = own(Bn, e, r, go, cell)[0]
            g2 = simp(goal, fs + [tnot(eq(sel(B, (idx,)), num(-1)))])
            syms = set(x for x in atoms(g2) if x.op not in ('poly', 'ge0', 'eq0', 'and', 'or', 'not', 'div', 'min', 'num', 'true', 'false'))
            if all(x is t or x is NIN or x is NB or x is r.H or x.op == 'fn' and x.args[0] == 'input' for x in syms) and t in syms:
                pos = [x for x in f0(fi) if not any(y.op == 'sel' for y in atoms(x))] + [ge0(t)]
                dd, agree = evalterm.refute(g2, FALSE, pos, lambda V, key: V.h(key, 0, 7) if key[0] == 'sym' and key[1] in ('i', t.args[0]) else cdom(r)(V, key))
                if dd:
                    why.append('gives up early: %s' % dd[:200])
                    return 3
    if R_ is FALSE:
        lim = 2
    if lim == 1:
        why.append('gives up earlier')
    return lim


def f0(fs):
    return [x for x in fs if not any(y.op == 'fn' and y.args[0] in ('hash', 'log2') for y in atoms(x)) and not has_op(x, ('bfn',))]


def facts_for(fs, ts, r, cell):
    fs = [y for x in fs for y in (x.args if x.op == 'and' else (x,))]
    fs = fs + inst(list(ts) + list(fs), r, cell, fs)
    have = set(x for x in fs if x.op == 'ge0')
    for x in list(fs):
        if x.op == 'not' and x.args[0].op == 'eq0':
            for y in (x.args[0].args[0], neg(x.args[0].args[0])):
                if ge0(y) in have:
                    fs.append(ge0(sub(y, num(1))))
    return fs


def holds(goals, facts):
    try:
        return all(equal(g, TRUE, facts, None, None, 0)[0] == 'ok' for g in goals)
    except TypeError:
        return False


def own(Bt, e, r, facts, cell):
    """locations of the carried element that the state mentions"""
    fs = facts_for(facts, [Bt], r, cell)
    t = simp(Bt, fs)
    x = sel(IN, (e,))
    out = []
    for a in atoms(t):
        if a.op == 'fn' and a.args[0] == 'hash' and a.args[1] is x and a.args[2] is NB and a not in out and not a.bvs:
            if holds([ge0(a.args[3]), lt(a.args[3], r.H)], facts_for(facts, [a.args[3]], r, cell)):
                out.append(a)
    return out


def placed(B1, B, idx, e, r, facts, cell, fp, p, en):
    at = sel(B, (idx,))
    g = sel(B1, (p,))
    fs = facts_for(facts + fp + [ge0(idx), lt(idx, NB)], [g, at], r, cell)
    if equal(g, ite(eq(p, idx), e, sel(B, (p,))), fs, None, None, 0)[0] != 'ok':
        return False
    if en is None:
        return holds([eq(at, num(-1))], fs)
    return holds([tnot(eq(at, num(-1)))], fs) and equal(en, at, fs, None, None, 0)[0] == 'ok'


# ---------------------------------------------------------------- number of buckets
def C04(rep):
    rep.level = 'proof'
    P = program('unit.cpp')
    rep.assumptions += ['floating-point arithmetic is read as exact real arithmetic']
    rep.seen('functions', C + 'GetOptimalNumberOfBuckets')
    r, sm = roles(P)
    if r is None:
        return rep.undecided('representation', 'Create not understood', WC + 'Create')
    s = run(P, 'GetOptimalNumberOfBuckets')
    guarded(rep, 'GetOptimalNumberOfBuckets', WC + 'GetOptimalNumberOfBuckets', lambda: optimal(rep, P, s, r))


def D(x):
    return num(Fraction(repr(x)))


def optimal(rep, P, sm, r):
    w = WC + 'GetOptimalNumberOfBuckets'
    if sm is None or sm.opaque:
        return rep.undecided('GetOptimalNumberOfBuckets', why_opaque(sm) if sm is not None else 'not found', w)
    thr, v = total(sm)
    n = sym('num_inputs')
    d = cdom(r)
    base = [ge0(sub(r.H, num(1)))]
    settle(rep, 'never throws', equal(thr, FALSE, base, d), w)
    good = tand(ge0(n), tor(eq(n, num(0)), eq(r.H, num(2)), eq(r.H, num(3))))
    base = base + exit_facts(okof(v))
    settle(rep, 'succeeds exactly for non-negative sizes and two or three hash functions (or no inputs)', equal(okof(v), good, base, d), w)
    val = fld(v, 'val')
    settle(rep, 'no inputs still get one bucket', equal(subst(val, {n: num(0)}), num(1), base[:1], d), w)
    ln = log2(n)
    rd = lambda x, y: fn('rdiv', x, y)
    erf = lambda m_, sd: fn('erf', rd(sub(ln, D(m_)), mul(D(sd), fn('sqrt', num(2)))))
    a = mul(num(Fraction(247, 4)), add(num(1), erf(6.3, 2.3)))
    b = sub(mul(num(-65), add(num(1), erf(6.45, 2.18))), ln)
    f3 = base + [ge0(sub(n, num(1))), eq(r.H, num(3))]
    settle(rep, 'three hash functions: the published expansion factor', equal(val, fn('ceil', mul(rd(sub(r.sec, b), a), n)), f3, d), w)
    f2 = base + [ge0(sub(n, num(1))), eq(r.H, num(2))]
    import math

    def opt2(V, n_, sec_):
        n_, sec_ = V.num(n_), V.num(sec_)
        e = 1
        s = 0
        while s < sec_:
            e += 1
            s = 3.3 * math.log2(e) - 0.8 + math.log2(n_) - (5 * math.log2(n_) + 14) * e ** -2.5
            if e > 5000:
                raise evalterm.NE('far')
        return e * n_
    g = simp(val, f2 + exit_facts(val))
    ok = two(g, r, n, ln, f2)
    if ok:
        rep.check('two hash functions: the smallest expansion factor the published bound allows', True, '', w)
    else:
        settle(rep, 'two hash functions: the smallest expansion factor the published bound allows',
               equal(g, fn('opt2', n, r.sec), f2, d, {'opt2': opt2}), w)


def exit_facts(t):
    """a loop without another exit ends with its condition false"""
    out = []
    for x in atoms(t):
        if x.op == 'mu' and x.args[6] is not None and x.args[7] is FALSE and not x.bvs and not x.phis:
            k, tau, phis, inits, nexts, N, cond, brk, brkv = x.args
            fin = {p: TT.mu(i, *x.args[1:]) for i, p in enumerate(phis)}
            c = subst(cond, fin)
            if tau.args[0] not in cond.bvs and tnot(c) not in out:
                out.append(tnot(c))
    return out


def two(g, r, n, ln, f2):
    mus = [t for t in atoms(g) if t.op == 'mu']
    if not mus:
        return False
    t = mus[0]
    k, tau, phis, inits, nexts, N, cond, brk, brkv = t.args
    if len(set(x.args[1:] for x in mus)) != 1 or brk is not FALSE or cond is None or len(phis) != 2:
        return False
    if g is not fn('ceil', mul(t, n)) and g is not mul(t, n):
        return False
    s = 1 - k
    e1 = nexts[k]
    sec = sub(add(mul(D(3.3), log2(e1)), D(-0.8), ln), mul(add(mul(num(5), ln), num(14)), TT.tpow_real(e1) if hasattr(TT, 'tpow_real') else fn('rpow', e1, num(Fraction(-5, 2)))))
    return inits[k] is num(1) and inits[s] is num(0) and e1 is add(phis[k], num(1)) and nexts[s] is sec and cond is TT.rgt0(sub(r.sec, phis[s]))
