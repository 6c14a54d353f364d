"""M01: multi-point FSS shares; M02: bucket cache; M03: what is sent."""
from .check import *
from .load import program
from .engine import okof, okst
from .proto import *
from . import terms as TT
from .evalterm import NE, toint
from .libmodel import as_span, to_array

C = NS + 'MPFSSKnownIndices::'
W = 'distributed_vector_ole/mpfss_known_indices.h MPFSSKnownIndices::'
SP = NS + 'SPFSSKnownIndex::'


def buckets(o, n):
    """the buckets of the interval [0, o) for n indices"""
    b, k = fresh_bv('b'), fresh_bv('k')
    L = fn('bucketlen', o, n, b)
    return amap(b, fn('numbuckets', n), amap(k, L, fn('bucket', o, n, b, k)))


def update(eng, e, f, thisn, nodes):
    o, n = [eng.eval(x) for x in nodes]
    eng.event('update', (o, n), e)
    lv = eng.this_of(thisn, e)
    root, path = lv
    p = (root, tuple(path) + (('f', 'buckets_'),))
    eng.write(p, buckets(o, n))
    return fn('status:update')


def cuckoo(eng, e, f, thisn, nodes):
    ind = to_array(eng, eng.eval(nodes[0]))
    nb = eng.eval(nodes[1])
    eng.event('cuckoo', (ind, nb), e)
    b = fresh_bv('b')
    return obj('StatusOr', {'st': fn('status:cuckoo'), 'val': amap(b, nb, fn('placed', b))})


def spfss(role):
    def h(eng, e, f, thisn, nodes):
        outs = as_span(eng, nodes[-1])
        vals = to_array(eng, eng.eval(nodes[0]))
        ind = to_array(eng, eng.eval(nodes[1])) if role == 'index' else None
        k, i = fresh_bv('k'), fresh_bv('i')
        inner = eng.read(eng.span_lv(outs, k))
        eng.event('spfss-' + role, (outs.args[3], vals) + ((ind,) if ind is not None else ()) + (amap(k, outs.args[3], len_of(inner)),), e)
        if write_all(eng, outs, lambda k, i, n: fn('spfss-' + role, k, i)) is None:
            return eng.opq('outputs of the single-point scheme', e)
        return fn('status:spfss')
    return h


def run(P, q, t, npar=None, pred=None, args=None, facts=()):
    b = dict(ring())
    b[C + 'UpdateBuckets'] = update
    b[NS + 'CuckooHasher::HashCuckoo'] = cuckoo
    b[SP + 'RunValueProviderBatched'] = spfss('value')
    b[SP + 'RunIndexProviderBatched'] = spfss('index')
    return summary(P, C + q, [t], npar=npar, boundary=b, rings=(GF,), pred=pred, args=args, facts=facts)


NO, NYV, NI = sym('n_output', 'nat'), sym('n_y', 'nat'), sym('n_indices', 'nat')
YL = sym('y_len')
OKU, OKC, OKS = okst(fn('status:update')), okst(fn('status:cuckoo')), okst(fn('status:spfss'))
EXTRA = ('update', 'cuckoo', 'spfss-value', 'spfss-index')


def mdom(V, key):
    if key[0] == 'sym' and key[1].startswith('n_'):
        return V.h('nn', 0, 4) if V.h(('nc', key), 0, 3) else V.h(key, 0, 4)
    if key[0] == 'sym' and key[1] in ('p', 'b', 'y_len'):
        return V.h(key, 0 if key[1] != 'y_len' else -1, 4)
    if key[0] == 'fn' and key[1][0] in ('numbuckets', 'bucketlen'):
        return V.h(key, 1 if key[1][0] == 'numbuckets' else 0, 5)
    if key[0] == 'fn' and key[1][0] == 'bucket':
        return V.h(key, 0, 4)
    if key[0] == 'fn' and key[1][0] == 'placed':
        return V.h(key, -1, 3)
    if key[0] == 'sel' and 'indices' in str(key):
        return V.h(key, -1, 5) if V.h('wild', 0, 3) == 0 else V.h(key, 0, 2)
    return None


def members(V, o, n, b):
    """the bucket b: some subset of [0, o), listed in ascending order"""
    o, n, b = [toint(V.num(x)) for x in (o, n, b)]
    if o > V.lim:
        raise NE('long bucket')
    k = V.h(('bucketkind', o, n, b), 1, 4)
    return [i for i in range(o) if V.h(('inbucket', o, n, b, i), 0, k + 1)]


def bucket_at(V, o, n, b, j):
    m, j = members(V, o, n, b), toint(V.num(j))
    if not 0 <= j < len(m):
        raise NE('outside the bucket')
    return m[j]


MI = {'bucket': bucket_at, 'bucketlen': lambda V, o, n, b: len(members(V, o, n, b))}


def rec(s):
    return [(e, c) for e, c in comm(s) if e.name not in ('flush', 'sync')]


def ev1(s, name):
    x = [e for e, c in comm(s, [], EXTRA) if e.name == name and c is TRUE and not e.iters]
    return x[0] if len(x) == 1 else None


def base_facts(n, b):
    nb, L = fn('numbuckets', n), fn('bucketlen', NO, n, b)
    return [ge0(sub(nb, num(1))), ge0(L)]


def M01(rep):
    rep.level = 'proof'
    P = program('unit.cpp')
    rep.assumptions += ['both roles hash with the same buckets (M02, X01); a bucket lists, in ascending order, exactly the positions that hash to it, and '
                        'cuckoo placement puts every index exactly once, into one of its buckets (C01-C03)',
                        'single-point shares add up to the value at the index and to zero elsewhere (F01)',
                        'the caller passes w = u x + v of the documented size']
    for t in TYPES:
        for q in ('RunValueProviderVectorOLE', 'RunIndexProviderVectorOLE'):
            rep.seen('functions', C + q + '<' + SHORT[t] + '>')
        guarded(rep, 'mpfss<%s>' % SHORT[t], W + 'Run*VectorOLE', lambda: product(rep, P, t))


def product(rep, P, t):
    T = SHORT[t]
    sv, si = run(P, 'RunValueProviderVectorOLE', t), run(P, 'RunIndexProviderVectorOLE', t)
    if sv is None or si is None:
        return rep.undecided('mpfss<%s>' % T, 'entry points not found', W)
    for sm, q in ((sv, 'RunValueProviderVectorOLE'), (si, 'RunIndexProviderVectorOLE')):
        if sm.opaque:
            return rep.undecided('%s<%s>' % (q, T), why_opaque(sm), W + q)
    b, p, j = sym('b', 'num'), sym('p', 'num'), fresh_bv('j')
    k = fresh_bv('k')
    ik = sel(fn('input', tstr('indices'), NI), (k,))
    inrange = forall_(k, NI, tand(ge0(ik), lt(ik, NO)))
    for sm, q, good, pre in ((sv, 'RunValueProviderVectorOLE', tand(ge0(sub(YL, num(1))), OKU, OKS), tand(ge0(sub(YL, num(1))), OKU)),
                             (si, 'RunIndexProviderVectorOLE', tand(eq(NYV, NI), ge0(sub(NO, NI)), tnot(eq(NYV, num(0))), inrange, OKU, OKC, OKS),
                              tand(eq(NYV, NI), ge0(sub(NO, NI)), tnot(eq(NYV, num(0))), inrange, OKU, OKC))):
        thr, v = total(sm)
        settle(rep, '%s<%s> never throws' % (q, T), equal(thr, FALSE, [], mdom, MI), W + q)
        # repeated indices are refused at the latest when hashing gives up (E01)
        dist = [eq(x, NI) for x in atoms(okof(v)) if x.op == 'fn' and x.args[0] == 'setsize']
        settle(rep, '%s<%s> accepts exactly the valid arguments' % (q, T), equal(okof(v), good, dist, mdom, MI), W + q)
        bad = [s for k_, s, v_ in sm.outs if k_ == 'ret' and rec(s) and not unsat(tand(tnot(pre), *s.pc), [])]
        rep.check('%s<%s> rejects bad arguments before any communication' % (q, T), not bad, 'communicates although the arguments are invalid', W + q)
    okv, oki = successes(sv), successes(si)
    if len(okv) != 1 or len(oki) != 1:
        return rep.undecided('mpfss<%s>: success path' % T, 'several success paths', W)
    (s1, _, f1), (s2, _, f2) = okv[0], oki[0]
    r1, r2 = rec(s1), rec(s2)
    ok = [e.name for e, c in r1] == ['recv'] and [e.name for e, c in r2] == ['send'] and all(c is TRUE and not e.iters for e, c in r1 + r2)
    rep.check('mpfss<%s>: exactly one vector goes from the index provider to the value provider' % T, ok,
              'value provider: %s, index provider: %s' % ([e.name for e, c in r1], [e.name for e, c in r2]), W)
    if not ok:
        return
    snd, rcv = r2[0][0], r1[0][0]
    rep.check('mpfss<%s>: both sides agree on the type of the message' % T, snd.args[1] is rcv.args[1], '', W)
    pend = None
    for e, c in comm(s2, [], EXTRA):
        if e.name == 'send':
            pend = e
        elif e.name == 'flush' and c is TRUE:
            pend = None
        elif e.name.startswith('spfss'):
            break
    rep.check('mpfss<%s>: the vector is flushed before the single-point scheme starts' % T, pend is None, 'stays in the buffer', W + 'RunIndexProviderVectorOLE')
    n1, n2 = YL, NYV
    for s, n, q in ((s1, n1, 'RunValueProviderVectorOLE'), (s2, n2, 'RunIndexProviderVectorOLE')):
        u = [e for e, c in comm(s, [], EXTRA) if e.name == 'update' and c is TRUE]
        rep.check('%s<%s> hashes its output interval for the number of indices' % (q, T), any(e.args[0] is NO and simp(e.args[1], f1 + f2) is n for e in u),
                  'buckets for %s' % [(show(e.args[0]), show(e.args[1])) for e in u], W + q)
    e1, e2 = ev1(s1, 'spfss-value'), ev1(s2, 'spfss-index')
    cu = ev1(s2, 'cuckoo')
    if e1 is None or e2 is None or cu is None:
        return rep.undecided('mpfss<%s>: calls' % T, 'not exactly one call of each sub-protocol', W)
    # ---- sub-protocol arguments
    nb1, nb2 = fn('numbuckets', n1), fn('numbuckets', n2)
    ind = fn('input', tstr('indices'), NI)
    settle(rep, 'mpfss<%s>: cuckoo hashing gets the indices and the number of buckets' % T,
           equal(tand(eq(tlen(cu.args[0]), NI), eq(cu.args[1], nb2), eq(sel(cu.args[0], (sym('p', 'num'),)), sel(ind, (sym('p', 'num'),)))), TRUE,
                 f2 + [ge0(p), lt(p, NI)], mdom, MI), W + 'RunIndexProviderVectorOLE')
    fb1 = f1 + [ge0(b), lt(b, nb1)] + base_facts(n1, b)
    fb2 = f2 + [ge0(b), lt(b, nb2)] + base_facts(n2, b)
    pl = fn('placed', b)
    for e, s, n, nb, fb, q in ((e1, s1, n1, nb1, fb1, 'RunValueProviderVectorOLE'), (e2, s2, n2, nb2, fb2, 'RunIndexProviderVectorOLE')):
        settle(rep, '%s<%s> runs one single-point instance per bucket' % (q, T), equal(e.args[0], nb, fb, mdom, MI), W + q)
        settle(rep, '%s<%s>: every instance is as long as its bucket' % (q, T), equal(sel(e.args[-1], (b,)), fn('bucketlen', NO, n, b), fb, mdom, MI), W + q)
    # ---- what is sent, and the shared products
    w_, u_, v_ = (sel(fn('input', tstr(x), sym('n_' + x, 'nat')), (b,)) for x in 'wuv')
    y_ = ite(eq(pl, num(-1)), num(0), sel(fn('input', tstr('y'), NYV), (pl,)))
    sent = sel(snd.args[0], (b,))
    settle(rep, 'mpfss<%s>: the message is the permuted y masked with u, and nothing else' % T,
           gfs(t, equal(sent, add(y_, u_), fb2 + [ge0(add(pl, num(1))), lt(pl, NYV)], mdom, MI)), W + 'RunIndexProviderVectorOLE')
    mine = subst(sel(e1.args[1], (b,)), {sel(rcv.args[0], (b,)): sent, w_: add(mul(u_, sym('x')), v_)})
    settle(rep, 'mpfss<%s>: the value shares of every bucket add up to x times its element of y' % T,
           gfs(t, equal(add(mine, sel(e2.args[1], (b,))), mul(sym('x'), y_), fb2 + [ge0(add(pl, num(1))), lt(pl, NYV)], mdom, MI)), W)
    bk = amap(j, fn('bucketlen', NO, n2, b), fn('bucket', NO, n2, b, j))
    lbt = fn('lower_bound', bk, sel(ind, (pl,)))
    got = sel(e2.args[2], (b,))
    L = fn('bucketlen', NO, n2, b)
    # a bucket that an index was placed in contains it
    nonempty = [ge0(add(pl, num(1))), tor(eq(pl, num(-1)), ge0(sub(L, num(1))))]
    holds = tand(lt(lbt, L), eq(sel(bk, (lbt,)), sel(ind, (pl,))))
    settle(rep, 'mpfss<%s>: the index in a bucket is the position of the placed index' % T,
           equal(got, lbt, fb2 + nonempty + [ge0(pl), lt(pl, NYV), ge0(sub(L, num(1))), holds], mdom, MI), W + 'RunIndexProviderVectorOLE')
    settle(rep, 'mpfss<%s>: buckets without an index use a valid position' % T,
           equal(tand(ge0(got), tor(lt(got, L), eq(L, num(0)))), TRUE, fb2 + [eq(pl, num(-1))], mdom, MI), W + 'RunIndexProviderVectorOLE')
    # ---- outputs
    for s, n, role, f, q in ((s1, n1, 'value', f1, 'RunValueProviderVectorOLE'), (s2, n2, 'index', f2, 'RunIndexProviderVectorOLE')):
        b0, j0 = fresh_bv('b'), fresh_bv('j')
        want = mk_w(fill(NO, num(0)), [mk_write(((b0, num(0), fn('numbuckets', n)), (j0, num(0), fn('bucketlen', NO, n, b0))), TRUE,
                                                (fn('bucket', NO, n, b0, j0),), 'add', fn('spfss-' + role, b0, j0))])
        fs = f + [ge0(p), lt(p, NO)]
        settle(rep, '%s<%s>: every output element collects its elements of all buckets' % (q, T),
               gfs(t, equal(sel(s.vars['m:output'], (p,)), sel(want, (p,)), fs, mdom, MI)), W + q)


def gfs(t, res):
    if t == GF and res[0] == 'fail':
        return 'undecided', res[1]
    return res


def len_of(x):
    r = row_len(x)
    return fn('opaque:bucket length') if r is None else r


def row_len(x):
    """length of the span, whatever case applies"""
    if x.op == 'ite':
        a, b = row_len(x.args[1]), row_len(x.args[2])
        return None if a is None or b is None else ite(x.args[0], a, b)
    return x.args[3] if x.op == 'span' else None



def forall_(b, n, c):
    return TT.forall(b, num(0), n, c)


# ---------------------------------------------------------------- M02
WC = 'distributed_vector_ole/mpfss_known_indices.cpp MPFSSKnownIndices::UpdateBuckets'
H = NS + 'CuckooHasher::'


def run_update(P, q='UpdateBuckets'):
    def simple(eng, e, f, thisn, nodes):
        arr, nb = to_array(eng, eng.eval(nodes[0])), eng.eval(nodes[1])
        eng.event('hash', (arr, nb), e)
        b = fresh_bv('b')
        return obj('StatusOr', {'st': fn('status:hash', arr, nb), 'val': fn('hashed', arr, nb)})

    def opt(eng, e, f, thisn, nodes):
        n = eng.eval(nodes[0])
        return obj('StatusOr', {'st': fn('status:number', n), 'val': fn('numbuckets', n)})
    return summary(P, C + q, boundary={H + 'HashSimple': simple, H + 'GetOptimalNumberOfBuckets': opt})


def M02(rep):
    rep.level = 'proof'
    P = program('unit.cpp')
    rep.assumptions += ['HashSimple and GetOptimalNumberOfBuckets are functions of their arguments and the hasher (C01, C02, C04); sizes below 2^31 and '
                        'not negative']
    rep.seen('functions', C + 'UpdateBuckets')
    rep.seen('functions', C + 'NumBuckets')
    guarded(rep, 'UpdateBuckets', WC, lambda: cache(rep, P))
    guarded(rep, 'NumBuckets', W + 'NumBuckets', lambda: numb(rep, P))


def numb(rep, P):
    sm = run_update(P, 'NumBuckets')
    if sm is None or sm.opaque:
        return rep.undecided('NumBuckets', why_opaque(sm) if sm is not None else 'not found', W + 'NumBuckets')
    thr, v = total(sm)
    n = sym('num_indices')
    settle(rep, 'NumBuckets never throws', equal(thr, FALSE), W + 'NumBuckets')
    settle(rep, 'NumBuckets fails exactly with the hasher', equal(okof(v), okst(fn('status:number', n))), W + 'NumBuckets')
    settle(rep, 'NumBuckets is the hasher\'s number for the same number of indices', equal(fld(v, 'val'), fn('numbuckets', n), [okof(v)]), W + 'NumBuckets')


def cache(rep, P):
    sm = run_update(P)
    if sm is None or sm.opaque:
        return rep.undecided('UpdateBuckets', why_opaque(sm) if sm is not None else 'not found', WC)
    o, n = sym('output_size'), sym('num_indices')
    i = fresh_bv('i')

    def right(o, n):
        return fn('hashed', amap(i, o, i), fn('numbuckets', n))
    thr, v = total(sm)
    pre = [ge0(o)]
    settle(rep, 'UpdateBuckets never throws', equal(thr, FALSE, pre), WC)
    this0 = init_this(sm)
    co, cn, b0 = (fld(this0, x) for x in ('cached_output_size_', 'cached_num_indices_', 'buckets_'))
    ho, hn, vo, vn = fld(co, 'has'), fld(cn, 'has'), fld(co, 'val'), fld(cn, 'val')
    inv = tor(tnot(ho), tnot(hn), eqv(b0, right(vo, vn)))
    bad = None
    for k, s, val in sm.outs:
        if k != 'ret':
            continue
        th = s.vars['this'] if 'this' in s.vars else None
        c1, c2, b1 = (fld(th, x) for x in ('cached_output_size_', 'cached_num_indices_', 'buckets_'))
        ok = under(okof(val), list(s.pc))
        facts = [x for x in list(s.pc) + pre]
        if ok is not FALSE:
            fs = facts + [ok]
            # under the invariant the old buckets are those of the remembered sizes
            g = subst(b1, {b0: ite(tand(ho, hn), right(vo, vn), fn('stale'))})
            settle(rep, 'UpdateBuckets success: the buckets are those of [0, output_size) for num_indices, whatever was cached [%s]' % key(s),
                   equal(arr_eq(g, right(o, n)), TRUE, fs + eqs(fs)), WC)
        g1 = subst(b1, {b0: ite(tand(ho, hn), right(vo, vn), fn('stale'))})
        has1 = tand(fld(c1, 'has'), fld(c2, 'has'))
        settle(rep, 'UpdateBuckets: remembered sizes always belong to the stored buckets [%s]' % key(s),
               equal(tand(has1, tnot(arr_eq(g1, right(fld(c1, 'val'), fld(c2, 'val'))))), FALSE, facts), WC)


def key(s):
    return '; '.join(show(x)[:60] for x in s.pc)[:160]


def eqs(fs):
    return []


def arr_eq(a, b):
    if a.op == 'ite':
        return ite(a.args[0], arr_eq(a.args[1], b), arr_eq(a.args[2], b))
    if a is b:
        return TRUE
    if a.op == 'fn' and a.args[0] == 'hashed' and b.op == 'fn' and b.args[0] == 'hashed':
        x, y = a.args[1], b.args[1]
        if isarr(x) and isarr(y):
            k = fresh_bv('k')
            return tand(eq(tlen(x), tlen(y)), TT.forall(k, num(0), tlen(x), eq(sel(x, (k,)), sel(y, (k,)))), eq(a.args[2], b.args[2]))
    return eqv(a, b)


def init_this(sm):
    return sm.init['this']
