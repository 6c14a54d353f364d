"""L01: shares of the scalar-vector product."""
from .check import *
from .load import program
from .engine import okof, okst
from .proto import *
from . import terms as TT, evalterm
from .libmodel import as_span, to_array

C = NS + 'ScalarVectorGilboaProduct::'
GI = NS + 'gilboa_internal::'
W = 'distributed_vector_ole/scalar_vector_gilboa_product.h ScalarVectorGilboaProduct::'
SIZE = {'unsigned char': 1, 'unsigned long': 8, 'absl::uint128': 16, GF: 16}


def hashable(eng, e, f, thisn, nodes):
    return bfn('hashable', *[eng.eval(x) for x in nodes])


def packs():
    """packing: decided by P01"""
    def pack(eng, e, f, thisn, nodes):
        arr = eng.span_value(as_span(eng, nodes[0]))
        m = eng.eval(nodes[1]) if len(nodes) > 1 and nodes[1] is not None else num(1)
        i = fresh_bv('i')
        return fn('pack', amap(i, tlen(arr), mul(sel(arr, (i,)), m)))

    def unpack(eng, e, f, thisn, nodes):
        b = eng.eval(nodes[0])
        sp = as_span(eng, nodes[1])
        i = fresh_bv('i')
        from .libmodel import write_span
        write_span(eng, sp, amap(i, sp.args[3], fn('lane', b, i)))
        return None
    return {GI + 'SpanToEMPBlock': pack, GI + 'EMPBlockToSpan': unpack}


def run(P, q, t, S=None, npar=None, pred=None, args=None, facts=()):
    b = dict(ring())
    b.update(packs())
    b[NS + 'ScalarHelper::CanBeHashedInto'] = hashable
    H = NS + 'ScalarHelper::'
    b[H + 'SizeOf'] = lambda eng, e, f, th, n: num(SIZE[t] if S is None else S)
    b[H + 'SetBit'] = lambda eng, e, f, th, n: fn('ring2pow', eng.eval(n[0]))
    b[H + 'GetBit'] = lambda eng, e, f, th, n: bfn('bit', eng.eval(n[0]), eng.eval(n[1]))
    return summary(P, C + q, [t], npar=npar, boundary=b, rings=(GF,), pred=pred, args=args, facts=facts)


def lane(b, k):
    """element k of an unpacked block"""
    if b.op == 'ite':
        return ite(b.args[0], lane(b.args[1], k), lane(b.args[2], k))
    if b.op == 'fn' and b.args[0] == 'pack':
        a = b.args[1]
        return ite(tand(ge0(k), lt(k, tlen(a))), sel(a, (k,)), num(0))
    return TT._intern('fn', ('lane', b, k))


TT.FNRULES['lane'] = lane
NY = sym('n_y', 'nat')
NO = sym('n_output', 'nat')
DUAL = {'ot-send': 'ot-recv', 'ot-send_cot': 'ot-recv_cot'}


def gdom(V, key):
    if key[0] == 'sym' and key[1].startswith('n_'):
        return V.h(key, 0, 20)
    if key[0] == 'sym' and key[1] == 'i':
        return V.h(key, 0, 20)
    if key[0] == 'sym' and key[1] == 'y_len':
        return V.h(key, -2, 20)
    return None


def sizes(t):
    return [None] if t in SIZE else list(range(1, 17))


_memo = {}


def sides(P, t, S):
    if (t, S) not in _memo:
        _memo[t, S] = tuple(run(P, q, t, S, npar=2, pred=lambda fo: 'Span<' in fo['params'][-1]['t']) for q in ('RunVectorProvider', 'RunValueProvider'))
    return _memo[t, S]


def rec(s):
    return [(e, c) for e, c in comm(s) if e.name not in ('flush', 'sync')]


def same_n(x):
    """both parties use vectors of the same length"""
    return subst(x, {NY: NO}) if isinstance(x, Term) else x


def peer(x):
    return subst(x, {fn('input', tstr('output'), NO): fn('input', tstr('earlier output of the vector provider'), NO)})


def the_sides(rep, P, t, S, T):
    sv, sx = sides(P, t, S)
    if sv is None or sx is None:
        rep.undecided(T, 'entry points not found', W)
        return None
    for sm, q in ((sv, 'RunVectorProvider'), (sx, 'RunValueProvider')):
        if sm.opaque:
            rep.undecided('%s<%s>' % (q, T), why_opaque(sm), W + q)
            return None
    a, b = successes(sv), successes(sx)
    if len(a) != 1 or len(b) != 1:
        rep.undecided(T + ': success path', 'several success paths', W)
        return None
    return sv, sx, a[0], b[0]


def instances():
    for t in TYPES:
        for S in sizes(t):
            yield t, S, SHORT[t] + (' of %d bytes' % S if S else '')


def L01(rep):
    rep.level = 'proof'
    P = program('unit.cpp')
    rep.assumptions += ['the extended oblivious transfers deliver message choice[p] of pair p (emp-toolkit)',
                        'packing and unpacking a block is lossless (P01); bit k and power k mean the same in GetBit and SetBit (S01, S02)',
                        'both parties use the same statistical security parameter, scalar type and vector length; lengths below 2^31']
    for t in TYPES:
        for q in ('RunVectorProvider', 'RunValueProvider'):
            rep.seen('functions', C + q + '<' + SHORT[t] + '>')
    for t, S, T in instances():
        guarded(rep, 'product<%s>' % T, W + 'Run*', lambda: product(rep, P, t, S, T))
        if S in (None, 5):
            guarded(rep, 'returning a vector<%s>' % T, W + 'Run*', lambda: vectors(rep, P, t, S, T))
    for t in TYPES[4:]:
        guarded(rep, 'too wide<%s>' % SHORT[t], W + 'Run*', lambda: wide(rep, P, t))


def product(rep, P, t, S, T):
    x = the_sides(rep, P, t, S, T)
    if x is None:
        return
    sv, sx, (s1, _, f1), (s2, _, f2) = x
    i = sym('i', 'num')
    for q, sm, good in (('RunVectorProvider', sv, eq(NY, NO)), ('RunValueProvider', sx, TRUE)):
        thr, v = total(sm)
        settle(rep, '%s<%s> never throws' % (q, T), equal(thr, FALSE, [], gdom), W + q)
        settle(rep, '%s<%s> succeeds exactly for matching sizes' % (q, T), equal(okof(v), good, [], gdom), W + q)
        bad = [s for k, s, v in sm.outs if k == 'ret' and under(okof(v), list(s.pc)) is not TRUE and rec(s)]
        rep.check('%s<%s> rejects before any communication' % (q, T), not bad, 'communicates before returning an error', W + q)
    r1, r2 = rec(s1), rec(s2)
    f = [y for y in [simp(same_n(z)) for z in f1 + f2] if y is not TRUE]
    ps = match_events(rep, 'product<%s>: the two sides\' messages match up' % T, r1, r2, DUAL, f, gdom, W, same_n, ('vector provider', 'value provider'))
    if ps is None:
        return
    m, got = {}, {}
    for a, b, c in ps:
        la, lb = same_n(a.args[2]), same_n(b.args[2])
        settle(rep, 'product<%s>: both sides of %s run the same number of transfers' % (T, a.name), equal(la, lb, f + [c], gdom), W)
        p = sym('p', 'num')
        m0, m1 = a.args[:2]
        ch = sel(b.args[1], (p,))
        v = ite(ch if TT.isbool(ch) else tnot(eq(ch, num(0))), sel(peer(same_n(m1)), (p,)), sel(peer(same_n(m0)), (p,)))
        got[b.args[0]] = (la, v) if b.args[0] not in got else (ite(c, la, got[b.args[0]][0]), ite(c, v, got[b.args[0]][1]))
    for x, (la, v) in got.items():
        p = fresh_bv('p')
        m[x] = amap(p, la, subst(v, {sym('p', 'num'): p}))
    for who, s in (('vector provider', s1), ('value provider', s2)):
        evs = [(e, same_n(c)) for e, c in comm(s)]
        rep.check('product<%s>: everything the %s sends is flushed' % (T, who),
                  not sent_is_flushed(evs, f, gdom, ('ot-send', 'ot-recv', 'ot-send_cot', 'ot-recv_cot'), (), True), 'transfers stay in the buffer', W)
    f += [ge0(i), lt(i, NO)]
    a = peer(same_n(sel(s1.vars['m:output'], (i,))))
    b = subst(same_n(sel(s2.vars['m:output'], (i,))), m)
    y = sel(fn('input', tstr('y'), NO), (i,))
    bw = 8 * (S or SIZE[t])
    k = fresh_bv('k')
    want = tsum(k, num(0), num(bw), ite(bfn('bit', sym('x'), k), mul(fn('ring2pow', k), y), num(0)))
    settle(rep, 'product<%s>: the two shares of every element add up to x times that element' % T,
           gf_safe(t, sum_equal(add(a, b), want, f, gdom)), W)


def sum_equal(got, want, facts, dom):
    """equality of two linear combinations of sums over the same range, summand by summand"""
    d = sub(simp(got, facts), simp(want, facts))
    body, rng = num(0), None
    v = sym('k', 'num')
    for m, c in pd(d).items():
        x = TT._byid[m[0][0]] if len(m) == 1 and m[0][1] == 1 else None
        if x is None or x.op != 'sum' or rng not in (None, x.args[1:3]):
            return equal(got, want, facts, dom)
        rng = x.args[1:3]
        body = add(body, scale(subst(x.args[3], {x.args[0]: v}), c))
    if rng is None:
        return equal(got, want, facts, dom)
    if equal(body, num(0), list(facts) + [le(rng[0], v), lt(v, rng[1])], dom)[0] == 'ok':
        return 'ok', ''
    return equal(got, want, facts, dom)


def gf_safe(t, res):
    if t == GF and res[0] == 'fail':
        return 'undecided', res[1]
    return res


def wide(rep, P, t):
    for q, sm in zip(('RunVectorProvider', 'RunValueProvider'), sides(P, t, 17)):
        ok = [1 for k, s, v in sm.outs if k != 'ret' or under(okof(v), list(s.pc)) is not FALSE or rec(s)]
        rep.check('%s<%s> refuses elements of more than 16 bytes without communicating' % (q, SHORT[t]), not ok or (None if sm.opaque else False),
                  'accepts a 17-byte modulus', W + q)


def vectors(rep, P, t, S, T):
    i = sym('i', 'num')
    for q, np, n in (('RunVectorProvider', 1, NY), ('RunValueProvider', 2, sym('y_len'))):
        ref = sides(P, t, S)[0 if np == 1 else 1]
        sm = run(P, q, t, S, npar=np, pred=lambda fo: np == 1 or 'Span<' not in fo['params'][-1]['t'])
        if sm is None or ref is None or sm.opaque or ref.opaque:
            rep.undecided('%s<%s>(vector)' % (q, T), why_opaque(sm) if sm is not None else 'not found', W + q)
            continue
        thr, v = total(sm)
        settle(rep, '%s<%s> returning a vector never throws' % (q, T), equal(thr, FALSE, [], gdom), W + q)
        settle(rep, '%s<%s> returning a vector rejects exactly negative lengths' % (q, T), equal(okof(v), ge0(n), [], gdom), W + q)
        ok, ok2 = successes(sm), successes(ref)
        if len(ok) != 1 or len(ok2) != 1:
            rep.undecided('%s<%s>(vector)' % (q, T), 'several success paths', W + q)
            continue
        s, v, f = ok[0]
        r1, r2 = rec(s), rec(ok2[0][0])
        rep.check('%s<%s> returning a vector runs the same transfers' % (q, T), [e.name for e, c in r1] == [e.name for e, c in r2], '', W + q)
        if [e.name for e, c in r1] != [e.name for e, c in r2]:
            continue
        m = {NO: n, NY: n}
        ren = {b.args[0]: a.args[0] for (a, _), (b, _) in zip(r1, r2)}
        ren.update({subst(k_, m): v_ for k_, v_ in list(ren.items())})
        want = subst(subst(sel(ok2[0][0].vars['m:output'], (i,)), m), ren)
        arr = fld(v, 'val')
        fs = f + [ge0(i), lt(i, n)]
        settle(rep, '%s<%s> returns one element per input element' % (q, T), equal(tlen(arr), n, f, gdom), W + q)
        settle(rep, '%s<%s> returns the span version\'s output' % (q, T), gf_safe(t, equal(sel(arr, (i,)), want, fs, gdom)), W + q)


def L02(rep):
    rep.level = 'proof'
    P = program('unit.cpp')
    rep.assumptions += ['oblivious transfer hides the choice bits and the message not chosen (emp-toolkit)',
                        'CanBeHashedInto decides closeness to uniform (S04); Randomize is uniform (S03)']
    for t in TYPES:
        for q in ('RunVectorProvider', 'RunValueProvider'):
            rep.seen('functions', C + q + '<' + SHORT[t] + '>')
    for t, S, T in instances():
        guarded(rep, 'secrecy<%s>' % T, W + 'Run*', lambda: secrecy(rep, P, t, S, T))


def secrecy(rep, P, t, S, T):
    x = the_sides(rep, P, t, S, T)
    if x is None:
        return
    sv, sx, (s1, _, f1), (s2, _, f2) = x
    sz = S or SIZE[t]
    bw, st_ = 8 * sz, 16 // sz
    n = NY
    sec = add(fn('log2', n), sym('this.statistical_security_', 'real'))
    hs = bfn('hashable', sec, num(bw))
    f = [z for z in (simp(subst(y, {NO: NY})) for y in f1) if z is not TRUE]
    r1, r2 = rec(s1), rec(s2)
    for e, c in r1:
        c = simp(subst(c, {NO: NY}), f)
        if e.name == 'ot-send_cot':
            settle(rep, 'secrecy<%s>: hash outputs serve as masks only if they are close enough to uniform for the whole vector' % T,
                   equal(tand(c, tnot(hs)), FALSE, f, gdom), W + 'RunVectorProvider')
        elif e.name == 'ot-send':
            p = sym('p', 'num')
            fs = f + [ge0(p), lt(p, subst(e.args[2], {NO: NY}))]
            vs = [simp(lane(simp(sel(e.args[0], (p,)), fs), num(k)), fs) for k in range(st_)]
            oks = [is_fresh(v, p) for v in vs]
            if None in oks and False not in oks and repeated(e, st_, fs):
                oks = [False] * st_
            ok = False if False in oks or len(set(vs)) < len(vs) else (True if all(oks) else None)
            v = next((v for v, o in zip(vs, oks) if o is not True), vs[0])
            rep.check('secrecy<%s>: every lane of every mask is its own fresh random element' % T, ok, 'mask is %s' % show(v)[:300], W + 'RunVectorProvider')
        else:
            rep.check('secrecy<%s>: y enters oblivious transfers only' % T, not uses(e, 'y'), '%s %s' % (e.name, e.loc), W + 'RunVectorProvider')
    for e, c in r2:
        if e.name in ('ot-recv', 'ot-recv_cot'):
            p = sym('p', 'num')
            q, j = sym('q', 'num'), sym('j', 'num')
            ch = sel(e.args[1], (add(scale(q, bw), j),))
            fs = f2 + [ge0(j), lt(j, num(bw)), ge0(q), lt(q, div(e.args[2], num(bw)))]
            ch = simp(ch, fs)
            ch = ch if TT.isbool(ch) else tnot(eq(ch, num(0)))
            settle(rep, 'secrecy<%s>: %s asks for the bits of x in order, once per block' % (T, e.name), equal(ch, bfn('bit', sym('x'), j), fs, gdom), W + 'RunValueProvider')
        else:
            rep.check('secrecy<%s>: x enters oblivious transfers only' % T, not uses(e, 'x'), '%s %s' % (e.name, e.loc), W + 'RunValueProvider')


def uses(e, name):
    for a in e.args:
        if isinstance(a, Term):
            for z in atoms(a):
                if z is sym(name) or z.op == 'fn' and z.args[0] == 'input' and z.args[1] is tstr(name):
                    return True
    return False


def repeated(e, lanes, facts):
    """two lanes of the first transfers always carry the same value"""
    def dom(V, key):
        if key[0] == 'fn' and 'rand' in str(key[1]) or key[0] == 'sel' and 'rand' in str(key):
            return V.h(key, 0, 1 << 128)
        return 40 if key[0] == 'sym' and key[1] in ('n_y', 'n_output') else None
    n, m, vals = 4, 0, {}
    for k in range(30):
        V = evalterm.Val(('mask', k), dom)
        try:
            row = []
            for p in range(n):
                for l in range(lanes):
                    row.append(repr(V.nev(lane(sel(e.args[0], (num(p),)), num(l)), {'#': {}})))
        except (evalterm.NE, RecursionError, TypeError, KeyError):
            continue
        m += 1
        for a in range(len(row)):
            for b in range(a):
                if row[a] == row[b]:
                    vals[a, b] = vals.get((a, b), 0) + 1
        if m >= 6:
            break
    return m >= 4 and any(c == m for c in vals.values())


def is_fresh(v, p):
    """True: a fresh draw, distinct for every transfer p; False: constant or shared between transfers; None: unknown"""
    a, ix = (v.args[0], tuple(v.args[1])) if v.op == 'sel' else (v, ())
    if not rand_name(a):
        if v.op == 'ite' or any(rand_name(z) for z in atoms(v)):
            return None
        return False if not is_opaque(v) else None
    keys = [z for z in a.args[1:] if isinstance(z, Term)][(2 if a.args[0].startswith('arr:') else 0):] + list(ix)
    used = set()
    for z in keys:
        used |= set(atoms(z)) | {z}
    if p not in used:
        return False
    return True if p in keys else None


def rand_name(z):
    return z.op == 'fn' and z.args[0].startswith(('arr:rand', 'arr:ntlrand', 'rand#', 'ntlrand#'))
