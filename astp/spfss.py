"""F01: single-point FSS shares."""
from .check import *
from .load import program
from .engine import okof, okst
from .proto import *
from . import terms as TT

C = NS + 'SPFSSKnownIndex::'
W = 'distributed_vector_ole/spfss_known_index.h SPFSSKnownIndex::'
ROT = NS + 'AllButOneRandomOT::'


def run(P, q, t, npar=None, pred=None, args=None, facts=()):
    b = dict(ring())
    b[ROT + 'RunSenderBatched'] = rot('send')
    b[ROT + 'RunReceiverBatched'] = rot('recv')
    return summary(P, C + q, [t], npar=npar, boundary=b, rings=(GF,), pred=pred, args=args, facts=facts)


def F01(rep):
    rep.level = 'proof'
    P = program('unit.cpp')
    rep.assumptions += ['the random transfer delivers equal elements off the receiver\'s indices (property O01); channels deliver what was sent',
                        'scalar types are commutative rings (G01, G02 for GF(2^128); wrap-around integers; NTL integers)']
    for t in TYPES:
        for q in ('RunValueProviderBatched', 'RunIndexProviderBatched', 'RunValueProvider', 'RunIndexProvider'):
            rep.seen('functions', C + q + '<' + SHORT[t] + '>')
        guarded(rep, 'batched<%s>' % SHORT[t], W + 'Run*Batched', lambda: batched(rep, P, t))
        guarded(rep, 'single<%s>' % SHORT[t], W + 'Run*', lambda: single(rep, P, t))


def fdom(V, key):
    if key[0] == 'sym' and key[1].startswith('n_'):
        return V.h(key, 0, 4) if V.h(('nc', key), 0, 3) == 0 else V.h('nn', 0, 4)
    if key[0] == 'sym' and key[1] in ('j', 'i', 'index'):
        return V.h(key, 0, 4)
    if key[0] == 'sym' and key[1] == 'size':
        return V.h(key, 0, 6)
    return spans_dom(V, key)


def check_roles(rep, what, sv, si, w, extra, wantv, wanti, facts):
    ev, ei = comm(sv, facts, extra), comm(si, facts, extra)
    once = all(c is TRUE and not e.iters for e, c in ev + ei if e.name not in ('flush', 'sync'))
    rep.check('%s: the two sides\' messages match up' % what,
              True if names(ev) == wantv and names(ei) == wanti and once else (None if not once else False),
              'one side: %s, the other: %s' % (names(ev), names(ei)), w)
    # every message is flushed before the function returns
    for who, evs in (('sender', ev), ('receiver', ei)):
        pend = None
        for e, c in evs:
            if e.name in ('send', 'send_data'):
                pend = e
            elif e.name in ('flush',) and c is TRUE:
                pend = None
            elif e.name == 'recv' and pend is not None:
                break
        rep.check('%s: everything the %s sends is flushed before it waits or returns' % (what, who), pend is None,
                  'message sent at %s stays in the buffer' % (pend.loc if pend else ''), w)
    return ev, ei


def batched(rep, P, t):
    T = SHORT[t]
    sv, si = run(P, 'RunValueProviderBatched', t), run(P, 'RunIndexProviderBatched', t)
    if sv is None or si is None:
        return rep.undecided('batched<%s>' % T, 'entry points not found', W)
    for sm, q in ((sv, 'RunValueProviderBatched'), (si, 'RunIndexProviderBatched')):
        if sm.opaque:
            return rep.undecided('%s<%s>' % (q, T), why_opaque(sm), W + q)
    nv, ni, no = sym('n_val_shares', 'nat'), sym('n_indices', 'nat'), sym('n_outputs', 'nat')
    rok = okst(fn('status:rot'))
    for sm, q, good in ((sv, 'RunValueProviderBatched', eq(nv, no)), (si, 'RunIndexProviderBatched', tand(eq(nv, no), eq(nv, ni)))):
        w = W + q
        thr, v = total(sm)
        settle(rep, '%s<%s> never throws' % (q, T), equal(thr, FALSE, [], fdom), w)
        settle(rep, '%s<%s> succeeds exactly for matching sizes and a successful transfer' % (q, T), equal(okof(v), tand(good, rok), [], fdom), w)
        bad = [s for k, s, x in sm.outs if k == 'ret' and comm(s, [tnot(good)], ('rot-send', 'rot-recv'))]
        bad = [s for s in bad if simp(tand(*s.pc), [tnot(good)]) is not FALSE and not unsat(tand(tnot(good), *s.pc), [])]
        rep.check('%s<%s> rejects mismatching sizes before any communication' % (q, T), not bad, 'communicates although sizes differ', w)
    okv, oki = successes(sv), successes(si)
    if len(okv) != 1 or len(oki) != 1:
        return rep.undecided('batched<%s>: success path' % T, 'several success paths', W)
    (s1, _, f1), (s2, _, f2) = okv[0], oki[0]
    ev, ei = check_roles(rep, 'batched<%s>' % T, s1, s2, W, ('rot-send', 'rot-recv'), ['rot-send', 'send'], ['rot-recv', 'recv'], [])
    snd = [e for e, c in ev if e.name == 'send']
    rcv = [e for e, c in ei if e.name == 'recv']
    if len(snd) != 1 or len(rcv) != 1:
        return
    rep.check('batched<%s>: both sides agree on the type of the message' % T, snd[0].args[1] is rcv[0].args[1], '', W)
    j, i = sym('j', 'num'), sym('i', 'num')
    f = list(dict.fromkeys(f1 + f2))
    L = sel(asym('outputs.len'), (j,))
    idx = sel(s2.vars['m:indices'], (j,))
    f += [ge0(j), lt(j, no), ge0(i), lt(i, L), ge0(idx), lt(idx, L)]
    f = [x for x in f if x is not TRUE]
    own = subst(snd[0].args[0], {fn('input', tstr('val_shares'), nv): fn('input', tstr('val_shares of the value provider'), nv)})
    ren = {rcv[0].args[0]: own, tlen(rcv[0].args[0]): tlen(own)}
    a = simp(sel(s1.vars['m:outputs*'], (j, i)), f)
    b = simp(subst(sel(s2.vars['m:outputs*'], (j, i)), ren), f)
    v0 = sel(fn('input', tstr('val_shares of the value provider'), nv), (j,))
    v1 = sel(fn('input', tstr('val_shares'), nv), (j,))
    settle(rep, 'batched<%s>: shares add up to the shared value at the index and to zero elsewhere' % T,
           gfsafe(t, equal(add(a, b), ite(eq(i, idx), add(v0, v1), num(0)), f, fdom, tries=3000)), W)
    # the received message is only read where it has elements
    settle(rep, 'batched<%s>: one message element per output' % T, equal(tlen(snd[0].args[0]), no, f, fdom), W)


def gfsafe(t, res):
    """integer counterexamples say nothing about characteristic 2"""
    if t == GF and res[0] == 'fail':
        return 'undecided', res[1]
    return res


def single(rep, P, t):
    T = SHORT[t]
    for q, spanidx in (('RunValueProvider', 1), ('RunIndexProvider', 2)):
        w = W + q
        for vec in (False, True):
            pred = (lambda fo: not is_span_t(fo['params'][-1]['t'])) if vec else (lambda fo: is_span_t(fo['params'][-1]['t']))
            a = sym('val_share')
            sm = run(P, q, t, pred=pred)
            if sm is None:
                rep.undecided('%s<%s>' % (q, T), 'not found', w)
                continue
            if sm.opaque:
                rep.undecided('%s<%s>' % (q, T), why_opaque(sm), w)
                continue
            ok = successes(sm)
            if len(ok) != 1:
                rep.undecided('%s<%s>' % (q, T), 'several success paths', w)
                continue
            s, v, f0 = ok[0]
            name = '%s<%s>(%s)' % (q, T, 'size' if vec else 'span')
            n = sym('size') if vec else sym('n_output', 'nat')
            i = sym('i', 'num')
            f = f0 + [x for x in [ge0(i), lt(i, n)] if x is not TRUE]
            out = fld(v, 'val') if vec else s.vars['m:output']
            got = simp(sel(out, (i,)), f)
            K = lambda x: fn('rot', num(0), x)
            if q == 'RunValueProvider':
                want = neg(K(i))
            else:
                ix = sym('index')
                f += [ge0(ix), lt(ix, n)]
                got = simp(got, f)
                rc = [e for e, c in comm(s) if e.name == 'recv']
                if len(rc) != 1:
                    rep.undecided(name, 'no single message', w)
                    continue
                b = fresh_bv('b')
                tot = sub(tsum(b, num(0), n, K(b)), K(ix))
                want = ite(eq(i, ix), add(a, sub(sel(rc[0].args[0], (num(0),)), tot)), K(i))
            settle(rep, name + ' is the one-instance batch', gfsafe(t, equal(got, want, f, fdom)), w)


def is_span_t(t):
    return 'Span<' in t
