"""O01, O02: all-but-one random transfer."""
from .check import *
from .load import program
from .engine import okof, okst
from .proto import *
from . import terms as TT
from . import trees

C = NS + 'AllButOneRandomOT::'
W = 'distributed_vector_ole/all_but_one_random_ot.h AllButOneRandomOT::'
N = sym('n_outputs', 'nat')
NI = sym('n_indices', 'nat')
DUAL = {'ot-send': 'ot-recv', 'send_data': 'recv_data', 'send': 'recv', 'ot-recv': 'ot-send', 'recv_data': 'send_data', 'recv': 'send'}


def hashable(eng, e, f, thisn, nodes):
    return bfn('hashable', *[eng.eval(x) for x in nodes])


def run(P, q, t, npar=None, pred=None, args=None, facts=(), extra=None):
    b = dict(ring())
    b.update(trees.boundary())
    b[NS + 'ScalarHelper::CanBeHashedInto'] = hashable
    b.update(extra or {})
    return summary(P, C + q, [t], npar=npar, boundary=b, rings=(GF,), pred=pred, args=args, facts=facts)


def rdom(V, key):
    if key[0] == 'sym' and key[1].startswith('n_'):
        return V.h('nn', 0, 4) if V.h(('nc', key), 0, 3) else V.h(key, 0, 4)
    if key[0] == 'sym' and key[1] in ('j', 'i', 'r', 'index'):
        return V.h(key, 0, 4)
    return spans_dom(V, key)


def resolve(t):
    """leavesof(tree) is what the tree was built for (T01, T03)"""
    for _ in range(4):
        m = {x: x.args[1].args[1] for x in atoms(t) if x.op == 'fn' and x.args[0] == 'leavesof' and x.args[1].op == 'fn' and x.args[1].args[0] in ('tree', 'ptree')}
        if not m:
            return t
        t = subst(t, m)
    return t


_memo = {}


def sides(P, t):
    if t not in _memo:
        _memo[t] = (run(P, 'RunSenderBatched', t), run(P, 'RunReceiverBatched', t))
    return _memo[t]


def O01(rep):
    rep.level = 'proof'
    P = program('unit.cpp')
    rep.assumptions += ['the extended oblivious transfers deliver message choice[p] of pair p, and channels deliver what was sent (emp-toolkit, mpc_utils)',
                        'a tree rebuilt from the right sibling sums and keys equals the original off the missing leaf (T03, T04)',
                        'ceil(log n / log 2) is computed exactly for the sizes used; at most 2^31-1 instances per batch']
    for t in TYPES:
        for q in ('RunSenderBatched', 'RunReceiverBatched', 'RunSender', 'RunReceiver'):
            rep.seen('functions', C + q + '<' + SHORT[t] + '>')
        guarded(rep, 'batched<%s>' % SHORT[t], W + 'Run*Batched', lambda: batched(rep, P, t))
        guarded(rep, 'single<%s>' % SHORT[t], W + 'Run*', lambda: single(rep, P, t))


def the_sides(rep, P, t):
    T = SHORT[t]
    ss, sr = sides(P, t)
    if ss is None or sr is None:
        rep.undecided('batched<%s>' % T, 'entry points not found', W)
        return None
    for sm, q in ((ss, 'RunSenderBatched'), (sr, 'RunReceiverBatched')):
        if sm.opaque:
            rep.undecided('%s<%s>' % (q, T), why_opaque(sm), W + q)
            return None
    a, b = successes(ss), successes(sr)
    if len(a) != 1 or len(b) != 1:
        rep.undecided('batched<%s>: success path' % T, 'several success paths', W)
        return None
    return ss, sr, a[0], b[0]


def lens(j):
    return sel(asym('outputs.len'), (j,))


def rec_facts(s2, j, i):
    idx = sel(s2.vars['m:indices'], (j,))
    return [x for x in (ge0(j), lt(j, N), ge0(i), lt(i, lens(j)), ge0(idx), lt(idx, lens(j))) if x is not TRUE], idx


def delivered(pairs, facts=()):
    """what the receiver's transfers and receptions return, in terms of the sender's messages"""
    m = {}
    for a, b, c in pairs:
        v = b.args[0]
        if a.name == 'ot-send':
            p = fresh_bv('p')
            ch, n = b.args[1:3]
            arr = amap(p, a.args[2], ite(nonzero_bit(sel(ch, (p,))), sel(a.args[1], (p,)), sel(a.args[0], (p,))))
            keys = (v, simp(v, list(facts)))
        else:
            arr = a.args[0]
            keys = (v,)
        if v in m:
            arr = ite(c, arr, m[v])
        for k in keys:
            m[k] = arr
        if a.name != 'ot-send':
            m[tlen(v)] = tlen(arr)
    return m


def nonzero_bit(c):
    if TT.isbool(c):
        return c
    return tnot(eq(c, num(0)))


def rec(s):
    return [(e, c) for e, c in comm(s) if e.name not in ('flush', 'sync')]


def batched(rep, P, t):
    T = SHORT[t]
    x = the_sides(rep, P, t)
    if x is None:
        return
    ss, sr, (s1, _, f1), (s2, _, f2) = x
    j = fresh_bv('j')
    tot = tsum(j, num(0), N, lens(j))
    # ---- success conditions
    sec = None
    for q, sm in (('RunSenderBatched', ss), ('RunReceiverBatched', sr)):
        thr, v = total(sm)
        settle(rep, '%s<%s> never throws' % (q, T), equal(thr, FALSE, [], rdom), W + q)
    v = resolve(total(ss)[1])
    hs = [a for a in atoms(okof(v)) if a.op == 'bfn' and a.args[0] == 'hashable']
    want = bfn('hashable', add(fn('log2', tot), sym('this.statistical_security_', 'real')), *(hs[0].args[2:] if hs else [num(128)]))
    got = okof(v)
    if t in TYPES[:4]:
        # types whose values are no longer than a leaf always pass (S01, S04)
        m = {h: TRUE for h in hs if len(h.args) > 2 and const_of(h.args[2]) == 128}
        got, want = subst(got, m), TRUE
    settle(rep, 'sender<%s> proceeds exactly if every leaf can be reduced with the required statistical security' % T,
           equal(got, want, [], rdom), W + 'SendTrees')
    if hs and len(hs[0].args) > 2 and const_of(hs[0].args[2]) is not None:
        rep.check('sender<%s>: the hashed values are the 128-bit leaves' % T, const_of(hs[0].args[2]) == 128, show(hs[0]), W + 'SendTrees')
    v = resolve(total(sr)[1])
    idx = sel(fn('input', tstr('indices'), NI), (j,))
    good = tand(eq(N, NI), forall_(j, N, tand(ge0(idx), tor(lt(idx, lens(j)), eq(lens(j), num(0))))))
    settle(rep, 'receiver<%s> accepts exactly matching sizes and valid indices' % T, equal(resolve(okof(v)), good, [], rdom), W + 'RunReceiverBatched')
    bad = []
    for k, s, v in sr.outs:
        if k != 'ret' or under(okof(v), list(s.pc)) is TRUE or not rec(s):
            continue
        if not unsat(resolve(tand(tnot(okof(v)), *s.pc)), []):
            bad.append(s)
    rep.check('receiver<%s> rejects bad arguments before any communication' % T, not bad, 'communicates although the arguments are invalid', W + 'RunReceiverBatched')
    # ---- messages
    r1, r2 = rec(s1), rec(s2)
    f = [x for x in f1 + f2 if x is not TRUE]
    ps = match_events(rep, 'batched<%s>: the two sides\' messages match up' % T, r1, r2, DUAL, f, rdom, W, resolve, ('sender', 'receiver'))
    if ps is None:
        return
    for a, b, c in ps:
        la = a.args[2] if a.name == 'ot-send' else tlen(a.args[0])
        lb = b.args[2] if b.name == 'ot-recv' else tlen(b.args[0])
        settle(rep, 'batched<%s>: both sides of %s have the same length' % (T, a.name), equal(la, lb, f + [c], rdom), W)
    for who, s in (('sender', s1), ('receiver', s2)):
        p = sent_is_flushed([(e, resolve(c)) for e, c in comm(s)], f, rdom, at_end=True)
        rep.check('batched<%s>: everything the %s sends is flushed' % (T, who), not p, 'message stays in the buffer', W)
    # ---- the receiver's trees are the sender's off the index
    j, i, r = sym('j', 'num'), sym('i', 'num'), sym('r', 'num')
    fs, idx = rec_facts(s2, j, i)
    f = f + fs
    f = [x for x in f if x is not TRUE]
    cs = simp(resolve(simp(sel(s1.vars['m:outputs*'], (j, i)), f)), f)
    old1, old2 = ({asym('outputs*'): asym('earlier contents of the sender\'s outputs' + x)} for x in ('', ' (2)'))
    settle(rep, 'batched<%s>: the sender writes every element of its outputs' % T, equal(subst(cs, old1), subst(cs, old2), f, rdom), W + 'RunSenderBatched')
    cs = subst(cs, {asym('outputs*'): asym('earlier contents of the sender\'s outputs')})
    cr = simp(resolve(simp(sel(s2.vars['m:outputs*'], (j, i)), f)), f)
    ts = {x for x in atoms(cs) if x.op == 'fn' and x.args[0] == 'tree'}
    tr = {x for x in atoms(cr) if x.op == 'fn' and x.args[0] == 'ptree'}
    if len(ts) != 1 or len(tr) != 1:
        res = equal(cs, cr, f + [tnot(eq(i, idx))], rdom)
        return settle(rep, 'batched<%s>: equal elements off the index' % T, res if res[0] == 'fail' else ('undecided', 'outputs do not come from one tree each'), W)
    ts, tr = ts.pop(), tr.pop()
    wt = W + 'SendTrees/ReceiveTrees'
    settle(rep, 'batched<%s>: tree k has one leaf per element of output k (sender)' % T, equal(ts.args[1], lens(j), f, rdom), wt)
    settle(rep, 'batched<%s>: tree k has one leaf per element of output k (receiver)' % T, equal(tr.args[1], lens(j), f, rdom), wt)
    settle(rep, 'batched<%s>: trees are binary' % T, equal(tlen(ts.args[3]), num(2), f, rdom), wt)
    settle(rep, 'batched<%s>: tree k is rebuilt without leaf indices[k]' % T, equal(tr.args[2], idx, f, rdom), wt)
    E = trees.clog(num(2), lens(j))
    fr = f + [ge0(r), lt(r, E)]
    # something is transferred
    for e, cnd in r1:
        if e.name == 'ot-send' and cnd is not TRUE:
            fr.append(simp(ge0(sub(e.args[2], num(1))), f))
    dv = delivered(ps, fr)
    c = sym('c', 'num')
    fk = f + [ge0(c), lt(c, num(2))]
    settle(rep, 'batched<%s>: the receiver uses the sender\'s keys' % T, equal(simp(subst(sel(tr.args[4], (c,)), dv), fk), sel(ts.args[3], (c,)), fk, rdom), wt)
    dig = div(idx, TT.pow2(sub(sub(E, num(1)), r)))
    bit = sub(dig, scale(div(dig, num(2)), 2))
    col = sub(num(1), bit)
    ent = sel(sel(tr.args[3], (r,)), (col,))
    ent = simp(subst(simp(ent, fr), dv), fr)
    want = fn('sx', ts, r, col)
    half, res = div(dig, num(2)), ('ok', '')
    for b in (0, 1):
        # dig = 2*half + b
        q = sym('half', 'nat')
        m = {dig: add(scale(q, 2), num(b)), half: q}
        rb = equal(simp(subst(ent, m), fr), subst(want, m), fr, rdom)
        if rb[0] != 'ok':
            res = rb
            break
    if res[0] != 'ok':
        full = equal(ent, want, fr, rdom)
        res = full if full[0] == 'fail' else (res if res[0] == 'undecided' else ('undecided', res[1]))
    settle(rep, 'batched<%s>: for every level the receiver has the sum of the siblings of the missing path' % T, res, wt)
    settle(rep, 'batched<%s>: one sum per level below the root' % T, equal(tlen(tr.args[3]), E, f, rdom), wt)
    cr2 = subst(cr, {fn('leaf', tr, i): fn('leaf', ts, i)})
    settle(rep, 'batched<%s>: equal elements off the index' % T, equal(cr2, cs, f + [tnot(eq(i, idx))], rdom), wt)
    settle(rep, 'batched<%s>: outputs[k][i] comes from leaf i of tree k' % T,
           ('ok', '') if fn('leaf', ts, i) in atoms(cs) and not any(a.op == 'fn' and a.args[0] == 'leaf' and a is not fn('leaf', ts, i) for a in atoms(cs))
           else ('fail', show(cs)[:300]), wt)


def O02(rep):
    rep.level = 'proof'
    P = program('unit.cpp')
    rep.assumptions += ['RAND_bytes yields independent uniform bytes; the oblivious transfers hide the choice from the sender and the other message from the receiver',
                        'the leaf on the missing path is hidden by the tree construction (each level\'s sums decided by T02)']
    for t in TYPES:
        for q in ('SendTrees', 'ReceiveTrees'):
            rep.seen('functions', C + q + '<' + SHORT[t] + '>')
        guarded(rep, 'secrecy<%s>' % SHORT[t], W + 'SendTrees', lambda: secrecy(rep, P, t))


def is_draw(v, *vary):
    """a fresh random value, a different one for every value of the given indices"""
    if v.op == 'sel':
        return v.args[0].op == 'fn' and v.args[0].args[0] == 'arr:rand' and all(any(x in atoms(y) for y in v.args[1] + v.args[0].args[3:]) for x in vary)
    return v.op == 'fn' and v.args[0].startswith('rand#') and all(any(x in atoms(y) for y in v.args[1:]) for x in vary)


def secrecy(rep, P, t):
    T = SHORT[t]
    x = the_sides(rep, P, t)
    if x is None:
        return
    ss, sr, (s1, _, f1), (s2, _, f2) = x
    j, i, r, c = sym('j', 'num'), sym('i', 'num'), sym('r', 'num'), sym('c', 'num')
    fs, idx = rec_facts(s2, j, i)
    f = [x for x in f1 + f2 + fs if x is not TRUE]
    w = W + 'SendTrees'
    cs = simp(resolve(simp(sel(s1.vars['m:outputs*'], (j, i)), f)), f)
    ts = {x for x in atoms(cs) if x.op == 'fn' and x.args[0] == 'tree'}
    if len(ts) != 1:
        return rep.undecided('secrecy<%s>' % T, 'outputs do not come from one tree each', w)
    ts = ts.pop()
    op = lambda v: None if is_opaque(v) else False
    rep.check('sender<%s>: every tree grows from its own fresh random seed' % T, is_draw(ts.args[2], j) or op(ts.args[2]), 'seed of tree j: %s' % show(ts.args[2])[:200], w)
    k = simp(sel(ts.args[3], (c,)), f + [ge0(c), lt(c, num(2))])
    k0, k1 = simp(sel(ts.args[3], (num(0),)), f), simp(sel(ts.args[3], (num(1),)), f)
    rep.check('sender<%s>: left and right keys are independent random values' % T, (is_draw(k0) and is_draw(k1) and k0 is not k1) or op(k), 'keys %s, %s' % (show(k0)[:80], show(k1)[:80]), w)
    E = trees.clog(num(2), lens(j))
    r1, r2 = rec(s1), rec(s2)
    # the sender's messages: the two sums of a level, the keys, nothing else
    for e, cnd in r1:
        if e.name == 'ot-send':
            p = psum(j, r)
            fr = f + [ge0(r), lt(r, E), simp(ge0(sub(e.args[2], num(1))), f)]
            for b in (0, 1):
                m = simp(resolve(simp(sel(e.args[b], (p,)), fr)), fr)
                v = add(scale(sel(m, (num(1),)), 1 << 64), sel(m, (num(0),)))
                settle(rep, 'sender<%s>: the pair of a level is the two sums of that level (%s)' % (T, 'left' if b == 0 else 'right'),
                       equal(simp(v, fr), fn('sx', ts, r, num(b)), fr, rdom), w)
        else:
            v = e.args[0]
            el = simp(sel(v, (c,)), f + [ge0(c), lt(c, tlen(v))]) if isarr(v) else v
            leak = [a for a in atoms(el) if a.op == 'fn' and a.args[0] in ('tree', 'leaf', 'sx', 'ptree')] or ts.args[2] in atoms(el)
            rep.check('sender<%s>: apart from the transfers, only the keys are sent' % T, (el is k or const_of(tlen(v)) == 1 and el in (k0, k1)) and not leak or (None if is_opaque(el) else False), show(el)[:200], w)
    names_ = [e.name for e, c_ in r1]
    rep.check('sender<%s>: sends nothing but one transfer and its keys' % T, set(names_) <= {'ot-send', 'send_data'} and names_.count('ot-send') == 1 or
              (None if set(names_) <= {'ot-send', 'send_data', 'send'} else False), str(names_), w)
    w = W + 'ReceiveTrees'
    for e, cnd in r2:
        if e.name == 'ot-recv':
            p = psum(j, r)
            fr = f + [ge0(r), lt(r, E), simp(ge0(sub(e.args[2], num(1))), f)]
            ch = nonzero_bit(simp(sel(e.args[1], (p,)), fr))
            half, q = None, sym('half', 'nat')
            dig = div(idx, TT.pow2(sub(sub(E, num(1)), r)))
            res = ('ok', '')
            for b in (0, 1):
                m = {dig: add(scale(q, 2), num(b)), div(dig, num(2)): q}
                rb = equal(simp(subst(ch, m), fr), tbool_(b == 0), fr, rdom)
                if rb[0] != 'ok':
                    res = rb
            settle(rep, 'receiver<%s>: the choice at a level is the side away from the missing leaf' % T, res, w)
    sent = [e.name for e, c_ in r2 if e.name in ('send', 'send_data', 'ot-send')]
    rep.check('receiver<%s>: sends nothing but its choices' % T, not sent, str(sent), w)


def tbool_(b):
    return TRUE if b else FALSE


def psum(j, r):
    b = fresh_bv('ps')
    return add(r, tsum(b, num(0), j, ite(eq(lens(b), num(0)), num(0), trees.clog(num(2), lens(b)))))


def forall_(b, n, c):
    return TT.forall(b, num(0), n, c)


def single(rep, P, t):
    T = SHORT[t]

    def rec_sender(eng, e, f, thisn, nodes):
        a = as_span_of(eng, nodes[0])
        eng.event('batch', ('S', a), e)
        return fn('status:batch')

    def rec_receiver(eng, e, f, thisn, nodes):
        eng.event('batch', ('R', as_span_of(eng, nodes[0]), as_span_of(eng, nodes[1])), e)
        return fn('status:batch')
    ex = {C + 'RunSenderBatched': rec_sender, C + 'RunReceiverBatched': rec_receiver}
    for q in ('RunSender', 'RunReceiver'):
        sm = run(P, q, t, extra=ex)
        w = W + q
        if sm is None or sm.opaque:
            rep.undecided('%s<%s>' % (q, T), 'not found' if sm is None else why_opaque(sm), w)
            continue
        thr, v = total(sm)
        settle(rep, '%s<%s> never throws' % (q, T), equal(thr, FALSE, [], rdom), w)
        n, ix = sym('n_output', 'nat'), sym('index')
        good = TRUE if q == 'RunSender' else tand(ge0(ix), tor(lt(ix, n), eq(n, num(0))))
        settle(rep, '%s<%s> runs a batch of one%s' % (q, T, '' if good is TRUE else ' for a valid index and fails otherwise'),
               equal(okof(v), tand(good, okst(fn('status:batch'))), [], rdom), w)
        for k, s, v in sm.outs:
            ev = [e for e in s.events if e.name == 'batch']
            for e in ev:
                a = e.args[-1]
                okk = const_of(tlen(a)) == 1 and isarr(a)
                el = sel(a, (num(0),)) if okk else None
                okk = okk and el.op == 'span' and el.args[3] is n and const_of(el.args[2]) == 0 and el.args[0] == 'm:output'
                rep.check('%s<%s> passes its output span' % (q, T), True if okk else None, show(a)[:200], w)
                if q == 'RunReceiver':
                    ia = e.args[1]
                    settle(rep, '%s<%s> passes its index' % (q, T), equal(sel(ia, (num(0),)), ix, [], rdom), w)


def as_span_of(eng, node):
    from .libmodel import as_span
    return eng.span_value(as_span(eng, node))
