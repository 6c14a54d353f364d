"""V02-V05: failures, code generator, parameters and single use of the vector OLE generator."""
from .vole import *
from .vole import H, NC, NS_, NN, DELTA
from .induct import parts, run_loops

D = NS + 'DistributedVectorOLE::'
ROLES = (('sender', 'PrecomputeSender', 'RunSender', 1), ('receiver', 'PrecomputeReceiver', 'RunReceiver', 2))


def got(rep, sm, what, w):
    if sm is None or sm.opaque:
        rep.undecided(what, why_opaque(sm) if sm is not None else 'not found', w)
        return False
    return True


def unchanged(a, b, drop=()):
    """both objects agree in every field"""
    if a.op != 'obj' or b.op != 'obj':
        return TRUE if a is b else None
    fb = dict(b.args[1])
    bad = [k for k, x in a.args[1] if k not in drop and fb.get(k) is not x]
    return TRUE if not bad else bad


def rets(sm, facts):
    """possible outcomes under the facts, except those that throw"""
    return [(s, v) for k, s, v in sm.outs if k == 'ret' and not unsat(tand(*s.pc), list(facts))]


# ------------------------------------------------------------------------------------------ V02
def fail_pre(rep, P, t, tab):
    T = SHORT[t]
    out, seed, noise = tab
    batch = sym('batch_size')
    K = len(out)
    for role, q, _, npar in ROLES:
        w = H + q
        th = party(P, t, role)
        # refused batch sizes
        f = [lt(batch, num(1))]
        sm = summary(P, cls(t) + q, npar=npar, boundary=pre_boundary(t), rings=(GF,), this_init=th, facts=f, unroll=K + 2)
        if not got(rep, sm, '%s<%s>: batch sizes below 1' % (q, T), w):
            continue
        for s, v in rets(sm, f):
            fs = f + list(s.pc)
            settle(rep, '%s<%s> refuses batch sizes below 1' % (q, T), equal(okof(v), FALSE, fs, vdom), w)
            ev = [e for e, c in comm(s, fs, ('common', 'expand', 'g-vec', 'g-val', 'update'))]
            rep.check('%s<%s> sends and receives nothing for a refused batch size' % (q, T), not ev, str([e.name for e in ev]), w)
            u = unchanged(th, s.vars['this'])
            rep.check('%s<%s> leaves the object alone for a refused batch size' % (q, T), u is TRUE, 'changes %s' % u, w)
        settle(rep, '%s<%s> does not throw for a refused batch size' % (q, T), equal(total(sm)[0], FALSE, f, vdom), w)
        # failing steps
        th = setfld(th, role + '_precomputation_done_', TRUE)
        base = [ge0(sub(batch, num(1)))] + buckets_facts(noise)
        need = lambda i: add(batch, num(seed[i]), fn('nb', num(noise[i])))
        for k in range(K):
            f = base + [tnot(ge0(sub(num(out[i]), need(i)))) for i in range(min(k, K - 1))] + ([ge0(sub(num(out[k]), need(k)))] if k < K - 1 else [])
            dom = stage_dom(tab, k)
            sm = summary(P, cls(t) + q, npar=npar, boundary=pre_boundary(t), rings=(GF,), this_init=th, facts=f, unroll=K + 2)
            name = '%s<%s>, %d expansions' % (q, T, k)
            if not got(rep, sm, name, w):
                break
            n = 0
            for s, v in rets(sm, f):
                o = simp(okof(v), f + list(s.pc))
                if o is TRUE:
                    continue
                n += 1
                x = s.vars['this']
                if unchanged(th, x) is TRUE:
                    rep.add(name + ': failure %d leaves the object as it was' % n, 'ok', '', w)
                    continue
                bad = tnot(fld(x, role + '_precomputation_done_'))
                settle(rep, name + ': after failure %d a new precomputation is required' % n, equal(tor(o, bad), TRUE, f + list(s.pc), dom), w)
            # success only if every step succeeded
            sts = sorted({a for k_, s, v in sm.outs for c in s.pc for a in atoms(c) if a.op == 'fn' and a.args[0].startswith('status:')}, key=lambda a: a.id)
            steps = {e.name for k_, s, v in sm.outs for e in s.events} & {'common', 'expand', 'g-vec', 'g-val'}
            for st in {'status:' + x for x in steps}:
                g = f + [tnot(okst(fn(st)))]
                for s, v in rets(sm, g):
                    settle(rep, '%s: fails when %s does' % (name, st[7:]), equal(okof(v), FALSE, g + list(s.pc), dom), w)


def fail_run(rep, P, t):
    T = SHORT[t]
    size = sym('size')
    for role, pq, q, _ in ROLES:
        w = H + q
        for done in (TRUE, FALSE):
            th = setfld(party(P, t, role), role + '_precomputation_done_', done)
            name = '%s<%s>%s' % (q, T, '' if done is TRUE else ' before precomputing')
            f = [ge0(neg(add(size, num(1))))]
            sm = summary(P, cls(t) + q, npar=1, boundary=run_boundary(t), rings=(GF,), this_init=th, facts=f)
            if not got(rep, sm, name + ': negative sizes', w):
                continue
            settle(rep, name + ' does not throw for a negative size', equal(total(sm)[0], FALSE, f, vdom), w)
            for s, v in rets(sm, f):
                fs = f + list(s.pc)
                ev = [e for e, c in comm(s, fs, ('expand', 'precompute'))]
                if done is FALSE and [e.name for e in ev] == ['precompute']:
                    continue        # refused by the precomputation
                settle(rep, name + ' refuses negative sizes', equal(okof(v), FALSE, fs, vdom), w)
                rep.check(name + ' sends and receives nothing for a negative size', not ev, str([e.name for e in ev]), w)
                u = unchanged(th, s.vars['this'])
                rep.check(name + ' leaves the object alone for a negative size', u is TRUE, 'changes %s' % u, w)
            if done is FALSE:
                f = [ge0(size), tnot(okst(fn('status:precompute')))]
                what = 'the precomputation'
            else:
                f = [ge0(size), tnot(okst(fn('status:expand'))), ge0(sub(sub(size, NC), num(1)))]
                what = 'an expansion'
            sm = summary(P, cls(t) + q, npar=1, boundary=run_boundary(t), rings=(GF,), this_init=th, facts=f)
            if not got(rep, sm, name + ': failures', w):
                continue
            for s, v in rets(sm, f):
                fs = f + list(s.pc)
                pc = tand(*[run_loops(c, f) for c in s.pc])
                o = simp(okof(run_loops(v, f)), f)
                r = ('ok', '') if unsat(o, f) or unsat(pc, f) else equal(okof(v), FALSE, fs, vdom)
                settle(rep, '%s fails when %s does' % (name, what), r, w)


def fail_expand(rep, P, t):
    """a failing expansion adds nothing to the caches"""
    T = SHORT[t]
    o, nv, nm = sym('output_size'), sym('new_vole_seed_size'), sym('new_mpfss_seed_size')
    pre = [ge0(sub(o, num(1))), ge0(nv), ge0(nm), ge0(sub(fn('nb', NN), num(1))), ge0(sub(NN, num(1)))]
    for role, q, st in (('sender', 'ExpandSender', 'status:mp-index'), ('receiver', 'ExpandReceiver', 'status:mp-value')):
        w = H + q
        th = party(P, t, role, m=(NS_, o))
        sm = summary(P, cls(t) + q, npar=3, boundary=base_boundary(t), rings=(GF,), this_init=th)
        if not got(rep, sm, '%s<%s>: failures' % (q, T), w):
            continue
        f = pre + [tnot(okst(fn(st))), okst(fn('status:rng', NN))]
        for s, v in rets(sm, f):
            fs = f + list(s.pc)
            settle(rep, '%s<%s> fails when the multi-point scheme does' % (q, T), equal(okof(v), FALSE, fs, vdom), w)
            for x in (('u', 'v') if role == 'sender' else ('w',)):
                a = fld(fld(s.vars['this'], role + '_cached_'), x)
                b = fld(fld(th, role + '_cached_'), x)
                settle(rep, '%s<%s>: a failed expansion adds nothing to the cache (%s)' % (q, T, x), equal(ge0(sub(tlen(b), tlen(a))), TRUE, fs, vdom), w)


def V02(rep):
    rep.level = 'proof'
    P = program('unit.cpp')
    tab = [table(P, x) for x in TABLES]
    if any(not isinstance(x, list) for x in tab) or len({len(x) for x in tab}) != 1:
        return rep.undecided('precompute', 'parameter tables not found or of different lengths', H)
    for t in TYPES:
        for r in ROLES:
            rep.seen('functions', cls(t) + r[1])
            rep.seen('functions', cls(t) + r[2])
        guarded(rep, 'failing precomputation<%s>' % SHORT[t], H + 'Precompute*', lambda: fail_pre(rep, P, t, tab))
        guarded(rep, 'failing runs<%s>' % SHORT[t], H + 'Run*', lambda: fail_run(rep, P, t))
        guarded(rep, 'failing expansions<%s>' % SHORT[t], H + 'Expand*', lambda: fail_expand(rep, P, t))


# ------------------------------------------------------------------------------------------ V03
RANDOM = ('arr:rand', 'arr:ntlrand')


def code(rep, P, t, nonzeros):
    T = SHORT[t]
    w = H + 'PrecomputeCommon'
    sm = summary(P, cls(t) + 'PrecomputeCommon', boundary=code_boundary(t), rings=(GF,))
    rep.seen('functions', cls(t) + 'PrecomputeCommon')
    if not got(rep, sm, 'PrecomputeCommon<%s>' % T, w):
        return
    o, vs, nn, sec = sym('output_size'), sym('this.vole_seed_size_'), sym('this.num_noise_indices_'), sym('this.statistical_security_', 'real')
    me, peer = fn('chan_get_id'), fn('chan_get_peer_id')
    lower, higher = lt(me, peer), lt(peer, me)
    n = mul(num(nonzeros), o)
    pre = [ge0(sub(o, num(1))), ge0(sub(vs, num(1))), ge0(sub(nn, num(1))), okst(fn('status:update'))]
    th0 = sm.init['this']
    oks = {}
    for side, c in (('lower', lower), ('higher', higher)):
        f = pre + [c, okst(fn('status:rng', n))]
        outs = [(s, v) for s, v in rets(sm, f) if not under_false(okof(v), f + list(s.pc))]
        if len(outs) != 1:
            return rep.undecided('PrecomputeCommon<%s>: success path (%s id)' % (T, side), '%d paths' % len(outs), w)
        oks[side] = (outs[0], f)
    # the hash guard
    (s, v), f = oks['lower']
    hs = sorted({a for c in s.pc for a in atoms(c) if a.op == 'bfn' and a.args[0] == 'hashable'}, key=lambda a: a.id)
    if not hs:
        if any(is_opaque(c) for c in s.pc):
            rep.undecided('PrecomputeCommon<%s>: guard' % T, 'conditions not in closed form', w)
        else:
            rep.add('PrecomputeCommon<%s>: code elements are refused unless 128 random bits hash close enough to uniform' % T, 'fail', 'no such check on the success path', w)
    for h in hs:
        settle(rep, 'PrecomputeCommon<%s>: the hash guard leaves the statistical security for all elements together' % T,
               equal(tand(eq(h.args[1], add(sec, fn('log2', n))), eq(h.args[2], num(128))), TRUE, f, vdom), w)
        for x, g in oks.values():
            rep.check('PrecomputeCommon<%s>: success requires the hash guard' % T, unsat(tand(*x[0].pc, tnot(h)), list(g)), show(h)[:200], w)
    # the two parties
    seeds, calls, ends = {}, {}, {}
    for side in ('lower', 'higher'):
        (s, v), f = oks[side]
        f = f + list(s.pc)
        ev = [e for e, c in comm(s, f) if e.name != 'flush']
        if any(e.iters for e in ev):
            return rep.undecided('PrecomputeCommon<%s>: messages' % T, 'messages in a loop', w)
        calls[side] = ev
        rs = [e for e in s.events if e.name == 'rng-seed']
        if len(rs) != 1 or rs[0].iters:
            return rep.undecided('PrecomputeCommon<%s>: generator' % T, 'not one generator', w)
        seeds[side] = (simp(rs[0].args[0], f), rs[0].args[1])
        up = [e for e in s.events if e.name == 'update']
        if len(up) == 1 and not up[0].iters:
            settle(rep, 'PrecomputeCommon<%s> prepares the buckets for the noise positions in the output (%s id)' % (T, side),
                   equal(tand(eq(up[0].args[0], o), eq(up[0].args[1], nn)), TRUE, f, vdom), w)
        else:
            rep.undecided('PrecomputeCommon<%s>: buckets' % T, '%d updates' % len(up), w)
        g = fld(s.vars['this'], 'code_generator_')
        ends[side] = g
        settle(rep, 'PrecomputeCommon<%s>: the code has one row per seed element and one column per output element (%s id)' % (T, side),
               equal(tand(eq(fld(g, 'rows'), vs), eq(fld(g, 'cols'), o)), TRUE, f, vdom), w)
        settle(rep, 'PrecomputeCommon<%s> succeeds (%s id)' % (T, side), equal(okof(v), TRUE, f, vdom), w)
        u = unchanged(th0, s.vars['this'], ('code_generator_',))
        u = u if u is TRUE else [x for x in u if x not in ('channel_', 'mpfss_')] or TRUE
        rep.check('PrecomputeCommon<%s> changes nothing else (%s id)' % (T, side), u is TRUE, 'changes %s' % u, w)
    a, b = calls['lower'], calls['higher']
    mirror = {'send': 'recv', 'recv': 'send'}
    good = [mirror.get(e.name, e.name) for e in a] == [e.name for e in b] and all(x.args[1] is y.args[1] for x, y in zip(a, b))
    rep.check('PrecomputeCommon<%s>: what one party sends the other receives' % T, good, '%s / %s' % ([e.name for e in a], [e.name for e in b]), w)
    if not good:
        return
    m = {}
    for x, y in zip(a, b):
        snd, rcv = (x, y) if x.name == 'send' else (y, x)
        m[rcv.args[0]] = snd.args[0]
        m[tlen(rcv.args[0])] = tlen(snd.args[0])
    ln = [eq(x, y) for x, y in m.items() if x.op == 'fn' and x.args[0].startswith('recvlen')]
    conv = lambda x: subst(subst(x, {k: z for k, z in m.items() if not k.args[0].startswith('recvlen')}), {k: z for k, z in m.items() if k.args[0].startswith('recvlen')})
    s1, s2 = (conv(seeds[x][0]) for x in ('lower', 'higher'))
    k = sym('k', 'num')
    fs = oks['lower'][1][:-2]
    name = 'PrecomputeCommon<%s>: ' % T
    settle(rep, name + 'both parties seed the generator alike', equal(tand(eq(tlen(s1), num(32)), eq(tlen(s2), num(32))), TRUE, fs, vdom), w)
    settle(rep, name + 'both parties seed the generator with the same bytes', equal(sel(s1, (k,)), sel(s2, (k,)), fs + [ge0(k), lt(k, num(32))], vdom), w)
    is_random(rep, name + 'the seed is fresh randomness', s1, num(32), fs, w)
    # everything after the seed
    dep = lambda x: any(y is me or y is peer or y.op == 'fn' and y.args[0].split('#')[0] in ('arr:rand', 'arr:recv', 'recvlen', 'arr:ntlrand') for y in atoms(x))
    f1, f2 = oks['lower'][1] + list(oks['lower'][0][0].pc), oks['higher'][1] + list(oks['higher'][0][0].pc)
    draws = {}
    for side, f in (('lower', f1), ('higher', f2)):
        L = []
        for e in oks[side][0][0].events:
            if e.name in ('rng', 'draw'):
                cn = simp(e.cond, f)
                if cn is FALSE:
                    continue
                L.append((e, cn))
        draws[side] = L
    la, lb = draws['lower'], draws['higher']

    def norm(e, c, f):
        ren = {x[0]: mk_bv(i) for i, x in enumerate(e.iters)}
        return (e.name, tuple(subst(simp(y, f), ren) for x in e.iters for y in x[1:]), tuple(subst(simp(y, f), ren) for y in e.args), subst(c, ren))
    na, nb_ = [norm(e, c, f1) for e, c in la], [norm(e, c, f2) for e, c in lb]
    if na == nb_ and not any(dep(y) for x in na for z in x[1:] for y in (z if isinstance(z, tuple) else (z,))):
        rep.add(name + 'both parties draw the same sequence', 'ok', '', w)
    elif [x[0] for x in na] != [x[0] for x in nb_]:
        rep.add(name + 'both parties draw the same sequence', 'fail', '%s / %s' % ([x[0] for x in na], [x[0] for x in nb_]), w)
    else:
        # fail if a bound differs
        bad = None
        for x, y in zip(na, nb_):
            for p, q in zip(x[1], y[1]):
                r = equal(p, q, fs, vdom)
                if r[0] == 'fail':
                    bad = r[1]
            if bad is None and (dep(x[3]) or dep(y[3])):
                # the other party sees its own id and ours the other way round
                z = {mk_bv(i): sym('n%d' % i, 'nat') for i in range(8)}
                r = equal(subst(x[3], z), subst(subst(y[3], {me: peer, peer: me}), z), [lower], vdom)
                if r[0] == 'fail':
                    bad = '%s at one party only: %s' % (x[0], r[1])
        rep.add(name + 'both parties draw the same sequence', 'fail' if bad else 'undecided', bad or 'not comparable', w)
    g1, g2 = (simp(fld(ends[x], 'cells'), f) for x, f in (('lower', f1), ('higher', f2)))
    i, j = sym('row', 'num'), sym('p', 'num')
    fc = fs + [ge0(i), lt(i, vs), ge0(j), lt(j, o)]
    if g1 is g2 and not dep(g1):
        rep.add(name + 'both parties compute the same code', 'ok', '', w)
    else:
        c1, c2 = conv(sel(g1, (i, j))), conv(sel(g2, (i, j)))
        if dep(c1) or dep(c2):
            c1, c2 = simp(c1, fc + [lower]), simp(c2, fc + [higher])
        settle(rep, name + 'both parties compute the same code', equal(c1, c2, fc, vdom), w)
    shape(rep, name, g1, f1, o, vs, nonzeros, la, w)


_bvs = {}


def mk_bv(i):
    if i not in _bvs:
        _bvs[i] = fresh_bv('n')
    return _bvs[i]


def shape(rep, name, g, f, o, vs, nonzeros, draws, w):
    """every column gets `nonzeros` elements in rows drawn from all of the seed, each from two words of its own"""
    if g.op != 'w':
        return rep.undecided(name + 'shape of the code', show(g)[:200], w)
    base, ws = g.args[0], list(g.args[1])
    if show(base) != 'zeromat' or len(ws) != 1:
        return rep.undecided(name + 'shape of the code', show(g)[:200], w)
    rs, cond, ix, kind, val = ws[0]
    if len(rs) != 2 or cond is not TRUE or len(ix) != 2 or kind != 'set':
        return rep.undecided(name + 'shape of the code', show(g)[:200], w)
    col = ix[1]
    outer = [r for r in rs if r[0] is col]
    if len(outer) != 1:
        return rep.undecided(name + 'shape of the code', 'columns are %s' % show(col)[:100], w)
    outer = outer[0]
    inner = [r for r in rs if r is not outer][0]
    settle(rep, name + 'every column of the code is filled', equal(tand(eq(outer[1], num(0)), eq(outer[2], o)), TRUE, f, vdom), w)
    cs = sym('col', 'num')
    settle(rep, name + 'every column has the prescribed number of nonzeros',
           equal(subst(sub(inner[2], inner[1]), {col: cs}), num(nonzeros), f + [ge0(cs), lt(cs, o)], vdom), w)
    dr = [e for e, c in draws if e.name == 'draw']
    row = ix[0]
    mine = [e for e in dr if row.op == 'fn' and e.args[2].op == 'fn' and e.args[2].args[0] == row.args[0]]
    if len(mine) != 1 or set(row.args[1:]) != {outer[0], inner[0]}:
        if not atoms(row) or not any(a.op == 'fn' and '#' in str(a.args[0]) for a in atoms(row)):
            rep.add(name + 'rows are drawn at random', 'fail' if not is_opaque(row) else 'undecided', 'row %s' % show(row)[:200], w)
        else:
            rep.undecided(name + 'rows are drawn at random', 'row %s' % show(row)[:200], w)
    else:
        settle(rep, name + 'every row of the seed can be drawn, and no other',
               equal(tand(eq(mine[0].args[0], num(0)), eq(mine[0].args[1], sub(vs, num(1)))), TRUE, f, vdom), w)
    if val.op != 'fn' or val.args[0] != 'element':
        return rep.undecided(name + 'elements', show(val)[:200], w)
    words = sorted({a for a in atoms(val.args[1]) if a.op == 'fn' and a.args[0].startswith('rng#')}, key=lambda a: a.id)
    if len(words) == 0 and not is_opaque(val):
        return rep.add(name + 'elements are hashed from random words', 'fail', show(val)[:200], w)
    if len(words) == 2:
        a, b = words
        r1 = equal(val.args[1], add(mul(num(1 << 64), a), b), f)
        r2 = equal(val.args[1], add(mul(num(1 << 64), b), a), f)
        if 'ok' in (r1[0], r2[0]):
            rep.add(name + 'elements are hashed from two different words', 'ok', '', w)
        else:
            rep.add(name + 'elements are hashed from two different words', 'fail' if r1[0] == r2[0] == 'fail' else 'undecided', r1[1], w)
    elif len(words) == 1:
        rep.add(name + 'elements are hashed from two different words', 'fail' if not is_opaque(val) else 'undecided', show(val)[:200], w)
    else:
        rep.undecided(name + 'elements are hashed from two different words', show(val)[:200], w)
    # no word is used for two elements
    c2, i2 = fresh_bv('c'), fresh_bv('i')
    for x in words:
        ixs = x.args[1:]
        other = [subst(y, {outer[0]: c2, inner[0]: i2}) for y in ixs]
        if len(ixs) == 2 and set(ixs) == {outer[0], inner[0]}:
            rep.add(name + 'no word is used for two elements', 'ok', '', w)
            continue
        rng = f + [ge0(sub(y, lo)) for y, lo in ((outer[0], outer[1]), (c2, outer[1]), (inner[0], inner[1]), (i2, inner[1]))] + \
            [lt(y, hi) for y, hi in ((outer[0], outer[2]), (c2, outer[2]), (inner[0], inner[2]), (i2, inner[2]))]
        same = tand(*[eq(p, q) for p, q in zip(ixs, other)])
        ss = {outer[0]: sym('c1', 'num'), c2: sym('c2', 'num'), inner[0]: sym('i1', 'num'), i2: sym('i2', 'num')}
        rng, same = [subst(y, ss) for y in rng], subst(same, ss)
        c1_, cc, i1_, ii = (ss[y] for y in (outer[0], c2, inner[0], i2))
        # linear with a gap: nonzeros * col + i
        ok = all(unsat(tand(same, *z), rng) for z in ([lt(c1_, cc)], [lt(cc, c1_)], [eq(c1_, cc), lt(i1_, ii)], [eq(c1_, cc), lt(ii, i1_)]))
        if ok:
            rep.add(name + 'no word is used for two elements', 'ok', '', w)
        else:
            settle(rep, name + 'no word is used for two elements', equal(tand(same, tnot(tand(eq(c1_, cc), eq(i1_, ii)))), FALSE, rng, vdom), w)


def under_false(c, facts):
    return simp(c, facts) is FALSE


def V03(rep):
    rep.level = 'proof'
    P = program('unit.cpp')
    n = table(P, 'kCodeGeneratorNonzeros')
    if not isinstance(n, int):
        return rep.undecided('code generator', 'VOLEParameters::kCodeGeneratorNonzeros not found', H)
    for t in TYPES:
        guarded(rep, 'code<%s>' % SHORT[t], H + 'PrecomputeCommon', lambda: code(rep, P, t, n))


# ------------------------------------------------------------------------------------------ V04
PINNED = ((4096, 1589, 98), (16384, 3482, 198), (65536, 7391, 382), (616092, 37248, 1254), (10616092, 588160, 1324))


def V04(rep):
    """the parameters are no weaker than the published ones"""
    rep.level = 'other'
    P = program('unit.cpp')
    w = 'distributed_vector_ole/distributed_vector_ole.cpp VOLEParameters'
    tab = [table(P, x) for x in TABLES]
    for x, y in zip(TABLES, tab):
        rep.seen('tables', x)
        if not isinstance(y, list):
            rep.undecided('VOLEParameters::' + x, 'not a list of constants', w)
    if any(not isinstance(x, list) for x in tab):
        return
    out, seed, noise = tab
    rep.check('the parameter tables have one length and are not empty', len(out) == len(seed) == len(noise) > 0, '%d, %d and %d rows' % (len(out), len(seed), len(noise)), w)
    nz = table(P, 'kCodeGeneratorNonzeros')
    if isinstance(nz, int):
        rep.check('the code has at least 10 nonzeros per column', nz >= 10, '%d' % nz, w)
    else:
        rep.undecided('kCodeGeneratorNonzeros', 'not a constant', w)
    rows = list(zip(out, seed, noise))
    for i, (n, k, t) in enumerate(rows):
        rep.check('row %d: no weaker than a published parameter set' % i, any(n <= N and k >= K and t >= W for N, K, W in PINNED),
                  'output %d from a seed of %d with %d noise positions' % (n, k, t), w)
        rep.check('row %d: there are fewer noise positions than outputs and the expansion makes progress' % i, 0 < t < n and 0 < k < n, '', w)
        if i:
            rep.check('row %d: outputs and seeds grow' % i, n > rows[i - 1][0] and k >= rows[i - 1][1], '', w)


# ------------------------------------------------------------------------------------------ V05
def tag(x, old, fresh, L):
    """where an element comes from: e for element e of the old vector, L + e for element e of the fresh ones; None if it is something else"""
    hits = []
    m = {}
    for y in atoms(x):
        if y.op == 'sel' and len(y.args[1]) == 1:
            if old(y.args[0]):
                m[y] = y.args[1][0]
                hits.append(y)
            elif fresh(y):
                m[y] = add(L, y.args[1][0])
                hits.append(y)
        elif y.op == 'fn' and fresh(y):
            m[y] = add(L, y.args[-1])
            hits.append(y)
    return m


_imp = {}


def impossible(c, facts, depth=6):
    k = (c, tuple(facts), depth)
    if k not in _imp:
        _imp[k] = impossible_(c, facts, depth)
    return _imp[k]


def impossible_(c, facts, depth):
    """no valuation satisfies the facts and c; case distinction over the choices they contain"""
    fs = list(facts)
    if unsat(c, fs) or unsat(tand(c, *fs), []):
        return True
    if depth == 0:
        return False
    cs = list(c.args) if c.op == 'and' else [c]
    d = next((y.args[0] for x in cs + fs for y in atoms(x) if y.op == 'ite' and not y.bvs and not has_op(y.args[0], ('ite',))), None)
    if d is None:
        return False
    for z in (d, tnot(d)):
        if unsat(z, [x for x in fs if not has_op(x, ('ite',))]):
            continue
        g = [simp(x, [z]) for x in fs]
        h = tand(*[simp(x, [z]) for x in cs])
        if h is FALSE or any(x is FALSE for x in g):
            continue
        if not impossible(h, [x for x in g if x is not TRUE] + [z], depth - 1):
            return False
    return True


def trace(x, old, fresh, L, facts):
    """[(condition, tag)] or None"""
    out = []
    todo = [(TRUE, opened(x))]
    while todo:
        c, t = todo.pop()
        with with_facts(list(facts) + [c]):
            t = simp(t, list(facts) + [c])
        if impossible(c, facts):
            continue
        d = next((y for y in atoms(t) if y.op == 'ite' and not y.bvs), None)
        if d is not None and len(out) + len(todo) < 24:
            for z, v in ((d.args[0], d.args[1]), (tnot(d.args[0]), d.args[2])):
                todo.append((tand(c, z), subst(t, {d: v})))
            continue
        m = tag(t, old, fresh, L)
        if len(m) != 1:
            return None if m or is_opaque(t) else ('none', show(t)[:200], c)
        out.append((c, list(m.values())[0]))
    return out


def disjoint(rep, name, pieces, old, fresh, L, facts, where):
    """pieces: (name, array, lower, upper): no two positions hold the same element"""
    P_, Q_ = sym('p', 'num'), sym('q', 'num')
    tr = []
    for what, arr, lo, hi in pieces:
        res = []
        for z in (P_, Q_):
            f = list(facts) + [ge0(sub(z, lo)), lt(z, hi)]
            r = trace(sel(arr, (z,)), old, fresh, L, f)
            if r is None:
                return rep.undecided(name, 'origin of %s unclear' % what, where)
            if isinstance(r, tuple):
                if impossible(r[2], f):
                    r = []
                else:
                    g = equal(r[2], FALSE, f, vdom)
                    return rep.add(name, 'fail' if g[0] == 'fail' else 'undecided',
                                   '%s holds %s, which is neither an unused nor a fresh element, if %s' % (what, r[1], show(r[2])[:300]), where)
            res.append((r, f))
        tr.append((what, res))
    for i, (wa, ra) in enumerate(tr):
        for wb, rb in tr[i:]:
            n = '%s: %s' % (name, 'no element of %s appears twice' % wa if wa == wb else '%s and %s share no element' % (wa, wb))
            worst = 'ok', ''
            for ca, ta in ra[0][0]:
                for cb, tb in rb[1][0]:
                    f = ra[0][1] + rb[1][1] + [x for x in (ca, cb) if x is not TRUE]
                    clash = eq(ta, tb)
                    if wa == wb:
                        r1 = impossible(tand(clash, lt(P_, Q_)), f) and impossible(tand(clash, lt(Q_, P_)), f)
                        g = tand(clash, tnot(eq(P_, Q_)))
                    else:
                        r1 = impossible(clash, f)
                        g = clash
                    if r1:
                        continue
                    r = equal(g, FALSE, f, vdom)
                    if r[0] != 'ok' and worst[0] != 'fail':
                        worst = r
            settle(rep, n, worst, where)


def once_expand(rep, P, t):
    T = SHORT[t]
    o, nv, nm = sym('output_size'), sym('new_vole_seed_size'), sym('new_mpfss_seed_size')
    pre = [ge0(sub(o, num(1))), ge0(nv), ge0(nm), ge0(NC), ge0(sub(add(NC, o), add(nv, nm))), ge0(sub(fn('nb', NN), num(1))), ge0(sub(NN, num(1)))]
    for role, q, st in (('sender', 'ExpandSender', 'status:mp-index'), ('receiver', 'ExpandReceiver', 'status:mp-value')):
        w = H + q
        th = party(P, t, role, m=(NS_, o))
        for x in (('u', 'v') if role == 'sender' else ('w',)):
            lv = fld(th, role + '_cached_')
            th = setfld(th, role + '_cached_', setfld(lv, x, inp('c' + x, NC)))
            th = setfld(th, role + '_vole_seed_', setfld(fld(th, role + '_vole_seed_'), x, inp('s' + x, NS_)))
            th = setfld(th, role + '_mpfss_seed_', setfld(fld(th, role + '_mpfss_seed_'), x, inp('m' + x, fn('nb', NN))))
        sm = summary(P, cls(t) + q, npar=3, boundary=base_boundary(t), rings=(GF,), this_init=th)
        if not got(rep, sm, '%s<%s>' % (q, T), w):
            continue
        f = pre + [okst(fn('status:rng', NN)), okst(fn(st))]
        outs = live(sm, f)
        if len(outs) != 1:
            rep.undecided('%s<%s>: success path' % (q, T), '%d paths' % len(outs), w)
            continue
        s = outs[0][0]
        for x in (('u', 'v') if role == 'sender' else ('w',)):
            old = lambda a: a is inp('c' + x, NC)
            fresh = lambda y: y.op == 'sel' and y.args[0].op in ('mulmat', 'fn') and 'mulmat' in (y.args[0].op, y.args[0].args[0])
            arrs = [(n_, fld(fld(s.vars['this'], role + k), x)) for n_, k in (('the cache', '_cached_'), ('the vole seed', '_vole_seed_'), ('the mpfss seed', '_mpfss_seed_'))]
            disjoint(rep, '%s<%s>, %s' % (q, T, x), [(n_, a, num(0), tlen(a)) for n_, a in arrs], old, fresh, NC, f, w)


def once_run(rep, P, t):
    T = SHORT[t]
    size = sym('size')
    B = sym('this.batch_size_')
    for role, _, q, _ in ROLES:
        w = H + q
        th = setfld(party(P, t, role), role + '_precomputation_done_', TRUE)
        xs = ('u', 'v') if role == 'sender' else ('w',)
        for x in xs:
            th = setfld(th, role + '_cached_', setfld(fld(th, role + '_cached_'), x, inp('c' + x, NC)))
        sm = summary(P, cls(t) + q, npar=1, boundary=run_boundary(t), rings=(GF,), this_init=th)
        if not got(rep, sm, '%s<%s>' % (q, T), w):
            continue
        for cached, fx in ((True, [ge0(sub(NC, size))]), (False, [ge0(sub(sub(size, NC), num(1)))])):
            f = [ge0(size), ge0(NC), ge0(sub(B, num(1))), okst(fn('status:expand'))] + fx
            outs = live(sm, f)
            outs = [(s, v) for s, v in outs if under(okof(v), list(f) + list(s.pc)) is TRUE] if len(outs) != 1 else outs
            name = '%s<%s>, %s' % (q, T, 'from the cache' if cached else 'with expansions')
            if len(outs) != 1:
                rep.undecided(name, '%d paths' % len(outs), w)
                continue
            s, v = outs[0]
            for x in xs:
                res, rem = simp(fld(fld(v, 'val'), x), f), simp(fld(fld(s.vars['this'], role + '_cached_'), x), f)
                old = lambda a: a is inp('c' + x, NC)
                fresh = lambda y: y.op == 'fn' and y.args[0] == 'exp-' + x
                n_ = '%s (%s)' % (name, x)
                if not any(y.op == 'mu' for a in (res, rem) for y in atoms(a)):
                    disjoint(rep, n_, [('the result', res, num(0), size), ('the cache', rem, num(0), tlen(rem))], old, fresh, NC, f, w)
                else:
                    once_loop(rep, n_, x, res, rem, f, size, w)


def once_loop(rep, name, x, res, rem, f, size, w):
    if res.op != 'mu' or rem.op != 'mu' or res.args[1:] != rem.args[1:]:
        return rep.undecided(name, 'the result or the cache is not what one loop leaves', w)
    A = parts(res)
    kr, kc = res.args[0], rem.args[0]
    nums = [i for i, y in enumerate(A[2]) if y.args[1] == 'num']
    best = None
    for a in nums:
        r = Collected()
        once_step(r, name, x, A, kr, kc, a, f, size, w)
        sc = (sum(y[1] == 'fail' for y in r.l), sum(y[1] == 'undecided' for y in r.l))
        if best is None or sc < best[0]:
            best = (sc, r)
    if best is None:
        return rep.undecided(name, 'no counter of copied elements found', w)
    for y in best[1].l:
        rep.add(*y)


class Collected:
    def __init__(self):
        self.l = []

    def add(self, name, st, detail='', where=''):
        self.l.append((name, st, detail, where))

    def undecided(self, name, detail='', where=''):
        self.add(name, 'undecided', detail, where)

    def check(self, name, c, detail='', where=''):
        self.add(name, 'ok' if c else 'fail', detail, where)

    def obligation(self, *a):
        self.add(*a)


def once_step(rep, name, x, A, kr, kc, ka, f, size, w):
    """one round: the copied elements come off the cache, everything else stays"""
    t = sym('t!', 'nat')
    P_ = A[2]
    n, L = sym('n_done', 'nat'), sym('n_left', 'nat')
    r0, c0 = inp('res_' + x, size), inp('left_' + x, L)
    m = {P_[ka]: n, P_[kr]: r0, P_[kc]: c0}
    # the arrays of the other half have the same sizes
    lens = {}
    for i, y in enumerate(P_):
        if y not in m and TT.isarr(y):
            lens[tlen(y)] = size if A[3][i] is not None and simp(tlen(A[3][i]), f) is size else L
    lens.update({tlen(P_[kr]): size, tlen(P_[kc]): L})
    flags = {y: FALSE for y in P_ if y.args[1] == 'bool' and y.args[0].startswith('returned')}
    fix = lambda y: subst(subst(subst(subst(subst(y, {A[1]: t}), lens), m), lens), flags)
    base = list(f) + [ge0(n), ge0(L), ge0(t), ge0(sub(size, n))]
    go = fix(A[6]) if A[6] is not None else TRUE
    brk = fix(A[7]) if A[7] is not None else FALSE
    g = base + [c for c in (go, tnot(brk)) if c is not TRUE]
    n1, r1, c1 = (fix(A[4][k]) for k in (ka, kr, kc))
    settle(rep, name + ': before the loop nothing is copied', equal(A[3][ka], num(0), f, vdom), w)
    old = lambda a: a is c0
    fresh = lambda y: y.op == 'fn' and y.args[0] == 'exp-' + x
    p = sym('p', 'num')
    settle(rep, name + ': a round keeps what is copied', equal(sel(r1, (p,)), sel(r0, (p,)), g + [ge0(p), lt(p, n)], vdom), w)
    settle(rep, name + ': the number of copied elements does not shrink', equal(tand(ge0(sub(n1, n)), ge0(sub(size, n1))), TRUE, g, vdom), w)
    disjoint(rep, name + ', one round', [('what is copied', r1, n, n1), ('the cache', c1, num(0), tlen(c1))], old, fresh, L, g, w)
    # a round left by break: what it leaves is the outcome
    gb = base + [c for c in (go, brk) if c is not TRUE] + [tnot(fix(A[8][i])) for i, y in enumerate(P_) if y in flags and A[8][i] is not y]
    if brk is FALSE or any(c is FALSE for c in gb) or impossible(tand(*gb[len(base):]), base):
        return
    rb, cb = (fix(A[8][k]) for k in (kr, kc))
    settle(rep, name + ': a last round keeps what is copied', equal(sel(rb, (p,)), sel(r0, (p,)), gb + [ge0(p), lt(p, n)], vdom), w)
    disjoint(rep, name + ', last round', [('what is copied', rb, n, size), ('the cache', cb, num(0), tlen(cb))], old, fresh, L, gb, w)


def once_pre(rep, P, t, tab):
    """the bootstrapped elements are divided between the two seeds"""
    T = SHORT[t]
    out, seed, noise = tab
    batch = sym('batch_size')
    K = len(out)
    n0 = add(num(seed[0]), fn('nb', num(noise[0])))
    for role, q, _, npar in ROLES:
        w = H + q
        f = [ge0(sub(batch, num(1)))] + buckets_facts(noise) + [ge0(sub(num(out[0]), add(batch, num(seed[0]), fn('nb', num(noise[0])))))]
        f += [okst(fn('status:' + x)) for x in ('update', 'common', 'expand', 'g-vec', 'g-val')] + [okst(fn('status:number', num(n))) for n in noise]
        sm = summary(P, cls(t) + q, npar=npar, boundary=pre_boundary(t), rings=(GF,), this_init=party(P, t, role), facts=f, unroll=K + 2)
        if not got(rep, sm, '%s<%s>' % (q, T), w):
            continue
        outs = live(sm, f)
        if len(outs) != 1:
            rep.undecided('%s<%s>: success path' % (q, T), '%d paths' % len(outs), w)
            continue
        s = outs[0][0]
        for x in (('u', 'v') if role == 'sender' else ('w',)):
            src = {}

            def old(a):
                if a.op == 'fn' and a.args[0] in RANDOM:
                    src.setdefault(a, 1)
                    return len(src) == 1
                return False
            fresh = lambda y: y.op == 'fn' and y.args[0] == 'g-val'
            arrs = [(n_, fld(fld(s.vars['this'], role + k), x)) for n_, k in (('the cache', '_cached_'), ('the vole seed', '_vole_seed_'), ('the mpfss seed', '_mpfss_seed_'))]
            disjoint(rep, '%s<%s>, %s' % (q, T, x), [(n_, a, num(0), tlen(a)) for n_, a in arrs], old, fresh, n0, f, w)


def V05(rep):
    rep.level = 'proof'
    P = program('unit.cpp')
    tab = [table(P, x) for x in TABLES]
    for t in TYPES:
        for q in ('ExpandSender', 'ExpandReceiver', 'RunSender', 'RunReceiver', 'PrecomputeSender', 'PrecomputeReceiver'):
            rep.seen('functions', cls(t) + q)
        guarded(rep, 'expansion<%s>' % SHORT[t], H + 'Expand*', lambda: once_expand(rep, P, t))
        guarded(rep, 'run<%s>' % SHORT[t], H + 'Run*', lambda: once_run(rep, P, t))
        if all(isinstance(x, list) for x in tab) and len({len(x) for x in tab}) == 1:
            guarded(rep, 'precompute<%s>' % SHORT[t], H + 'Precompute*', lambda: once_pre(rep, P, t, tab))
        else:
            rep.undecided('precompute<%s>' % SHORT[t], 'parameter tables not found', H)
