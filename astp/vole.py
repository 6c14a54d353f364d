"""V01-V05: vector OLE generator."""
from .check import *
from .load import program
from .engine import okof, okst
from .proto import *
from . import terms as TT
from .libmodel import as_span, to_array

H = 'distributed_vector_ole/distributed_vector_ole.h DistributedVectorOLE::'
MP = NS + 'MPFSSKnownIndices::'
GP = NS + 'ScalarVectorGilboaProduct::'
RNG = NS + 'AESUniformBitGenerator::'


def cls(t):
    return NS + 'DistributedVectorOLE<%s>::' % t


def number(eng, e, f, thisn, nodes):
    n = eng.eval(nodes[0])
    eng.event('number', (n,), e)
    return obj('StatusOr', {'st': fn('status:number', n), 'val': fn('nb', n)})


def update(eng, e, f, thisn, nodes):
    o, n = [eng.eval(x) for x in nodes]
    eng.event('update', (o, n), e)
    return fn('status:update')


def wr(eng, outs, name):
    """outs[i] = name(i) for every element"""
    if outs.op != 'span':
        return None
    i = fresh_bv('i')
    root, path, off, n = outs.args
    pre = tuple(x for x in path if x[0] == 'f')
    if tuple(path[:len(pre)]) != pre or any(x[0] not in ('i', 'f') for x in path):
        return None
    w = mk_write(((i, num(0), n),), TRUE, tuple(x[1] for x in path if x[0] == 'i') + (add(off, i),), 'set', fn(name, i))
    eng.write((root, pre), mk_w(eng.read((root, pre)), [w]))
    return True


def sub_protocol(name, ins):
    """a sub-protocol as an event carrying its arguments; `ins` arguments of kind a(rray) or v(alue), then the output span"""
    def h(eng, e, f, thisn, nodes):
        if len(nodes) != len(ins) + 1:
            return eng.opq('another form of ' + name, e)
        xs = [to_array(eng, eng.eval(n)) if k == 'a' else eng.eval(n) for k, n in zip(ins, nodes)]
        outs = as_span(eng, nodes[-1])
        eng.event(name, tuple(xs) + (outs.args[3] if outs.op == 'span' else fn('opaque:length'),), e)
        if wr(eng, outs, name) is None:
            return eng.opq('outputs of ' + name, e)
        return fn('status:' + name)
    return h


def rng_create(eng, e, f, thisn, nodes):
    s = to_array(eng, eng.eval(nodes[0]))
    n = eng.eval(nodes[1]) if len(nodes) > 1 and nodes[1]['k'] != 'DefArg' else num(1)
    eng.event('rng-seed', (s, n), e)
    return obj('StatusOr', {'st': fn('status:rng', n), 'val': obj('aesrng', {'seed': s})})


def rng_next(eng, e, f, thisn, nodes):
    t = fn('rng#%d' % eng.site(e, 'rng'), *[x[0] for x in eng.iters])
    eng.event('rng', (t,), e, info=('rng', eng.try_lval(thisn)))
    eng.s.pc = eng.s.pc + (ge0(t),)
    return t


def base_boundary(t):
    b = dict(ring())
    b[MP + 'NumBuckets'] = number
    b[MP + 'UpdateBuckets'] = update
    b[MP + 'RunIndexProviderVectorOLE'] = sub_protocol('mp-index', 'aaaa')
    b[MP + 'RunValueProviderVectorOLE'] = sub_protocol('mp-value', 'vva')
    b[GP + 'RunVectorProvider'] = sub_protocol('g-vec', 'a')
    b[GP + 'RunValueProvider'] = sub_protocol('g-val', 'v')
    b[RNG + 'Create'] = rng_create
    b[RNG + 'operator()'] = rng_next
    return b


def grow(role):
    """Expand*(): appends a batch of fresh correlated elements (decided by the expansion step)"""
    seen = []

    def h(eng, e, f, thisn, nodes):
        root, path = eng.this_of(thisn, e)
        path = tuple(path)
        k = eng.site(e, 'expand')
        if k not in seen:
            seen.append(k)
        rd = lambda x: eng.read((root, path + (('f', x),)))
        it = tuple(x[0] for x in eng.iters)
        xs = [eng.eval(n) for n in nodes]
        if len(xs) == 3:
            # the seeds are taken off the new elements
            B = sub(xs[0], add(xs[1], xs[2]))
        else:
            B = rd('batch_size_')
        eng.event('expand', tuple(xs) if xs else (add(B, rd('vole_seed_size_'), rd('mpfss_seed_size_')), rd('vole_seed_size_'), rd('mpfss_seed_size_')), e)
        for x in (('u', 'v') if role == 'sender' else ('w',)):
            lv = (root, path + (('f', role + '_cached_'), ('f', x)))
            i = fresh_bv('i')
            eng.write(lv, concat(eng.read(lv), amap(i, B, fn('exp-' + x, num(seen.index(k)), *it, i))))
        return fn('status:expand')
    return h


def precompute(role):
    def h(eng, e, f, thisn, nodes):
        root, path = eng.this_of(thisn, e)
        path = tuple(path)
        xs = [eng.eval(n) for n in nodes]
        eng.event('precompute', tuple(xs), e)
        n, B = sym('n_fresh', 'nat'), sym('fresh_batch', 'nat')
        eng.write((root, path + (('f', 'batch_size_'),)), B)
        for x in (('u', 'v') if role == 'sender' else ('w',)):
            i = fresh_bv('i')
            eng.write((root, path + (('f', role + '_cached_'), ('f', x))), amap(i, n, fn('pre-' + x, i)))
        if role == 'receiver':
            eng.write((root, path + (('f', 'receiver_cached_'), ('f', 'delta'))), sym('fresh_delta'))
        eng.write((root, path + (('f', role + '_precomputation_done_'),)), TRUE)
        return fn('status:precompute')
    return h


def run_boundary(t):
    b = base_boundary(t)
    c = cls(t)
    b[NS + 'DistributedVectorOLE::ExpandSender'] = grow('sender')
    b[NS + 'DistributedVectorOLE::ExpandReceiver'] = grow('receiver')
    b[NS + 'DistributedVectorOLE::PrecomputeSender'] = precompute('sender')
    b[NS + 'DistributedVectorOLE::PrecomputeReceiver'] = precompute('receiver')
    return b


def common(eng, e, f, thisn, nodes):
    """PrecomputeCommon: buckets and code generator for the given output size (decided separately)"""
    root, path = eng.this_of(thisn, e)
    path = tuple(path)
    rd = lambda x: eng.read((root, path + (('f', x),)))
    o = eng.eval(nodes[0])
    eng.event('common', (o, rd('vole_seed_size_'), rd('mpfss_seed_size_'), rd('num_noise_indices_')), e)
    eng.write((root, path + (('f', 'code_generator_'),)), obj('sparse', {'rows': rd('vole_seed_size_'), 'cols': o,
              'cells': fn('code', rd('vole_seed_size_'), o, *[x[0] for x in eng.iters]), 'ready': TRUE}))
    return fn('status:common')


def expand3(role):
    """Expand(o, nv, nm): o more elements, the last of which become the new seeds (decided by the expansion step)"""
    seen = []

    def h(eng, e, f, thisn, nodes):
        root, path = eng.this_of(thisn, e)
        path = tuple(path)
        at = lambda *x: (root, path + tuple(('f', y) for y in x))
        rd = lambda *x: eng.read(at(*x))
        it = tuple(x[0] for x in eng.iters)
        k = eng.site(e, 'expand')
        if len(nodes) == 3:
            o, nv, nm = [eng.eval(n) for n in nodes]
        else:
            nv, nm = rd('vole_seed_size_'), rd('mpfss_seed_size_')
            o = add(rd('batch_size_'), nv, nm)
        xs = ('u', 'v') if role == 'sender' else ('w',)
        g = rd('code_generator_')
        eng.event('expand', (o, nv, nm, fld(g, 'rows'), fld(g, 'cols'), tlen(rd(role + '_vole_seed_', xs[0])),
                             tlen(rd(role + '_mpfss_seed_', xs[0])), rd('num_noise_indices_')), e,
                  key=tuple(rd(role + y, x) for y in ('_cached_', '_vole_seed_', '_mpfss_seed_') for x in xs + (('delta',) if role == 'receiver' else ())))
        if k not in seen:
            seen.append(k)
        k = num(seen.index(k))
        for x in xs:
            i = fresh_bv('i')
            extra = sub(o, add(nv, nm))
            if const_of(extra) != 0:
                eng.write(at(role + '_cached_', x), concat(rd(role + '_cached_', x), amap(i, extra, fn('exp-' + x, k, *it, i))))
            eng.write(at(role + '_mpfss_seed_', x), amap(i, nm, fn('exm-' + x, k, *it, i)))
            eng.write(at(role + '_vole_seed_', x), amap(i, nv, fn('exv-' + x, k, *it, i)))
        if role == 'receiver':
            for y in ('_mpfss_seed_', '_vole_seed_'):
                eng.write(at(role + y, 'delta'), rd(role + '_cached_', 'delta'))
        eng.write(at('vole_seed_size_'), nv)
        eng.write(at('mpfss_seed_size_'), nm)
        return fn('status:expand')
    return h


def pre_boundary(t):
    b = base_boundary(t)
    D = NS + 'DistributedVectorOLE::'
    b[D + 'PrecomputeCommon'] = common
    b[D + 'ExpandSender'] = expand3('sender')
    b[D + 'ExpandReceiver'] = expand3('receiver')
    return b


# ---------------------------------------------------------------- states of the two parties
DELTA = sym('delta0')
NC, NS_, NN = sym('n_cached', 'nat'), sym('n_seed', 'nat'), sym('num_noise', 'nat')
CELLS = sym('M', 'any')


def inp(x, n):
    return fn('input', tstr(x), n)


def party(P, t, role, n_mp=None, m=None):
    """`this` of one party; the two parties' caches and seeds satisfy w = u delta + v"""
    c = cls(t)[:-2]
    if c not in P.recs:
        return None
    E = Engine(P, {})
    th = E.sym_object(c, 'this')
    nm = fn('nb', NN) if n_mp is None else n_mp
    S, R = c + '::SenderResult', c + '::ReceiverResult'
    for name, n, pre in (('cached', NC, 'c'), ('vole_seed', NS_, 's'), ('mpfss_seed', nm, 'm')):
        u, v = inp(pre + 'u', n), inp(pre + 'v', n)
        if role == 'sender':
            th = setfld(th, 'sender_%s_' % name, obj(S, {'u': u, 'v': v}))
        else:
            th = setfld(th, 'receiver_%s_' % name, obj(R, {'w': add(mul(DELTA, u), v), 'delta': DELTA}))
    if m is not None:
        th = setfld(th, 'code_generator_', obj('sparse', {'rows': m[0], 'cols': m[1], 'cells': CELLS, 'ready': TRUE}))
    th = setfld(th, 'num_noise_indices_', NN)
    return th


def vdom(V, key):
    if key[0] == 'sym':
        n = key[1]
        if n in ('n_cached', 'n_seed', 'num_noise', 'rows', 'n_old', 'n_fresh', 'done'):
            return V.h(key, 0, 4)
        if n in ('output_size', 'cols', 'size', 'batch', 'fresh_batch', 'this.batch_size_', 'batch_size'):
            return V.h(key, 0, 6)
        if n.startswith('new_') or n.startswith('this.vole_seed') or n.startswith('this.mpfss_seed'):
            return V.h(key, 0, 4)
        if n in ('p', 'k') or n.startswith('sk#'):
            return V.h(key, 0, 6)
        if n == 'uninit':
            return V.h(key, 1 << 20, 1 << 21)
    if key[0] == 'fn' and key[1][0] == 'nb':
        return V.h(key, 1, 4)
    if key[0] in ('el', 'sel') and 'idx' in str(key)[:60]:
        # sampled indices are distinct
        p = key[-1]
        if isinstance(p, int):
            return (p if V.h('dir', 0, 2) else 3 - p) + V.h('shift', 0, 3)
    return None


def rel(rep, name, T, fs, su, sv, rw, n, where, contract=None, delta=DELTA, dom=vdom):
    """|w| = |u| = |v| and w = u delta + v"""
    p = sym('p', 'num')
    settle(rep, '%s<%s>: vectors have the same length' % (name, T),
           equal(tand(eq(tlen(su), n), eq(tlen(sv), n), eq(tlen(rw), n)), TRUE, fs, dom), where)
    f = fs + [ge0(p), lt(p, n)]
    if contract:
        rw = contract(rw, f)
    with with_facts(f):
        g, u, v = (opened(sel(x, (p,))) for x in (rw, su, sv))
    if contract:
        g = contract(g, f)
    settle(rep, '%s<%s>: w = u delta + v' % (name, T), equal(g, add(mul(delta, u), v), f, dom), where)


def opened(t, depth=12):
    """elements of concatenations by cases"""
    for _ in range(depth):
        m = {}
        for x in atoms(t):
            if x.op == 'sel' and x.args[0].op == 'concat' and not x.bvs and len(x.args[1]) == 1:
                xs, e = x.args[0].args, x.args[1][0]
                offs, at = [], num(0)
                for y in xs:
                    offs.append(at)
                    at = add(at, tlen(y))
                r = sel(xs[-1], (sub(e, offs[-1]),))
                for y, o in list(zip(xs, offs))[-2::-1]:
                    r = ite(lt(e, add(o, tlen(y))), sel(y, (sub(e, o),)), r)
                if r is not x:
                    m[x] = r
        if not m:
            return t
        t = subst(t, m)
    return t


def by_contract(name, own, value):
    """replaces the receiver's output of a sub-protocol by what its contract gives"""
    def h(g, f):
        m = {}
        for x in atoms(g):
            if x.op == 'fn' and x.args[0] == name and len(x.args) == 2:
                m[x] = sub(value(x.args[1], f), fn(own, x.args[1]))
        return subst(g, m)
    return h


def sampled(s, t):
    """substitution for a set filled by sampling until it has n elements, and the facts about its elements; None if not of that form"""
    from .induct import parts
    m, facts, n = {}, [], None
    for x in atoms(t):
        if x.op == 'fn' and x.args[0] == 'setelems' and x.args[1].op == 'mu':
            M = x.args[1]
            k, tau, phis, inits, nexts, N, cond, brk, brkv = parts(M)
            ph, ini, nx = phis[k], inits[k], nexts[k]
            if brk is not FALSE or ini is not fn('emptyset'):
                return None
            while nx.op == 'ite' and ph in (nx.args[1], nx.args[2]):
                nx = nx.args[2] if nx.args[1] is ph else nx.args[1]
            if nx.op != 'fn' or nx.args[0] != 'setadd' or nx.args[1] is not ph or ph in nx.args[2].phis or cond is None:
                return None
            # condition: size < n
            d = cond.args[0] if cond.op == 'ge0' else None
            if d is None:
                return None
            n = add(d, fn('setsize', ph), num(1))
            if n.phis:
                return None
            arr = inp('idx', n)
            m[x] = arr
            m[fn('setsize', M)] = n
            facts.append((arr, n, nx.args[2], tau))
    if not m:
        return None
    return m, facts


def repeats(arr, n, f):
    """the positions are a fixed number of independent draws, so that some may coincide"""
    from .induct import parts
    for x in atoms(arr):
        if x.op == 'fn' and x.args[0] == 'setelems' and x.args[1].op == 'mu':
            k, tau, phis, inits, nexts, N, cond, brk, brkv = parts(x.args[1])
            nx = nexts[k]
            if cond is None and brk is FALSE and N is not None and not N.phis and inits[k] is fn('emptyset') and nx.op == 'fn' and nx.args[0] == 'setadd' \
                    and nx.args[1] is phis[k] and nx.args[2].op == 'fn' and nx.args[2].args[0].startswith('draw#'):
                return True
    k = sym('k', 'num')
    x = simp(sel(arr, (k,)), f + [ge0(k), lt(k, n)])
    return x.op == 'fn' and x.args[0].startswith('draw#') and len(x.args) == 2 and x.args[1] is k


def A_step(rep, P, t):
    """one expansion"""
    T = SHORT[t]
    o, nv, nm = sym('output_size'), sym('new_vole_seed_size'), sym('new_mpfss_seed_size')
    b = base_boundary(t)
    ps, pr = party(P, t, 'sender', m=(NS_, o)), party(P, t, 'receiver', m=(NS_, o))
    if ps is None:
        return rep.undecided('expansion<%s>' % T, 'class not found', H)
    ss = summary(P, cls(t) + 'ExpandSender', npar=3, boundary=b, rings=(GF,), this_init=ps)
    sr = summary(P, cls(t) + 'ExpandReceiver', npar=3, boundary=b, rings=(GF,), this_init=pr)
    ws, wr_ = H + 'ExpandSender', H + 'ExpandReceiver'
    for sm, w in ((ss, ws), (sr, wr_)):
        if sm is None or sm.opaque:
            return rep.undecided('%s<%s>' % (w.split('::')[-1], T), why_opaque(sm) if sm is not None else 'not found', w)
    pre = [ge0(sub(o, num(1))), ge0(nv), ge0(nm), ge0(sub(add(NC, o), add(nv, nm))), ge0(sub(fn('nb', NN), num(1))), ge0(sub(NN, num(1)))]
    oks = [okst(fn('status:rng', NN)), okst(fn('status:mp-index')), okst(fn('status:mp-value'))]
    for sm, w in ((ss, ws), (sr, wr_)):
        thr, v = total(sm)
        settle(rep, '%s<%s> never throws' % (w.split('::')[-1], T), equal(thr, FALSE, pre, vdom), w)
    outs, outr = live(ss, pre + oks), live(sr, pre + oks)
    if len(outs) != 1 or len(outr) != 1:
        return rep.undecided('expansion<%s>: success path' % T, '%d and %d paths' % (len(outs), len(outr)), H)
    (s1, v1), (s2, v2) = outs[0], outr[0]
    for s, v, w in ((s1, v1, ws), (s2, v2, wr_)):
        settle(rep, '%s<%s> succeeds when its sub-protocols do' % (w.split('::')[-1], T), equal(tand(okof(v), *pure(s, pre + oks)), TRUE, pre + oks, vdom), w)
    e1 = [e for e in s1.events if e.name == 'mp-index']
    e2 = [e for e in s2.events if e.name == 'mp-value']
    if len(e1) != 1 or len(e2) != 1 or e1[0].iters or e2[0].iters:
        return rep.undecided('expansion<%s>: calls' % T, 'not one call of the multi-point scheme per party', H)
    e1, e2 = e1[0], e2[0]
    sp = sampled(s1, e1.args[1])
    if sp is None:
        if repeats(e1.args[1], tlen(e1.args[1]), pre + oks):
            return rep.add('ExpandSender<%s>: the noise positions are distinct and as many as declared' % T, 'fail',
                           'independent draws may coincide: %s' % show(e1.args[1])[:200], ws)
        return rep.undecided('ExpandSender<%s>: sampling of the noise positions' % T, 'not sampled into a set until it is full', ws)
    m, si = sp
    y, ind, u, v, olen = [subst(x, m) for x in e1.args]
    x, yl, w, olen2 = e2.args
    f = pre + oks
    p = sym('p', 'num')
    settle(rep, 'expansion<%s>: both parties run the multi-point scheme over output_size elements' % T,
           equal(tand(eq(olen, o), eq(olen2, o)), TRUE, f, vdom), H)
    settle(rep, 'expansion<%s>: as many noise values as noise positions, the same number at both parties' % T,
           equal(tand(eq(tlen(y), NN), eq(tlen(ind), NN), eq(yl, NN)), TRUE, f, vdom), H)
    for arr, n, el, tau in si:
        drawn = [g for g in s1.events if g.name == 'draw' and g.iters]
        fs = f + [z for g in drawn for z in (le(g.args[0], g.args[2]), le(g.args[2], g.args[1]))]
        el2 = el
        for g in drawn:
            el2 = subst(el2, {a: g.args[2] for a in atoms(el) if a.op == 'fn' and a.args[0] == g.args[2].args[0]})
        for g in drawn:
            settle(rep, 'ExpandSender<%s>: every output position can be drawn as noise position, and no other' % T,
                   equal(tand(eq(g.args[0], num(0)), eq(g.args[1], sub(o, num(1)))), TRUE, f, vdom), ws)
        settle(rep, 'ExpandSender<%s>: every noise position lies in the output' % T, equal(tand(ge0(el2), lt(el2, o)), TRUE, fs, vdom), ws)
    # the noise positions come from a generator with a fresh seed
    rs = [g for g in s1.events if g.name == 'rng-seed' and simp(g.cond, f) is not FALSE]
    name = 'ExpandSender<%s>: the noise positions are drawn with a fresh random seed of 32 bytes' % T
    if len(rs) != 1 or rs[0].iters:
        rep.undecided(name, '%d generators' % len(rs), ws)
    else:
        settle(rep, name + ': length', equal(tlen(rs[0].args[0]), num(32), f, vdom), ws)
        is_random(rep, name, simp(rs[0].args[0], f), num(32), f, ws)
    settle(rep, 'expansion<%s>: the multi-point scheme is given delta' % T, equal(x, DELTA, f, vdom), wr_)
    fm = f + [ge0(p), lt(p, fn('nb', NN))]
    settle(rep, 'expansion<%s>: the correlated seeds of the multi-point scheme are those of the same size' % T,
           equal(tand(eq(tlen(u), fn('nb', NN)), eq(tlen(v), fn('nb', NN)), eq(tlen(w), fn('nb', NN))), TRUE, f, vdom), H)
    settle(rep, 'expansion<%s>: the multi-point scheme gets a correlated pair w = u delta + v' % T,
           equal(sel(w, (p,)), add(mul(DELTA, sel(u, (p,))), sel(v, (p,))), fm, vdom), H)
    # the noise values are fresh randomness
    is_random(rep, 'ExpandSender<%s>: the noise values are freshly random' % T, y, NN, f, ws)
    b0 = fresh_bv('b')
    Y = mk_w(fill(o, num(0)), [mk_write(((b0, num(0), NN),), TRUE, (sel(ind, (b0,)),), 'set', sel(y, (b0,)))])
    con = by_contract('mp-value', 'mp-index', lambda i, f_: mul(DELTA, sel(Y, (i,))))
    t1, t2 = subst(s1.vars['this'], m), s2.vars['this']
    j = fresh_bv('j')
    fi = f + [TT.forall(j, num(0), NN, tand(ge0(sel(ind, (j,))), lt(sel(ind, (j,)), o)))]
    for name, n in (('cached', sub(add(NC, o), add(nv, nm))), ('vole_seed', nv), ('mpfss_seed', nm)):
        a, c = fld(t1, 'sender_%s_' % name), fld(t2, 'receiver_%s_' % name)
        rel(rep, 'expansion, %s' % name, T, fi, fld(a, 'u'), fld(a, 'v'), fld(c, 'w'), n, H, con)
        settle(rep, 'expansion, %s<%s>: delta is unchanged' % (name, T), equal(fld(c, 'delta'), DELTA, f, vdom), wr_)
    for x, want in (('vole_seed_size_', nv), ('mpfss_seed_size_', nm), ('num_noise_indices_', NN)):
        for th, w in ((t1, ws), (t2, wr_)):
            settle(rep, '%s<%s>: %s describes the new state' % (w.split('::')[-1], T, x), equal(fld(th, x), want, f, vdom), w)


def A_args(rep, P, t):
    """the expansion that Run performs"""
    T = SHORT[t]
    b = base_boundary(t)
    rec = lambda eng, e, f, thisn, nodes: (eng.event('step', tuple(eng.eval(n) for n in nodes), e), fn('status:step'))[1]

    def both(q):
        def h(eng, e, f, thisn, nodes):
            return rec(eng, e, f, thisn, nodes) if len(nodes) == 3 else None
        return h
    for role, q in (('sender', 'ExpandSender'), ('receiver', 'ExpandReceiver')):
        b = base_boundary(t)
        b[NS + 'DistributedVectorOLE::' + q] = both(q)
        th = party(P, t, role)
        sm = summary(P, cls(t) + q, npar=0, boundary=b, rings=(GF,), this_init=th)
        w = H + q
        if sm is None or sm.opaque:
            rep.undecided('%s<%s>()' % (q, T), why_opaque(sm) if sm is not None else 'not found', w)
            continue
        outs = live(sm, [okst(fn('status:step'))])
        ev = [e for s, v in outs for e in s.events if e.name == 'step']
        if len(outs) != 1 or len(ev) != 1:
            rep.undecided('%s<%s>()' % (q, T), '%d paths, %d expansions' % (len(outs), len(ev)), w)
            continue
        B, vs, ms = (fld(th, y) for y in ('batch_size_', 'vole_seed_size_', 'mpfss_seed_size_'))
        settle(rep, '%s<%s>() expands to the batch size plus the seeds it replaces' % (q, T),
               equal(tand(eq(ev[0].args[0], add(B, vs, ms)), eq(ev[0].args[1], vs), eq(ev[0].args[2], ms)), TRUE, [], vdom), w)
        settle(rep, '%s<%s>() succeeds exactly when the expansion does' % (q, T), equal(okof(outs[0][1]), TRUE, [okst(fn('status:step'))], vdom), w)


def is_random(rep, name, arr, n, f, where, dom=vdom):
    """element k of the array is its own fresh random element, in every case"""
    k = sym('k', 'num')
    kf = list(f) + [ge0(k), lt(k, n)]
    rnd = lambda a: a.op == 'fn' and a.args[0] in ('arr:rand', 'arr:ntlrand')
    with with_facts(kf):
        todo = [(kf, opened(sel(arr, (k,))))]
    verdict, detail = 'ok', ''
    while todo:
        g, x = todo.pop()
        x = simp(x, g)
        if any(unsat(z, [y for y in g if y is not z]) for z in g[len(kf):]):
            continue
        if x.op == 'sel' and rnd(x.args[0]) and k in set(atoms(x.args[1][0])) | {x.args[1][0]}:
            continue
        c = next((y for y in atoms(x) if y.op == 'ite' and not y.bvs), None)
        if c is not None and len(todo) < 24:
            todo += [(g + [c.args[0]], subst(x, {c: c.args[1]})), (g + [tnot(c.args[0])], subst(x, {c: c.args[2]}))]
            continue
        blank = not is_opaque(x) and not any(rnd(y) for y in atoms(x)) and (g == kf or equal(TRUE, FALSE, g, dom)[0] == 'fail')
        if blank or verdict == 'ok':
            verdict, detail = ('fail' if blank else 'undecided'), 'element k is %s' % show(x)[:200]
        if blank:
            break
    return rep.add(name, verdict, detail, where)


def live(sm, facts):
    """(state, value) of the returning paths that are possible under the facts"""
    out = []
    for k, s, v in sm.outs:
        if k == 'ret' and not unsat(tand(*s.pc), list(facts)):
            out.append((s, v))
    return out


def pure(s, facts):
    """the path condition, without what sampling and randomness guarantee"""
    out = []
    for x in s.pc:
        x = simp(x, facts)
        if x is TRUE or any(y.op == 'mu' or (y.op == 'fn' and '#' in y.args[0]) for y in atoms(x)):
            continue
        out.append(x)
    return out


DONE = bfn('sym', sym('done', 'any'))


def states(P, t, done):
    b = run_boundary(t)
    ps, pr = party(P, t, 'sender'), party(P, t, 'receiver')
    ps = setfld(ps, 'sender_precomputation_done_', done)
    pr = setfld(pr, 'receiver_precomputation_done_', done)
    return (summary(P, cls(t) + 'RunSender', npar=1, boundary=b, rings=(GF,), this_init=ps),
            summary(P, cls(t) + 'RunReceiver', npar=1, boundary=b, rings=(GF,), this_init=pr))


def run_contract(delta):
    """fresh elements of the receiver in terms of the sender's"""
    def h(g, f=()):
        m = {}
        for x in atoms(g):
            if x.op == 'fn' and x.args[0] in ('exp-w', 'pre-w', 'exm-w', 'exv-w'):
                k = x.args[0][:4]
                m[x] = add(mul(delta, fn(k + 'u', *x.args[1:])), fn(k + 'v', *x.args[1:]))
        return subst(g, m)
    return h


def B_run(rep, P, t, done):
    """what RunSender and RunReceiver return"""
    T = SHORT[t]
    size = sym('size')
    W1, W2 = H + 'RunSender', H + 'RunReceiver'
    name = 'run%s' % ('' if done is TRUE else ' after precomputing')
    ss, sr = states(P, t, done)
    for sm, w in ((ss, W1), (sr, W2)):
        if sm is None or sm.opaque:
            return rep.undecided('%s<%s>' % (w.split('::')[-1], T), why_opaque(sm) if sm is not None else 'not found', w)
    delta = DELTA if done is TRUE else sym('fresh_delta')
    B = sym('this.batch_size_') if done is TRUE else sym('fresh_batch', 'nat')
    N = NC if done is TRUE else sym('n_fresh', 'nat')
    con = run_contract(delta)
    oks = [okst(fn('status:expand')), okst(fn('status:precompute'))]
    base = [ge0(size), ge0(sub(B, num(1)))]
    for cached, fs in ((True, [ge0(sub(N, size))]), (False, [ge0(sub(sub(size, N), num(1)))])):
        f = base + oks + fs
        o1, o2 = live(ss, f), live(sr, f)
        what = '%s, %s' % (name, 'enough elements cached' if cached else 'more than is cached')
        if len(o1) != 1 or len(o2) != 1:
            # paths of failing expansions do not count here
            o1 = [(s, v) for s, v in o1 if under(okof(v), list(f) + list(s.pc)) is TRUE]
            o2 = [(s, v) for s, v in o2 if under(okof(v), list(f) + list(s.pc)) is TRUE]
        if len(o1) != 1 or len(o2) != 1:
            rep.undecided('%s<%s>' % (what, T), '%d and %d paths' % (len(o1), len(o2)), H)
            continue
        (s1, v1), (s2, v2) = o1[0], o2[0]
        for v, w in ((v1, W1), (v2, W2)):
            settle(rep, '%s<%s> succeeds (%s)' % (w.split('::')[-1], T, what), equal(okof(v), TRUE, f, vdom), w)
        r1, r2 = fld(v1, 'val'), fld(v2, 'val')
        c1, c2 = fld(s1.vars['this'], 'sender_cached_'), fld(s2.vars['this'], 'receiver_cached_')
        settle(rep, 'RunReceiver<%s> returns the current delta (%s)' % (T, what), equal(fld(r2, 'delta'), delta, f, vdom), W2)
        arrs = [simp(x, f) for x in (fld(r1, 'u'), fld(r1, 'v'), fld(r2, 'w'), fld(c1, 'u'), fld(c1, 'v'), fld(c2, 'w'))]
        if not any(y.op == 'mu' for x in arrs for y in atoms(x)):
            rel(rep, '%s: result' % what, T, f, arrs[0], arrs[1], arrs[2], size, H, con, delta)
            rel(rep, '%s: remaining cache' % what, T, f, arrs[3], arrs[4], arrs[5], sub(N, size), H, con, delta)
            continue
        settle(rep, '%s<%s>: results and remaining caches of both parties correspond' % (what, T), loops(arrs, f, con, delta, size), H)
        comm1, comm2 = ([(e.name, e.args, e.cond) for e, c in comm(s, f, ('expand', 'precompute'))] for s in (s1, s2))
        rep.check('%s<%s>: both parties run the same steps' % (what, T), [(a, b) for a, b, c in comm1] == [(a, b) for a, b, c in comm2],
                  '%s / %s' % ([x[0] for x in comm1], [x[0] for x in comm2]), H)


def loops(arrs, f, con, delta, size):
    """product induction over the copying loops: (status, detail)"""
    from .induct import parts
    ms = [x for x in arrs]
    if any(x.op != 'mu' for x in ms):
        return 'undecided', 'the result or the cache is not what a loop leaves: %s' % show([x for x in ms if x.op != 'mu'][0])[:200]
    g1, g2 = ms[0].args[1:], ms[2].args[1:]
    if any(x.args[1:] != g1 for x in (ms[1], ms[3], ms[4])) or ms[5].args[1:] != g2:
        return 'undecided', 'results and caches are left by different loops'
    A, B = parts(ms[0]), parts(ms[2])
    ku, kv, kcu, kcv = ms[0].args[0], ms[1].args[0], ms[3].args[0], ms[4].args[0]
    kw, kcw = ms[2].args[0], ms[5].args[0]
    nums1 = [i for i, x in enumerate(A[2]) if x.args[1] == 'num']
    nums2 = [i for i, x in enumerate(B[2]) if x.args[1] == 'num']
    worst = ('undecided', 'no counter of copied elements found')
    for a in nums1:
        for b in nums2:
            r = product_step(A, B, (ku, kv, kcu, kcv, a), (kw, kcw, b), f, con, delta, size)
            if r[0] == 'ok':
                return r
            if worst[0] == 'undecided':
                worst = ('undecided', r[1])
    # no proof: look at the runs of a few rounds
    r = few_rounds(A, B, (ku, kv, kcu, kcv), (kw, kcw), f, con, delta, size)
    return r if r is not None else worst


def few_rounds(A, B, i1, i2, f, con, delta, size, rounds=3):
    """a counterexample among the runs of at most `rounds` rounds"""
    p = sym('p', 'num')
    V1, V2 = list(A[3]), list(B[3])
    facts = list(f)
    for r in range(rounds + 1):
        at = lambda G, V, x: con(subst(subst(x, {G[1]: num(r)}), dict(zip(G[2], V))))
        c1 = at(A, V1, A[6]) if A[6] is not None else TRUE
        c2 = at(B, V2, B[6]) if B[6] is not None else TRUE
        d = equal(simp(c1, facts), simp(c2, facts), facts, vdom)
        if d[0] == 'fail':
            return 'fail', 'round %d: one party goes on, the other stops: %s' % (r, d[1])
        out = facts + [tnot(c1), tnot(c2)]
        if not unsat(tand(tnot(c1), tnot(c2)), facts):
            for (ku, kv, kw, lim, what) in ((i1[0], i1[1], i2[0], size, 'result'), (i1[2], i1[3], i2[1], None, 'remaining cache')):
                x, y, z = V1[ku], V1[kv], V2[kw]
                lim = tlen(x) if lim is None else lim
                d = equal(tand(eq(tlen(x), lim), eq(tlen(y), lim), eq(tlen(z), lim)), TRUE, out, vdom)
                if d[0] == 'fail':
                    return 'fail', '%s after %d rounds: sizes: %s' % (what, r, d[1])
                g = out + [ge0(p), lt(p, lim)]
                x, y, z = (opened(sel(q, (p,))) for q in (x, y, z))
                d = equal(con(z), add(mul(delta, x), y), g, vdom)
                if d[0] == 'fail':
                    return 'fail', '%s after %d rounds: w = u delta + v: %s' % (what, r, d[1])
        facts = facts + [x for x in (c1, c2) if x is not TRUE]
        if unsat(tand(*facts), []):
            return None
        b1, b2 = at(A, V1, A[7]), at(B, V2, B[7])
        facts = facts + [x for x in (tnot(b1), tnot(b2)) if x is not TRUE]
        V1, V2 = [at(A, V1, x) for x in A[4]], [at(B, V2, x) for x in B[4]]
    return None


def product_step(A, B, i1, i2, f, con, delta, size):
    ku, kv, kcu, kcv, ka = i1
    kw, kcw, kb = i2
    t = sym('t!', 'nat')
    tauA, tauB = A[1], B[1]
    pA, pB = A[2], B[2]
    n, nl = sym('n_done', 'nat'), sym('n_left', 'nat')
    u, v, cu, cv = inp('res_u', size), inp('res_v', size), inp('left_u', nl), inp('left_v', nl)
    i, p = fresh_bv('i'), sym('p', 'num')
    own = {pA[ka]: n, pA[ku]: u, pA[kv]: v, pA[kcu]: cu, pA[kcv]: cv}
    m = {pB[kb]: n, pB[kw]: amap(i, size, ite(lt(i, n), add(mul(delta, sel(u, (i,))), sel(v, (i,))), fn('unset', i))),
         pB[kcw]: add(mul(delta, cu), cv)}
    lens = {tlen(x): tlen(y) for x, y in ((pA[kcu], cu), (pA[kcv], cu), (pB[kcw], cu)) if tlen(x) is not tlen(y)}
    lens.update({tlen(x): size for x in (pA[ku], pA[kv], pB[kw]) if tlen(x) is not size})
    flags = {x: FALSE for x in pA + pB if x.args[1] == 'bool' and x.args[0].startswith('returned')}

    def fix(x):
        for _ in range(3):
            x = subst(x, lens)
        return subst(x, flags)
    S = lambda x: fix(con(subst(subst(subst(x, {tauA: t}), lens), own)))
    R = lambda x: fix(con(subst(subst(subst(x, {tauB: t}), lens), m)))
    L = tlen(cu)
    rel_ = [ge0(n), ge0(sub(size, n)), ge0(L), ge0(t)]
    bad = []

    def need(what, got, want, facts):
        r = equal(got, want, facts, vdom)
        if r[0] != 'ok':
            bad.append((r[0], '%s: %s' % (what, r[1])))
        return r[0] == 'ok'

    def holds(us, vs, ws, cus, cvs, cws, na, nb, facts, when):
        if not need(when + ': both parties have copied the same number of elements', na, nb, facts):
            return
        need(when + ': between 0 and size elements are copied', tand(ge0(na), ge0(sub(size, na))), TRUE, facts)
        need(when + ': sizes', tand(*[eq(tlen(x), size) for x in (us, vs, ws)], eq(tlen(cvs), tlen(cus)), eq(tlen(cws), tlen(cus))), TRUE, facts)
        for (x, y, z, lim, k) in ((us, vs, ws, na, 'result'), (cus, cvs, cws, tlen(cus), 'cache')):
            fs = facts + [ge0(p), lt(p, lim)]
            with with_facts(fs):
                x, y, z = (opened(simp(sel(q, (p,)), fs)) for q in (x, y, z))
            need('%s: %s has w = u delta + v' % (when, k), con(z), add(mul(delta, x), y), fs)
    # initially
    holds(A[3][ku], A[3][kv], B[3][kw], A[3][kcu], A[3][kcv], B[3][kcw], A[3][ka], B[3][kb], f, 'before the loop')
    if bad:
        return first(bad)
    fs = f + rel_
    cA, cB = (S(A[6]) if A[6] is not None else TRUE), (R(B[6]) if B[6] is not None else TRUE)
    if not need('both loops continue under the same condition', cA, cB, fs):
        return first(bad)
    bA, bB = S(A[7]), R(B[7])
    if not need('both loops are left under the same condition', simp(bA, fs + [cA]), simp(bB, fs + [cA]), fs + [cA]):
        return first(bad)
    go = fs + [x for x in (cA, tnot(bA)) if x is not TRUE]
    N1, N2 = [S(x) for x in A[4]], [R(x) for x in B[4]]
    holds(N1[ku], N1[kv], N2[kw], N1[kcu], N1[kcv], N2[kcw], N1[ka], N2[kb], go, 'after one more round')
    # leaving
    if cA is not TRUE:
        need('all elements are copied when the loop ends', ge0(sub(n, size)), TRUE, fs + [tnot(cA)])
    if bA is not FALSE:
        X1, X2 = [S(x) for x in A[8]], [R(x) for x in B[8]]
        out = fs + [x for x in (cA, bA) if x is not TRUE]
        fl = [simp(X1[k], out) for k, x in enumerate(pA) if x.args[0].startswith('returned') and x.args[1] == 'bool']
        out += [tnot(x) for x in fl]
        if simp(tand(*out)) is not FALSE and not unsat(tand(*out), []):
            holds(X1[ku], X1[kv], X2[kw], X1[kcu], X1[kcv], X2[kcw], X1[ka], X2[kb], out, 'on leaving the loop')
            need('all elements are copied on leaving the loop', ge0(sub(X1[ka], size)), TRUE, out)
    return first(bad)


def first(bad):
    if not bad:
        return 'ok', ''
    for b in bad:
        if b[0] == 'fail':
            return b
    return bad[0]


def code_boundary(t):
    b = base_boundary(t)
    S = NS + 'ScalarHelper::'

    def hashed(eng, e, f, thisn, nodes):
        return fn('element', eng.eval(nodes[0]))

    def can(eng, e, f, thisn, nodes):
        a = [eng.eval(n) for n in nodes]
        return bfn('hashable', *a)
    b[S + 'FromUint128'] = hashed
    b[S + 'CanBeHashedInto'] = can
    return b


TABLES = ('output_size', 'seed_size', 'num_noise_indices')


def table(P, name):
    """the numbers of a VOLEParameters table"""
    q = NS + 'VOLEParameters::' + name
    if q not in P.gvars:
        return None
    E = Engine(P, {})
    v = E.read(E.global_lv({'g': q, 'n': q}))
    if v.op == 'lit':
        xs = [const_of(x) for x in v.args[0]]
        return None if None in xs else xs
    return const_of(v)


def buckets_facts(noise):
    return [z for n in noise for z in (ge0(sub(fn('nb', num(n)), num(n))), ge0(sub(num(3 * n), fn('nb', num(n)))))]


def C_pre(rep, P, t, tab):
    """precomputation: every stage, and the state it leaves"""
    T = SHORT[t]
    batch = sym('batch_size')
    W1, W2 = H + 'PrecomputeSender', H + 'PrecomputeReceiver'
    out, seed, noise = tab
    ok = [okst(fn('status:' + x)) for x in ('update', 'common', 'expand', 'g-vec', 'g-val')] + [okst(fn('status:number', num(n))) for n in noise]
    base = [ge0(sub(batch, num(1)))] + buckets_facts(noise)
    b = pre_boundary(t)
    ps, pr = party(P, t, 'sender'), party(P, t, 'receiver')
    K = len(out)
    need = lambda i: add(batch, num(seed[i]), fn('nb', num(noise[i])))
    for k in range(K):
        case = [tnot(ge0(sub(num(out[i]), need(i)))) for i in range(min(k, K - 1))] + ([ge0(sub(num(out[k]), need(k)))] if k < K - 1 else [])
        f = base + ok + case
        b = pre_boundary(t)
        ss = summary(P, cls(t) + 'PrecomputeSender', npar=1, boundary=b, rings=(GF,), this_init=ps, facts=f, unroll=K + 2)
        sr = summary(P, cls(t) + 'PrecomputeReceiver', npar=2, boundary=b, rings=(GF,), this_init=pr, facts=f, unroll=K + 2)
        for sm, w in ((ss, W1), (sr, W2)):
            if sm is None or sm.opaque:
                return rep.undecided('%s<%s>' % (w.split('::')[-1], T), why_opaque(sm) if sm is not None else 'not found', w)
        o1, o2 = live(ss, f), live(sr, f)
        name = 'precompute, %d expansions' % k
        if len(o1) != 1 or len(o2) != 1:
            rep.undecided('%s<%s>' % (name, T), '%d and %d paths' % (len(o1), len(o2)), H)
            continue
        stage(rep, T, name, f, ss, sr, o1[0], o2[0], batch, tab, k, t)


def stage_dom(tab, k):
    """valuations in which precomputation runs k expansions"""
    out, seed, noise = tab

    def buckets(V, n):
        return V.h(('nb', n), n, 3 * n + 1)

    def dom(V, key):
        if key[0] == 'fn' and key[1][0] == 'nb' and isinstance(key[1][1], int):
            return buckets(V, key[1][1]) if key[1][1] > 0 else 1
        if key == ('sym', 'batch_size') or key[0] == 'sym' and key[1] == 'batch_size':
            room = lambda i: out[i] - seed[i] - buckets(V, noise[i])
            lo = max([1] + [room(i) + 1 for i in range(min(k, len(out) - 1))])
            hi = room(k) if k < len(out) - 1 else lo + 2 * out[k]
            if hi < lo:
                return lo
            c = V.h('where', 0, 4)
            return lo if c == 0 else hi if c == 1 else V.h(key, lo, hi + 1)
        if key[0] == 'sym' and key[1] in ('p', 'k'):
            return V.h(key, 0, 6) if V.h('which', 0, 2) else V.h(key, 0, seed[0] + noise[0])
        return vdom(V, key)
    return dom


def stage(rep, T, name, f, ss, sr, o1, o2, batch, tab, k, t):
    W1, W2 = H + 'PrecomputeSender', H + 'PrecomputeReceiver'
    (s1, v1), (s2, v2) = o1, o2
    dom = stage_dom(tab, k)
    delta = sym('delta')
    for v, w in ((v1, W1), (v2, W2)):
        settle(rep, '%s<%s> succeeds when its steps do (%s)' % (w.split('::')[-1], T, name), equal(okof(v), TRUE, f, dom), w)
    X = ('number', 'common', 'expand', 'g-vec', 'g-val')
    c1 = [e for e, c in comm(s1, f, X) if e.name not in ('flush', 'number')]
    c2 = [e for e, c in comm(s2, f, X) if e.name not in ('flush', 'number')]
    mirror = {'g-vec': 'g-val', 'send': 'recv', 'recv': 'send', 'g-val': 'g-vec'}
    same = [mirror.get(e.name, e.name) for e in c1] == [e.name for e in c2] and not any(e.iters for e in c1 + c2)
    rep.check('%s<%s>: the two parties run mirrored steps' % (name, T), same, '%s / %s' % ([e.name for e in c1], [e.name for e in c2]), H)
    if not same:
        return
    pend = None
    for e, c in comm(s1, f, X):
        if e.name == 'send':
            pend = e
        elif e.name == 'flush':
            pend = None
        elif pend is not None and e.name in ('common', 'expand', 'g-vec'):
            break
    rep.check('%s<%s>: what is sent is flushed before the sender waits' % (name, T), pend is None, '', W1)
    gv, gs = [e for e in c1 if e.name == 'g-vec'], [e for e in c2 if e.name == 'g-val']
    snd, rcv = [e for e in c1 if e.name == 'send'], [e for e in c2 if e.name == 'recv']
    if len(gv) != 1 or len(snd) != 1:
        return rep.undecided('%s<%s>: bootstrap' % (name, T), 'not one Gilboa product and one message', H)
    gv, gs, snd, rcv = gv[0], gs[0], snd[0], rcv[0]
    n0 = tlen(gv.args[0])
    settle(rep, '%s<%s>: both parties bootstrap the same number of elements, with delta' % (name, T),
           equal(tand(eq(n0, gv.args[1]), eq(n0, gs.args[1]), eqv(gs.args[0], delta)), TRUE, f, dom), H)
    rep.check('%s<%s>: both parties agree on the type of the message' % (name, T), snd.args[1] is rcv.args[1], '', H)
    x0 = gv.args[0]
    is_random(rep, '%s<%s>: u is freshly random' % (name, T), x0, n0, f, W1, dom)
    q = sym('k', 'num')
    fk = f + [ge0(q), lt(q, n0)]
    mask = simp(sub(sel(snd.args[0], (q,)), fn('g-vec', q)), fk)
    m1 = mask
    if m1.op != 'sel':
        mask = simp(neg(m1), fk)
        mask = mask if mask.op == 'sel' else m1
    rnd = mask.op == 'sel' and mask.args[0].op == 'fn' and mask.args[0].args[0] in ('arr:rand', 'arr:ntlrand') and mask.args[1] == (q,)
    if rnd and mask is not simp(sel(x0, (q,)), fk):
        rep.add('%s<%s>: the message is the product share masked with fresh randomness' % (name, T), 'ok', '', W1)
    elif not is_opaque(mask):
        rep.add('%s<%s>: the message is the product share masked with fresh randomness' % (name, T), 'fail' if not any(
            a.op == 'fn' and a.args[0].startswith('arr:') for a in atoms(mask)) or rnd else 'undecided', 'sends share + %s' % show(mask)[:200], W1)
    rc = run_contract(delta)
    ln = tlen(rcv.args[0])
    rp = {rcv.args[0]: snd.args[0]}

    def con(g, f_=()):
        g = subst(subst(g, rp), {ln: n0})
        m = {x: sub(mul(delta, sel(x0, (x.args[1],))), fn('g-vec', x.args[1])) for x in atoms(g) if x.op == 'fn' and x.args[0] == 'g-val' and len(x.args) == 2}
        return rc(subst(g, m))
    f = f + [eq(ln, n0)]
    # stage by stage
    pairs = list(zip(c1, c2))
    out, seed, noise = tab
    for j, (a, b) in enumerate(pairs):
        if a.name == 'common':
            settle(rep, '%s<%s>: step %d: both parties prepare the same code and buckets' % (name, T, j),
                   equal(tand(*[eq(x, y) for x, y in zip(a.args, b.args)]), TRUE, f, dom), H)
            # the output of an expansion fits the parameters of the seed it starts from
            o, vs, ms, nn = [simp(x, f) for x in a.args]
            rows = [i for i in range(len(out)) if const_of(vs) == seed[i] and const_of(nn) == noise[i]]
            if const_of(vs) is not None and const_of(nn) is not None:
                rep.check('%s<%s>: step %d: seed and noise belong to one row of the parameter tables' % (name, T, j), bool(rows),
                          'seed of %s elements with %s noise positions' % (show(vs), show(nn)), H)
                if rows:
                    settle(rep, '%s<%s>: step %d: the expansion is no longer than its parameters allow' % (name, T, j),
                           equal(ge0(sub(num(out[rows[0]]), o)), TRUE, f, dom), H)
            else:
                rep.undecided('%s<%s>: step %d: parameters' % (name, T, j), 'seed of %s elements with %s noise positions' % (show(vs)[:200], show(nn)[:200]), H)
        if a.name == 'expand':
            settle(rep, '%s<%s>: step %d: both parties expand to the same sizes' % (name, T, j),
                   equal(tand(*[eq(x, y) for x, y in zip(a.args, b.args)]), TRUE, f, dom), H)
            o, nv, nm, R, C, lv, lm, nn = a.args
            settle(rep, '%s<%s>: step %d: the expansion fits the code, the seeds and the buckets' % (name, T, j),
                   equal(tand(eq(R, lv), eq(C, o), eq(lm, fn('nb', simp(nn, f))), ge0(sub(o, add(nv, nm)))), TRUE, f, dom), H)
            cu, cv, su, sv, mu_, mv = a.key
            cw, cd, sw, sd, mw, md = b.key
            settle(rep, '%s<%s>: step %d: delta is kept' % (name, T, j), equal(tand(*[eqv(simp(x, f), delta) for x in (cd, sd, md)]), TRUE, f, dom), W2)
            rel(rep, '%s: step %d: vole seed' % (name, j), T, f, su, sv, sw, tlen(su), H, con, delta, dom)
            rel(rep, '%s: step %d: mpfss seed' % (name, j), T, f, mu_, mv, mw, tlen(mu_), H, con, delta, dom)
    # the state it leaves
    t1, t2 = s1.vars['this'], s2.vars['this']
    for nm in ('cached', 'vole_seed', 'mpfss_seed'):
        a, c = fld(t1, 'sender_%s_' % nm), fld(t2, 'receiver_%s_' % nm)
        n = simp(tlen(fld(a, 'u')), f)
        rel(rep, '%s, %s' % (name, nm), T, f, fld(a, 'u'), fld(a, 'v'), fld(c, 'w'), n, H, con, delta, dom)
        settle(rep, '%s, %s<%s>: delta is the given one' % (name, nm, T), equal(eqv(simp(fld(c, 'delta'), f), delta), TRUE, f, dom), W2)
    for th, r, w in ((t1, 'sender', W1), (t2, 'receiver', W2)):
        g = fld(th, 'code_generator_')
        x = 'u' if r == 'sender' else 'w'
        B, vs, ms, nn = (simp(fld(th, y), f) for y in ('batch_size_', 'vole_seed_size_', 'mpfss_seed_size_', 'num_noise_indices_'))
        lv, lm = tlen(fld(fld(th, r + '_vole_seed_'), x)), tlen(fld(fld(th, r + '_mpfss_seed_'), x))
        settle(rep, '%s<%s>: the state left fits the next expansion (%s)' % (w.split('::')[-1], T, name),
               equal(tand(eq(vs, lv), eq(ms, lm), eq(lm, fn('nb', nn)), eq(fld(g, 'rows'), vs), eq(fld(g, 'cols'), add(B, vs, ms))), TRUE, f, dom), w)
        settle(rep, '%s<%s>: a later expansion yields at least one and at most batch_size elements (%s)' % (w.split('::')[-1], T, name),
               equal(tand(ge0(sub(B, num(1))), ge0(sub(batch, B))), TRUE, f, dom), w)
        settle(rep, '%s<%s>: is marked as precomputed (%s)' % (w.split('::')[-1], T, name), equal(fld(th, r + '_precomputation_done_'), TRUE, f, dom), w)
    for y in ('batch_size_', 'vole_seed_size_', 'mpfss_seed_size_', 'num_noise_indices_'):
        settle(rep, '%s<%s>: both parties agree on %s' % (name, T, y), equal(fld(t1, y), fld(t2, y), f, dom), H)


def V01(rep):
    rep.level = 'proof'
    P = program('unit.cpp')
    for t in TYPES:
        for q in ('ExpandSender', 'ExpandReceiver'):
            rep.seen('functions', cls(t) + q)
        guarded(rep, 'expansion<%s>' % SHORT[t], H + 'Expand*', lambda: A_step(rep, P, t))
        guarded(rep, 'expansion<%s>()' % SHORT[t], H + 'Expand*', lambda: A_args(rep, P, t))
        for done in (TRUE, FALSE):
            guarded(rep, 'run<%s>' % SHORT[t], H + 'Run*', lambda: B_run(rep, P, t, done))

    tab = [table(P, x) for x in TABLES]
    if any(not isinstance(x, list) for x in tab) or len({len(x) for x in tab}) != 1:
        rep.undecided('precompute', 'parameter tables not found or of different lengths', H)
        return
    for t in TYPES:
        for q in ('PrecomputeSender', 'PrecomputeReceiver'):
            rep.seen('functions', cls(t) + q)
        guarded(rep, 'precompute<%s>' % SHORT[t], H + 'Precompute*', lambda: C_pre(rep, P, t, tab))
