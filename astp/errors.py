"""E01: which status code a refused call returns"""
from .check import *
from .load import program
from .engine import okof, okst
from .proto import *
from . import terms as TT
from . import rot, gilboa, spfss, mpfss, cuckoo, aes, vole, vole2
from .vole2 import lt

INV = 'InvalidArgument'


def stof(v):
    return fld(v, 'st') if v.op == 'obj' and v.args[0] == 'StatusOr' else v


def codeis(t, kind):
    """condition under which a status has the given code"""
    if t.op == 'st':
        return tbool(t.args[0] == kind)
    if t.op == 'ite':
        return ite(t.args[0], codeis(t.args[1], kind), codeis(t.args[2], kind))
    if t.op == 'choice':
        b = codeis(t.args[0].args[2], kind)
        if b in (TRUE, FALSE):
            return b
    return bfn('code:' + kind, t)


def wild(dom):
    def d(V, key):
        if key[0] == 'sym' and key[1] in ('size', 'batch_size', 'y_len', 'index') and V.h(('wild', key), 0, 2):
            return V.h(key, -4, 5)
        return dom(V, key)
    return d


def refuses(rep, name, sm, bad, facts, dom, w, kind=INV):
    if sm is None:
        return rep.undecided(name, 'not found', w)
    worst = ('ok', '')
    dom = wild(dom)
    for k, s, v in sm.outs:
        if k == 'throw' and not unsat(tand(bad, *s.pc), list(facts)):
            r = equal(tand(*s.pc), FALSE, list(facts) + [bad], dom)
        elif k == 'ret':
            c = codeis(stof(v), kind)
            if c is TRUE or unsat(tand(bad, *s.pc), list(facts)):
                continue
            r = equal(tor(tnot(tand(*s.pc)), c), TRUE, list(facts) + [bad], dom)
        else:
            continue
        if r[0] == 'fail' or worst[0] == 'ok':
            worst = r
    if sm.opaque and worst[0] == 'fail':
        worst = ('undecided', why_opaque(sm))
    return settle(rep, name, worst, w)


def E01(rep):
    rep.level = 'proof'
    P = program('unit.cpp')
    rep.assumptions += ['mpc_utils statuses keep code and message; RETURN_IF_ERROR and ASSIGN_OR_RETURN return the failing status itself']
    for n, g in (('AESUniformBitGenerator', c_aes), ('CuckooHasher', c_cuckoo), ('AllButOneRandomOT', c_rot), ('SPFSSKnownIndex', c_spfss),
                 ('MPFSSKnownIndices', c_mpfss), ('ScalarVectorGilboaProduct', c_gilboa), ('DistributedVectorOLE', c_vole)):
        rep.seen('functions', n)
        guarded(rep, n, 'distributed_vector_ole ' + n, lambda g=g: g(rep, P))


def c_aes(rep, P):
    n = sym('n_seed', 'nat')
    for q in ('Create', 'seed'):
        refuses(rep, 'AESUniformBitGenerator::%s: seeds below 32 bytes are invalid arguments' % q, summary(P, aes.CLS + '::' + q),
                ge0(sub(num(31), n)), [ge0(n)], aes.dom, aes.W + q)


def c_cuckoo(rep, P):
    r, sm = cuckoo.roles(P)
    n = sym('num_hash_functions')
    refuses(rep, 'CuckooHasher::Create: fewer than one hash function is an invalid argument', sm, ge0(neg(n)), [], cuckoo.cdom(None), cuckoo.WC + 'Create')
    if r is None:
        return rep.undecided('CuckooHasher', 'Create not understood', cuckoo.WC + 'Create')
    d = cuckoo.cdom(r)
    base = [ge0(cuckoo.LIM63), ge0(sub(r.H, num(1)))]
    few = ge0(neg(cuckoo.NB))
    for t in ('long',):
        h = cuckoo.run(P, 'Hash', [t])
        refuses(rep, 'CuckooHasher::Hash: no buckets are an invalid argument', h, few, base, d, cuckoo.W + 'Hash')
        h = cuckoo.run(P, 'HashSimple', [t])
        refuses(rep, 'CuckooHasher::HashSimple: no buckets or more than 128 hash bits are invalid arguments', h, tor(few, cuckoo.toolarge(r)), base, d,
                cuckoo.W + 'HashSimple')
        h = cuckoo.run(P, 'HashCuckoo', [t], boundary={})
        bad = tor(eq(r.H, num(1)), few, tnot(le(cuckoo.NIN, cuckoo.NB)), cuckoo.toolarge(r))
        w = cuckoo.W + 'HashCuckoo'
        if h is not None and not h.opaque:
            refuses(rep, 'CuckooHasher::HashCuckoo: one hash function, no buckets, too many inputs or hash bits are invalid arguments', h, bad, base, d, w)
            msg = giveup(h)
            if msg is None:
                rep.undecided('CuckooHasher::HashCuckoo: exhausted evictions are an internal error', 'error exits not understood', w)
            else:
                rep.check('CuckooHasher::HashCuckoo: exhausted evictions are an internal error', all(c == 'Internal' for c, m in msg), str(sorted(msg)), w)
        else:
            rep.undecided('CuckooHasher::HashCuckoo', why_opaque(h) if h is not None else 'not found', w)
    g = cuckoo.run(P, 'GetOptimalNumberOfBuckets')
    refuses(rep, 'CuckooHasher::GetOptimalNumberOfBuckets: negative sizes are invalid arguments', g, ge0(neg(add(sym('num_inputs'), num(1)))), base[1:], d,
            cuckoo.WC + 'GetOptimalNumberOfBuckets')


def giveup(sm):
    """statuses the insertion may end with: {(code, message)}"""
    out = set()

    def walk(x):
        if x.op == 'obj':
            return walk(fld(x, 'st'))
        if x.op == 'st':
            out.add((x.args[0], x.args[1].args[0] if isinstance(x.args[1], Term) and x.args[1].op == 'str' else x.args[1]))
            return True
        if x.op == 'ite':
            return walk(x.args[1]) and walk(x.args[2])
        if x.op == 'choice':
            return walk(x.args[0].args[2])
        if x.op == 'mu':
            k = x.args[0]
            return all(walk(t) for t in (x.args[8][k] if x.args[8] else x.args[4][k], x.args[4][k]))
        return x.op == 'phi' or show(x) == 'none'
    for k, s, v in sm.outs:
        if k == 'ret' and v.op != 'obj':
            if not walk(v):
                return None
    return out or None


def c_rot(rep, P):
    sm = rot.run(P, 'RunReceiverBatched', 'unsigned long')
    j = fresh_bv('j')
    idx = sel(fn('input', tstr('indices'), rot.NI), (j,))
    w = rot.W + 'RunReceiverBatched'
    refuses(rep, 'AllButOneRandomOT::RunReceiverBatched: different numbers of indices and outputs are invalid arguments', sm, tnot(eq(rot.N, rot.NI)), [], rot.rdom, w)
    bad = tnot(mpfss.forall_(j, rot.N, tand(ge0(idx), tor(lt(idx, rot.lens(j)), eq(rot.lens(j), num(0))))))
    refuses(rep, 'AllButOneRandomOT::RunReceiverBatched: indices out of range are invalid arguments', sm, bad, [eq(rot.N, rot.NI)], rot.rdom, w)


    refuses(rep, 'AllButOneRandomOT::RunReceiver: an index out of range is an invalid argument', rot.run(P, 'RunReceiver', 'unsigned long', npar=2),
            tnot(tand(ge0(sym('index')), tor(lt(sym('index'), sym('n_output', 'nat')), eq(sym('n_output', 'nat'), num(0))))), [], rot.rdom, rot.W + 'RunReceiver')
    unhashable(rep, 'AllButOneRandomOT::RunSenderBatched', rot.run(P, 'RunSenderBatched', 'unsigned long'), [], rot.rdom, rot.W + 'RunSenderBatched')


def unhashable(rep, who, sm, facts, dom, w):
    name = '%s: scalars too coarse for the statistical security are an invalid argument' % who
    if sm is None or sm.opaque:
        return rep.undecided(name, why_opaque(sm) if sm is not None else 'not found', w)
    oks = [s for k, s, v in sm.outs if k == 'ret' and codeis(stof(v), 'ok') is TRUE]
    hs = {a for s in oks for c in s.pc for a in atoms(c) if a.op == 'bfn' and a.args[0] == 'hashable' and not a.bvs}
    if len(hs) != 1:
        return rep.undecided(name, '%d guards' % len(hs), w)
    steps = {a for k, s, v in sm.outs for c in s.pc for a in atoms(c) if a.op == 'fn' and a.args[0].startswith('status:') and not a.bvs}
    refuses(rep, name, sm, tnot(hs.pop()), facts + [okst(a) for a in sorted(steps, key=lambda a: a.id)], dom, w)


def c_spfss(rep, P):
    nv, ni, no = sym('n_val_shares', 'nat'), sym('n_indices', 'nat'), sym('n_outputs', 'nat')
    for q, bad in (('RunValueProviderBatched', tnot(eq(nv, no))), ('RunIndexProviderBatched', tnot(tand(eq(nv, no), eq(nv, ni))))):
        refuses(rep, 'SPFSSKnownIndex::%s: mismatching sizes are invalid arguments' % q, spfss.run(P, q, 'unsigned long'), bad, [], spfss.fdom, spfss.W + q)


def c_gilboa(rep, P):
    t = 'unsigned long'
    sv, _ = gilboa.sides(P, t, None)
    refuses(rep, 'ScalarVectorGilboaProduct::RunVectorProvider: mismatching sizes are invalid arguments', sv, tnot(eq(gilboa.NY, gilboa.NO)), [], gilboa.gdom,
            gilboa.W + 'RunVectorProvider')
    n = sym('y_len')
    sm = gilboa.run(P, 'RunValueProvider', t, None, npar=2, pred=lambda fo: 'Span<' not in fo['params'][-1]['t'])
    refuses(rep, 'ScalarVectorGilboaProduct::RunValueProvider: negative lengths are invalid arguments', sm, ge0(neg(add(n, num(1)))), [], gilboa.gdom,
            gilboa.W + 'RunValueProvider')


def c_mpfss(rep, P):
    t = 'unsigned long'
    sv, si = mpfss.run(P, 'RunValueProviderVectorOLE', t), mpfss.run(P, 'RunIndexProviderVectorOLE', t)
    M = mpfss
    w1, w2 = M.W + 'RunValueProviderVectorOLE', M.W + 'RunIndexProviderVectorOLE'
    refuses(rep, 'MPFSSKnownIndices::RunValueProviderVectorOLE: no indices are an invalid argument', sv, ge0(neg(M.YL)), [], M.mdom, w1)
    if si is None or si.opaque:
        return rep.undecided('MPFSSKnownIndices::RunIndexProviderVectorOLE', why_opaque(si) if si is not None else 'not found', w2)
    k = fresh_bv('k')
    arr = fn('input', tstr('indices'), M.NI)
    ik = sel(arr, (k,))
    inrange = M.forall_(k, M.NI, tand(ge0(ik), lt(ik, M.NO)))
    sizes = tand(eq(M.NYV, M.NI), ge0(sub(M.NO, M.NI)), tnot(eq(M.NYV, num(0))))
    refuses(rep, 'MPFSSKnownIndices::RunIndexProviderVectorOLE: inconsistent sizes are invalid arguments', si, tnot(sizes), [], M.mdom, w2)
    refuses(rep, 'MPFSSKnownIndices::RunIndexProviderVectorOLE: indices out of range are invalid arguments', si, tnot(inrange), [sizes], M.mdom, w2)
    # repeated indices are found when cuckoo hashing gives up
    h = cuckoo.run(P, 'HashCuckoo', ['long'], boundary={})
    msgs = giveup(h) if h is not None and not h.opaque else None
    name = 'MPFSSKnownIndices::RunIndexProviderVectorOLE: repeated indices that make cuckoo hashing give up are an invalid argument'
    size = fn('setsize', fn('setof', arr))
    thr, v = total(si)
    st_ = stof(v)
    base = [sizes, inrange, M.OKU]
    if not msgs or any(m == '<formatted>' for c, m in msgs):
        return rep.undecided(name, 'the message of the hasher is not a constant', w2)
    cs = fn('status:cuckoo')
    for c, m in sorted(msgs):
        gave = st(c, m)
        g = subst(inst(simp(st_, base), cs, c, m), {cs: gave})
        f = [inst(x, cs, c, m) for x in base]
        settle(rep, name, equal(codeis(g, INV), TRUE, f + [tnot(eq(size, M.NI))], M.mdom), w2)
        settle(rep, 'MPFSSKnownIndices::RunIndexProviderVectorOLE: with distinct indices, the hasher giving up is passed on as it is',
               equal(codeis(g, c), TRUE, f + [eq(size, M.NI)], M.mdom), w2)


def inst(t, cs, c, m):
    """conditions on the hasher's status when it is the given error"""
    d = {}
    for a in atoms(t):
        if a.op == 'bfn' and cs in a.args:
            if a.args[0] == 'ok':
                d[a] = FALSE
            elif a.args[0].startswith('is'):
                d[a] = tbool(a.args[0] == 'is' + c)
        if a.op == 'bfn' and a.args[0] == 'ok' and a.args[1].op == 'st':
            d[a] = tbool(a.args[1].args[0] == 'ok')
        if a.op == 'fn' and a.args[0] == 'message' and len(a.args) > 1 and a.args[1] is cs:
            d[a] = tstr(m)
    return subst(t, d)


def c_vole(rep, P):
    t = 'unsigned long'
    size, batch = sym('size'), sym('batch_size')
    for role, pq, q, npar in vole2.ROLES:
        th = setfld(vole.party(P, t, role), role + '_precomputation_done_', TRUE)
        f = [ge0(neg(add(size, num(1))))]
        sm = summary(P, vole.cls(t) + q, npar=1, boundary=vole.run_boundary(t), rings=(GF,), this_init=th, facts=f)
        refuses(rep, 'DistributedVectorOLE::%s: negative sizes are invalid arguments' % q, sm, f[0], [], vole.vdom, vole.H + q)
        f = [lt(batch, num(1))]
        sm = summary(P, vole.cls(t) + pq, npar=npar, boundary=vole.pre_boundary(t), rings=(GF,), this_init=vole.party(P, t, role), facts=f, unroll=8)
        refuses(rep, 'DistributedVectorOLE::%s: batch sizes below 1 are invalid arguments' % pq, sm, f[0], [], vole.vdom, vole.H + pq)
    common = summary(P, vole.cls(t) + 'PrecomputeCommon', boundary=vole.code_boundary(t), rings=(GF,))
    o, vs, nn = sym('output_size'), sym('this.vole_seed_size_'), sym('this.num_noise_indices_')
    unhashable(rep, 'DistributedVectorOLE::PrecomputeCommon', common, [ge0(sub(o, num(1))), ge0(sub(vs, num(1))), ge0(sub(nn, num(1)))], vole.vdom, vole.H + 'PrecomputeCommon')
