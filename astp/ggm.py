"""T01-T04: the GGM tree."""
import multiprocessing
from concurrent.futures import ProcessPoolExecutor
from concurrent.futures.process import BrokenProcessPool
import os
import sys
import threading
from .check import *
from .load import program
from .engine import okof, okst
from . import terms as TT
from .induct import induct, mu_row, mus, parts
from .evalterm import Val, NE, toint

NS = 'distributed_vector_ole::'
C = NS + 'GGMTree'
W = 'distributed_vector_ole/ggm_tree.cpp GGMTree::'


def create_by_keys(P):
    return lambda fo: any('vector' in p['t'] for p in fo['params'])


def merged_heap(sm, facts):
    """(condition of success, returned status/value, tree object) over the outcomes of a factory function"""
    cond, val = FALSE, None
    for k, s, v in reversed([o for o in sm.outs if o[0] == 'ret']):
        ok = simp(okof(v), list(s.pc) + list(facts))
        if ok is FALSE or simp(tand(*s.pc), facts) is FALSE:
            continue
        p = simp(fld(v, 'val'), list(s.pc))
        if p.op == 'ite':
            p = next((x for x in p.args[1:] if x.op == 'ptr'), p)
        if p.op != 'ptr':
            return None, None
        o = s.vars[p.args[0]]
        c = tand(*s.pc)
        cond = tor(cond, tand(c, ok))
        val = o if val is None else ite(c, o, val)
    return cond, val


def call(P, f, tree, args=(), facts=(), pred=None):
    sm = summary(P, C + '::' + f, this_init=tree, args={i: a for i, a in enumerate(args)} or None, facts=facts, pred=pred)
    if sm is None:
        return None
    return total(sm)[1]


def status_of(sm):
    v = total(sm)[1]
    return fld(v, 'st')


def code(stt, kind, facts):
    """condition under which a status term has the given error code"""
    if stt.op == 'st':
        return TRUE if stt.args[0] == kind else FALSE
    if stt.op == 'ite':
        return tor(tand(stt.args[0], code(stt.args[1], kind, facts)), tand(tnot(stt.args[0]), code(stt.args[2], kind, facts)))
    return None


def logfacts(*ts):
    """ceil(log n / log a) is an exponent large enough (exact logarithms)"""
    out = []
    for t in ts:
        for x in atoms(t):
            if x.op == 'fn' and x.args[0] == 'ceil':
                y = x.args[1]
                if y.op == 'fn' and y.args[0] == 'rdiv' and all(z.op == 'fn' and z.args[0] == 'ln' for z in y.args[1:]):
                    n, a = y.args[1].args[1], y.args[2].args[1]
                    out += [ge0(x), ge0(sub(TT.tpow(a, x), n))]
    return list(dict.fromkeys(out))


def dom(V, key):
    if key[0] == 'sym':
        n = key[1]
        if n in ('arity', 'n_keys', 'this.arity_', 'a'):
            return V.h(key, 2, 6) if V.h(('ac', key), 0, 5) else V.h(key, -2, 4)
        if n in ('num_leaves', 'n'):
            return V.h(key, 1, 40) if V.h(('nc', key), 0, 6) else V.h(key, -3, 3)
        if n in ('m', 'l'):
            return V.h(key, 0, 5)
        if n in ('j', 'missing_index'):
            return V.h(key, 0, 12)
    return None


def T01(rep):
    rep.level = 'proof'
    P = program('unit.cpp')
    rep.assumptions += ['AES is an uninterpreted function; RAND_bytes fills its buffer',
                        'ceil(log n / log a) computed in double is not below the exact value (it is exact far beyond any tree that fits in memory)',
                        'trees whose allocation succeeds']
    for q in ('Create', 'GetValueAtNode', 'GetValueAtLeaf', 'level_size', 'ExpandSubtree'):
        rep.seen('functions', C + '::' + q)
    guarded(rep, 'Create', W + 'Create', lambda: create(rep, P))
    guarded(rep, 'Create(arity)', W + 'Create', lambda: create_arity(rep, P))


def good():
    a, n = sym('n_keys', 'nat'), sym('num_leaves', 'num')
    return a, n, [ge0(sub(a, num(2))), ge0(sub(n, num(1)))]


def create(rep, P):
    w = W + 'Create'
    sm = summary(P, C + '::Create', pred=create_by_keys(P))
    if sm is None:
        return rep.undecided('Create', 'not found', w)
    if sm.opaque:
        return rep.undecided('Create', why_opaque(sm), w)
    a, n, g = good()
    thr, v = total(sm)
    lf = logfacts(fld(v, 'st'), *[x for k, s, _ in sm.outs for x in s.pc])
    settle(rep, 'Create never throws', equal(thr, FALSE, [], dom), w)
    bad = tor(tnot(ge0(sub(a, num(2)))), tnot(ge0(sub(n, num(1)))))
    inv = code(fld(v, 'st'), 'InvalidArgument', [])
    if inv is None:
        rep.undecided('Create: status', show(fld(v, 'st'))[:200], w)
    else:
        settle(rep, 'Create answers InvalidArgument exactly for fewer than two keys or no leaves', equal(inv, bad, [ge0(a)], dom), w)
    g = g + lf
    settle(rep, 'Create succeeds for every arity >= 2 and every positive number of leaves', equal(okof(v), TRUE, g, dom), w)
    cond, tree = merged_heap(sm, g)
    if tree is None:
        return rep.undecided('Create: the tree', 'not a freshly allocated object', w)
    tree = simp(tree, g + [cond])
    facts = g + [x for x in (cond.args if cond.op == 'and' else (cond,)) if x is not TRUE]
    facts = [f for f in facts]
    shape(rep, P, 'Create', tree, facts, a, n, w)
    settle(rep, 'Create: arity() is the number of keys', equal(call(P, 'arity', tree), a, facts, dom), w)
    settle(rep, 'Create: num_leaves() is the requested number', equal(call(P, 'num_leaves', tree), n, facts, dom), w)
    i = sym('i', 'num')
    fi = facts + [ge0(i), lt(i, a)]
    keys = span_of(P, 'keys', tree)
    arr = fn('input', TT.tstr('keys'), a)
    settle(rep, 'Create: keys() are the given keys', equal(sel(keys, (i,)), sel(arr, (i,)), fi, dom), w)
    settle(rep, 'Create: keys() has arity() elements', equal(tlen(keys), a, facts, dom), w)
    ek = span_of(P, 'expanded_keys', tree)
    settle(rep, 'Create: expanded_keys()[i] is the AES-128 key schedule of key i', equal(sel(ek, (i,)), fn('aeskey', num(128), sel(arr, (i,))), fi, dom), w)
    # contents
    key = lambda s: fn('aeskey', num(128), sel(arr, (s,)))
    nodes(rep, P, 'Create', tree, facts, a, n, key, sym('seed', 'num'), w)


def span_of(P, f, tree):
    sm = summary(P, C + '::' + f, this_init=tree)
    k, s, v = sm.outs[0]
    E = sm.eng
    E.s = s
    return E.span_value(v)


def shape(rep, P, who, tree, facts, a, n, w):
    L = call(P, 'num_levels', tree)
    m = sym('m', 'num')
    fm = facts + [ge0(m), lt(m, L)]
    size = lambda l, f: simp(call(P, 'level_size', tree, [l], f), f)
    settle(rep, '%s: num_levels() is positive' % who, implies(TRUE, ge0(sub(L, num(1))), facts, dom), w)
    settle(rep, '%s: level_size(num_levels()-1-m) = ceil(leaves / arity^m)' % who,
           equal(size(sub(sub(L, num(1)), m), fm), add(num(1), div(sub(n, num(1)), TT.tpow(a, m))), fm, dom), w)
    settle(rep, '%s: level 0 has one node' % who, equal(size(num(0), facts), num(1), facts, dom), w)


def getv(P, tree, l, j, facts):
    v = call(P, 'GetValueAtNode', tree, [l, j], facts)
    return v


def nodes(rep, P, who, tree, facts, a, n, key, seed, w):
    L = call(P, 'num_levels', tree)
    m, j, l = sym('m', 'num'), sym('j', 'num'), sym('l', 'num')
    v = getv(P, tree, l, j, facts)
    sz = call(P, 'level_size', tree, [l], facts)
    inr = [ge0(l), lt(l, L)]
    wg = W + 'GetValueAtNode'
    settle(rep, '%s: GetValueAtNode rejects levels out of range' % who, equal(okof(v), FALSE, facts + [tor(tnot(ge0(l)), tnot(lt(l, L)))], dom), wg)
    settle(rep, '%s: GetValueAtNode succeeds exactly for nodes of the level' % who, equal(okof(v), tand(ge0(j), lt(j, simp(sz, facts + inr))), facts + inr, dom), wg)
    lv = call(P, 'GetValueAtLeaf', tree, [j], facts)
    settle(rep, '%s: GetValueAtLeaf succeeds exactly for leaves' % who, equal(okof(lv), tand(ge0(j), lt(j, n)), facts, dom), wg)
    leaf = facts + [ge0(j), lt(j, n)]
    last = getv(P, tree, sub(L, num(1)), j, leaf)
    settle(rep, '%s: GetValueAtLeaf reads the last level' % who, equal(simp(fld(lv, 'val'), leaf), simp(fld(last, 'val'), leaf), leaf, dom), wg)
    root = getv(P, tree, num(0), num(0), facts)
    root = expand_rows(simp(fld(root, 'val'), facts), facts)
    settle(rep, '%s: the root is the seed' % who, equal(root, seed, facts, dom), w)
    # children of level L-2-m
    lc, lp = sub(sub(L, num(1)), m), sub(sub(L, num(2)), m)
    fm = facts + [ge0(m), ge0(sub(sub(L, num(2)), m)), ge0(j), le(j, div(sub(n, num(1)), TT.tpow(a, m)))]
    child = simp(fld(getv(P, tree, lc, j, fm), 'val'), fm)
    par = simp(fld(getv(P, tree, lp, div(j, a), fm), 'val'), fm)
    want = xor(par, fn('AES', key(mod(j, a)), par))
    got = expand_rows(child, fm)
    extra = invariants(got, fm, L, m, a, n)
    got = simp(got, fm + extra)
    settle(rep, '%s: node j of a level is AES(k_(j mod arity), parent) ^ parent with parent j div arity' % who, equal(got, want, fm + extra, dom), w)


def invariants(t, facts, L, m, a, n):
    """bounds on loop-carried numbers, proved by induction over the levels"""
    E = sub(L, num(1))
    size = lambda l: add(num(1), div(sub(n, num(1)), TT.tpow(a, sub(E, l))))
    out = []
    u = sym('u!', 'num')
    for M in mus(t):
        k, tau, phis, inits, nexts, N = parts(M)[:6]
        if phis[k].args[1] != 'num' or N is None:
            continue
        for cand in (lambda v, l: ge0(sub(v[k], size(l))), lambda v, l: ge0(sub(v[k], num(1)))):
            base = [f for f in facts if not (set(x for x in atoms(f)) & {m})]
            # iteration t = E - 1 - u
            if induct(M, cand, base + [ge0(u), ge0(sub(sub(E, num(1)), u))], T=sub(sub(E, num(1)), u)):
                out.append(simp(cand(dict_at(M, k), N), facts))
                break
    return out


def dict_at(M, k):
    return {k: M}


def expand_rows(t, facts):
    """replace reads of a recurrence array by the recurrence's own equation"""
    if t.op == 'sel' and t.args[0].op == 'mu':
        r = mu_row(t.args[0], t.args[1], facts)
        if r is not None:
            return simp(r, facts)
    return t


def create_arity(rep, P):
    w = W + 'Create(arity, ...)'
    sm = summary(P, C + '::Create', pred=lambda fo: not create_by_keys(P)(fo))
    if sm is None:
        return rep.undecided('Create(arity, ...)', 'not found', w)
    if sm.opaque:
        return rep.undecided('Create(arity, ...)', why_opaque(sm), w)
    a, n = sym('arity', 'num'), sym('num_leaves', 'num')
    thr, v = total(sm)
    lf = logfacts(fld(v, 'st'), *[x for k, s, _ in sm.outs for x in s.pc])
    settle(rep, 'Create(arity) never throws', equal(thr, FALSE, [], dom), w)
    bad = tor(tnot(ge0(sub(a, num(2)))), tnot(ge0(sub(n, num(1)))))
    inv = code(fld(v, 'st'), 'InvalidArgument', [])
    if inv is not None:
        settle(rep, 'Create(arity) answers InvalidArgument exactly for arity < 2 or no leaves', equal(inv, bad, [], dom), w)
    g = [ge0(sub(a, num(2))), ge0(sub(n, num(1)))]
    g += [simp(x, g) for x in lf]
    settle(rep, 'Create(arity) succeeds for every arity >= 2 and every positive number of leaves', equal(okof(v), TRUE, g, dom), w)
    cond, tree = merged_heap(sm, g)
    tree = simp(tree, g + [cond])
    facts = g + [x for x in (cond.args if cond.op == 'and' else (cond,)) if x is not TRUE]
    settle(rep, 'Create(arity): arity() is the requested arity', equal(call(P, 'arity', tree), a, facts, dom), w)
    i, i2 = sym('i', 'num'), sym('i2', 'num')
    keys = span_of(P, 'keys', tree)
    x = simp(sel(keys, (i,)), facts + [ge0(i), lt(i, a)])
    rep.check('Create(arity): every key is filled by RAND_bytes',
              True if x.op == 'fn' and x.args[0].startswith('rand#') and i in atoms(x) else None, show(x)[:200], w)


def sym_tree(P, nat=('num_levels_', 'arity_', 'num_leaves_')):
    from .engine import Engine
    E = Engine(P, {})
    return E.sym_object(C, 'this')


def T02(rep):
    rep.level = 'proof'
    P = program('unit.cpp')
    rep.assumptions += ['a tree as Create builds it: arity at least 2, at least one level, level sizes below 2^63']
    rep.seen('functions', C + '::GetSiblingWiseXOR')
    guarded(rep, 'GetSiblingWiseXOR', W + 'GetSiblingWiseXOR', lambda: sib(rep, P))


def sib(rep, P):
    w = W + 'GetSiblingWiseXOR'
    tree = sym_tree(P)
    L, a = call(P, 'num_levels', tree), call(P, 'arity', tree)
    base = [ge0(sub(L, num(1))), ge0(sub(a, num(2)))]
    rows = [t for t in atoms(tree) if t.op == 'fn' and t.args[0] == 'input']
    sm = summary(P, C + '::GetSiblingWiseXOR', this_init=tree, facts=base)
    if sm is None:
        return rep.undecided('GetSiblingWiseXOR', 'not found', w)
    if sm.opaque:
        return rep.undecided('GetSiblingWiseXOR', why_opaque(sm), w)
    thr, v = total(sm)
    settle(rep, 'GetSiblingWiseXOR never throws', equal(thr, FALSE, base, tdom), w)
    settle(rep, 'GetSiblingWiseXOR has num_levels()-1 rows', equal(tlen(v), sub(L, num(1)), base, tdom), w)
    l, s, i = sym('l', 'num'), sym('s', 'num'), sym('j', 'num')
    f = base + [ge0(l), lt(l, sub(L, num(1)))]
    settle(rep, 'GetSiblingWiseXOR: every row has arity() elements', equal(tlen(sel(v, (l,))), a, f, tdom), w)
    f2 = f + [ge0(s), lt(s, a)]
    size = simp(call(P, 'level_size', tree, [add(l, num(1))], f), f)
    b = fresh_bv('b')
    j = add(mul(a, b), s)
    fb = f2 + [ge0(b), lt(j, size)]
    cell = simp(fld(getv(P, tree, add(l, num(1)), j, fb), 'val'), fb)
    want = xsum(b, num(0), div(add(size, sub(a, num(1))), a), ite(lt(j, size), cell, num(0)))
    with with_facts(f2):
        got = simp(sel(v, (l, s)), f2)
    lvl = [x for x in atoms(size) if x.op == 'len']
    settle(rep, 'GetSiblingWiseXOR()[l][s] is the XOR of the nodes s, s+arity, s+2*arity, ... of level l+1', equal(got, want, f2 + [ge0(size)], tdom), w)


def tdom(V, key):
    if key[0] == 'sym':
        n = key[1]
        if 'level' in n and key[0] == 'sym':
            return V.h(key, 1, 5)
        if 'arity' in n:
            return V.h(key, 2, 5)
        if n in ('l', 's', 'j'):
            return V.h(key, 0, 5)
    return None


def T03(rep):
    rep.level = 'proof'
    P = program('unit.cpp')
    rep.assumptions += ['ceil(log n / log a) and pow(a, k) computed in double are exact (they are far beyond any tree that fits in memory)',
                        'trees whose allocation succeeds; AES_set_encrypt_key accepts every 128-bit key']
    rep.seen('functions', C + '::CreateFromSiblingWiseXOR')
    guarded(rep, 'CreateFromSiblingWiseXOR', W + 'CreateFromSiblingWiseXOR', lambda: from_xor(rep, P))


def num_levels_of(P, a, n):
    """num_levels() of the tree Create builds for a keys and n leaves"""
    sm = summary(P, C + '::Create', pred=create_by_keys(P))
    ka, kn = sym('n_keys', 'nat'), sym('num_leaves', 'num')
    g = [ge0(sub(ka, num(2))), ge0(sub(kn, num(1)))]
    g += logfacts(*[x for k, s, _ in sm.outs for x in s.pc])
    cond, tree = merged_heap(sm, g)
    return subst(simp(call(P, 'num_levels', tree), g), {ka: a, kn: n})


def from_xor(rep, P):
    w = W + 'CreateFromSiblingWiseXOR'
    q = C + '::CreateFromSiblingWiseXOR'
    sm = summary(P, q)
    if sm is None:
        return rep.undecided('CreateFromSiblingWiseXOR', 'not found', w)
    if sm.opaque:
        return rep.undecided('CreateFromSiblingWiseXOR', why_opaque(sm), w)
    a, n, mi = sym('arity', 'num'), sym('num_leaves', 'num'), sym('missing_index', 'num')
    R, K = sym('n_sibling_wise_xors', 'nat'), sym('n_keys', 'nat')
    X = fn('input', TT.tstr('sibling_wise_xors'), R)
    L = num_levels_of(P, a, n)
    thr, v = total(sm)
    b = fresh_bv('b')
    rows = forall(b, num(0), R, eq(tlen(sel(X, (b,))), a))
    base = [ge0(sub(a, num(2))), ge0(sub(n, num(1)))]
    lf = logfacts(L, fld(v, 'st'), *[x for k, s, _ in sm.outs for x in s.pc])
    good = tand(ge0(sub(a, num(2))), ge0(sub(n, num(1))), ge0(mi), lt(mi, n), rows, eq(K, a), eq(add(R, num(1)), L))
    st_ = fld(v, 'st')
    ok = okof(v)
    inv = code(st_, 'InvalidArgument', [])
    settle(rep, 'CreateFromSiblingWiseXOR never throws', equal(thr, FALSE, [], xdom), w)
    settle(rep, 'CreateFromSiblingWiseXOR accepts only arity >= 2, leaves >= 1, 0 <= missing_index < leaves',
           implies(ok, tand(*base, ge0(mi), lt(mi, n)), [], xdom), w)
    vf = base + lf
    settle(rep, 'CreateFromSiblingWiseXOR accepts exactly arity-sized rows for every level of the tree and arity keys',
           equal(ok, good, vf, xdom), w)
    if inv is not None:
        settle(rep, 'CreateFromSiblingWiseXOR answers every rejected argument with InvalidArgument', equal(inv, tnot(good), vf, xdom), w)
    f = base + lf + [ge0(mi), lt(mi, n), rows, eq0(sub(K, a)), eq0(sub(add(R, num(1)), L))]
    cond, tree = merged_heap(sm, f)
    if tree is None:
        return rep.undecided('CreateFromSiblingWiseXOR: the tree', 'not a freshly allocated object', w)
    m = {K: a, R: sub(L, num(1))}
    tree = subst(tree, m)
    f = [x for x in (subst(y, m) for y in f) if x is not TRUE]
    tree = simp(tree, f)
    shape(rep, P, 'CreateFromSiblingWiseXOR', tree, f, a, n, w)
    settle(rep, 'CreateFromSiblingWiseXOR: arity()', equal(call(P, 'arity', tree), a, f, xdom), w)
    settle(rep, 'CreateFromSiblingWiseXOR: num_leaves()', equal(call(P, 'num_leaves', tree), n, f, xdom), w)
    settle(rep, 'CreateFromSiblingWiseXOR: num_levels() as in Create', equal(call(P, 'num_levels', tree), L, f, xdom), w)
    i = sym('i', 'num')
    fi = f + [ge0(i), lt(i, a)]
    arr = fn('input', TT.tstr('keys'), a)
    settle(rep, 'CreateFromSiblingWiseXOR: keys() are the given keys', equal(sel(span_of(P, 'keys', tree), (i,)), sel(arr, (i,)), fi, xdom), w)
    settle(rep, 'CreateFromSiblingWiseXOR: expanded_keys()[i] is the AES-128 key schedule of key i',
           equal(sel(span_of(P, 'expanded_keys', tree), (i,)), fn('aeskey', num(128), sel(arr, (i,))), fi, xdom), w)
    return tree, f, a, n, mi, L


def xdom(V, key):
    if key[0] == 'sym':
        n = key[1]
        if n in ('n_sibling_wise_xors', 'n_keys'):
            c = V.h(('xc', key), 0, 4)
            a, k = V.number(('sym', 'arity')), V.number(('sym', 'num_leaves'))
            if c and n == 'n_keys':
                return max(0, a + (V.h(key, -1, 2) if c == 3 else 0))
            if c and a >= 2 and k >= 1:
                e = 0
                while a ** e < k:
                    e += 1
                return max(0, e + (V.h(key, -1, 2) if c == 3 else 0))
            return V.h(key, 0, 6)
        if n == 'missing_index':
            k = V.number(('sym', 'num_leaves'))
            c = V.h(('mc', key), 0, 5)
            return V.h(key, 0, k) if c and k > 0 else V.h(key, -2, k + 3 if k > 0 else 3)
        if n in ('arity', 'num_leaves', 'm', 'l', 'j'):
            return dom(V, key)
    if key[0] == 'len':
        a = V.number(('sym', 'arity'))
        c = V.h(('lc', key), 0, 12)
        return max(0, a + (1 if c == 0 else -1 if c == 1 else 0))
    return None


# ------------------------------------------------------------------ T04: contents of a punctured tree
def T04(rep):
    rep.level = 'other'
    P = program('unit.cpp')
    rep.assumptions += ['AES is an uninterpreted function', 'double logarithms and powers are exact at these sizes']
    rep.seen('functions', C + '::CreateFromSiblingWiseXOR')
    guarded(rep, 'contents', W + 'CreateFromSiblingWiseXOR', lambda: punctured(rep, P))


class Quiet:
    obl = []

    def add(self, *a):
        return True

    def undecided(self, *a):
        return None
    check = ok = fail = seen = add


def punctured(rep, P):
    w = W + 'CreateFromSiblingWiseXOR'
    r = from_xor(Quiet(), P)
    if r is None:
        return rep.undecided('contents', 'the tree object was not recognised', w)
    tree, f, a, n, mi, L = r
    E = sub(L, num(1))
    X = fn('input', TT.tstr('sibling_wise_xors'), E)
    keys = fn('input', TT.tstr('keys'), a)
    key = lambda s: fn('aeskey', num(128), sel(keys, (s,)))
    size = lambda l_: add(num(1), div(sub(n, num(1)), TT.tpow(a, sub(E, l_))))
    path = lambda l_: div(mi, TT.tpow(a, sub(E, l_)))
    O = lambda l_, j_: fn('node', a, keys, l_, j_)
    # sibling-wise XORs of the original tree, arbitrary on the path
    l1, s1, b1 = fresh_bv('l'), fresh_bv('s'), fresh_bv('b')
    orig = xsum(b1, num(0), div(add(size(add(l1, num(1))), sub(a, num(1))), a),
                ite(lt(add(mul(a, b1), s1), size(add(l1, num(1)))), O(add(l1, num(1)), add(mul(a, b1), s1)), num(0)))
    junk = ite(eq(s1, mod(path(add(l1, num(1))), a)), fn('junk', l1, s1), orig)
    XT = amap(l1, E, amap(s1, a, junk))
    f = [subst(x, {X: XT}) for x in f]
    f = [x for x in f if x is not TRUE]
    tree = subst(tree, {X: XT})
    name = 'every node off the path to the missing leaf equals the node of the tree the sibling-wise XORs came from'
    jobs = [(x, y, range(y)) for x, hi in SHAPES for y in range(1, hi + 1)]
    jobs += [(x, y, (m,)) for x, y in LARGE for m in sorted({0, 1, x, y // 2, y - 2, y - 1})]
    l, j = sym('l', 'num'), sym('j', 'num')
    bl, bj = fresh_bv('l'), fresh_bv('j')
    va = getv(P, tree, l, j, f + [ge0(l), le(l, E), ge0(j), lt(j, size(l))])
    b2 = {l: bl, j: bj}
    SHARED.update(ok=subst(okof(va), b2), val=subst(fld(va, 'val'), b2), l=bl, j=bj, E=E, key=key, f=f)
    jobs.sort(key=lambda x: -x[1] * len(x[2]))
    res = []
    with ProcessPoolExecutor(min(8, os.cpu_count() or 1), mp_context=multiprocessing.get_context('fork')) as pool:
        for fu in [pool.submit(shape_job, x) for x in jobs]:
            try:
                res.append(fu.result())
            except BrokenProcessPool:
                res.append(('und', 'a worker process ended early'))
    for av in sorted({x[0] for x in jobs}):
        r = [x for x, job in zip(res, jobs) if job[0] == av]
        bad = [m for k, m in r if k == 'bad']
        und = [m for k, m in r if k == 'und']
        nm = name + ' (arity %d)' % av
        if bad:
            rep.fail(nm, bad[-1], w)
        elif und:
            rep.undecided(nm, und[-1], w)
        else:
            rep.ok(nm, '%d tree shapes (arity, leaves, missing leaf)' % sum(m for k, m in r), w)
    rep.seen('shapes', sum(m for k, m in res if k == 'ok'))


# arity, largest number of leaves
SHAPES = [(2, 66), (3, 60), (4, 66), (5, 40), (6, 40), (7, 52), (8, 40), (9, 30)]
# larger trees, a few missing leaves each
LARGE = [(2, 300), (2, 257), (3, 300), (5, 626), (8, 513), (16, 260), (17, 300), (64, 130), (2, 2050), (4, 1030)]
SHARED = {}


def shape_job(job):
    out = []
    sys.setrecursionlimit(1000000)
    threading.stack_size(512 << 20)
    th = threading.Thread(target=lambda: out.append(shapes_of(job)))
    th.start()
    th.join()
    return out[0] if out else ('und', 'arity %d, %d leaves: no answer' % job[:2])


def shapes_of(job):
    """every missing leaf of one (arity, leaves): the summary's levels, interpreted once with independent random 128-bit
    values for the original root, the keys, AES and the unknown sums; cells are XORs of these, so two different cells
    agree with probability 2^-128"""
    av, nv, miss = job
    E, key, f = (SHARED[k] for k in ('E', 'key', 'f'))
    E_ = 0
    while av ** E_ < nv:
        E_ += 1
    size = lambda l: 1 + (nv - 1) // av ** (E_ - l)
    done = 0
    for miv in miss:
        def domv(V, k):
            if k[0] == 'sym':
                r = {'arity': av, 'num_leaves': nv, 'missing_index': miv, 'n_keys': av, 'n_sibling_wise_xors': E_}.get(k[1])
                if r is not None:
                    return r
            if k[0] == 'fn' and k[1] and k[1][0] == 'AES':
                return V.h(k, 0, 1 << 128)
            return None
        V = Val(('shape', av, nv, miv), domv, {'node': interp_node(key)})
        V.lim = max(V.lim, 2 * nv)
        where = 'arity %d, %d leaves, missing leaf %d' % (av, nv, miv)
        try:
            if toint(V.num(V.ev(E))) != E_:
                return 'und', where + ': number of levels'
            if not all(V.cond(x, {}) for x in f):
                return 'und', where + ': the facts do not hold'
            for l in range(E_ + 1):
                for j in range(size(l)):
                    if j == miv // av ** (E_ - l):
                        continue
                    env = {SHARED['l']: l, SHARED['j']: j, '#': {}}
                    if not V.cond(SHARED['ok'], env):
                        return 'bad', '%s: node %d of level %d is not readable' % (where, j, l)
                    if V.nev(SHARED['val'], env) != V.num(V.interp['node'](V, av, None, l, j)):
                        return 'bad', '%s: node %d of level %d is not the original one' % (where, j, l)
        except NE as e:
            return 'und', '%s: %s' % (where, e)
        except RecursionError:
            return 'und', where + ': recursion'
        done += 1
    return 'ok', done


def interp_node(key):
    def ev(V, a, keys, l, j):
        a, l, j = V.num(a), V.num(l), V.num(j)
        k = ('node', a, l, j)
        if k in V.memo:
            return V.memo[k]
        if l <= 0:
            r = V.h(k, 0, 1 << 128)
        else:
            p = ev(V, a, keys, l - 1, j // a)
            ka = V.ev(fn('aeskey', num(128), sel(fn('input', TT.tstr('keys'), sym('arity', 'num')), (num(j % a),))))
            x = V._ev1(fn('AES', sym('!k', 'any'), sym('!p', 'any')), {}) if False else V.app('AES', ka, p)
            r = p ^ V.num(x)
        V.memo[k] = r
        return r
    return ev
