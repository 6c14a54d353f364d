"""X01: what setting up a protocol object establishes."""
import math
from .check import *
from .load import program
from .engine import okof, okst
from .proto import *
from . import terms as TT
from .ggm import code
from .vole import code_boundary, cls, H as VH
from .libmodel import as_span, to_array

S = sym('statistical_security', 'real')
CH = sym('ptr:channel', 'any')
ID, PEER = fn('chan_get_id'), fn('chan_get_peer_id')
LOWER, HIGHER = ge0(sub(sub(PEER, ID), num(1))), ge0(sub(sub(ID, PEER), num(1)))

W = {'AllButOneRandomOT': 'distributed_vector_ole/all_but_one_random_ot.cpp AllButOneRandomOT::Create',
     'SPFSSKnownIndex': 'distributed_vector_ole/spfss_known_index.cpp SPFSSKnownIndex::Create',
     'MPFSSKnownIndices': 'distributed_vector_ole/mpfss_known_indices.cpp MPFSSKnownIndices::Create',
     'ScalarVectorGilboaProduct': 'distributed_vector_ole/scalar_vector_gilboa_product.cpp ScalarVectorGilboaProduct::Create'}
SAMPLES = (0.0, 1.0, 7.5, 40.0, 80.0, 128.0)


def wide(V, key):
    """drawn seeds are 128 bits wide"""
    if key[0] == 'fn' and key[1][0].startswith('rand#'):
        return V.h(key, 0, 1 << 62) * V.h((key, 1), 0, 1 << 62) % (1 << 128)
    return None


def X01(rep):
    P = program('unit.cpp')
    for c in ('AllButOneRandomOT', 'SPFSSKnownIndex', 'MPFSSKnownIndices', 'ScalarVectorGilboaProduct'):
        guarded(rep, c + '::Create', W[c], lambda: create(rep, P, c, NS + c + '::Create', W[c]))
    for t in TYPES:
        n = 'DistributedVectorOLE<%s>' % SHORT[t]
        guarded(rep, n + '::Create', VH + 'Create', lambda: create(rep, P, n, cls(t) + 'Create', VH + 'Create'))
        guarded(rep, n + '::PrecomputeReceiver', VH + 'PrecomputeReceiver', lambda: fresh_delta(rep, P, n, t))


# ---------------------------------------------------------------- the security parameter
class Party(dict):
    """what is known about one party: substitutions, and the sign of peer id - id"""
    sign = 0


def party(m, sign):
    r = Party(m)
    r.sign = sign
    return r


def settle_id(t, sign):
    """comparisons of the ids that the order of the ids does not leave open"""
    if not sign:
        return t
    d = {}
    for x in atoms(t):
        if x.op in ('ge0', 'eq0', 'rgt0'):
            k = {}
            for m, c in TT.pd(x.args[0]).items():
                k[m if m == () else TT._byid[m[0][0]] if len(m) == 1 and m[0][1] == 1 else 0] = c
            a, b, r = k.pop(PEER, 0), k.pop(ID, 0), k.pop((), 0)
            if k or a != -b or not a:
                continue
            # a * (peer - id) + r, where sign * (peer - id) >= 1
            a = a * sign
            if x.op == 'eq0':
                if a > 0 and a + r > 0 or a < 0 and a + r < 0:
                    d[x] = FALSE
                continue
            z = (lambda v: v > 0) if x.op == 'rgt0' else (lambda v: v >= 0)
            if a > 0 and z(a + r):
                d[x] = TRUE
            elif a < 0 and not z(a + r):
                d[x] = FALSE
    return subst(t, d) if d else t


def split_s(x):
    """(coefficient of s, rest as a number) of a term linear in s, or None"""
    k, r = 0, 0.0
    for m, c in TT.pd(x).items():
        if m == ():
            r += float(c)
            continue
        if len(m) == 1 and m[0][1] == 1:
            a = TT._byid[m[0][0]]
            if a is S:
                k += c
                continue
            v = number_of(a)
            if v is not None:
                r += c * v
                continue
        return None
    return k, r


def number_of(a, s=None):
    """the value of a real expression, for a value of the security parameter if one is given"""
    c = const_of(a)
    if c is not None:
        return float(c)
    if a is S:
        return s
    if a.op == 'poly':
        t = 0.0
        for m, c in TT.pd(a).items():
            p = float(c)
            for i, e in m:
                v = number_of(TT._byid[i], s)
                if v is None:
                    return None
                p *= v ** e
            t += p
        return t
    if a.op == 'ite':
        b = truth(a.args[0], s)
        return None if b is None else number_of(a.args[1 if b else 2], s)
    if a.op in FN or a.op == 'fn' and a.args[0] in FN:
        v = [number_of(x, s) for x in (a.args[1:] if a.op == 'fn' else a.args)]
        if any(x is None for x in v):
            return None
        try:
            return float(FN[a.op if a.op in FN else a.args[0]](*v))
        except (ValueError, ZeroDivisionError, OverflowError, TypeError):
            return None
    return None


FN = {'log2': math.log2, 'ln': math.log, 'sqrt': math.sqrt, 'exp': math.exp, 'rdiv': lambda x, y: x / y, 'rpow': lambda x, y: x ** y, 'ceil': math.ceil,
      'floor': math.floor, 'trunc': math.trunc, 'div': lambda x, y: x // y, 'min': min, 'max': max, 'float32': float}


def truth(c, s):
    if c.op in ('true', 'false'):
        return c.op == 'true'
    if c.op == 'not':
        b = truth(c.args[0], s)
        return None if b is None else not b
    if c.op in ('and', 'or'):
        bs = [truth(x, s) for x in c.args]
        return None if None in bs else (all if c.op == 'and' else any)(bs)
    if c.op in ('rgt0', 'ge0', 'eq0'):
        v = number_of(c.args[0], s)
        return None if v is None else v > 0 if c.op == 'rgt0' else v >= 0 if c.op == 'ge0' else v == 0
    return None


def signs(t):
    """comparisons of linear functions of s with zero that s >= 0 (or s < 0) does not leave open"""
    def m(pos):
        d = {}
        for x in atoms(t):
            if x.op in ('rgt0', 'ge0'):
                y = split_s(x.args[0])
                if y is None:
                    continue
                k, r = y
                strict = x.op == 'rgt0'
                if pos:
                    if k >= 0 and (r > 0 or r == 0 and not strict):
                        d[x] = TRUE
                    elif k <= 0 and (r < 0 or r == 0 and strict):
                        d[x] = FALSE
                elif k < 0 and r >= 0:
                    d[x] = TRUE
                elif k > 0 and r <= 0:
                    d[x] = FALSE
                elif k == 0:
                    d[x] = TRUE if r > 0 or r == 0 and not strict else FALSE
        return d
    return m


def settle_s(t, pos):
    for _ in range(3):
        d = signs(t)(pos)
        if not d:
            return t
        t = subst(t, d)
    return t


# ---------------------------------------------------------------- objects
def follow(s, v, path, facts, m):
    v = norm(v, facts, m)
    for f in path:
        if v.op == 'ptr':
            v = s.vars[v.args[0]]
        v = norm(fld(v, f), facts, m)
    if v.op == 'ptr':
        v = s.vars[v.args[0]]
    return v


PARTS = {
    'AllButOneRandomOT': [('the all-but-one transfer', ('statistical_security_',))],
    'SPFSSKnownIndex': [('the all-but-one transfer', ('all_but_one_rot_', 'statistical_security_'))],
    'MPFSSKnownIndices': [('the single-point scheme', ('spfss_', 'all_but_one_rot_', 'statistical_security_')), ('the cuckoo hashing', ('hasher_', 'statistical_security_'))],
    'ScalarVectorGilboaProduct': [('the product', ('statistical_security_',))],
    'DistributedVectorOLE': [('the product', ('gilboa_', 'statistical_security_')), ('the single-point scheme', ('mpfss_', 'spfss_', 'all_but_one_rot_', 'statistical_security_')),
                             ('the cuckoo hashing', ('mpfss_', 'hasher_', 'statistical_security_')), ('the code generator', ('statistical_security_',))]}
CHANNELS = {
    'AllButOneRandomOT': [('channel_',)],
    'SPFSSKnownIndex': [('channel_',), ('all_but_one_rot_', 'channel_')],
    'MPFSSKnownIndices': [('channel_',), ('spfss_', 'channel_'), ('spfss_', 'all_but_one_rot_', 'channel_')],
    'ScalarVectorGilboaProduct': [],
    'DistributedVectorOLE': [('channel_',), ('mpfss_', 'channel_'), ('mpfss_', 'spfss_', 'channel_'), ('mpfss_', 'spfss_', 'all_but_one_rot_', 'channel_')]}
ADAPTERS = {
    'AllButOneRandomOT': [((), 'channel_adapter_', 'ot_extension_')],
    'SPFSSKnownIndex': [(('all_but_one_rot_',), 'channel_adapter_', 'ot_extension_')],
    'MPFSSKnownIndices': [(('spfss_', 'all_but_one_rot_'), 'channel_adapter_', 'ot_extension_')],
    'ScalarVectorGilboaProduct': [((), 'channel_adapter_', 'ot_')],
    'DistributedVectorOLE': [(('gilboa_',), 'channel_adapter_', 'ot_'), (('mpfss_', 'spfss_', 'all_but_one_rot_'), 'channel_adapter_', 'ot_extension_')]}
HASHER = {'MPFSSKnownIndices': ('hasher_',), 'DistributedVectorOLE': ('mpfss_', 'hasher_')}
EMPTY = {
    'MPFSSKnownIndices': [('cached_output_size_',), ('cached_num_indices_',)],
    'DistributedVectorOLE': [('mpfss_', 'cached_output_size_'), ('mpfss_', 'cached_num_indices_')]}


def null_of(sm):
    """the condition under which the given channel is null"""
    for k, s, v in sm.outs:
        for c in s.pc:
            for x in atoms(c):
                if x.op == 'eqv' and CH in x.args and any(y.op == 'null' for y in x.args):
                    return x
    return None


def create(rep, P, n, q, w):
    c = n.split('<')[0]
    sm = summary(P, q, npar=2)
    if sm is None:
        return rep.undecided(n + '::Create', 'no such function', w)
    if sm.opaque:
        return rep.undecided(n + '::Create', why_opaque(sm), w)
    rep.seen('functions', q)
    nul = null_of(sm)
    if nul is None:
        nul = bfn('channel is null')
    bad_null, bad_s = {nul: TRUE}, {nul: FALSE}
    roles = [('lower id', party({nul: FALSE}, 1)), ('higher id', party({nul: FALSE}, -1))]
    thrown, err1, err2, quiet = [], [], [], []
    good = {}
    for k, s, v in sm.outs:
        pc = tand(*s.pc)
        cases = [('a null channel', subst(pc, bad_null), bad_null, None), ('a negative security parameter', settle_s(subst(pc, bad_s), False), bad_s, False)]
        cases += [(r, settle_id(settle_s(subst(pc, m), True), m.sign), m, True) for r, m in roles]
        for what, p, m, pos in cases:
            if simp(p) is FALSE or unsat(p, []):
                continue
            sure = is_free(p)
            if k != 'ret':
                thrown.append((what, p, sure))
                continue
            st = subst(fld(v, 'st'), m)
            st = settle_s(st, pos) if pos is not None else st
            st = settle_id(st, m.sign) if pos else st
            if pos is not True:
                g = code(st, 'InvalidArgument', [])
                if g is None or g is not TRUE:
                    (err1 if pos is None else err2).append((what, show(st)[:200], sure and (g is FALSE or st.op == 'st')))
                ev = [e.name for e in s.events if e.name in COMM + ('adapter',) and simp(subst(e.cond, m), [p]) is not FALSE]
                if ev:
                    quiet.append((what, ev[0], sure))
            else:
                good.setdefault(what, []).append((s, v, st, p, m))

    def verdict(name, l, text):
        if not l:
            return rep.ok('%s::Create: %s' % (n, name), '', w)
        l.sort(key=lambda x: not x[-1])
        rep.add('%s::Create: %s' % (n, name), 'fail' if l[0][-1] else 'undecided', text(l[0]), w)
    verdict('never throws', thrown, lambda x: 'throws for %s, if %s' % (x[0], show(x[1])[:200]))
    verdict('a null channel is an invalid argument', err1, lambda x: 'returns %s' % x[1])
    verdict('a negative security parameter is an invalid argument', err2, lambda x: 'returns %s' % x[1])
    verdict('invalid arguments are rejected before any communication', quiet, lambda x: '%s: %s comes first' % (x[0], x[1]))
    # success exactly when the transport could be set up
    made = {}
    for r, m in roles:
        bad, done = [], []
        for s, v, st, p, m in good.get(r, []):
            need = tand(*[tor(tnot(b), okst(e.info[1])) for e, b in events(s, [p], m) if e.name == 'adapter'])
            ok = okst(st)
            if not impossible_pair(tand(p, need, tnot(ok))):
                bad.append(('fails with %s although the transport was set up' % show(st)[:200], is_free(p) and not is_opaque(st)))
            if not impossible_pair(tand(p, ok, tnot(need))):
                bad.append(('succeeds although setting up the transport failed', is_free(p)))
            if not impossible_pair(tand(p, ok)):
                done.append((s, v, [x for x in (p, ok) if x is not TRUE], m))
        if not done:
            bad.append(('never succeeds', True))
        bad.sort(key=lambda x: not x[-1])
        rep.add('%s::Create, %s: succeeds exactly when the transport could be set up' % (n, r), 'ok' if not bad else 'fail' if bad[0][1] else 'undecided',
                '' if not bad else bad[0][0], w)
        for s, v, facts, m in done[:3]:
            val = norm(fld(v, 'val'), facts, m)
            made.setdefault(r, []).append(obj_(rep, '%s::Create, %s: ' % (n, r), c, s, val, facts, m, w))
    if len(made) == 2:
        both(rep, n + '::Create: ', c, made, w)
    rep.seen('paths', '%s: %d' % (n, len(sm.outs)))


def events(s, facts, m):
    """[(event, condition)] of a path for one party"""
    out = []
    for e in s.events:
        b = norm(e.cond, facts, m)
        with with_facts(list(facts)):
            b = decide(b)
        if b is not FALSE:
            out.append((e, b))
    return out


def is_free(p):
    return not is_opaque(p)


def impossible_pair(c):
    return simp(c) is FALSE or decide(c) is FALSE or unsat(c, [])


def norm(t, facts, m):
    t = subst(t, m)
    t = settle_id(settle_s(t, True), m.sign)
    return simp(t, facts)


def obj_(rep, pre, c, s, val, facts, m, w):
    get = lambda path: norm(follow(s, val, path, facts, m), facts, m)
    # --- security budget
    parts = [(what, get(path)) for what, path in PARTS[c]]
    name = pre + 'the parts fail with probability 2^-s altogether at most'
    vals = [(what, split_s(x), x) for what, x in parts]
    worst = None
    for s0 in SAMPLES:
        xs = [number_of(p, s0) for _, _, p in vals]
        if any(x is None for x in xs):
            continue
        tot = sum(2.0 ** -(x - s0) for x in xs)
        if tot > 1 + 1e-9:
            worst = s0, tot
            break
    text = ', '.join('%s gets %s' % (a, show(p)[:80]) for a, p in parts)
    if worst:
        rep.fail(name, 'for s = %g the parts fail with probability %.4g * 2^-s together: %s' % (worst + (text,)), w)
    elif all(x is not None and x[0] >= 1 for _, x, _ in vals):
        rep.ok(name, text, w)
    else:
        rep.undecided(name, 'not of the form s + constant: ' + text, w)
    # --- transport
    bad = [(p, get(p)) for p in CHANNELS[c]]
    bad = [(p, x) for p, x in bad if x is not CH and not (x.op == 'ptr' and CH in x.args)]
    rep.add(pre + 'messages go over the given channel', 'ok' if not bad else 'undecided' if any(is_opaque(x) for _, x in bad) else 'fail',
            '; '.join('%s is %s' % ('.'.join(p), show(x)[:100]) for p, x in bad), w)
    for base, ad, ot in ADAPTERS[c]:
        a, o = get(base + (ad,)), get(base + (ot,))
        good = a is fn('new:adapter', CH) and o is fn('ot', a)
        rep.add(pre + 'the oblivious transfers of %s run over the given channel' % ('.'.join(base) or 'the object'),
                'ok' if good else 'undecided' if is_opaque(a) or is_opaque(o) else 'fail', '' if good else 'adapter %s, transfer %s' % (show(a)[:100], show(o)[:100]), w)
    # --- a measured channel sees all traffic
    evs = events(s, facts, m)
    for e, b in evs:
        if e.name == 'adapter' and len(e.args) > 1:
            x = tbool_(norm(e.args[1], facts, m))
            settle(rep, pre + 'a measured channel is not bypassed', equal(tand(x, bfn('is_measured')), FALSE, facts), w)
    # --- nothing cached
    for p in EMPTY.get(c, []):
        x = get(p + ('has',))
        settle(rep, pre + '%s of a new object is empty' % '.'.join(p), equal(tbool_(x), FALSE, facts), w)
    if c == 'DistributedVectorOLE':
        for p in ('sender_precomputation_done_', 'receiver_precomputation_done_'):
            settle(rep, pre + '%s is false in a new object' % p, equal(tbool_(get((p,))), FALSE, facts), w)
    # --- a sender flushes before it waits for anything
    sure = all(b is TRUE for e, b in evs if e.name in ('send', 'flush', 'recv', 'sync', 'adapter'))
    bad = unflushed(evs)
    rep.add(pre + 'what is sent is flushed', 'ok' if not bad else 'fail' if sure else 'undecided', bad or '', w)
    o = {'events': [x for x in evs if x[0].name in COMM + ('adapter',)], 'sure': sure, 'facts': facts, 'rand': [e for e, _ in evs if e.name == 'rand']}
    # --- hashing seed
    if c in HASHER:
        o['key'] = get(HASHER[c] + ('expanded_seed_',))
        settle(rep, pre + 'three hash functions', equal(get(HASHER[c] + ('num_hash_functions_',)), num(3), facts), w)
    return o


def both(rep, pre, c, made, w):
    if any(len(x) != 1 for x in made.values()):
        return rep.undecided(pre + "the parties' messages match", 'several ways to succeed', w)
    lo, hi = made['lower id'][0], made['higher id'][0]
    name = pre + "the parties' messages match"
    swap = {'send': 'recv', 'recv': 'send'}
    a = [swap.get(e.name, e.name) for e, b in lo['events'] if e.name != 'flush']
    b = [e.name for e, _ in hi['events'] if e.name != 'flush']
    sure = lo['sure'] and hi['sure']
    rep.add(name, 'fail' if a != b and sure else 'ok' if a == b and sure else 'undecided',
            '' if a == b else 'lower id: %s; higher id: %s' % (names_(lo['events']), names_(hi['events'])), w)
    if 'key' in lo:
        seed(rep, pre, lo, hi, w)


def names_(l):
    return ' '.join(e.name for e, _ in l)


def tbool_(x):
    return x if TT.isbool(x) else tnot(eq(x, num(0)))


def unflushed(l):
    """a message followed by no flush"""
    p = None
    for e, _ in l:
        if e.name == 'send':
            p = 'a sent value is not flushed before the call returns or waits'
        elif e.name == 'flush':
            p = None
        elif p:
            return p
    return p


def seed(rep, pre, lo, hi, w):
    name = pre + 'both parties hash with the same seed'
    # what one party receives is what the other sends at the same place
    tag = {'l': lo, 'h': hi}
    own = {}
    for k, o in tag.items():
        # values drawn by the two parties are different ones
        d = {x: fn(x.args[0] + k, *x.args[1:]) for x in atoms(o['key']) if x.op == 'fn' and x.args[0].startswith(('rand#', 'recv#'))}
        for e, _ in o['events']:
            for y in e.args:
                if isinstance(y, Term):
                    d.update({x: fn(x.args[0] + k, *x.args[1:]) for x in atoms(y) if x.op == 'fn' and x.args[0].startswith(('rand#', 'recv#'))})
        own[k] = d
    got = {}
    A, B = [[e for e, _ in o['events'] if e.name in ('send', 'recv')] for o in (lo, hi)]
    for x, y in zip(A, B):
        for (u, k), (v, j) in (((x, 'l'), (y, 'h')), ((y, 'h'), (x, 'l'))):
            if u.name == 'send' and v.name == 'recv':
                got[subst(v.args[0], own[j])] = subst(u.args[0], own[k])
    kl, kh = subst(subst(lo['key'], own['l']), got), subst(subst(hi['key'], own['h']), got)
    if kl is kh:
        rep.ok(name, show(kl)[:200], w)
    elif is_opaque(kl) or is_opaque(kh):
        rep.undecided(name, 'lower id: %s; higher id: %s' % (show(kl)[:200], show(kh)[:200]), w)
    else:
        rep.add(name, *equal(kl, kh, (), wide)[:2], where=w)
    name = pre + 'the seed is drawn at random for every object'
    drawn = {}
    for k, o in tag.items():
        for e in o['rand']:
            for x in atoms(e.args[0]):
                drawn[subst(x, own[k])] = e.args[1]
    key = kl.args[-1] if kl.op == 'fn' and kl.args[0] == 'aeskey' else kl
    rnd = [x for x in atoms(kl) if x.op == 'fn' and x.args[0].startswith('rand#')]
    if not rnd or any(x.op == 'undef' for x in atoms(kl)):
        rep.add(name, 'undecided' if is_opaque(kl) else 'fail', 'no random value in %s' % show(kl)[:200], w)
    elif key in drawn and key is not kl and const_of(kl.args[1]) == 128:
        k = const_of(drawn[key])
        rep.check(name, None if k is None else k >= 16, 'only %s bytes are drawn' % k, w)
    else:
        rep.undecided(name, show(kl)[:200], w)


# ---------------------------------------------------------------- a fresh delta
def fresh_delta(rep, P, n, t):
    w = VH + 'PrecomputeReceiver'
    name = n + '::PrecomputeReceiver(batch_size): '
    calls = []

    def inner(eng, e, f, thisn, nodes):
        xs = tuple(eng.eval(x) for x in nodes)
        eng.event('inner', xs, e)
        return fn('status:inner')

    def randomize(eng, e, f, thisn, nodes):
        sp = as_span(eng, nodes[0])
        k = eng.site(e, 'delta')
        i = fresh_bv('i')
        from .libmodel import write_span
        eng.event('randomize', (sp.args[3],), e)
        write_span(eng, sp, amap(i, sp.args[3], fn('uniform#%d' % k, *[x[0] for x in eng.iters], i)))
        return None
    b = dict(code_boundary(t))
    b[NS + 'DistributedVectorOLE::PrecomputeReceiver'] = inner
    b[NS + 'ScalarHelper::Randomize'] = randomize
    sm = summary(P, cls(t) + 'PrecomputeReceiver', npar=1, boundary=b, rings=(GF,))
    if sm is None or sm.opaque:
        return rep.undecided(name + 'a fresh random delta', 'no such function' if sm is None else why_opaque(sm), w)
    rep.seen('functions', cls(t) + 'PrecomputeReceiver(int64_t)')
    B = sym('batch_size')
    bad = []
    for k, s, v in sm.outs:
        if k == 'throw':
            bad.append(('throws', is_free(tand(*s.pc))))
            continue
        ev = [e for e in s.events if e.name == 'inner']
        if len(ev) != 1 or len(ev[0].args) != 2:
            # rejecting early is the other function's matter as well
            bad.append(('%d calls of PrecomputeReceiver(batch_size, delta)' % len(ev), False))
            continue
        x, d = ev[0].args
        if v is not fn('status:inner'):
            bad.append(('returns %s' % show(v)[:100], False))
        r = equal(x, B, s.pc)
        if r[0] != 'ok':
            bad.append(('batch size: ' + r[1], r[0] == 'fail'))
        d = simp(d, s.pc)
        if d.op == 'fn' and d.args[0].startswith('uniform#'):
            continue
        rnd = any(y.op == 'fn' and y.args[0].split('#')[0] in ('uniform', 'rand', 'ntl_random', 'random') for y in atoms(d))
        bad.append(('delta is %s' % show(d)[:200], not rnd and not is_opaque(d)))
    bad.sort(key=lambda x: not x[-1])
    rep.add(name + 'a fresh random delta for the given batch size', 'ok' if not bad else 'fail' if bad[0][1] else 'undecided', '' if not bad else bad[0][0], w)
