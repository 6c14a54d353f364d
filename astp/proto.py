"""Contracts of building blocks used when a protocol layer is summarised (each is itself decided by another check)."""
from .check import unsat, equal
from .terms import *
from . import terms as TT
from .libmodel import as_span, to_array
from .engine import noref, okof

NS = 'distributed_vector_ole::'
TYPES = ['unsigned char', 'unsigned long', 'absl::uint128', NS + 'gf128', 'NTL::ZZ_p', 'NTL::zz_p']
GF = NS + 'gf128'
SHORT = {'unsigned char': 'uint8_t', 'unsigned long': 'uint64_t', 'absl::uint128': 'uint128', GF: 'gf128', 'NTL::ZZ_p': 'ZZ_p', 'NTL::zz_p': 'zz_p'}


# ---------------------------------------------------------------- ring elements
def _bin(f):
    def h(eng, e, fo, thisn, nodes):
        a = [eng.eval(x) for x in ([thisn] if thisn is not None else []) + list(nodes)]
        if len(a) == 1 and f is sub:
            return neg(a[0])
        return f(*a)
    return h


def _assign(f):
    def h(eng, e, fo, thisn, nodes):
        lv = eng.try_lval(thisn)
        r = eng.eval(nodes[0])
        v = f(eng.read(lv), r)
        eng.write(lv, v)
        return v
    return h


def _ctor(eng, e, fo, thisn, nodes):
    if not nodes:
        return num(0)
    if len(nodes) == 1:
        v = eng.eval(nodes[0])
        if noref(nodes[0]['t']) == GF:
            return v
        c = const_of(v)
        if c in (0, 1):
            return v
        return fn('gf', v)
    return NotImplemented


def _square(eng, e, fo, thisn, nodes):
    lv = eng.try_lval(thisn)
    v = eng.read(lv)
    v = mul(v, v)
    eng.write(lv, v)
    return v


def ring():
    """gf128 as an abstract commutative ring (decided by G01-G04)"""
    C = GF + '::'
    return {C + 'operator+=': _assign(add), C + 'operator-=': _assign(sub), C + 'operator*=': _assign(mul), C + 'operator+': _bin(add),
            C + 'operator-': _bin(sub), C + 'operator*': _bin(mul), C + 'gf128': _ctor, C + 'operator=': _assign(lambda a, b: b), C + 'zero': lambda *a: num(0),
            C + 'one': lambda *a: num(1), C + 'square': _square, C + 'squared': lambda eng, e, fo, t, n: (lambda v: mul(v, v))(eng.eval(t)),
            C + 'operator==': lambda eng, e, fo, t, n: eq(eng.eval(t), eng.eval(n[0])),
            C + 'operator!=': lambda eng, e, fo, t, n: tnot(eq(eng.eval(t), eng.eval(n[0])))}


# ---------------------------------------------------------------- writing every element of a span of spans
def write_all(eng, outs, cell):
    """outs[k][i] = cell(k, i, len_k) for every element"""
    k, i = fresh_bv('k'), fresh_bv('i')
    N = outs.args[3]
    inner = eng.read(eng.span_lv(outs, k))
    if inner.op == 'ite' or inner.op != 'span':
        inner = simp(inner, [ge0(k), lt(k, N)])
    g = TRUE
    while inner.op == 'ite':
        # a span left empty where there is nothing to write
        c, a, b = inner.args
        if a.op == 'span' and const_of(a.args[3]) == 0:
            c, a, b = tnot(c), b, a
        if b.op != 'span' or const_of(b.args[3]) != 0:
            return None
        g, inner = tand(g, c), a
    if inner.op != 'span':
        return None
    root, path, off, n = inner.args
    if any(isinstance(x[1], Term) and x[0] not in ('i', 'f', 'one') for x in path):
        return None
    if k.args[0] not in TT_bvs(path, off, n) and const_of(N) == 1:
        z = num(0)
        w = mk_write(((i, num(0), n),), g, tuple(x[1] for x in path if x[0] == 'i') + (add(off, i),), 'set', cell(z, i, n))
    else:
        w = mk_write(((k, num(0), N), (i, num(0), n)), g, tuple(x[1] for x in path if x[0] == 'i') + (add(off, i),), 'set', cell(k, i, n))
    pre = tuple(x for x in path if x[0] == 'f')
    lead = path[:len(pre)]
    if lead != pre:
        return None
    eng.write((root, pre), mk_w(eng.read((root, pre)), [w]))
    return True


def TT_bvs(*xs):
    s = frozenset()
    for t in TT._walk_terms(xs):
        s |= t.bvs
    return s


def rot(role, ok=None):
    """AllButOneRandomOT::Run{Sender,Receiver}Batched: same random elements, except at the receiver's indices (decided by O01)"""
    def h(eng, e, f, thisn, nodes):
        outs = as_span(eng, nodes[-1])
        ind = eng.span_value(as_span(eng, nodes[0])) if role == 'recv' else None

        def cell(k, i, n):
            K = fn('rot', k, i)
            if role == 'recv':
                K = ite(eq(i, sel(ind, (k,))), fn('junk', k, i), K)
            return K
        eng.event('rot-' + role, (outs.args[3],) + ((ind,) if role == 'recv' else ()), e)
        if write_all(eng, outs, cell) is None:
            return eng.opq('outputs of the random transfer', e)
        return fn('status:rot')
    return h


def under(b, facts):
    """a condition under facts"""
    with with_facts(list(facts)):
        return decide(simp(b, facts))


def successes(sm):
    """[(state, value, facts)] of the paths on which the call succeeds"""
    out = []
    for k, s, v in sm.outs:
        if k != 'ret':
            continue
        ok = under(okof(v), list(s.pc))
        if ok is FALSE:
            continue
        out.append((s, v, [x for x in list(s.pc) + [ok] if x is not TRUE]))
    return out


COMM = ('send', 'recv', 'flush', 'send_data', 'recv_data', 'ot-send', 'ot-recv', 'ot-send_cot', 'ot-recv_cot', 'sync')


def comm(state, facts=(), extra=()):
    """communication of a path, in order: [(event, condition)]"""
    out = []
    for ev in state.events:
        if ev.name in COMM or ev.name in extra:
            with with_facts(list(facts) + list(state.pc)):
                c = decide(simp(ev.cond, list(facts) + list(state.pc)))
            if c is not FALSE:
                out.append((ev, c))
    return out


def names(evs, drop=('flush', 'sync')):
    return [e.name for e, c in evs if e.name not in drop]


def case_split(conds, facts, dom):
    """satisfiable truth assignments of some conditions: [(assignment, their conjunction)], None if there are too many"""
    base = []
    for c in conds:
        b = c.args[0] if c.op == 'not' else c
        if c is not TRUE and c is not FALSE and b not in base:
            base.append(b)
    if len(base) > 5:
        return None
    out = [({TRUE: True, FALSE: False}, TRUE)]
    for b in base:
        nxt = []
        for m, cc in out:
            for v in (True, False):
                c2 = tand(cc, b if v else tnot(b))
                if c2 is FALSE or unsat(c2, facts) or len(base) > 1 and equal(c2, FALSE, facts, dom, tries=60)[0] == 'ok':
                    continue
                nxt.append((dict(m, **{}) | {b: v, tnot(b): not v}, c2))
        out = nxt
    return out


def match_events(rep, name, r1, r2, dual, facts, dom, w, fix=lambda x: x, who=('one side', 'the other')):
    """both sides perform dual messages in the same order, whatever branches are taken:
    [(event, event of the peer, condition under which both happen)], or None (reported)"""
    if any(e.iters for e, c in r1 + r2):
        rep.undecided(name, 'messages in a loop', w)
        return None
    c1, c2 = [fix(c) for e, c in r1], [fix(c) for e, c in r2]
    cs = case_split(c1 + c2, facts, dom)
    if cs is None:
        rep.undecided(name, 'too many conditions', w)
        return None
    pairs, dunno = {}, ''
    for m, cc in cs:
        a = [k for k, c in enumerate(c1) if m[c]]
        b = [k for k, c in enumerate(c2) if m[c]]
        na, nb = [r1[k][0].name for k in a], [r2[k][0].name for k in b]
        if [dual.get(x) for x in na] != nb:
            res = equal(cc, FALSE, facts, dom)
            if res[0] == 'ok':
                continue
            d = '%s: %s, %s: %s%s' % (who[0], na, who[1], nb, '' if cc is TRUE else ' when ' + show(cc)[:200])
            if res[0] == 'fail':
                rep.fail(name, d, w)
                return None
            dunno = d
            continue
        for x, y in zip(a, b):
            pairs[x, y] = tor(pairs.get((x, y), FALSE), cc)
    if dunno:
        rep.undecided(name, dunno, w)
        return None
    rep.ok(name, '%d messages, %d cases' % (len(r1) + len(r2), len(cs)), w)
    return [(r1[x][0], r2[y][0], simp(c, list(facts))) for (x, y), c in sorted(pairs.items())]


def sent_is_flushed(evs, facts, dom, sends=('send', 'send_data'), waits=('recv', 'recv_data'), at_end=False):
    """None, or a message that is not flushed before the next wait (or, with at_end, before the call returns)"""
    cs = case_split([c for e, c in evs], facts, dom)
    for m, cc in cs if cs is not None else [({}, TRUE)]:
        pend = None
        for e, c in evs:
            if m and not m[c]:
                continue
            if e.name in sends:
                pend = e
            elif e.name == 'flush' and not e.iters and (m or c is TRUE):
                pend = None
            elif e.name in waits and pend is not None:
                return pend
        if pend is not None and at_end and equal(cc, FALSE, facts, dom)[0] != 'ok':
            return pend
    return None


def spans_dom(V, key):
    """samples for batches of output spans: their lengths, and indices within them (and sometimes one off)"""
    LEN = lambda k: ('sel', ('asym', 'outputs.len'), k)
    if key[0] == 'sel' and key[1] == ('asym', 'outputs.len'):
        return V.h(key, 1, 5) if V.h(('lc', key), 0, 4) else 0
    if key[0] == 'sel' and 'indices' in str(key[1]):
        n = V.number(LEN(key[2]))
        return V.h(key, 0, n) if n > 0 and V.h('good', 0, 4) else V.h(key, -1, 5)
    if key == ('len', ('asym', 'outputs*')):
        return V.number(('sym', 'n_outputs'))
    if key[0] == 'len' and key[1][:2] == ('sel', ('asym', 'outputs*')):
        return V.number(LEN(key[1][2]))
    return None
