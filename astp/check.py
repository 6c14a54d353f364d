"""Obligations over function summaries: proof by normal form, refutation by random interpretation, else undecided."""
from lib.common import Broken, OutOfTime, limited
from .engine import Engine, Unsupported
from .terms import *
from . import terms as TT
from . import evalterm


def summary(P, q, ta=None, npar=None, pred=None, boundary=None, facts=(), args=None, static_mode="any", strict=False, idx=0, this_init=None, rings=(), unroll=0, narrow=False):
    fos = P.find(q, ta, pred, npar)
    if not fos:
        return None
    E = Engine(P, boundary or {})
    E.static_mode = static_mode
    E.strict = strict
    E.narrow = narrow
    E.rings = frozenset(rings)
    E.unroll = unroll
    sm = E.run(fos[idx], args=args, facts=facts, this_init=this_init)
    for k, s, v in sm.outs:
        pc = []
        for x in s.pc:
            y = simp(x) if TT.has_op(x, ('sum', 'xsum')) else x
            pc += list(y.args) if y.op == 'and' else [y]
        s.pc = tuple(x for x in pc if x is not TRUE)
    sm.pre = list(facts)
    sm.loc = fos[idx].get('loc', '')
    return sm


def is_opaque(t):
    return bool(t.phis) or any(x.op == 'fn' and x.args[0].startswith('opaque:') or (x.op in ('fn', 'bfn') and x.args[0] in ('post', 'postarr', 'loopret'))
               or (x.op == 'fn' and x.args[0].startswith('loop:')) for x in atoms(t))


def why_opaque(sm):
    return '; '.join('%s at %s' % o for o in sm.opaque[:3]) or 'not reduced to a closed form'


def equal(got, want, facts=(), dom=None, interp=None, tries=1200):
    """('ok'|'fail'|'undecided', detail)"""
    facts = [f for f in facts if f is not TRUE]
    if got is want:
        return 'ok', ''
    try:
        if simp(tand(*facts)) is FALSE:
            return 'ok', ''
    except TypeError:
        pass
    g, w = simp(got, facts), simp(want, facts)
    if g is w:
        return 'ok', ''
    if isbool_(g) or isbool_(w):
        with with_facts(facts):
            d1, d2 = decide(tand(g, tnot(w))), decide(tand(w, tnot(g)))
        if d1 is FALSE and d2 is FALSE:
            return 'ok', ''
        if unsat(tand(g, tnot(w)), facts) and unsat(tand(w, tnot(g)), facts):
            return 'ok', ''
    else:
        try:
            with with_facts(facts):
                if decide(eq(g, w)) is TRUE:
                    return 'ok', ''
        except Exception:
            pass
    try:
        if split_equal(g, w, facts, 7):
            return 'ok', ''
    except (TypeError, ValueError, KeyError, RecursionError):
        pass
    try:
        if div_split(g, w, facts):
            return 'ok', ''
    except (TypeError, ValueError, KeyError, RecursionError, ZeroDivisionError):
        pass
    if is_opaque(g) or is_opaque(w) or any(is_opaque(f) for f in facts):
        return 'undecided', 'not reduced to a closed form: %s' % show(g)[:300]
    d, agree = evalterm.refute(got, want, facts, dom, interp, tries)
    if d:
        return 'fail', 'computes %s, required %s; differs: %s' % (show(g)[:700], show(w)[:300], d)
    return 'undecided', 'computes %s, required %s (agree on %d sampled interpretations)' % (show(g)[:700], show(w)[:300], agree)


def div_split(g, w, facts):
    """equality by remainder: x = m*q, m*q+1, ... for quotients of one quantity by a small constant m, rounded differently"""
    by = {}
    for t in (g, w):
        for x in atoms(t):
            m = const_of(x.args[1]) if x.op == 'div' else None
            if isinstance(m, int) and 2 <= m <= 16 and not x.bvs and not x.phis:
                by.setdefault(m, set()).add(x)
    for m, xs in sorted(by.items()):
        if len(xs) < 2:
            continue
        x = min(xs, key=lambda t: t.id)
        s = next((TT._byid[k[0][0]] for k, c in pd(x.args[0]).items() if len(k) == 1 and k[0][1] == 1 and c in (1, -1) and TT._byid[k[0][0]].op == 'sym'), None)
        if s is None:
            continue
        c = pd(x.args[0])[((s.id, 1),)]
        rest = sub(x.args[0], scale(s, c))
        if s in atoms(rest):
            continue
        q = sym('quotient', 'num')
        for r in range(m):
            b = {s: scale(sub(add(scale(q, m), num(r)), rest), c)}
            f = [y for y in (subst(y, b) for y in facts) if y is not TRUE] + ([ge0(b[s])] if s.args[1:] == ('nat',) else [])
            g1, w1 = simp(subst(g, b), f), simp(subst(w, b), f)
            if g1 is not w1 and not split_equal(g1, w1, f, 5):
                return False
        return True
    return False


def split_cond(*ts):
    """an innermost free condition to split on"""
    best = None
    for t in ts:
        for x in atoms(t):
            cs = []
            if x.op == 'ite':
                cs = [x.args[0]]
            elif x.op == 'b2i':
                cs = [x.args[0]]
            for c in cs:
                while c.op in ('and', 'or', 'not'):
                    c = c.args[0]
                if c.bvs or c.phis or c.op in ('true', 'false') or has_op(c, ('ite',)):
                    continue
                if best is None or c.id < best.id:
                    best = c
    return best


def eq_subst(c):
    """substitution implied by an equation"""
    if c.op != 'eq0':
        return None
    d = pd(c.args[0])
    for m, k in sorted(d.items(), reverse=True):
        if len(m) == 1 and m[0][1] == 1 and k in (1, -1):
            a = TT._byid[m[0][0]]
            if a.op == 'sym' or a.op == 'fn' and a.args[0].startswith('recvlen#'):
                rest = sub(c.args[0], scale(a, k))
                if a not in atoms(rest):
                    return {a: scale(rest, -k)}
    return None


def split_equal(g, w, facts, depth):
    facts = list(facts)
    ge = set(f.args[0] for f in facts if f.op == 'ge0')
    for a in list(ge):
        if neg(a) in ge and a.id <= neg(a).id:
            facts.append(eq0(a))
    for f in facts:
        m = eq_subst(f)
        if m:
            g, w = subst(g, m), subst(w, m)
            facts = [subst(x, m) for x in facts if x is not f]
            facts = [x for x in facts if x is not TRUE]
    g, w = simp(g, facts), simp(w, facts)
    if g is w:
        return True
    if TT.isbool(g) or TT.isbool(w):
        with with_facts(facts):
            if decide(tand(g, tnot(w))) is FALSE and decide(tand(w, tnot(g))) is FALSE:
                return True
    with with_facts(facts):
        if any(decide(f) is FALSE for f in facts):
            return True
    if depth <= 0:
        return False
    c = split_cond(g, w)
    if c is None:
        return False
    for b in (c, tnot(c)):
        fs = []
        for f in facts:
            x = simp(f, [b]) if any(t.op in ('ite', 'b2i') for t in atoms(f)) else f
            fs += list(x.args) if x.op == 'and' else [x]
        if not split_equal(g, w, [x for x in fs if x is not TRUE] + [b], depth - 1):
            return False
    return True


_sk = 0


def unsat(b, facts, depth=10):
    """b contradicts the facts: case split on its atomic conditions"""
    b = simp(b, facts)
    if b is FALSE:
        return True
    if depth <= 0:
        return False
    cj = list(b.args) if b.op == 'and' else [b]
    exs = [x for x in cj + list(facts) if x.op == 'exists' and not x.bvs]
    if exs:
        global _sk
        new = []
        for x in exs:
            v, lo, hi, body = x.args
            _sk += 1
            e = sym('sk#%d' % _sk, 'num')
            new += [le(lo, e), lt(e, hi), subst(body, {v: e})]
            for y in cj + list(facts):
                if y.op == 'forall' and not y.bvs:
                    v2, lo2, hi2, body2 = y.args
                    inst = subst(body2, {v2: e})
                    new.append(inst if lo2 is lo and hi2 is hi else tor(lt(e, lo2), le(hi2, e), inst))
        for y in cj:
            if y.op == 'forall' and not y.bvs:
                new.append(y)
        cj = [y for y in cj if y not in new]
        fs = [x for x in facts if x not in exs]
        ats = [x for n in new for x in (n.args if n.op == 'and' else (n,))]
        lits = [x for x in ats if x.op not in ('or', 'and', 'ite', 'exists')]
        for x in lits + fs:
            if x.op == 'not' and x.args[0].op == 'eq0':
                with with_facts(fs):
                    for q in (x.args[0].args[0], neg(x.args[0].args[0])):
                        if nonneg(q, 2):
                            lits.append(ge0(sub(q, num(1))))
        return unsat(tand(*[x for x in cj if x not in exs], *[x for x in ats if x not in lits]), fs + [x for x in lits if x is not TRUE], depth - 1) \
            if FALSE not in lits else True
    if b is TRUE:
        return False
    with with_facts(facts):
        if decide(b) is FALSE:
            return True
    st, a = [b], None
    c = split_cond(b)
    if c is not None and c.op not in ('and', 'or'):
        a, st = c, []
    while st:
        x = st.pop()
        if x.op in ('and', 'or'):
            st += list(x.args)
        elif x.op == 'not':
            st.append(x.args[0])
        elif TT.isbool(x) and x.op != 'ite':
            a = x
            break
    if a is None:
        return False
    for c in (a, tnot(a)):
        with with_facts(facts):
            if decide(c) is FALSE:
                continue
        b2, fs = b, list(facts) + [c]
        m = eq_subst(c)
        if m:
            b2, fs = subst(b, m), [x for x in (subst(f, m) for f in facts) if x is not TRUE]
            if FALSE in fs:
                continue
        if not unsat(b2, fs, depth - 1):
            return False
    return True


def isbool_(t):
    return TT.isbool(t)


def implies(cond, goal, facts=(), dom=None, interp=None, tries=1200):
    return equal(tand(cond, tnot(goal)), FALSE, facts, dom, interp, tries)


def total(sm):
    """(condition of throwing, value as one term over all returning outcomes)"""
    thr = tor(*[tand(*s.pc) for k, s, v in sm.outs if k == 'throw'])
    val = None
    for k, s, v in reversed([o for o in sm.outs if o[0] in ('ret', 'next')]):
        val = v if val is None or v is None else ite(tand(*s.pc), v, val)
    return thr, val


def total_var(sm, root):
    val = None
    for k, s, v in reversed([o for o in sm.outs if o[0] in ('ret', 'next')]):
        x = s.vars.get(root)
        val = x if val is None else ite(tand(*s.pc), x, val)
    return val


def settle(rep, name, res, where=''):
    s, d = res
    return rep.add(name, s, d, where)


def guarded(rep, name, where, f):
    """run one obligation group; an analysis limitation is undecided, never an alarm"""
    try:
        return limited(f)
    except OutOfTime:
        rep.undecided(name, 'time budget of the group used up', where)
    except (Unsupported, NotImplementedError, KeyError, IndexError, AttributeError, TypeError, ValueError, RecursionError,
            AssertionError) as e:
        import os
        if os.environ.get('DVOLE_TRACE'):
            import traceback
            traceback.print_exc()
        rep.undecided(name, 'analysis limit: %s: %s' % (type(e).__name__, str(e)[:200]), where)


def by_residue(x, m, got, want, facts=(), dom=None, interp=None, tries=1200):
    """equal(), decided separately for x = m*y, m*y+1, ..., m*y+m-1"""
    worst = ('ok', '')
    y = sym(x.args[0] + '/', x.args[1])
    for r in range(m):
        s_ = {x: add(scale(y, m), num(r))}
        g, w, f = subst(got, s_), subst(want, s_), [subst(z, s_) for z in facts]
        res = equal(g, w, f, dom, interp, tries)
        if res[0] == 'fail':
            return res
        if res[0] != 'ok':
            worst = (res[0], 'for %s = %d mod %d: %s' % (show(x), r, m, res[1]))
    if worst[0] != 'ok':
        r = equal(got, want, facts, dom, interp, tries)
        if r[0] == 'fail':
            return r
    return worst
