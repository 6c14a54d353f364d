"""Induction over recurrence (mu) terms."""
from .terms import *
from . import terms as TT
from .check import split_equal, equal, unsat


def mus(t):
    return [x for x in atoms(t) if x.op == 'mu']


def parts(M):
    k, tau, phis, inits, nexts, N, cond, brk, brkv = M.args
    return k, tau, phis, inits, nexts, N, cond, brk, brkv


def induct(M, claim, facts, T=None):
    """claim(values, t) -> bool term; values = tuple of the group's values before iteration t.
    Proves claim at iteration 0 and from t to t+1 (t < N); returns True if the claim holds for every t in [0, N]"""
    k, tau, phis, inits, nexts, N, cond, brk, brkv = parts(M)
    if brk is not FALSE:
        return False
    with with_facts(facts):
        if decide(simp(claim(inits, num(0)), facts)) is not TRUE:
            return False
    t = T if T is not None else sym('t!', 'num')
    fs = [ge0(t)]
    if N is not None:
        fs.append(lt(t, N))
    if cond is not None:
        fs.append(subst(cond, {tau: t}))
    fs.append(claim(phis, t))
    nx = tuple(subst(x, {tau: t}) for x in nexts)
    g = claim(nx, add(t, num(1)))
    fs = list(facts) + [x for x in (simp(f, facts) for f in fs) if x is not TRUE]
    g = simp(g, fs)
    if g is TRUE:
        return True
    with with_facts(fs):
        if decide(g) is TRUE:
            return True
    return split_equal(g, TRUE, fs, 5)


def mu_row(M, idx, facts):
    """equation of sel(M, idx) for a single-array recurrence whose iteration t writes only row c+t and reads only earlier rows:
    the row is the base's outside, and inside what iteration idx[0]-c writes, reading the final array"""
    k, tau, phis, inits, nexts, N, cond, brk, brkv = parts(M)
    if len(phis) != 1 or cond is not None or brk is not FALSE:
        return None
    ph, init, nx = phis[0], inits[0], nexts[0]
    if nx.op != 'w' or nx.args[0] is not ph:
        return None
    c = None
    for w in nx.args[1]:
        e = w[2][0]
        d = sub(e, tau)
        if tau.args[0] in d.bvs or any(v.args[0] in d.bvs for v, _, _ in w[0]) or ph in d.phis:
            return None
        if c is None:
            c = d
        elif c is not d:
            return None
    for w in nx.args[1]:
        for t in [w[1], w[4]] + [x for _, l, h in w[0] for x in (l, h)] + list(w[2]):
            if ph not in t.phis:
                continue
            for x in atoms(t):
                if x is ph:
                    continue
                if x.op == 'sel' and x.args[0] is ph:
                    r = const_of(sub(x.args[1][0], add(tau, c)))
                    if r is None or r >= 0:
                        return None
            if not only_row_reads(t, ph):
                return None
    l = idx[0]
    t = sub(l, c)
    inr = tand(ge0(t), lt(t, N))
    with with_facts(list(facts)):
        d = decide(inr)
    def inside():
        ws = tuple((tuple((v, subst(lo, {ph: M}), subst(hi, {ph: M})) for v, lo, hi in w[0]), subst(w[1], {ph: M}),
                    subst_any(w[2], {ph: M}), w[3], subst(w[4], {ph: M})) for w in nx.args[1])
        with with_facts(list(facts)):
            return sel(subst(TT.mk_w(init, ws), {tau: t}), idx)
    if d is TRUE:
        return inside()
    if d is FALSE:
        with with_facts(list(facts)):
            return sel(init, idx)
    return ite(inr, inside(), sel(init, idx))


def only_row_reads(t, ph):
    """ph occurs in t only as the array of a sel"""
    seen = set()

    def go(u, ok):
        if not isinstance(u, Term):
            return all(go(x, False) for x in u) if isinstance(u, (tuple, list)) else True
        if u is ph:
            return ok
        if ph not in u.phis:
            return True
        if (u.id, ok) in seen:
            return True
        seen.add((u.id, ok))
        if u.op == 'sel' and u.args[0] is ph:
            return go(u.args[1], False)
        if u.op == 'poly':
            return all(go(TT._byid[i], False) for m, _ in u.args for i, _ in m)
        return all(go(x, False) for x in u.args)
    return go(t, False)


def run_loops(t, facts, rounds=3):
    """replaces loops that provably end within a few rounds by what they leave"""
    facts = list(facts)

    def yes(c):
        c = simp(c, facts)
        if c is TRUE or c is FALSE:
            return c is TRUE
        return unsat(tnot(c), facts)

    def no(c):
        c = simp(c, facts)
        if c is TRUE or c is FALSE:
            return c is FALSE
        return unsat(c, facts)
    done = {}

    def leave(M):
        k, tau, phis, inits, nexts, N, cond, brk, brkv = parts(M)
        key = (tau, phis, inits)
        if key not in done:
            vals, res = list(inits), None
            for r in range(rounds):
                at = lambda x: subst(subst(x, {tau: num(r)}), dict(zip(phis, vals)))
                go = at(cond) if cond is not None else TRUE
                if N is not None:
                    go = tand(go, lt(num(r), N))
                if no(go):
                    res = vals
                    break
                if not yes(go):
                    break
                b = at(brk) if brk is not None else FALSE
                if yes(b):
                    res = [at(x) for x in brkv]
                    break
                if not no(b):
                    break
                vals = [simp(at(x), facts) for x in nexts]
            done[key] = res
        res = done[key]
        return None if res is None else res[k]
    for _ in range(4):
        m = {}
        for x in atoms(t):
            if x.op == 'mu' and not x.bvs and not x.phis:
                y = leave(x)
                if y is not None:
                    m[x] = y
        if not m:
            return t
        t = subst(t, m)
    return t
