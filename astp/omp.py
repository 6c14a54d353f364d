"""Parallel regions: for any number of threads and any schedule the result is that of the sequential reading.

The engine reads a region with one thread and records, for every worksharing loop, one symbolic iteration: the recurrence of
every location it writes, with callees inlined.  Iterations are independent when every location they share is written at an
element selected injectively by the iteration number, and no iteration reads an element another one writes."""
from .check import *
from .engine import Engine
from .proto import *
from . import terms as TT
from . import libmodel


COMM = ('send', 'recv', 'flush', 'send_data', 'recv_data', 'sync', 'adapter', 'ot-send', 'ot-recv', 'ot-send_cot', 'ot-recv_cot', 'ot-send_rot', 'ot-recv_rot')


def root_name(r):
    return r.split('#')[0].split(':')[-1]


def clause_vars(reg, ws):
    out = set()
    for c in reg['cl'] + ws['cl']:
        if c['n'] in ('private', 'firstprivate', 'reduction', 'lastprivate'):
            for v in c['v']:
                out.add(v.get('n') or v.get('name') or (v.get('e') or {}).get('n'))
    return out


def chain(t, ph):
    """writes on top of ph: [(guard, write)] or None"""
    if t is ph:
        return []
    if t.op == 'w':
        b = chain(t.args[0], ph)
        return None if b is None else b + [(TRUE, w) for w in t.args[1]]
    if t.op == 'ite' and ph not in t.args[0].phis:
        a, b = chain(t.args[1], ph), chain(t.args[2], ph)
        if a is None or b is None:
            return None
        return [(tand(t.args[0], g), w) for g, w in a] + [(tand(tnot(t.args[0]), g), w) for g, w in b]
    return None


def reads(t, ph, out, own_base=True):
    """index terms (or None for the whole) at which ph is read inside t"""
    seen = set()

    def go(x, base):
        if ph not in x.phis:
            return
        k = (x.id, base)
        if k in seen:
            return
        seen.add(k)
        if x is ph:
            if not base:
                out.append(None)
            return
        if x.op == 'len' and (x.args[0] is ph or chain(x.args[0], ph) is not None):
            return
        if x.op == 'sel':
            a = x.args[0]
            if a is ph or chain(a, ph) is not None:
                out.append(x.args[1][0])
                for q in x.args[1]:
                    go(q, False)
                if a is not ph:
                    go(a, True)
                return
        if x.op == 'w':
            go(x.args[0], base)
            for w in x.args[1]:
                for y in TT._walk_top(w) if hasattr(TT, '_walk_top') else flat(w):
                    go(y, False)
            return
        if x.op == 'ite' and base:
            go(x.args[0], False)
            go(x.args[1], True)
            go(x.args[2], True)
            return
        for y in flat(x.args):
            go(y, False)
    go(t, own_base)


def flat(a):
    for x in a if isinstance(a, tuple) else (a,):
        if hasattr(x, 'op'):
            yield x
        elif isinstance(x, tuple):
            # polynomials keep their monomials as (id, power) pairs
            if len(x) == 2 and isinstance(x[0], tuple) and all(isinstance(y, tuple) and len(y) == 2 and isinstance(y[0], int) for y in x[0]):
                for i, _ in x[0]:
                    yield TT._byid[i]
            else:
                for y in flat(x):
                    yield y


def collide(idx, tau, pc, n):
    """do two different iterations use the same element?  'no' | 'yes' | None"""
    names = [tau.args[0]]
    if not (idx.bvs & set(names)):
        return 'yes'
    return None


def judge(eng, reg, rules=None):
    """[(what, True/False/None, detail)]"""
    out = []
    w = '%s (%s)' % (reg['fn'].split('::')[-1], reg['loc'])
    if reg['odd'] or reg['nested']:
        out.append(('constructs', None, 'not analysed: %s' % (reg['odd'] or 'nested region')))
    for b in sorted(set(reg['bad'])):
        out.append(('replicated code writes %s' % root_name(b), False, 'every thread of the region writes it without synchronisation'))
    touched = {}
    for n, ws in enumerate(reg['loops']):
        where = 'loop at %s' % ws['loc']
        if ws['phis'] is None:
            out.append((where, None, 'loop not understood'))
            continue
        excl = clause_vars(reg, ws)
        tau, N = ws['tau'], ws['N']
        nx = dict(ws['nexts'])
        phis = ws['phis']
        shared = {ph: wh for ph, (wh, i) in phis.items() if wh[0] in reg['shared'] and root_name(wh[0]) not in excl}
        priv = [ph for ph, (wh, i) in phis.items() if wh[0] in ws['priv']]
        for e in ws['evs']:
            if e.name in COMM:
                out.append(('%s: communication' % where, False, '%s inside a parallel loop: the order of messages depends on the schedule' % e.name))
            if e.name == 'draw' and e.info and e.info[1] and e.info[1][0] in reg['shared']:
                out.append(('%s: random generator' % where, False, 'iterations draw from one shared generator: a race, and the values depend on the schedule'))
        facts = ws['pc']
        seen = set(wh[0] for wh, i in phis.values())
        for r in sorted(ws['unlocked']):
            if r.startswith('static:') and r not in seen:
                out.append(('%s: %s' % (where, root_name(r)), False, 'iterations write a static object that all threads share, without synchronisation'))
        mine = {}
        for ph, wh in shared.items():
            name = root_name(wh[0]) + ''.join('.' + str(p[1]) for p in wh[1])
            if wh[0] not in ws['unlocked']:
                if wh[0] in ws['reads']:
                    out.append(('%s: %s' % (where, name), False, 'written under a lock but read without it'))
                    continue
                out.append(('%s: %s' % (where, name), True, 'written under a lock only'))
                continue
            if ph in ws['closed']:
                out.append(('%s: %s' % (where, name), False, 'every iteration updates it'))
                continue
            t = nx[ph]
            if t is ph:
                continue
            c = chain(t, ph)
            if c is None:
                out.append(('%s: %s' % (where, name), False, 'every iteration assigns it as a whole'))
                continue
            st, why = True, 'element chosen by the iteration'
            with with_facts(facts):
                for g, wr in c:
                    if not wr[2]:
                        st, why = False, 'every iteration assigns it as a whole'
                        break
                    i0 = wr[2][0]
                    if eng.injective((i0,), tau):
                        continue
                    if tau.args[0] not in i0.bvs and not any(b.args[0] in i0.bvs for b, _, _ in wr[0]):
                        st, why = False, 'all iterations write element %s' % show(i0)[:80]
                        break
                    if st:
                        r = two_iterations(i0, tau, wr[0], facts, N)
                        st, why = (False, r) if r else (None, 'not shown that different iterations write different elements (%s)' % show(i0)[:80])
            mine[ph] = [wr[2][0] for g, wr in c if wr[2]]
            out.append(('%s: %s' % (where, name), st, why))
        # reads of what the loop writes
        for ph, idxs in mine.items():
            name = root_name(shared[ph][0])
            rd = []
            for q, t in nx.items():
                reads(t, ph, rd, q is ph)
            for e in ws['evs']:
                for t in e.args:
                    if hasattr(t, 'op'):
                        reads(t, ph, rd, False)
            st, why = True, ''
            for r in rd:
                if r is None:
                    st, why = False, 'an iteration reads all of it'
                    break
                if any(r is x for x in idxs):
                    continue
                with with_facts(facts):
                    d = [TT.const_of(sub(r, x)) for x in idxs]
                if any(x not in (None, 0) for x in d):
                    st, why = False, 'an iteration reads element %s, written by another one' % show(r)[:80]
                    break
                st, why = None, 'reads element %s' % show(r)[:80]
            if rd or mine:
                out.append(('%s: reads of %s' % (where, name), st, why))
        # state a thread carries from one of its iterations to the next
        for ph in priv:
            name = root_name(phis[ph][0][0])
            dep = [root_name(shared[q][0]) for q in shared if q in nx and ph in nx[q].phis]
            if dep:
                out.append(('%s: %s' % (where, name), None, '%s depends on what the thread carries between iterations' % dep[0]))
        nowait = any(c['n'] == 'nowait' for c in ws['cl'])
        later = reg['loops'][n + 1:]
        for ph in mine:
            if nowait and any(l['phis'] is None or any(wh[0] == shared[ph][0] for wh, i in l['phis'].values()) or
                              any(name_in(l, shared[ph][0], ph) for _ in (0,)) for l in later):
                out.append(('%s: nowait' % where, None, '%s may be used by the next loop before it is complete' % root_name(shared[ph][0])))
    return out


def name_in(l, root, ph):
    return False


def two_iterations(i0, tau, iters, facts, N):
    """values of the iteration number for which the element coincides"""
    a, b = sym('t1', 'num'), sym('t2', 'num')
    if any(b_.args[0] in i0.bvs for b_, _, _ in iters):
        return None
    x, y = subst(i0, {tau: a}), subst(i0, {tau: b})
    if x.phis or y.phis or x.bvs or y.bvs:
        return None
    fs = [f for f in facts if tau.args[0] not in f.bvs and not f.phis] + [ge0(a), ge0(b), lt(a, N), lt(b, N), tnot(eq(a, b))]

    def dom(V, key):
        return V.h(key, 0, 5)
    dd, _ = evalterm.refute(tnot(eq(x, y)), TRUE, fs, dom, None, 600)
    return 'iterations can write the same element %s: %s' % (show(i0)[:80], dd[:120]) if dd else None


# ---------------------------------------------------------------- the ordered merge of HashSimple
def static_whole(ws):
    c = [c for c in ws['cl'] if c['n'] == 'schedule']
    if not c:
        return None
    if c[0].get('s') != 'static' or c[0]['v']:
        return False
    return True


def ordered_merge(rep, P, run, w, what):
    sm = run()
    if sm is None or sm.opaque:
        return rep.undecided(what, 'not understood', w)
    regs = sm.eng.omp_regions
    if not regs:
        return rep.check('%s: no parallel region' % what, True, '', w)
    libmodel.NTHREADS[0] = sym('T', 'nat')
    try:
        sm2 = run()
    finally:
        libmodel.NTHREADS[0] = num(1)
    regs2 = sm2.eng.omp_regions
    for n, reg in enumerate(last_by_loc(regs)):
        name = '%s: region at %s' % (what, reg['loc'].split('/')[-1])
        reg2 = [r for r in last_by_loc(regs2) if r['loc'] == reg['loc']]
        js = judge(sm.eng, reg)
        pl = [ws for ws in reg['loops'] if ws['phis'] is not None and any(wh[0] in ws['priv'] for wh, i in ws['phis'].values())]
        if not pl:
            for a, ok, d in js:
                rep.check('%s: %s' % (name, a), ok, d, w)
            if not js:
                rep.check('%s: no shared state' % name, True, '', w)
            continue
        A = pl[0]
        Bs = [ws for ws in reg2[0]['loops'] if ws['loc'] != A['loc']] if reg2 else []
        if len(pl) != 1 or len(Bs) != 1 or len(reg['loops']) != 2 or Bs[0]['phis'] is None:
            rep.check('%s: merge' % name, None, 'not a split followed by a merge', w)
            continue
        B = Bs[0]
        for b in sorted(set(reg['bad'])):
            rep.check('%s: replicated code writes %s' % (name, root_name(b)), False, 'every thread writes it', w)
        s = static_whole(A)
        rep.check('%s: every thread collects one contiguous, ascending part of the inputs' % name, s,
                  'the schedule of the collecting loop is not plain static, so the merged lists are not in input order', w)
        oa = all(wh[0] in A['priv'] or wh[0] not in reg['shared'] for wh, i in A['phis'].values())
        rep.check('%s: the collecting loop writes thread-private lists only' % name, oa or None, '', w)
        app = True
        for ph, (wh, i) in A['phis'].items():
            if wh[0] not in A['priv']:
                continue
            if ph in A['closed']:
                app = None
                continue
            c = appends(A['nexts'][ph], ph)
            if c is None:
                app = None
        rep.check('%s: collecting only appends' % name, app, 'not recognised as appending', w)
        T = sym('T', 'nat')
        rep.check('%s: one merge step per thread' % name, True if equal(B['N'], T, [])[0] == 'ok' else None, 'steps: %s' % show(B['N'])[:80], w)
        s = static_whole(B)
        rep.check('%s: merge step t runs on thread t' % name, s, 'the schedule of the merge is not plain static', w)
        sh = [(ph, wh) for ph, (wh, i) in B['phis'].items() if wh[0] in reg2[0]['shared']]
        for ph, wh in sh:
            locked = wh[0] not in B['unlocked']
            inorder = B['ordered'] > 0 and any(c['n'] == 'ordered' for c in B['cl'])
            rep.check('%s: merge steps into %s run one at a time, in thread order' % (name, root_name(wh[0])), locked and inorder,
                      'not inside an ordered block' if not inorder else 'written outside the ordered block', w)
            if ph in B['closed']:
                rep.check('%s: merging' % name, None, 'not recognised', w)
                continue
            t = B['nexts'][ph]
            c = chain(t, ph)
            good = c is not None and B['tau'].args[0] not in t.bvs and all(g is TRUE and len(x[2]) == 1 and appended(x, ph) for g, x in c)
            pre = c is not None and any(x[3] == 'set' and x[2] and x[4].op == 'concat' and x[4].args[-1] is sel(ph, x[2]) for g, x in c)
            rep.check('%s: a merge step appends the thread\'s lists at the end' % name, True if good else False if pre else None,
                      'puts them before those of lower threads' if pre else 'not recognised as appending', w)


def appended(wr, ph):
    its, g, idx, op, val = wr
    if op == 'app':
        return ph not in val.phis
    return op == 'set' and val.op == 'concat' and val.args[0] is sel(ph, idx) and not any(ph in x.phis for x in val.args[1:])


def appends(t, ph):
    """t adds elements at the end of rows of ph, whatever their contents; also through an inner loop"""
    if t is ph:
        return []
    if t.op == 'w':
        b = appends(t.args[0], ph)
        if b is None:
            return None
        for wr in t.args[1]:
            its, g, idx, op, val = wr
            if op == 'app' and ph not in val.phis and ph not in g.phis and not any(ph in x.phis for x in idx):
                continue
            if op == 'set' and appended(wr, ph) and ph not in g.phis and not any(ph in x.phis for x in idx):
                continue
            return None
        return b + list(t.args[1])
    if t.op == 'ite' and ph not in t.args[0].phis:
        a, b = appends(t.args[1], ph), appends(t.args[2], ph)
        return None if a is None or b is None else a + b
    return None


def last_by_loc(regs):
    """one record per region of the source (the last analysis of it)"""
    d = {}
    for r in regs:
        d[r['loc']] = r
    return [d[k] for k in sorted(d)]
