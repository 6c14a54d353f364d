"""R01, N02: parallel regions."""
from .check import *
from .load import program
from .proto import *
from . import terms as TT
from .ntl import strip_t
from . import omp, rot, spfss, mpfss, cuckoo

W = 'distributed_vector_ole '
ENTRY = [(rot, 'RunSenderBatched'), (rot, 'RunReceiverBatched'), (spfss, 'RunValueProviderBatched'), (spfss, 'RunIndexProviderBatched'),
         (mpfss, 'RunValueProviderVectorOLE'), (mpfss, 'RunIndexProviderVectorOLE')]


def parallel_nodes(P):
    """[(location, function)] of every parallel region in the program"""
    out = {}

    def walk(n, fo):
        if isinstance(n, dict):
            if n.get('k') == 'Omp' and n['dk'] not in ('for', 'for simd', 'critical', 'atomic', 'ordered', 'single', 'master', 'masked', 'simd', 'barrier'):
                out.setdefault(n['loc'], []).append(fo)
            for v in n.values():
                walk(v, fo)
        elif isinstance(n, list):
            for v in n:
                walk(v, fo)
    for o in P.funs.values():
        walk(o['body'], o)
    return out


def short(loc):
    return loc.split('/')[-1]


def regions(rep, P, types):
    """[(type, entry point, engine, region)]"""
    out, seen = [], set()

    def take(name, t, sm):
        if sm is None:
            return
        for r in omp.last_by_loc(sm.eng.omp_regions):
            k = (r['loc'], t)
            if k in seen:
                continue
            seen.add(k)
            out.append((t, name, sm.eng, r, sm.opaque))
    for t in types:
        for m, q in ENTRY:
            try:
                take(q, t, m.run(P, q, t))
            except (KeyError, IndexError, TypeError, AttributeError, AssertionError, ValueError, RecursionError) as e:
                rep.undecided('%s<%s>' % (q, SHORT[t]), '%s: %s' % (type(e).__name__, e), W + q)
    for t in cuckoo.INTS:
        take('Hash', t, cuckoo.run(P, 'Hash', [t]))
    done = set(l for l, t in seen)
    # regions in functions no entry point above reaches
    for loc, fos in parallel_nodes(P).items():
        if loc in done:
            continue
        for fo in fos:
            f = fo['f']
            t = (f.get('ta') or [f.get('cls') or ''])[0]
            m = [x for x in types if '<%s>' % x in t or x == t]
            q = f['q']
            try:
                sm = summary(P, q, f.get('ta'), boundary=dict(ring()), rings=(GF,), pred=lambda o: o is fo)
            except (KeyError, IndexError, TypeError, AttributeError, AssertionError, ValueError, RecursionError) as e:
                sm = None
            if sm is not None:
                take(q.split('::')[-1], m[0] if m else t, sm)
        if loc not in set(l for l, t in seen):
            out.append((None, fos[0]['f']['q'], None, {'loc': loc}, None))
    return out


def R01(rep):
    rep.level = 'proof'
    P = program('unit.cpp')
    rep.assumptions += ['distinct elements of std::vector and absl::Span are distinct memory locations; library functions called in parallel regions are '
                        'thread-safe on distinct objects', 'the caller passes output spans that do not overlap',
                        'HashSimple\'s merging region is decided by C02']
    n = 0
    for t, q, eng, r, opq in regions(rep, P, TYPES):
        n += 1
        T = SHORT.get(t, t)
        name = '%s<%s>: region %s' % (q.split('::')[-1], T, short(r['loc']))
        w = r['loc']
        rep.seen('regions', '%s<%s> %s' % (q.split('::')[-1], T, short(r['loc'])))
        if eng is None:
            if not q.endswith('HashSimple'):
                rep.undecided(name, 'not reached by the analysis', w)
            continue
        if opq and not r['loops'] and not r['bad']:
            rep.undecided(name, 'function not understood: %s' % str(opq)[:200], w)
            continue
        if any(ws['phis'] is not None and any(wh[0] in ws['priv'] for wh, i in ws['phis'].values()) for ws in r['loops']) and q.endswith('HashSimple'):
            continue
        js = omp.judge(eng, r)
        rep.check('%s has no worksharing outside analysed loops' % name, True, '', w)
        for a, ok, d in js:
            rep.check('%s: %s' % (name, a.replace('loop at %s: ' % r['loc'], '')), ok, d, w)
    static_effects(rep, P)
    if not n:
        rep.check('no parallel regions', True, '', W)


SYNC = ('atomic', 'mutex', 'once_flag', 'Mutex', 'Notification')
LOCKS = ('lock_guard', 'unique_lock', 'scoped_lock', 'call_once', 'MutexLock')


def walk_nodes(n, f, ctx=()):
    st = [(n, ctx)]
    while st:
        x, c = st.pop()
        if isinstance(x, dict):
            c = f(x, c)
            st += [(y, c) for y in x.values() if isinstance(y, (dict, list))]
        elif isinstance(x, list):
            st += [(y, c) for y in x]


def static_effects(rep, P):
    """statics and globals that functions called from a parallel region write: shared by all threads unless thread-local"""
    byid = {o['f']['id']: o for o in P.funs.values()}
    work, reach, bodies = [], set(), []

    def calls(node):
        def f(x, c):
            fn = x.get('fn')
            if isinstance(fn, dict) and fn.get('id') in byid and fn['id'] not in reach:
                reach.add(fn['id'])
                work.append(byid[fn['id']])
            return c
        walk_nodes(node, f)
    for o in P.funs.values():
        def regs(x, c):
            if x.get('k') == 'Omp' and x['dk'].startswith('parallel') and x.get('b'):
                bodies.append((x['b'], o))
                calls(x['b'])
            return c
        walk_nodes(o['body'], regs)
    while work:
        o = work.pop()
        bodies.append((o['body'], o))
        calls(o['body'])
    done = set()
    for body, o in bodies:
        if not o['loc'].startswith('distributed_vector_ole/') or (o['loc'], str(body)[:0]) in done:
            continue
        statics = {}

        def decls(x, c):
            if x.get('k') == 'Decl':
                for v in x['v']:
                    if (v.get('static') or v.get('tls')) and 'd' in v:
                        statics[v['d']] = v
            return c
        walk_nodes(o['body'], decls)
        wr = {}

        def target(e):
            while isinstance(e, dict):
                k = e.get('k')
                if k == 'Ref':
                    if e.get('d') in statics:
                        return ('l', e['d'])
                    g = e['g'] if isinstance(e.get('g'), str) else e.get('n')
                    return ('g', g) if g in P.gvars else None
                if k == 'Cast' and e.get('ck') != 'LValueToRValue':
                    e = e.get('e')
                elif k == 'Member':
                    e = None if e.get('arrow') else e.get('b')
                elif k == 'Index':
                    e = e.get('l')
                elif k == 'MCall' and e['fn'].get('n') in ('operator[]', 'at', 'back', 'front', 'data', 'begin') or k == 'Op' and e.get('op') in ('[]', '*'):
                    e = e['b'] if k == 'MCall' else e['a'][0]
                else:
                    return None
            return None

        def f(x, c):
            k = x.get('k')
            if k == 'Omp' and x['dk'] in ('critical', 'atomic', 'ordered', 'single', 'master'):
                c = ('lock',)
            t = None
            if k == 'Bin' and x.get('op') == '=' or k == 'CAssign':
                t = [x['l']]
            elif k == 'Un' and x.get('op') in ('++', '--'):
                t = [x['e']]
            elif k == 'Op' and x.get('op') in ('=', '+=', '-=', '*=', '/=', '^=', '|=', '&=', '%=', '<<=', '>>=', '++', '--') and x.get('a'):
                t = [x['a'][0]]
            elif k == 'MCall' and not x['fn'].get('const') and x['fn'].get('n') not in ('operator[]', 'at', 'back', 'front', 'data', 'begin', 'end', 'get', 'value'):
                t = [x.get('b')]
            elif k == 'Call':
                pt = x['fn'].get('pt') or [] if isinstance(x.get('fn'), dict) else []
                t = [a for a, q in zip(x.get('a') or [], pt) if q.endswith('&') and not q.startswith('const ') and not q.endswith('&&')]
                t += [a2['e'] for a2 in (strip_casts(a) for a, q in zip(x.get('a') or [], pt) if q.endswith('*') and not q.startswith('const '))
                      if isinstance(a2, dict) and a2.get('k') == 'Un' and a2.get('op') == '&']
            for y in t or []:
                r = target(y)
                if r:
                    wr.setdefault(r, []).append((x.get('loc') or o['loc'], bool(c)))
            return c
        walk_nodes(body, f)
        for r, ws in sorted(wr.items(), key=str):
            v = statics[r[1]] if r[0] == 'l' else P.gvars[r[1]]
            if v['t'].startswith('const ') or any(z in v['t'] for z in SYNC):
                continue
            nm = '%s in %s' % (v['n'], strip_t(o['f']['q']))
            if nm in done:
                continue
            done.add(nm)
            rep.seen('static objects written in parallel code', nm)
            bad = [l for l, lk in ws if not lk]
            locks = any(z in repr(o['body']) for z in LOCKS)
            rep.check('%s: written by functions that parallel regions call' % nm, True if v.get('tls') or not bad else None if locks else False,
                      'all threads share it and write it without synchronisation', (bad or [o['loc']])[0])
    rep.check('functions called from parallel regions write no shared static object (%d functions)' % len(reach), True, '', W)


def strip_casts(e):
    while isinstance(e, dict) and e.get('k') == 'Cast':
        e = e.get('e')
    return e


NTLT = ['NTL::ZZ_p', 'NTL::zz_p']


def modular(uses):
    return [q for q in uses if q.startswith('NTL::') and not q.startswith('NTL::ZZ::') and 'Context' not in q]


def N02(rep):
    rep.level = 'proof'
    P = program('unit.cpp')
    rep.assumptions += ['NTL keeps the modulus per thread; context_type::save records the calling thread\'s modulus and restore installs it (NTL documentation)']
    n = 0
    for t, q, eng, r, opq in regions(rep, P, NTLT):
        if t not in NTLT or eng is None:
            continue
        n += 1
        name = '%s<%s>: region %s' % (q.split('::')[-1], SHORT[t], short(r['loc']))
        w = r['loc']
        rep.seen('regions', name)
        uses = modular(r['ntl'])
        ctx = [c for c in r['ctx'] if c[1] is not None]
        good = [c for c in ctx if c[1] and c[2]]
        own = t + 'Context'
        if r['kind'] == 'parallel' and not r['loops'] and not uses and q.endswith('Create'):
            rep.check('%s installs the modulus of the creating thread in every thread' % name, bool(good) and good[0][0].startswith(own) if ctx else
                      (None if r['ctx'] else False), 'no context is restored' if not ctx else 'the context was not saved before the region', w)
            continue
        if not uses:
            rep.check('%s uses no modulus' % name, True, '', w)
            continue
        if good:
            rep.check('%s: the modulus is restored in every thread before it is used' % name, good[0][0].startswith(own), 'context %s' % good[0][0], w)
        elif not r['ctx']:
            rep.check('%s: the modulus is restored in every thread before it is used' % name, False,
                      'no thread but the calling one has a modulus, yet the region calls %s' % uses[0], w)
        elif ctx and not any(c[2] for c in ctx):
            rep.check('%s: the modulus is restored in every thread before it is used' % name, False, 'the context is restored without having been saved', w)
        else:
            rep.check('%s: the modulus is restored in every thread before it is used' % name, None, 'not in the recognised form: %s' % r['ctx'][:2], w)
    # the entry point creates the threads' contexts
    if not n:
        rep.check('no parallel regions', True, '', W)
