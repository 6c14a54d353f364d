"""Names are not semantics: parameters, private members and functions that were merely renamed get the names the rules use.

names.json lists, for the tree the rules were written against, the parameter names of every function (by qualified name and
parameter types), the data members of every class and the functions of every scope.  A parameter takes the listed name of its
position; a data member or function missing from its scope is matched with the new one of the same type.
Nothing is matched when the match is not unique, and nothing but the name changes."""
import json
import os

FILE = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'names.json')
NS = 'distributed_vector_ole::'


def sig(f):
    return '%s(%s)%s' % (f.get('ret'), ','.join(f.get('pt', [])), ' static' if f.get('static') else '')


def scope(f):
    return f['q'][:-len(f['n']) - 2] if f['q'].endswith('::' + f['n']) else None


def survey(objs):
    """the names of one exported program"""
    params, fields, funs, gvars = {}, {}, {}, {}
    for o in objs:
        if o['kind'] == 'fun':
            f = o['f']
            if not f['q'].startswith(NS):
                continue
            params.setdefault(f['q'], {})['|'.join(f.get('pt', []))] = [p['n'] for p in o['params']]
            s = scope(f)
            if s is not None and not f['n'].startswith('operator'):
                x = [f['n'], sig(f)]
                if x not in funs.setdefault(s, []):
                    funs[s].append(x)
        elif o['kind'] == 'rec' and o['q'].startswith(NS):
            fields[o['q']] = [[x['n'], x['t']] for x in o['fields']]
        elif o['kind'] == 'var' and o['q'].startswith(NS) and '::' in o['q'][len(NS):]:
            s, n = o['q'].rsplit('::', 1)
            gvars.setdefault(s, []).append([n, o['var'].get('t', '')])
    return {'params': params, 'fields': fields, 'funs': funs, 'vars': gvars}


def match(old, new):
    """old, new: [(name, type)] -> {new name: old name} for renamed entries"""
    on, nn = {n for n, _ in old}, {n for n, _ in new}
    gone, came = {}, {}
    for n, t in old:
        if n not in nn:
            gone.setdefault(t, []).append(n)
    for n, t in new:
        if n not in on:
            came.setdefault(t, []).append(n)
    out = {}
    for t, a in gone.items():
        b = came.get(t, [])
        if len(a) == len(b):      # declaration order decides between several
            out.update(zip(b, a))
    return out


def canonicalise(objs):
    try:
        ref = json.load(open(FILE))
    except OSError:
        return objs
    now = survey(objs)
    fmap = {}                     # class -> {field: name}
    for c, fs in now['fields'].items():
        if c in ref['fields']:
            m = match(ref['fields'][c], fs)
            if m:
                fmap[c] = m
    qmap = {}                     # qualified name -> (qualified name, name)
    for s, fs in now['funs'].items():
        if s in ref['funs']:
            for a, b in match(ref['funs'][s], fs).items():
                sg = {x[1] for x in fs if x[0] == a}
                if len(sg) == 1:
                    qmap[s + '::' + a] = (s + '::' + b, b)
    gmap = {}                     # qualified name of a static member -> name
    for c, vs in now['vars'].items():
        if c in ref['vars']:
            for a, b in match(ref['vars'][c], vs).items():
                gmap[c + '::' + a] = c + '::' + b
    for o in objs if gmap else ():
        if o['kind'] == 'var' and o['q'] in gmap:
            o['q'] = gmap[o['q']]
    if fmap or qmap or gmap:
        for o in objs:
            rename(o, fmap, qmap, gmap)
            if o['kind'] == 'rec' and o['q'] in fmap:
                for x in o['fields']:
                    x['n'] = fmap[o['q']].get(x['n'], x['n'])
            if o['kind'] == 'fun' and o['f'].get('cls') in fmap and o.get('inits'):
                for i in o['inits']:
                    if 'm' in i:
                        i['m'] = fmap[o['f']['cls']].get(i['m'], i['m'])
    for o in objs:
        if o['kind'] == 'fun':
            r = ref['params'].get(o['f']['q'])
            if r is not None:
                names = r.get('|'.join(o['f'].get('pt', [])))
                if names is None:
                    same = [x for x in r.values() if len(x) == len(o['params'])]
                    names = same[0] if len(same) == 1 else None
                if names is not None and len(names) == len(o['params']):
                    for p, n in zip(o['params'], names):
                        p['n'] = n
    return objs


def bare(t):
    t = t.strip()
    for _ in range(4):
        for x in ('&', '*', ' const'):
            if t.endswith(x):
                t = t[:-len(x)].strip()
        if t.startswith('const '):
            t = t[6:].strip()
    return t


def rename(x, fmap, qmap, gmap):
    if isinstance(x, dict):
        if 'q' in x and 'id' in x and x['q'] in qmap:
            x['q'], x['n'] = qmap[x['q']]
        if x.get('g') in gmap:
            x['g'] = gmap[x['g']]
        if x.get('k') == 'Member' and isinstance(x.get('b'), dict):
            m = fmap.get(bare(x['b'].get('t', '')))
            if m and x['n'] in m and 'fn' not in x:
                x['n'] = m[x['n']]
        for v in x.values():
            rename(v, fmap, qmap, gmap)
    elif isinstance(x, list):
        for v in x:
            rename(v, fmap, qmap, gmap)
