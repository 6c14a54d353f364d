"""GGMTree as an abstract value: tree(n, seed, keys); used when the protocols above it are summarised.
   Its methods are decided by T01-T04."""
from .terms import *
from . import terms as TT
from .engine import okof
from .libmodel import as_span, to_array

NS = 'distributed_vector_ole::'
G = NS + 'GGMTree::'


def tree_this(eng, e, thisn):
    v = eng.read(eng.this_of(thisn, e))
    while v.op == 'fn' and v.args[0] == 'deref':
        v = v.args[1]
    return v


def arity_of(t):
    return tlen(t.args[3]) if t.op == 'fn' and t.args[0] == 'tree' else fn('arityof', t)


def clog(a, n):
    """exponent of the smallest power of a that is at least n, computed the way the code does"""
    return fn('ceil', fn('rdiv', fn('ln', n), fn('ln', a)))


def status_or(c, v, err):
    """StatusOr: v if c, else an error"""
    return obj('StatusOr', {'st': ite(c, TT.OK, st(err)), 'val': v})


def boundary():
    def arr(eng, n):
        return to_array(eng, eng.eval(n))

    def create(eng, e, f, thisn, nodes):
        if len(nodes) != 3 or 'vector' not in f['sig'] if 'sig' in f else len(nodes) != 3:
            return NotImplemented
        n, seed = eng.eval(nodes[0]), eng.eval(nodes[1])
        keys = arr(eng, nodes[2])
        if not isarr(keys):
            return NotImplemented
        eng.event('tree', (n, seed, keys), e)
        return status_or(tand(ge0(sub(n, num(1))), ge0(sub(tlen(keys), num(2)))), fn('tree', n, seed, keys), 'InvalidArgument')

    def rebuild(eng, e, f, thisn, nodes):
        a, n, mi = [eng.eval(x) for x in nodes[:3]]
        xors, keys = arr(eng, nodes[3]), arr(eng, nodes[4])
        eng.event('ptree', (a, n, mi, xors, keys), e)
        ok = tand(ge0(sub(a, num(2))), ge0(sub(n, num(1))), ge0(mi), lt(mi, n), eq(tlen(keys), a), eq(tlen(xors), clog(a, n)))
        return status_or(ok, fn('ptree', n, mi, xors, keys), 'InvalidArgument')

    def levels(eng, e, f, thisn, nodes):
        t = tree_this(eng, e, thisn)
        return add(num(1), clog(arity_of(t), leaves_of(t)))

    def leaves(eng, e, f, thisn, nodes):
        return leaves_of(tree_this(eng, e, thisn))

    def xors(eng, e, f, thisn, nodes):
        t = tree_this(eng, e, thisn)
        r, c = fresh_bv('r'), fresh_bv('c')
        return amap(r, clog(arity_of(t), leaves_of(t)), amap(c, arity_of(t), fn('sx', t, r, c)))

    def leaf(eng, e, f, thisn, nodes):
        t = tree_this(eng, e, thisn)
        i = eng.eval(nodes[0])
        return status_or(tand(ge0(i), lt(i, leaves_of(t))), fn('leaf', t, i), 'InvalidArgument')

    return {G + 'Create': create, G + 'CreateFromSiblingWiseXOR': rebuild, G + 'num_levels': levels, G + 'num_leaves': leaves,
            G + 'arity': lambda eng, e, f, thisn, nodes: arity_of(tree_this(eng, e, thisn)),
            G + 'GetSiblingWiseXOR': xors, G + 'GetValueAtLeaf': leaf}


def leaves_of(t):
    return t.args[1] if t.op == 'fn' and t.args[0] in ('tree', 'ptree') else fn('leavesof', t)
