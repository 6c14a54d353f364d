"""Models of the library calls the project makes (containers, spans, absl/NTL/Eigen values, Status, OT and channel events).

Every model states the documented effect of the call.  A call that is not listed gives an opaque value, forgets whatever it
could write and makes the obligations that depend on it undecided.
"""
import math
import re
from fractions import Fraction
from .terms import *
from . import terms as TT
from .engine import (strip_t, noref, elem_type, is_vec, is_span, UNDEF, LENS, okst, okof, isbool, INTS, wrap_int)

UNINIT = sym('uninit', 'num')
ERRS = {'InvalidArgumentError': 'InvalidArgument', 'InternalError': 'Internal', 'OutOfRangeError': 'OutOfRange',
        'UnimplementedError': 'Unimplemented', 'FailedPreconditionError': 'FailedPrecondition', 'UnknownError': 'Unknown',
        'NotFoundError': 'NotFound', 'ResourceExhaustedError': 'ResourceExhausted', 'AbortedError': 'Aborted',
        'CancelledError': 'Cancelled', 'AlreadyExistsError': 'AlreadyExists', 'DataLossError': 'DataLoss',
        'UnavailableError': 'Unavailable', 'DeadlineExceededError': 'DeadlineExceeded', 'PermissionDeniedError': 'PermissionDenied'}

LENS['mulmat'] = lambda t: matcols(t.args[2])
LENS['arr'] = lambda t: t.args[2]
LENS['uninitarr'] = lambda t: t.args[1]
LENS['tovec'] = lambda t: t.args[1]
LENS['sorted'] = lambda t: tlen(t.args[1])
LENS['setelems'] = lambda t: fn('setsize', t.args[1])


NTHREADS = [num(1)]


def matrows(m):
    if m.op == 'fn' and m.args[0] in ('matrix0', 'matw'):
        return m.args[1]
    if m.op == 'obj':
        return fld(m, 'rows')
    if m.op == 'ite':
        return ite(m.args[0], matrows(m.args[1]), matrows(m.args[2]))
    return fn('rows', m)


def matcols(m):
    if m.op == 'fn' and m.args[0] in ('matrix0', 'matw'):
        return m.args[2]
    if m.op == 'obj':
        return fld(m, 'cols')
    if m.op == 'ite':
        return ite(m.args[0], matcols(m.args[1]), matcols(m.args[2]))
    return fn('cols', m)


def mulmat(v, m):
    """row vector times matrix; linear in the vector"""
    if v.op == 'ite':
        return ite(v.args[0], mulmat(v.args[1], m), mulmat(v.args[2], m))
    d = pd(v)
    out = []
    for mono, c in d.items():
        arrs = [(i, k) for i, k in mono if isarr(TT._byid[i])]
        sc = tuple((i, k) for i, k in mono if not isarr(TT._byid[i]))
        if len(arrs) == 1 and arrs[0][1] == 1:
            out.append(mul(poly({sc: c}), TT._intern('fn', ('mulmat', TT._byid[arrs[0][0]], m))))
        else:
            return TT._intern('fn', ('mulmat', v, m))
    return add(*out)


TT.FNRULES['mulmat'] = mulmat


def base_name(q):
    return strip_t(q).split('::')[-1]


def cls_name(q):
    p = strip_t(q).split('::')
    return '::'.join(p[:-1])


# ---------------------------------------------------------------- values
def cval(eng, n):
    """(location or None, value) of a container/span valued expression; pointers/unique_ptr are followed"""
    lv = eng.try_lval(n)
    if lv is not None:
        return lv, eng.read(lv)
    return None, eng.eval(n)


def objlv(eng, n, e):
    """location of the object a member call is made on"""
    if e.get('arrow') or noref(n['t']).endswith('*'):
        p = eng.eval(n)
        return eng.deref(p, n)
    lv = eng.try_lval(n)
    if lv is None:
        v = eng.eval(n)
        r = eng.newroot('tmp')
        eng.s.vars[r] = v
        lv = (r, ())
    return lv


def size_of(v):
    if v.op == 'span':
        return v.args[3]
    if v.op == 'ite':
        a, b = size_of(v.args[1]), size_of(v.args[2])
        return ite(v.args[0], a, b)
    return tlen(v)


def to_array(eng, v):
    if v.op == 'span':
        return eng.span_value(v)
    return v


def as_span(eng, n, lv=None, v=None):
    """span over the container denoted by node n"""
    if v is None:
        lv, v = cval(eng, n)
    if v.op == 'span':
        return v
    if lv is None:
        r = eng.newroot('tmparr')
        eng.s.vars[r] = v
        lv = (r, ())
    if lv[1] and lv[1][-1][0] == 's':
        return span(lv[0], lv[1][:-1], lv[1][-1][1], lv[1][-1][2])
    return span(lv[0], lv[1], num(0), tlen(v))


REALFN = frozenset(['rdiv', 'ln', 'log2', 'rpow', 'sqrt', 'erf', 'exp', 'float32'])


def int_valued(t):
    return all(isinstance(c, int) for _, c in pd(t).items()) and not any(
        TT._byid[i].op == 'fn' and TT._byid[i].args[0] in REALFN for m, _ in pd(t).items() for i, _k in m)


def span_from_ptr(eng, p, n, e):
    if p.op == 'ptr':
        path = tuple(p.args[1])
        if path and path[-1][0] == 'i':
            return span(p.args[0], path[:-1], path[-1][1], n)
        if const_of(n) in (0, 1):
            # a single object seen as a one-element span: elements at path itself
            return span(p.args[0], path + (('one', ()),), num(0), n)
    if p.op == 'ite':
        a, b = span_from_ptr(eng, p.args[1], n, e), span_from_ptr(eng, p.args[2], n, e)
        return ite(p.args[0], a, b)
    return eng.opq('span over an unknown pointer', e)


def idx_lv(eng, lv, v, i, e):
    if v.op == 'span':
        return eng.span_lv(v, i)
    if lv is None:
        r = eng.newroot('tmparr')
        eng.s.vars[r] = v
        lv = (r, ())
    if lv[1] and lv[1][-1][0] == 's':
        return (lv[0], lv[1][:-1] + (('i', add(lv[1][-1][1], i)),))
    return (lv[0], lv[1] + (('i', i),))


def ptr_to(eng, sp, i, ety):
    root, path, off, n = sp.args
    path = tuple(path)
    if path and path[-1][0] == 'one':
        return ptr(root, path[:-1] if const_of(i) == 0 else path[:-1] + (('past', i),), ety)
    return ptr(root, path + (('i', add(off, i)),), ety)


# ---------------------------------------------------------------- ranges of pointers
def prange(eng, a, b, e):
    """span [a, b) of two pointers/iterators into the same object"""
    if a.op == 'ptr' and b.op == 'ptr' and a.args[0] == b.args[0]:
        pa, pb = tuple(a.args[1]), tuple(b.args[1])
        if pa and pb and pa[:-1] == pb[:-1] and pa[-1][0] == 'i' and pb[-1][0] == 'i':
            return span(a.args[0], pa[:-1], pa[-1][1], sub(pb[-1][1], pa[-1][1]))
        if pb and pb[-1][0] == 'past' and pa == pb[:-1]:
            return span(a.args[0], pa + (('one', ()),), num(0), pb[-1][1])
    if a.op == 'setbeg':
        return a
    eng.opq('range of unrelated iterators', e)
    return None


def fill_span(eng, sp, v):
    root, path, off, n = sp.args
    eng.write((root, tuple(path) + (('s', off, n),)), fill(n, v))


def write_span(eng, sp, arr):
    root, path, off, n = sp.args
    path = tuple(path)
    if path and path[-1][0] == 'one':
        v = sel(arr, (num(0),))
        if const_of(n) != 1:
            v = ite(ge0(sub(n, num(1))), v, eng.read((root, path[:-1])))
        eng.write((root, path[:-1]), v)
        return
    eng.write((root, path + (('s', off, n),)), arr)


def havoc_lv(eng, lv, e, why):
    cur = eng.read(lv)
    if isarr(cur):
        eng.opaque.append((why, e.get('loc', '')))
        eng.write(lv, eng.fresh_arr('havoc', e, tlen(cur)))
    else:
        eng.write(lv, eng.opq(why, e))


# ---------------------------------------------------------------- lvalue-returning calls
def lval_call(eng, e):
    f = e.get('fn')
    if f is None:
        return None
    q = strip_t(f['q'])
    b = q.split('::')[-1]
    if f.get('def') and f['id'] in eng.P.funs:
        return None
    if strip_t(f['q']) in eng.boundary:
        return None
    a = e['a']
    if e['k'] == 'Call':
        if q in ('std::move', 'std::forward', 'std::as_const', 'std::ref'):
            return eng.try_lval(a[0])
        return None
    if e['k'] == 'MCall':
        n, args = e['b'], a
    else:
        if not a:
            return None
        n, args = a[0], a[1:]
    if b in ('operator[]', 'at', 'operator()') and len(args) == 1 and ('Span' in q or 'ector' in q or 'Vec' in q or 'Eigen' in q or 'array' in q):
        lv, v = cval_arrow(eng, n, e)
        i = eng.eval(args[0])
        return idx_lv(eng, lv, v, i, e)
    if b in ('back', 'front') and not args:
        lv, v = cval_arrow(eng, n, e)
        i = num(0) if b == 'front' else sub(size_of(v), num(1))
        return idx_lv(eng, lv, v, i, e)
    if b == 'ValueOrDie' or (b == 'value' and 'StatusOr' in q):
        lv = objlv(eng, n, e)
        v = eng.read(lv)
        eng.event('unwrap', (fld(v, 'st') if v.op == 'obj' else v,), e)
        return (lv[0], lv[1] + (('f', 'val'),))
    if b == 'status' and 'StatusOr' in q:
        lv = objlv(eng, n, e)
        return (lv[0], lv[1] + (('f', 'st'),))
    if 'optional' in q and b in ('value', 'operator*'):
        lv = objlv(eng, n, e)
        return (lv[0], lv[1] + (('f', 'val'),))
    if 'optional' in q and b == 'operator->':
        lv = objlv(eng, n, e)
        return None
    if 'unique_ptr' in q and b == 'operator*':
        p = eng.eval(n)
        return eng.deref(p, n)
    if b in ('tail', 'head', 'segment') and 'Eigen' in q:
        lv, v = cval_arrow(eng, n, e)
        xs = [eng.eval(x) for x in args]
        L = size_of(v)
        off, cnt = {'tail': lambda: (sub(L, xs[0]), xs[0]), 'head': lambda: (num(0), xs[0]),
                    'segment': lambda: (xs[0], xs[1])}[b]()
        if lv is None:
            r = eng.newroot('tmparr')
            eng.s.vars[r] = v
            lv = (r, ())
        if lv[1] and lv[1][-1][0] == 's':
            return (lv[0], lv[1][:-1] + (('s', add(lv[1][-1][1], off), cnt),))
        return (lv[0], lv[1] + (('s', off, cnt),))
    if b == 'coeffRef' and 'SparseMatrix' in q:
        lv = objlv(eng, n, e)
        xs = [eng.eval(x) for x in args]
        return (lv[0], lv[1] + (('f', 'cells'), ('i', xs[0]), ('i', xs[1])))
    if b in ASSIGN and e['k'] in ('Op', 'MCall'):
        call(eng, e, f, n, args)
        return eng.try_lval(n)
    return None


ASSIGN = {'operator=', 'operator+=', 'operator-=', 'operator*=', 'operator/=', 'operator%=', 'operator^=', 'operator|=',
          'operator&=', 'operator<<=', 'operator>>=', 'operator++', 'operator--'}


def cval_arrow(eng, n, e):
    if e.get('arrow') or (e['k'] == 'MCall' and noref(n['t']).endswith('*')):
        p = eng.eval(n)
        lv = eng.deref(p, n)
        return lv, eng.read(lv)
    return cval(eng, n)


# ---------------------------------------------------------------- constructors
def ctor(eng, e):
    f = e['fn']
    q = strip_t(f['q'])
    c = cls_name(f['q'])
    b = q.split('::')[-1]
    a = e['a']
    t = noref(e['t'])
    if len(a) == 1 and noref(a[0]['t']) == t:
        return eng.eval(a[0])
    if c in ('std::vector', 'boost::container::vector', 'absl::InlinedVector', 'std::array', 'NTL::Vec'):
        et = elem_type(t)
        args = [x for x in a if not noref(x['t']).startswith('std::allocator') and x['k'] != 'DefArg']
        if not args:
            return fill(num(0), eng.zero_value(et))
        t0 = noref(args[0]['t'])
        if len(args) >= 2 and (t0.endswith('*') or 'iterator' in t0):
            p0, p1 = eng.eval(args[0]), eng.eval(args[1])
            if p0.op == 'setbeg':
                return fn('setelems', p0.args[0])
            r = prange(eng, p0, p1, e)
            return eng.span_value(r) if r is not None else eng.opq('vector range', e)
        if t0 in INTS or args[0].get('cv') is not None:
            n = eng.eval(args[0])
            return fill(n, eng.eval(args[1]) if len(args) > 1 else eng.zero_value(et))
        if args[0]['k'] == 'Init' or 'initializer_list' in t0:
            v = eng.eval(args[0])
            return v
        v = eng.eval(args[0])
        return to_array(eng, v)
    if c in ('Eigen::Matrix', 'Eigen::Map'):
        et = elem_type(t) or ''
        args = [x for x in a if not noref(x['t']).startswith('Eigen::Stride')]
        if not args:
            return fill(num(0), num(0))
        t0 = noref(args[0]['t'])
        if t0.endswith('*'):
            p = eng.eval(args[0])
            n = eng.eval(args[1])
            s = span_from_ptr(eng, p, n, e)
            return eng.span_value(s) if s.op == 'span' else s
        if t0 in INTS:
            return fn('uninitarr', eng.eval(args[0]))
        v = eng.eval(args[0])
        return to_array(eng, v)
    if c == 'Eigen::SparseMatrix':
        if not a:
            return obj('sparse', {'rows': num(0), 'cols': num(0), 'cells': asym('zeromat'), 'ready': TRUE})
        return eng.eval(a[0])
    if c == 'absl::Span':
        if len(a) == 1:
            return as_span(eng, a[0])
        if len(a) == 2:
            return span_from_ptr(eng, eng.eval(a[0]), eng.eval(a[1]), e)
        return span('m:empty', (), num(0), num(0))
    if c == 'absl::uint128':
        if not a:
            return num(0)
        v = eng.eval(a[0])
        if eng.strict and not isbool(v):
            return wrap_int(v, 'absl::uint128', noref(a[0]['t']))
        return b2i(v) if isbool(v) else v
    if c in ('NTL::ZZ', 'NTL::ZZ_p', 'NTL::zz_p'):
        args = [x for x in a]
        if not args:
            return num(0)
        return eng.eval(args[0])
    if c == 'absl::optional':
        if not a:
            return obj('optional', {'has': FALSE, 'val': UNDEF})
        return obj('optional', {'has': TRUE, 'val': eng.eval(a[0])})
    if c == 'mpc_utils::StatusOr':
        if not a:
            return obj('StatusOr', {'st': st('Unknown'), 'val': UNDEF})
        v = eng.eval(a[0])
        t0 = noref(a[0]['t'])
        if t0 == 'mpc_utils::Status':
            return obj('StatusOr', {'st': v, 'val': UNDEF})
        if t0.startswith('mpc_utils::StatusOr'):
            return v
        return obj('StatusOr', {'st': OK, 'val': v})
    if c == 'mpc_utils::Status':
        if not a:
            return OK
        return eng.eval(a[0])
    if c == 'std::unique_ptr':
        args = [x for x in a]
        if not args:
            return NULL
        return eng.eval(args[0])
    if c in ('absl::string_view', 'absl::AlphaNum', 'std::basic_string'):
        if a:
            return eng.eval(a[0])
        return tstr('')
    if c in ('std::allocator', 'std::equal_to', 'absl::hash_internal::Hash', 'Eigen::Stride', 'std::hash', 'std::less', 'std::greater',
             'std::plus', 'std::bit_xor'):
        return UNDEF
    if c == 'absl::flat_hash_set' or c.endswith('raw_hash_set'):
        if len(a) >= 2:
            p0, p1 = eng.eval(a[0]), eng.eval(a[1])
            r = prange(eng, p0, p1, e)
            return fn('setof', eng.span_value(r)) if r is not None else eng.opq('set range', e)
        return fn('emptyset')
    if c == '__gnu_cxx::__normal_iterator':
        return eng.eval(a[0])
    if c == 'std::uniform_int_distribution':
        return obj('dist', {'lo': eng.eval(a[0]), 'hi': eng.eval(a[1])})
    if c in ('NTL::ZZ_pContext', 'NTL::zz_pContext'):
        return obj('ntlctx', {'m': UNDEF})
    if c == 'aes_key_st':
        return UNINIT if not a else eng.eval(a[0])
    if c == 'emp::SHOTExtension':
        return fn('ot', eng.eval(a[0]))
    if c == 'std::runtime_error':
        return UNDEF
    if c == 'std::pair' or c == 'std::tuple':
        return obj('pair', {'first': eng.eval(a[0]), 'second': eng.eval(a[1])}) if len(a) == 2 else UNDEF
    vals = [eng.eval(x) for x in a]
    # implicit trivial constructors of project records
    if t in eng.P.recs and not vals:
        return eng.default_value(t)
    return eng.opq('constructor ' + q, e)


OPS = {'operator+': '+', 'operator-': '-', 'operator*': '*', 'operator/': '/', 'operator%': '%', 'operator<<': '<<',
       'operator>>': '>>', 'operator^': '^', 'operator|': '|', 'operator&': '&', 'operator==': '==', 'operator!=': '!=',
       'operator<': '<', 'operator>': '>', 'operator<=': '<=', 'operator>=': '>='}
MODULUS = {'NTL::ZZ_p': fn('modulus', tstr('ZZ_p')), 'NTL::zz_p': fn('modulus', tstr('zz_p'))}
TT.NONNEG_FN.add('modulus')
TT.NONNEG_FN.add('setsize')
TT.NONNEG_FN.add('NumBits')


def lift2(f, a, b):
    """apply a numeric operation through conditionals on arrays"""
    return f(a, b)


def call(eng, e, f, thisn, nodes):
    q = strip_t(f['q'])
    b = q.split('::')[-1]
    k = e['k']
    ev = eng.eval
    # ---- operators
    if k == 'Op' or b.startswith('operator'):
        r = operator(eng, e, f, thisn, nodes, q, b)
        if r is not NotImplemented:
            return r
    if thisn is not None:
        r = method(eng, e, f, thisn, nodes, q, b)
        if r is not NotImplemented:
            return r
    r = function(eng, e, f, nodes, q, b)
    if r is not NotImplemented:
        return r
    return unknown(eng, e, f, thisn, nodes, q)


def unknown(eng, e, f, thisn, nodes, q):
    pts = f.get('pt', [])
    for i, n in enumerate(nodes):
        pt = pts[i] if i < len(pts) else ''
        v = None
        if pt.endswith('&') and not pt.startswith('const '):
            lv = eng.try_lval(n)
            if lv is not None:
                havoc_lv(eng, lv, e, 'written by ' + q)
                continue
        v = eng.eval(n)
        if isinstance(v, Term) and v.op == 'ptr' and not noref(n['t']).startswith('const '):
            havoc_lv(eng, (v.args[0], tuple(x for x in v.args[1] if x[0] == 'f')), e, 'written by ' + q)
        elif isinstance(v, Term) and v.op == 'span' and 'Span<const' not in n['t']:
            write_span(eng, v, eng.fresh_arr('havoc', e, v.args[3]))
    if thisn is not None:
        if not f.get('const'):
            lv = eng.try_lval(thisn)
            if lv is not None:
                havoc_lv(eng, lv, e, 'written by ' + q)
        else:
            eng.eval(thisn)
    return eng.opq('call of ' + q, e)


def operator(eng, e, f, thisn, nodes, q, b):
    allargs = ([thisn] if thisn is not None else []) + list(nodes)
    ns = q.split('::')[0]
    if b in ('operator[]', 'operator()') and thisn is not None:
        if 'uniform_int_distribution' in q or 'distribution' in q:
            d = eng.eval(thisn)
            return draw(eng, e, d, nodes[0])
        lv = lval_call(eng, e)
        if lv is not None:
            return eng.read(lv)
        return NotImplemented
    if b == 'operator*' and len(allargs) == 1 or b == 'operator->':
        if 'unique_ptr' in q:
            p = eng.eval(allargs[0])
            if b == 'operator->':
                return p
            return eng.read(eng.deref(p, allargs[0]))
        if 'optional' in q:
            if b == 'operator->':
                lv = objlv(eng, thisn if thisn is not None else nodes[0], e)
                return ptr(lv[0], tuple(lv[1]) + (('f', 'val'),), 'optional')
            lv = lval_call(eng, e)
            return eng.read(lv)
        if 'iterator' in q:
            p = eng.eval(allargs[0])
            if p.op == 'ptr':
                return eng.read((p.args[0], tuple(p.args[1])))
    if b == 'operator bool':
        v = eng.eval(thisn)
        if 'optional' in q:
            return fld(v, 'has')
        return tnot(eqv(v, NULL))
    if b in ('operator unsigned char', 'operator unsigned long', 'operator unsigned int', 'operator long', 'operator int',
             'operator unsigned short', 'operator unsigned long long', 'operator long long'):
        v = eng.eval(thisn)
        w = {'operator unsigned char': 8, 'operator unsigned short': 16, 'operator unsigned int': 32}.get(b, 64)
        return mod(v, num(1 << w))
    if b in ('operator double', 'operator float'):
        return eng.eval(thisn)
    if b == 'operator=':
        lv = eng.try_lval(allargs[0])
        v = eng.eval(allargs[1])
        if isbool(v):
            pass
        if 'optional' in q:
            if not (v.op == 'obj' and v.args[0] == 'optional'):
                v = obj('optional', {'has': TRUE, 'val': v})
        elif 'StatusOr' in q:
            if not (v.op == 'obj' and v.args[0] == 'StatusOr'):
                if noref(allargs[1]['t']) == 'mpc_utils::Status':
                    v = obj('StatusOr', {'st': v, 'val': UNDEF})
                else:
                    v = obj('StatusOr', {'st': OK, 'val': v})
        elif 'Eigen' in q or 'vector' in q:
            v = to_array(eng, v)
        if lv is None:
            eng.opq('assignment target', e)
            return v
        if 'Eigen::Block' in q or 'VectorBlock' in q:
            pass
        eng.write(lv, v)
        return v
    if b in ASSIGN:
        lv = eng.try_lval(allargs[0])
        if b in ('operator++', 'operator--'):
            old = eng.read(lv) if lv is not None else eng.eval(allargs[0])
            d = num(1 if b == 'operator++' else -1)
            new = eng.padd(old, d) if old.op == 'ptr' else add(old, d)
            if lv is not None:
                eng.write(lv, new)
            return old if len(allargs) == 2 else new
        r = to_array(eng, eng.eval(allargs[1]))
        if lv is None:
            eng.opq('assignment target', e)
            return UNDEF
        l = eng.read(lv)
        if 'NTL::' in q and b == 'operator|=':
            v = eng.bitor(l, r)
        elif 'iterator' in q or l.op == 'ptr':
            v = eng.padd(l, r if b == 'operator+=' else neg(r))
        else:
            v = eng.binop(b[8:-1], l, r, e)
        eng.write(lv, v)
        return v
    if b in OPS:
        op = OPS[b]
        if ns == 'std' and op in ('<<', '>>') and 'ostream' in f.get('ret', ''):
            for x in allargs:
                eng.eval(x)
            return UNDEF
        if len(allargs) == 1:
            v = eng.eval(allargs[0])
            if op == '-':
                return neg(v)
            if op == '+':
                return v
            return NotImplemented
        l, r = eng.eval(allargs[0]), eng.eval(allargs[1])
        if ns == 'Eigen':
            if noref(allargs[1]['t']).startswith('Eigen::SparseMatrix') and op == '*':
                return mulmat(to_array(eng, l), r)
            l, r = to_array(eng, l), to_array(eng, r)
            return eng.binop(op, l, r, e)
        if l.op in ('str', 'st') or r.op in ('str', 'st'):
            qq = eqv(l, r)
            return qq if op == '==' else tnot(qq)
        if ns == 'NTL' and op in ('==', '!='):
            z = eq(l, r)
            return z if op == '==' else tnot(z)
        if ns == 'NTL' and noref(allargs[0]['t']) in MODULUS and op in ('+', '-', '*') or True:
            return eng.binop(op, l, r, e)
    if b == 'operator~':
        return sub(num(-1), eng.eval(allargs[0]))
    if b == 'operator!':
        v = eng.eval(allargs[0])
        return i2b(v) if False else eq(v, num(0))
    return NotImplemented


def draw(eng, e, d, rngn):
    """one value of a distribution from a generator"""
    lv = eng.try_lval(rngn)
    t = fn('draw#%d' % eng.site(e, 'draw'), *[x[0] for x in eng.iters])
    lo, hi = fld(d, 'lo'), fld(d, 'hi')
    eng.event('draw', (lo, hi, t), e, info=('rng', lv))
    eng.s.pc = eng.s.pc + (le(lo, t), le(t, hi))
    return t


def method(eng, e, f, thisn, nodes, q, b):
    ev = eng.eval
    if b in ('size', 'length', 'empty', 'cols', 'rows', 'begin', 'end', 'cbegin', 'cend', 'data', 'back', 'front', 'resize', 'reserve',
             'push_back', 'emplace_back', 'insert', 'SetLength', 'conservativeResize', 'subspan', 'tail', 'head', 'segment',
             'coeffRef', 'makeCompressed', 'clear', 'assign', 'setZero', 'pop_back', 'first', 'last', 'count', 'contains',
             'shrink_to_fit', 'capacity', 'at', 'find', 'swap', 'capacity'):
        r = container(eng, e, f, thisn, nodes, q, b)
        if r is not NotImplemented:
            return r
    if 'StatusOr' in q or q.startswith('mpc_utils::Status'):
        if b == 'ok':
            v = ev(thisn)
            return okst(fld(v, 'st')) if 'StatusOr' in q else okst(v)
        if b in ('status', 'ValueOrDie', 'value'):
            lv = lval_call(eng, e)
            return eng.read(lv)
        if b == 'message' or b == 'error_message':
            v = ev(thisn)
            return stmsg(v)
        if b == 'code':
            return fn('code', ev(thisn))
    if 'optional' in q:
        if b == 'has_value':
            return fld(ev(thisn), 'has')
        if b in ('value',):
            return eng.read(lval_call(eng, e))
        if b == 'emplace' and len(nodes) == 1:
            lv = objlv(eng, thisn, e)
            eng.write(lv, obj('optional', {'has': TRUE, 'val': ev(nodes[0])}))
            return fld(eng.read(lv), 'val')
        if b == 'value_or':
            v = ev(thisn)
            return gite_(fld(v, 'has'), fld(v, 'val'), ev(nodes[0]))
        if b == 'reset':
            eng.write(objlv(eng, thisn, e), obj('optional', {'has': FALSE, 'val': UNDEF}))
            return UNDEF
    if 'unique_ptr' in q:
        if b == 'get':
            return ev(thisn)
        if b == 'release':
            lv = eng.try_lval(thisn)
            v = eng.read(lv)
            eng.write(lv, NULL)
            return v
        if b == 'reset':
            eng.write(eng.try_lval(thisn), ev(nodes[0]) if nodes else NULL)
            return UNDEF
    if 'Context' in q and b in ('save', 'restore'):
        eng.event('ntl-' + b, (), e, info=(q, eng.try_lval(thisn)))
        return UNDEF
    if q.startswith('mpc_utils::comm_channel') or q.startswith('mpc_utils::CommChannelEMPAdapter'):
        return channel(eng, e, f, thisn, nodes, q, b)
    if 'SHOTExtension' in q:
        return ot(eng, e, f, thisn, nodes, q, b)
    return NotImplemented


def stmsg(v):
    if v.op == 'st':
        return tstr(v.args[1])
    if v.op == 'ite':
        return ite(v.args[0], stmsg(v.args[1]), stmsg(v.args[2]))
    return fn('message', v)


def gite_(c, a, b):
    if a is UNDEF:
        return b
    if b is UNDEF:
        return a
    return ite(c, a, b)


def container(eng, e, f, thisn, nodes, q, b):
    ev = eng.eval
    lv, v = cval_arrow(eng, thisn, e)
    is_set = 'hash_set' in q or 'std::set' in q or 'unordered_set' in q
    if is_set:
        return setop(eng, e, lv, v, nodes, b)
    if 'SparseMatrix' in q:
        if b == 'rows':
            return fld(v, 'rows')
        if b == 'cols':
            return fld(v, 'cols')
        if b == 'resize':
            xs = [ev(x) for x in nodes]
            eng.write(lv, obj('sparse', {'rows': xs[0], 'cols': xs[1], 'cells': asym('zeromat'), 'ready': FALSE}))
            return UNDEF
        if b == 'makeCompressed':
            eng.write((lv[0], lv[1] + (('f', 'ready'),)), TRUE)
            return UNDEF
        if b == 'reserve':
            for x in nodes:
                ev(x)
            return UNDEF
        if b == 'coeffRef':
            return eng.read(lval_call(eng, e))
        return NotImplemented
    et = elem_type(noref(thisn['t'])) or ''
    if b in ('size', 'length', 'cols'):
        return size_of(v)
    if b == 'rows':
        return num(1)
    if b == 'empty':
        return eq0(size_of(v))
    if b in ('begin', 'cbegin', 'data'):
        if v.op == 'ite':
            return ite(v.args[0], ptr_to(eng, v.args[1], num(0), et), ptr_to(eng, v.args[2], num(0), et)) \
                if v.args[1].op == 'span' and v.args[2].op == 'span' else eng.opq('data of a choice', e)
        sp = as_span(eng, thisn, lv, v)
        return ptr_to(eng, sp, num(0), et)
    if b in ('end', 'cend'):
        sp = as_span(eng, thisn, lv, v)
        return ptr_to(eng, sp, sp.args[3], et) if sp.op == 'span' else eng.opq('end', e)
    if b in ('back', 'front', 'tail', 'head', 'segment', 'at'):
        l2 = lval_call(eng, e)
        return eng.read(l2)
    if b in ('subspan', 'first', 'last'):
        xs = [ev(x) for x in nodes if x['k'] != 'DefArg' or 'cv' in x or True]
        sp = as_span(eng, thisn, lv, v)
        root, path, off, n = sp.args
        if b == 'first':
            return span(root, path, off, xs[0])
        if b == 'last':
            return span(root, path, add(off, sub(n, xs[0])), xs[0])
        rest = sub(n, xs[0])
        cnt = rest if len(xs) < 2 or (const_of(xs[1]) is not None and const_of(xs[1]) >= (1 << 62)) else mn(xs[1], rest)
        return span(root, path, add(off, xs[0]), cnt)
    if b in ('resize', 'SetLength', 'conservativeResize', 'assign'):
        xs = [ev(x) for x in nodes if x['k'] != 'DefArg']
        if b == 'assign' and len(xs) == 2 and xs[0].op != 'ptr':
            eng.write(lv, fill(xs[0], xs[1]))
            return UNDEF
        if b == 'assign':
            r = prange(eng, xs[0], xs[1], e)
            if r is None:
                return NotImplemented
            eng.write(lv, eng.span_value(r))
            return UNDEF
        if 'Eigen' in q:
            if b == 'resize':
                if const_of(sub(xs[0], tlen(v))) == 0:
                    return UNDEF
                eng.write(lv, fn('uninitarr', xs[0]) if const_of(xs[0]) != 0 else fill(num(0), num(0)))
            else:
                eng.write(lv, resize(v, xs[0], UNINIT))
            return UNDEF
        fv = xs[1] if len(xs) > 1 else eng.zero_value(et)
        eng.write(lv, resize(v, xs[0], fv))
        return UNDEF
    if b in ('reserve', 'shrink_to_fit'):
        for x in nodes:
            ev(x)
        return UNDEF
    if b in ('push_back', 'emplace_back'):
        if b == 'emplace_back' and not (len(nodes) == 1 and (noref(nodes[0]['t']) == et or et in INTS)):
            x = ctor(eng, {'k': 'Ctor', 't': et, 'fn': {'q': et.split('<')[0] + '::' + et.split('<')[0].split('::')[-1]}, 'a': nodes,
                           'loc': e.get('loc')}) if nodes else eng.zero_value(et)
        else:
            x = ev(nodes[0])
        eng.write(lv, concat(v, lit([x])))
        return UNDEF
    if b == 'pop_back':
        eng.write(lv, aslice(v, num(0), sub(tlen(v), num(1))))
        return UNDEF
    if b == 'clear':
        eng.write(lv, fill(num(0), eng.zero_value(et)))
        return UNDEF
    if b == 'setZero':
        eng.write(lv, fill(tlen(v), num(0)))
        return UNDEF
    if b == 'insert' and len(nodes) == 3:
        p, a0, a1 = [ev(x) for x in nodes]
        r = prange(eng, a0, a1, e)
        end = eng.padd(ptr_to(eng, as_span(eng, thisn, lv, v), num(0), et), tlen(v)) if v.op != 'span' else None
        if r is not None and end is not None and p.op == 'ptr' and p.args[:2] == end.args[:2]:
            eng.write(lv, concat(v, eng.span_value(r)))
            return UNDEF
        beg = ptr_to(eng, as_span(eng, thisn, lv, v), num(0), et) if v.op != 'span' else None
        if r is not None and beg is not None and p is beg:
            eng.write(lv, concat(eng.span_value(r), v))
            return UNDEF
        havoc_lv(eng, lv, e, 'insert in the middle')
        return UNDEF
    return NotImplemented


def setop(eng, e, lv, v, nodes, b):
    ev = eng.eval
    if b == 'size':
        return fn('setsize', v)
    if b == 'empty':
        return eq0(fn('setsize', v))
    if b == 'insert' and len(nodes) == 1:
        x = ev(nodes[0])
        isnew = tnot(bfn('member', v, x))
        eng.write(lv, fn('setadd', v, x))
        return obj('pair', {'first': UNDEF, 'second': isnew})
    if b in ('begin', 'cbegin'):
        return TT._intern('setbeg', (v,))
    if b in ('end', 'cend'):
        return TT._intern('setend', (v,))
    if b in ('count', 'contains'):
        m = bfn('member', v, ev(nodes[0]))
        return m if b == 'contains' else b2i(m)
    if b == 'reserve':
        return UNDEF
    if b == 'clear':
        eng.write(lv, fn('emptyset'))
        return UNDEF
    return NotImplemented


def mn(a, b):
    if decide(le(a, b)) is TRUE:
        return a
    if decide(le(b, a)) is TRUE:
        return b
    return tmin(a, b)


def mx(a, b):
    if decide(le(a, b)) is TRUE:
        return b
    if decide(le(b, a)) is TRUE:
        return a
    return tmax(a, b)


# ---------------------------------------------------------------- effects
def channel(eng, e, f, thisn, nodes, q, b):
    if b in ('get_id', 'get_peer_id'):
        eng.eval(thisn)
        return fn('chan_' + b)
    if b == 'is_measured':
        return bfn('is_measured')
    if b in ('sync', 'flush'):
        eng.event(b, (), e)
        return UNDEF
    if b == 'send':
        v = eng.eval(nodes[0])
        v = to_array(eng, v)
        eng.event('send', (v, tstr(noref(nodes[0]['t']))), e)
        return UNDEF
    if b == 'recv':
        lv = eng.try_lval(nodes[0])
        cur = eng.read(lv)
        n = eng.site(e, 'recv')
        if isarr(cur) or cur.op in ('fill',):
            ln = fn('recvlen#%d' % n, *[x[0] for x in eng.iters])
            TT.NONNEG_FN.add('recvlen#%d' % n)
            v = eng.fresh_arr('recv', e, ln)
        else:
            v = eng.fresh('recv', e)
        eng.event('recv', (v, tstr(noref(nodes[0]['t']))), e)
        eng.write(lv, v)
        return UNDEF
    if b == 'send_data':
        p, n = eng.eval(nodes[0]), eng.eval(nodes[1])
        eng.event('send_data', (region(eng, p, n, e), n), e)
        return UNDEF
    if b == 'recv_data':
        p, n = eng.eval(nodes[0]), eng.eval(nodes[1])
        v = random_region(eng, p, n, e, 'recvdata')
        eng.event('recv_data', (v, n), e)
        return UNDEF
    return NotImplemented


ELSZ = {'unsigned char': 1, 'char': 1, 'unsigned long': 8, 'long': 8, 'unsigned int': 4, 'int': 4, 'unsigned short': 2, 'short': 2,
        'signed char': 1, 'absl::uint128': 16, 'distributed_vector_ole::gf128': 16, 'bool': 1}


def elsize(ety):
    if ety in ELSZ:
        return ELSZ[ety]
    if 'vector_size' in ety:
        return 16
    return None


def region(eng, p, nbytes, e):
    """value of nbytes bytes at p as an array of the pointed-to element type"""
    if p.op != 'ptr':
        return eng.opq('buffer', e)
    sz = elsize(p.args[2])
    if sz is None:
        return eng.opq('buffer element size', e)
    n = div(nbytes, num(sz))
    path = tuple(p.args[1])
    if path and path[-1][0] == 'i':
        return aslice(eng.read((p.args[0], path[:-1])), path[-1][1], n)
    return lit([eng.read((p.args[0], path))])


def random_region(eng, p, nbytes, e, tag):
    if p.op != 'ptr':
        return eng.opq('buffer', e)
    sz = elsize(p.args[2])
    if sz is None:
        return eng.opq('buffer element size', e)
    path = tuple(p.args[1])
    n = div(nbytes, num(sz))
    if path and path[-1][0] == 'i':
        cur = eng.read((p.args[0], path[:-1]))
        if const_of(n) == 1 and not isarr(cur) or const_of(n) == 1:
            v = eng.fresh(tag, e)
            eng.write((p.args[0], path), v)
            return lit([v])
        v = eng.fresh_arr(tag, e, n)
        eng.write((p.args[0], path[:-1] + (('s', path[-1][1], n),)), v)
        return v
    v = eng.fresh(tag, e)
    nb = const_of(nbytes)
    if nb == 0:
        return eng.read((p.args[0], path))
    if nb is not None and 0 <= nb < sz:
        v = fn('partly', v, eng.read((p.args[0], path)), num(nb))
        nb = sz
    eng.write((p.args[0], path), v)
    if nb != sz:
        eng.opaque.append(('partial fill of an object', e.get('loc', '')))
    return lit([v])


INTW = {'bool': 0, 'char': 1, 'signed char': 1, 'unsigned char': 1, 'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned int': 4, 'long': 8,
        'unsigned long': 8, 'long long': 8, 'unsigned long long': 8, '__int128': 16, 'unsigned __int128': 16, 'absl::uint128': 16}


def pointee(n):
    """element type an iterator expression points to"""
    t = noref(n.get('t', '')).replace('const ', '').strip()
    if t.endswith('*'):
        return t[:-1].strip()
    i = t.find('<')
    return t[i + 1:].split('*')[0].split(',')[0].strip() if i >= 0 else t


def ptr_array(eng, p, n, e):
    if p.op == 'ptr':
        path = tuple(p.args[1])
        if path and path[-1][0] == 'i':
            return aslice(eng.read((p.args[0], path[:-1])), path[-1][1], n)
    return eng.opq('buffer', e)


def ot(eng, e, f, thisn, nodes, q, b):
    xs = [eng.eval(x) for x in nodes]
    if b == 'send':
        eng.event('ot-send', (ptr_array(eng, xs[0], xs[2], e), ptr_array(eng, xs[1], xs[2], e), xs[2]), e)
        return UNDEF
    if b == 'recv' or b == 'recv_cot':
        ch = ptr_array(eng, xs[1], xs[2], e)
        v = eng.fresh_arr('otrecv', e, xs[2])
        p = xs[0]
        if p.op != 'ptr' or not p.args[1] or p.args[1][-1][0] != 'i':
            return eng.opq('buffer', e)
        path = tuple(p.args[1])
        eng.event('ot-' + b, (v, ch, xs[2]), e)
        eng.write((p.args[0], path[:-1] + (('s', path[-1][1], xs[2]),)), v)
        return UNDEF
    if b == 'send_cot_ft':
        n = xs[2]
        v = eng.fresh_arr('cot0', e, n)
        p = xs[0]
        if p.op != 'ptr' or xs[1].op != 'lambda':
            return eng.opq('correlated transfer', e)
        path = tuple(p.args[1])
        t = fresh_bv('c')
        eng.iters.append((t, num(0), n))
        save = eng.s
        eng.s = save.copy()
        eng.s.pc = eng.s.pc + (ge0(t), lt(t, n))
        eng.sync()
        try:
            m1 = eng.call_lambda(xs[1], [('v', sel(v, (t,))), ('v', t)], e)
            if isinstance(m1, tuple):
                m1 = eng.read(m1[1])
        finally:
            eng.iters.pop()
            eng.s = save
            eng.sync()
        eng.event('ot-send_cot', (v, amap(t, n, m1), n), e)
        eng.write((p.args[0], path[:-1] + (('s', path[-1][1], n),)), v)
        return UNDEF
    return NotImplemented


# ---------------------------------------------------------------- free functions
def function(eng, e, f, nodes, q, b):
    ev = eng.eval
    ns = q.split('::')[0]
    if q in ('std::move', 'std::forward', 'std::as_const', 'std::ref', 'absl::WrapUnique'):
        return ev(nodes[0])
    if q in ('absl::MakeSpan', 'absl::MakeConstSpan'):
        if len(nodes) == 2:
            return span_from_ptr(eng, ev(nodes[0]), ev(nodes[1]), e)
        return as_span(eng, nodes[0])
    if q == 'absl::MakeUint128':
        a, c = ev(nodes[0]), ev(nodes[1])
        return add(scale(a, 1 << 64), c)
    if q == 'absl::Uint128High64':
        return div(ev(nodes[0]), num(1 << 64))
    if q == 'absl::Uint128Low64':
        return mod(ev(nodes[0]), num(1 << 64))
    if q == 'absl::Uint128Max':
        return num((1 << 128) - 1)
    if q == 'absl::StrCat' or q == 'absl::StrAppend':
        for x in nodes:
            ev(x)
        return tstr('<formatted>')
    if b in ERRS and ns == 'mpc_utils':
        v = ev(nodes[0])
        return st(ERRS[b], v.args[0] if v.op == 'str' else '<dynamic>')
    if q == 'mpc_utils::OkStatus':
        return OK
    if ns == 'mpc_utils' and b.startswith('Is') and b[2:] + 'Error' in ERRS:
        v = ev(nodes[0])
        return iskind(v, b[2:])
    if q == 'mpc_utils::CommChannelEMPAdapter::Create':
        xs = [ev(x) for x in nodes]
        s_ = fn('status#%d' % eng.site(e, 'st'))
        eng.event('adapter', tuple(xs), e, info=('status', s_))
        return obj('StatusOr', {'st': s_, 'val': fn('new:adapter', *xs[:1])})
    if q in ('std::min', 'std::max'):
        a, c = ev(nodes[0]), ev(nodes[1])
        if eng_real(e):
            return fn('r' + b, a, c)
        return (mn if b == 'min' else mx)(a, c)
    if q in ('std::fill', 'std::fill_n'):
        p, p2 = ev(nodes[0]), ev(nodes[1])
        v = ev(nodes[2])
        if q == 'std::fill_n':
            r = span_from_ptr(eng, p, p2, e)
        else:
            r = prange(eng, p, p2, e)
        if r is None or r.op != 'span':
            return eng.opq('fill', e)
        if const_of(r.args[3]) == 0:
            return UNDEF
        fill_span(eng, r, v)
        return UNDEF
    if q in ('std::sort', 'std::stable_sort') and len(nodes) == 2 and pointee(nodes[0]) in INTW:
        r = prange(eng, ev(nodes[0]), ev(nodes[1]), e)
        if r is None or r.op != 'span':
            return eng.opq(q, e)
        write_span(eng, r, fn('sorted', eng.span_value(r)))
        return UNDEF
    if q == 'std::iota':
        r = prange(eng, ev(nodes[0]), ev(nodes[1]), e)
        v = ev(nodes[2])
        i = fresh_bv('io')
        write_span(eng, r, amap(i, r.args[3], add(v, i)))
        return UNDEF
    if q in ('std::accumulate', 'std::reduce') and len(nodes) in (3, 4):
        r = prange(eng, ev(nodes[0]), ev(nodes[1]), e)
        v = ev(nodes[2])
        if r is None or r.op != 'span':
            return eng.opq('accumulate', e)
        i = fresh_bv('ac')
        el = eng.read(eng.span_lv(r, i))
        if len(nodes) == 4:
            return eng.opq('accumulate with function', e)
        tot = add(v, tsum(i, num(0), r.args[3], el))
        tn = noref(nodes[2].get('t', '')).replace('const ', '')
        if INTW.get(tn, 9) < INTW.get(pointee(nodes[0]), 8):
            return fn('as ' + tn, tot)
        return tot
    if q in ('std::copy', 'std::copy_n', 'std::move_backward'):
        if q == 'std::copy':
            r = prange(eng, ev(nodes[0]), ev(nodes[1]), e)
        else:
            r = span_from_ptr(eng, ev(nodes[0]), ev(nodes[1]), e)
        d = ev(nodes[2])
        if r is None or r.op != 'span' or d.op != 'ptr':
            return eng.opq('copy', e)
        write_span(eng, span_from_ptr(eng, d, r.args[3], e), eng.span_value(r))
        return eng.padd(d, r.args[3])
    if q == 'std::swap' and len(nodes) == 2:
        a, c = eng.try_lval(nodes[0]), eng.try_lval(nodes[1])
        if a is None or c is None:
            return eng.opq('swap', e)
        va, vc = eng.read(a), eng.read(c)
        eng.write(a, vc)
        eng.write(c, va)
        return UNDEF
    if q in ('std::lower_bound', 'std::upper_bound', 'std::find') and len(nodes) == 3:
        p0 = ev(nodes[0])
        r = prange(eng, p0, ev(nodes[1]), e)
        v = ev(nodes[2])
        if r is None or r.op != 'span':
            return eng.opq(q, e)
        arr = eng.span_value(r)
        return eng.padd(p0, fn(b, arr, v))
    if q in ('std::transform', 'std::for_each') or q == 'std::generate' and len(nodes) == 3:
        return algo_loop(eng, e, nodes, q)
    if q == 'std::make_pair' and len(nodes) == 2:
        return obj('pair', {'first': ev(nodes[0]), 'second': ev(nodes[1])})
    if q in ('std::log10', 'log10'):
        return fn('rdiv', fn('ln', ev(nodes[0])), fn('ln', num(10)))
    if q in ('std::log2', 'log2'):
        return log2(ev(nodes[0]))
    if q in ('std::log', 'log'):
        return fn('ln', ev(nodes[0]))
    if q in ('std::ceil', 'ceil'):
        v = ev(nodes[0])
        c = const_of(v)
        if c is not None:
            return num(math.ceil(c))
        d = pd(v)
        den = 1
        for c_ in d.values():
            den = den * Fraction(c_).denominator // math.gcd(den, Fraction(c_).denominator)
        if den > 1 and all(TT._byid[i].op != 'fn' or TT._byid[i].args[0] not in REALFN for m, _ in d.items() for i, _k in m) \
                and all(isinstance(c_, (int, Fraction)) for c_ in d.values()):
            return div(add(mul(num(den), v), num(den - 1)), num(den))     # exact below 2^51
        k = d.get((), 0)
        if k and int(k) == k:
            return add(num(int(k)), fn('ceil', sub(v, num(k))))
        return fn('ceil', v)
    if q in ('std::floor', 'floor'):
        return fn('floor', ev(nodes[0]))
    if q in ('std::pow', 'pow'):
        a, c = ev(nodes[0]), ev(nodes[1])
        if int_valued(a) and int_valued(c) and decide(ge0(c)) is TRUE:
            return TT.tpow(a, c)       # exact below 2^53
        return fn('rpow', a, c)
    if q in ('std::sqrt', 'sqrt'):
        return fn('sqrt', ev(nodes[0]))
    if q in ('std::erf', 'erf'):
        return fn('erf', ev(nodes[0]))
    if q in ('std::abs', 'std::fabs', 'abs', 'fabs'):
        v = ev(nodes[0])
        return fn('abs', v)
    if q == 'omp_get_num_threads':
        return NTHREADS[0]     # sequential reading; other numbers of threads: astp/omp.py
    if q == 'omp_get_thread_num':
        return num(0)
    if q.startswith('omp_get'):
        return fn(b)
    if q == 'RAND_bytes':
        p, n = ev(nodes[0]), ev(nodes[1])
        v = random_region(eng, p, n, e, 'rand')
        eng.event('rand', (v, n), e, info=('ptr', p))
        return num(1)
    if q == 'AES_set_encrypt_key':
        p, bits, kp = ev(nodes[0]), ev(nodes[1]), ev(nodes[2])
        if p.op != 'ptr' or kp.op != 'ptr':
            eng.opq('aes key', e)
        else:
            key = block_at(eng, p, e)
            eng.write((kp.args[0], tuple(kp.args[1])), fn('aeskey', bits, key))
        n = eng.site(e, 'aes')
        return num(0)
    if q == 'AES_encrypt':
        p, o, kp = ev(nodes[0]), ev(nodes[1]), ev(nodes[2])
        if p.op != 'ptr' or o.op != 'ptr' or kp.op != 'ptr':
            return eng.opq('aes', e)
        x = block_at(eng, p, e)
        key = eng.read((kp.args[0], tuple(kp.args[1])))
        eng.storep(o, 'absl::uint128', fn('AES', key, x), e)
        return UNDEF
    if q in ('ERR_get_error', 'ERR_reason_error_string'):
        for x in nodes:
            ev(x)
        return tstr('<openssl>')
    if q in ('memcpy', '__builtin_memcpy', 'std::memcpy', 'memmove', 'std::memmove'):
        d, s_, n = [ev(x) for x in nodes]
        return memcpy(eng, e, d, s_, n)
    if q in ('memset', 'std::memset', '__builtin_memset'):
        d, c, n = [ev(x) for x in nodes]
        if d.op == 'ptr' and const_of(c) == 0 and elsize(d.args[2]):
            k = div(n, num(elsize(d.args[2])))
            sp = span_from_ptr(eng, d, k, e)
            if sp.op == 'span':
                write_span(eng, sp, fill(k, num(0)))
                return d
        return eng.opq('memset', e)
    if q == 'emp::makeBlock':
        hi, lo = ev(nodes[0]), ev(nodes[1])
        return lit([lo, hi])
    if q in ('std::numeric_limits::max', 'std::numeric_limits::min'):
        return NotImplemented
    if ns == 'NTL':
        return ntl(eng, e, f, nodes, q, b)
    if q == 'Eigen::DenseBase::Constant':
        xs = [ev(x) for x in nodes]
        return fill(xs[0], xs[1])
    if q == 'Eigen::DenseBase::Zero':
        return fill(ev(nodes[0]), num(0))
    return NotImplemented


def log2(v):
    c = const_of(v)
    if c is not None and c > 0 and int(c) == c and (int(c) & (int(c) - 1)) == 0:
        return num(int(c).bit_length() - 1)
    d = pd(v)
    if len(d) == 1:
        (m, c), = d.items()
        if isinstance(c, int) and c > 1 and (c & (c - 1)) == 0:
            return add(num(c.bit_length() - 1), fn('log2', poly({m: 1})))
    return fn('log2', v)


def iskind(v, kind):
    if v.op == 'st':
        return TT.tbool(v.args[0] == kind)
    if v.op == 'ite':
        return ite(v.args[0], iskind(v.args[1], kind), iskind(v.args[2], kind))
    return bfn('is' + kind, v)


def eng_real(e):
    return noref(e['t']) in ('double', 'float')


def block_at(eng, p, e):
    """16 bytes at p as one block value"""
    ety = p.args[2]
    if ety in ('absl::uint128',) or 'vector_size' in ety:
        return eng.read((p.args[0], tuple(p.args[1])))
    return eng.load(p, 'absl::uint128', e)


WIDTHS = {'absl::uint128': 16, 'unsigned long': 8, 'unsigned int': 4, 'unsigned short': 2, 'long': 8, 'int': 4}


def memcpy(eng, e, d, s_, n):
    if d.op != 'ptr' or s_.op != 'ptr':
        return eng.opq('memcpy', e)
    c = const_of(n)
    a, bsz = elsize(d.args[2]), elsize(s_.args[2])
    if a and c == a:
        if bsz == a:
            eng.write((d.args[0], tuple(d.args[1])), eng.read((s_.args[0], tuple(s_.args[1]))))
        else:
            eng.write((d.args[0], tuple(d.args[1])), eng.load(s_, d.args[2], e))
        return d
    if a and isinstance(c, int) and 0 < c < a and WIDTHS.get(d.args[2]):
        # the low bytes of one integer
        q = num(1 << (8 * c))
        old = eng.read((d.args[0], tuple(d.args[1])))
        src = eng.load(s_, d.args[2], e) if bsz != a else eng.read((s_.args[0], tuple(s_.args[1])))
        eng.write((d.args[0], tuple(d.args[1])), add(sub(old, mod(old, q)), mod(src, q)))
        return d
    if a and a == bsz:
        k = div(n, num(a))
        r = span_from_ptr(eng, s_, k, e)
        w = span_from_ptr(eng, d, k, e)
        if r.op == 'span' and w.op == 'span':
            write_span(eng, w, eng.span_value(r))
            return d
    return eng.opq('memcpy', e)


def algo_loop(eng, e, nodes, q):
    r = prange(eng, eng.eval(nodes[0]), eng.eval(nodes[1]), e)
    fnode = nodes[-1]
    lam = eng.eval(fnode)
    if r is None or r.op != 'span' or lam.op != 'lambda':
        return eng.opq(q, e)
    d = eng.eval(nodes[2]) if q == 'std::transform' else None
    d2 = None
    if q == 'std::transform' and len(nodes) == 5:
        d2, d = d, eng.eval(nodes[3])
    cnt = eng.newroot('algoidx')
    eng.s.vars[cnt] = num(0)
    n = r.args[3]

    class _S(dict):
        pass

    def body_call():
        i = eng.s.vars[cnt]
        lv = eng.span_lv(r, i)
        if q == 'std::generate':
            v = eng.call_lambda(lam, [], e)
            eng.write(lv, eng.read(v[1]) if isinstance(v, tuple) else v)
            return
        args = [('r', lv)]
        if d2 is not None:
            p = eng.padd(d2, i)
            args.append(('r', (p.args[0], tuple(p.args[1]))))
        v = eng.call_lambda(lam, args, e)
        if isinstance(v, tuple):
            v = eng.read(v[1])
        if d is not None:
            p = eng.padd(d, i)
            eng.write((p.args[0], tuple(p.args[1])), v)
    saved = eng.exec

    node = {'k': 'PyBody', 'loc': e.get('loc', ''), 'f': body_call}
    outs = eng.loop({'k': 'algo', 'loc': e.get('loc', ''), 'id': id(e)}, cond=lambda: lt(eng.s.vars[cnt], n), body=node,
                    inc=lambda: eng.write((cnt, ()), add(eng.s.vars[cnt], num(1))))
    nx = [o for o in outs if o[0] == 'next']
    eng.s = nx[0][1]
    eng.sync()
    return eng.padd(d, n) if d is not None else UNDEF


def ntl(eng, e, f, nodes, q, b):
    ev = eng.eval
    if q in ('NTL::ZZ_p::modulus', 'NTL::zz_p::modulus'):
        return MODULUS['::'.join(q.split('::')[:2])]
    if b == 'conv':
        if len(nodes) == 1:
            v = ev(nodes[0])
            return convto(noref(e['t']), v, noref(nodes[0]['t']))
        lv = eng.try_lval(nodes[0])
        v = ev(nodes[1])
        eng.write(lv, convto(noref(nodes[0]['t']), v, noref(nodes[1]['t'])))
        return UNDEF
    if b in ('rep', 'to_ZZ'):
        return ev(nodes[0])
    if b == 'bit':
        v, k = ev(nodes[0]), ev(nodes[1])
        return mod(div(v, pow2(k)), num(2))
    if b == 'NumBits':
        return fn('NumBits', ev(nodes[0]))
    if b in ('random_vec_ZZ_p', 'random_vec_zz_p'):
        n = ev(nodes[0])
        v = eng.fresh_arr('ntlrand', e, n)
        eng.event('ntl-random', (v, n), e)
        return v
    if b in ('random_ZZ_p', 'random_zz_p'):
        v = eng.fresh('ntlrand', e)
        eng.event('ntl-random', (v, num(1)), e)
        return v
    if b == 'random' and len(nodes) == 1 and noref(nodes[0]['t']) in MODULUS:
        v = eng.fresh('ntlrand', e)
        eng.event('ntl-random', (v, num(1)), e)
        eng.write(eng.try_lval(nodes[0]), v)
        return UNDEF
    if b == 'power' and len(nodes) in (2, 3) and const_of(ev(nodes[-2])) == 2:
        t = noref(nodes[0]['t'])
        v = pow2(ev(nodes[-1]))
        if t in MODULUS:
            v = mod(v, MODULUS[t])
        if len(nodes) == 2:
            return v
        eng.write(eng.try_lval(nodes[0]), v)
        return UNDEF
    if b == 'NumBytes':
        return div(add(fn('NumBits', ev(nodes[0])), num(7)), num(8))
    if b == 'ZZFromBytes' and len(nodes) in (2, 3):
        p, n = ev(nodes[-2]), const_of(ev(nodes[-1]))
        if p.op == 'ptr' and n is not None and 0 <= n <= 64:
            v = num(0)
            for i in range(int(n)):
                x = eng.padd(p, num(i)) if i else p
                if x is None:
                    return NotImplemented
                v = add(v, mul(num(256 ** i), mod(eng.read((x.args[0], tuple(x.args[1]))), num(256))))
            if len(nodes) == 2:
                return v
            eng.write(eng.try_lval(nodes[0]), v)
            return UNDEF
        return NotImplemented
    if b in ('clear',):
        eng.write(eng.try_lval(nodes[0]), num(0))
        return UNDEF
    if b == 'IsZero':
        return eq0(ev(nodes[0]))
    if b == 'IsOne':
        return eq0(sub(ev(nodes[0]), num(1)))
    if b in ('add', 'sub', 'mul', 'LeftShift', 'RightShift') and len(nodes) == 3:
        x, y = ev(nodes[1]), ev(nodes[2])
        r = {'add': lambda: add(x, y), 'sub': lambda: sub(x, y), 'mul': lambda: mul(x, y), 'LeftShift': lambda: mul(x, pow2(y)),
             'RightShift': lambda: div(x, pow2(y))}[b]()
        eng.write(eng.try_lval(nodes[0]), r)
        return UNDEF
    if b == 'negate' and len(nodes) == 2:
        eng.write(eng.try_lval(nodes[0]), neg(ev(nodes[1])))
        return UNDEF
    if b == 'power2_ZZ':
        return pow2(ev(nodes[0]))
    if b in ('power2', ) and len(nodes) == 2:
        eng.write(eng.try_lval(nodes[0]), pow2(ev(nodes[1])))
        return UNDEF
    if b == 'LowBits' and len(nodes) == 2:
        return mod(ev(nodes[0]), pow2(ev(nodes[1])))
    return NotImplemented


def convto(t, v, src):
    if t in MODULUS:
        if src in MODULUS:
            return v
        return mod(v, MODULUS[t])
    if t in ('unsigned long', 'unsigned long long'):
        return mod(v, num(1 << 64))
    if t == 'unsigned int':
        return mod(v, num(1 << 32))
    if t in ('long', 'int'):
        return fn('signed', num(64 if t == 'long' else 32), mod(v, num(1 << (64 if t == 'long' else 32))))
    return v
