"""Abstract interpreter over the exported Clang AST.

Every function is turned into a summary: the final value of each location as a term over entry values, the list of
effects (channel / OT / randomness / contract calls) with their guards and iteration spaces, and the list of returns with
their path conditions.  Branches join into gated values, calls to functions of the project are summarised in place unless
they are declared an interface, loops are solved into closed forms (inductions, sums, maps, accumulations, exists-guards);
what cannot be solved stays an opaque symbol and makes the obligations that need it undecided.  No program code is run and
no path is handed to a solver.
"""
import json
import re
from .terms import *
from . import terms as TT


class Unsupported(Exception):
    pass


UNDEF = sym('undef', 'any')

_tite = TT.ite


def gite(c, a, b):
    if a is UNDEF:
        return b
    if b is UNDEF:
        return a
    return _tite(c, a, b)


class State:
    __slots__ = ('vars', 'events', 'pc', 'log')

    def __init__(self):
        self.vars = {}
        self.events = ()
        self.pc = ()
        self.log = None

    def copy(self):
        s = State()
        s.vars = dict(self.vars)
        s.events = self.events
        s.pc = self.pc
        s.log = self.log
        return s


class Event:
    __slots__ = ('name', 'args', 'iters', 'cond', 'loc', 'info', 'key')

    def __init__(self, name, args, iters, cond, loc, info=None, key=None):
        self.name, self.args, self.iters, self.cond, self.loc, self.info, self.key = name, args, iters, cond, loc, info, key

    def sub(self, m, wrap=None):
        it = tuple((v, subst(l, m), subst(h, m)) for v, l, h in self.iters)
        if wrap:
            it = (wrap,) + it
        return Event(self.name, tuple(subst_any(a, m) for a in self.args), it, subst(self.cond, m), self.loc, self.info,
                     subst_any(self.key, m) if self.key else None)

    def guarded(self, c):
        return Event(self.name, self.args, self.iters, tand(c, self.cond), self.loc, self.info, self.key)

    def __repr__(self):
        return '%s(%s)%s%s @%s' % (self.name, ', '.join(show(a) if isinstance(a, (Term, tuple)) else str(a) for a in self.args),
                                   ''.join(' ∀%s∈[%s,%s)' % (show(v), show(l), show(h)) for v, l, h in self.iters),
                                   '' if self.cond is TRUE else ' if ' + show(self.cond), self.loc)


class Frame:
    def __init__(self, fn, this=None):
        self.fn = fn
        self.env = {}
        self.this = this


WIDTH = {'unsigned char': 8, 'unsigned short': 16, 'unsigned int': 32, 'unsigned long': 64, 'unsigned long long': 64,
         'absl::uint128': 128, 'signed char': -8, 'char': -8, 'short': -16, 'int': -32, 'long': -64, 'long long': -64}


def wrap_int(v, t, src):
    """value of an integer expression after conversion to / arithmetic in type t (exact semantics)"""
    w = WIDTH.get(t)
    if w is None or v.op in TT.NONNUM or isarr(v):
        return v
    if src is not None:
        s = WIDTH.get(src)
        if s is not None and ((s > 0 and w > 0 and w >= s) or (s > 0 and w < 0 and -w > s) or (s < 0 and w < 0 and w <= s)):
            return v
    n = abs(w)
    lo, hi = (0, (1 << n) - 1) if w > 0 else (-(1 << (n - 1)), (1 << (n - 1)) - 1)
    c = const_of(v)
    if isinstance(c, int):
        c %= 1 << n
        return num(c - (1 << n) if c > hi else c)
    if v.op == 'undef' or v is UNDEF:
        return v
    if TT.nonneg(sub(v, num(lo)), 3) and TT.nonneg(sub(num(hi), v), 3):
        return v
    if w > 0:
        return mod(v, num(1 << n))
    return fn('signed', num(n), mod(v, num(1 << n)))


class LoopRec:
    """an unsolved loop, kept for inductive-step rules"""

    def __init__(self):
        self.phis = {}


def strip_t(q):
    out, d = [], 0
    i = 0
    while i < len(q):
        c = q[i]
        if c == '<' and not q[:i].endswith('operator') and not q[:i].endswith('operator<'):
            d += 1
        elif c == '>' and d > 0 and q[i - 1] != '-':
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    return ''.join(out)


def clean_type(t):
    t = t.strip()
    t = re.sub(r'^const ', '', t)
    t = re.sub(r' const$', '', t)
    return t.strip()


def noref(t):
    return clean_type(re.sub(r'&+$', '', t.strip()))


INTS = {'int', 'long', 'unsigned int', 'unsigned long', 'short', 'unsigned short', 'char', 'unsigned char', 'signed char',
        'long long', 'unsigned long long', 'bool', '__int128', 'unsigned __int128'}


def elem_type(t):
    """element type of a container/span/pointer type"""
    t = noref(t)
    if t.endswith('*') or t.endswith('* const'):
        return noref(t[:-1] if t.endswith('*') else t[:-7])
    m = re.match(r'^(?:std::vector|boost::container::vector|absl::Span|absl::InlinedVector|NTL::Vec|std::array)<(.*)>$', t)
    if m:
        s = m.group(1)
        d = 0
        for i, c in enumerate(s):
            if c == '<':
                d += 1
            elif c == '>':
                d -= 1
            elif c == ',' and d == 0:
                return noref(s[:i])
        return noref(s)
    m = re.match(r'^Eigen::(?:Matrix|SparseMatrix)<(.*)$', t)
    if m:
        return m.group(1).split(',')[0].strip()
    return None


def is_vec(t):
    return bool(re.match(r'^(std::vector|boost::container::vector|absl::InlinedVector|NTL::Vec|Eigen::Matrix|std::array)<', noref(t)))


def is_span(t):
    return noref(t).startswith('absl::Span<')


class Program:
    def __init__(self, path):
        self.funs = {}
        self.byq = {}
        self.recs = {}
        self.gvars = {}
        from .canon import canonicalise
        for o in canonicalise([json.loads(ln) for ln in open(path)]):
            if o['kind'] == 'fun':
                self.funs[o['f']['id']] = o
                self.byq.setdefault(o['f']['q'], []).append(o)
            elif o['kind'] == 'rec':
                self.recs[o['q']] = o
            else:
                self.gvars[o['q']] = o['var']
        self.decl_owner = {}

    def find(self, q, ta=None, pred=None, npar=None):
        out = []
        for o in self.byq.get(q, []):
            if ta is not None and o['f'].get('ta', [])[:len(ta)] != list(ta):
                continue
            if npar is not None and len(o['params']) != npar:
                continue
            if pred and not pred(o):
                continue
            out.append(o)
        return out


def integral(t):
    """integer combination of rounded values"""
    return all(isinstance(c, int) and all(k > 0 and TT._byid[i].op == 'fn' and TT._byid[i].args[0] in ('ceil', 'floor') for i, k in m)
               for m, c in pd(t).items())


class Shared(set):
    """locations the threads of a region share: what exists before it, and every static that is not thread-local"""
    def __init__(self, eng, roots):
        set.__init__(self, roots)
        self.eng = eng

    def __contains__(self, r):
        if isinstance(r, str) and r.startswith('static:'):
            return not (self.eng.static_vars.get(r) or {}).get('tls')
        return set.__contains__(self, r)


class Engine:
    MAXDEPTH = 40

    def __init__(self, prog, boundary=None, facts=()):
        self.P = prog
        self.boundary = boundary or {}
        self.resized = set()
        self.s = State()
        self.frames = []
        self.unroll = 0      # loops with at most this many iterations are executed instead of solved
        self.unrolled = []
        self.iters = []      # active loop iteration symbols (bv, lo, hi or None)
        self.nroot = 0
        self.loops = {}      # id -> LoopRec
        self.opaque = []     # reasons
        self.unsolved = []   # loops kept as recurrences
        self.sites = {}
        self.base_facts = list(facts)
        self.stmts = 0
        self.fn_seen = set()
        self.calls_seen = set()
        self.dry = 0
        self.notes = []
        # parallel regions: regions seen, innermost region, inside a worksharing loop, under a lock, statement of the next worksharing loop
        self.omp_regions, self.omp, self.omp_ws, self.omp_crit, self.omp_for, self.omp_quiet = [], None, None, 0, None, 0
        self.static_mode = 'any'   # contents of static/thread-local objects on entry: any | init | {root: term}
        self.static_vars = {}
        self.throws = {}           # site -> (state at the throw, enclosing iterations)
        self.strict = False        # exact integer widths instead of ring semantics
        self.narrow = False        # conversions from 64 to 32 bits are exact
        self.rings = frozenset()   # classes treated as elements of an abstract ring

    # ------------------------------------------------------------ misc
    def opq(self, reason, node=None, kind='any'):
        loc = node.get('loc', '') if isinstance(node, dict) else ''
        self.opaque.append((reason, loc))
        key = ('opq', reason, loc, tuple(f.fn['f']['id'] if f.fn else 0 for f in self.frames))
        n = self.sites.setdefault(key, len(self.sites))
        return fn('opaque:%s' % reason, num(n), *[b for b, in [(x[0],) for x in self.iters]])

    def site(self, node, tag=''):
        # identity of an effect: static construct + inline stack, not its text
        key = (tag, id(node), tuple(f.sitekey for f in self.frames), tuple(self.unrolled))
        return self.sites.setdefault(key, len(self.sites))

    def sync(self):
        TT.FACTS[:] = self.base_facts + list(self.s.pc)

    def assume(self, c):
        self.sync()
        c = decide(c)
        if c is TRUE:
            return
        if c.op == 'and':
            self.s.pc = self.s.pc + tuple(c.args)
        else:
            self.s.pc = self.s.pc + (c,)
        self.sync()

    def newroot(self, hint):
        self.nroot += 1
        return '%s#%d' % (hint, self.nroot)

    # ------------------------------------------------------------ memory
    def read(self, lv):
        root, path = lv
        ws = self.omp_ws
        if ws is not None and not self.omp_crit and not self.omp_quiet and root in self.omp['shared']:
            ws['reads'].add(root)
        t = self.s.vars.get(root)
        if t is None:
            t = sym('init:' + root, 'any')
            self.s.vars[root] = t
        return self.walk(t, path)

    def walk(self, t, path):
        i = 0
        while i < len(path):
            p = path[i]
            if p[0] == 'f':
                t = fld(t, p[1])
                i += 1
            elif p[0] == 's':
                t = aslice(t, p[1], p[2])
                i += 1
            elif p[0] == 'one':
                # one object seen as a one-element span
                if i + 1 < len(path) and path[i + 1][0] == 'i':
                    i += 2
                else:
                    t = lit([t])
                    i += 2 if i + 1 < len(path) else 1
            else:
                j = i
                idx = []
                while j < len(path) and path[j][0] == 'i':
                    idx.append(path[j][1])
                    j += 1
                t = sel(t, tuple(idx))
                i = j
        return t

    def upd(self, t, path, v):
        if not path:
            return v
        p = path[0]
        if p[0] == 'f':
            return setfld(t, p[1], self.upd(fld(t, p[1]), path[1:], v))
        if p[0] == 'one':
            if len(path) > 1 and path[1][0] == 'i':
                return self.upd(t, path[2:], v)
            return sel(v, (num(0),))
        if p[0] == 's':
            off, n = p[1], p[2]
            if len(path) > 1:
                inner = self.upd(aslice(t, off, n), path[1:], v)
            else:
                inner = v
            L = tlen(t)
            if const_of(off) == 0 and decide(eq(n, L)) is TRUE:
                return inner
            rest = sub(L, add(off, n))
            parts = [aslice(t, num(0), off), inner]
            if const_of(rest) != 0:
                parts.append(aslice(t, add(off, n), rest))
            return concat(*parts)
        idx = []
        j = 0
        while j < len(path) and path[j][0] == 'i':
            idx.append(path[j][1])
            j += 1
        if j == len(path):
            return store(t, tuple(idx), v)
        return store(t, tuple(idx), self.upd(sel(t, tuple(idx)), path[j:], v))

    def write(self, lv, v):
        root, path = lv
        if self.omp is not None and not self.omp_quiet and root in self.omp['shared']:
            if self.omp_ws is None and not self.omp_crit:
                self.omp['bad'].append(root + ''.join('.' + str(p[1]) for p in path if p[0] == 'f'))
            elif self.omp_ws is not None and not self.omp_crit:
                self.omp_ws['unlocked'].add(root)
        if self.s.log is not None:
            pre = []
            for p in path:
                if p[0] != 'f':
                    break
                pre.append(p)
            self.s.log.append((root, tuple(pre)))
        cur = self.s.vars.get(root)
        if cur is None:
            cur = sym('init:' + root, 'any')
        self.s.vars[root] = self.upd(cur, path, v)

    def span_lv(self, sp, idx):
        """location of element idx of a span term"""
        if sp.op != 'span':
            return None
        root, path, off, ln = sp.args
        return (root, tuple(path) + (('i', add(off, idx)),))

    def span_value(self, sp):
        root, path, off, ln = sp.args
        return aslice(self.read((root, tuple(path))), off, ln)

    # ------------------------------------------------------------ merging
    def merge(self, c, a, b):
        """state that is a under c and b otherwise"""
        r = State()
        r.log = a.log
        n = 0
        while n < len(a.pc) and n < len(b.pc) and a.pc[n] is b.pc[n]:
            n += 1
        r.pc = a.pc[:n]
        ra, rb = tand(*a.pc[n:]), tand(*b.pc[n:])
        o = tor(ra, rb)
        if o is not TRUE and not (o.op == 'or' and len(o.args) > 4):
            r.pc = r.pc + (o,)
        keys = set(a.vars) | set(b.vars)
        for k in keys:
            va, vb = a.vars.get(k), b.vars.get(k)
            if va is None:
                r.vars[k] = vb
            elif vb is None:
                r.vars[k] = va
            else:
                r.vars[k] = self.mval(c, va, vb)
        m = 0
        ea, eb = a.events, b.events
        while m < len(ea) and m < len(eb) and ea[m] is eb[m]:
            m += 1
        nc = tnot(c)
        r.events = ea[:m] + tuple(e.guarded(c) for e in ea[m:]) + tuple(e.guarded(nc) for e in eb[m:])
        return r

    def mval(self, c, a, b):
        if a is b:
            return a
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        if a.op == 'obj' and b.op == 'obj' and a.args[0] == b.args[0]:
            da, db = dict(a.args[1]), dict(b.args[1])
            if set(da) == set(db):
                return obj(a.args[0], {k: self.mval(c, da[k], db[k]) for k in da})
        return gite(c, a, b)

    # ------------------------------------------------------------ function calls
    def call(self, fo, this, args, node=None):
        """summarise a project function in place; args: list of ('v',term) | ('r',lval)"""
        if len(self.frames) > self.MAXDEPTH or sum(1 for f in self.frames if f.fn is fo) > 1:
            raise Unsupported('recursion in ' + fo['f']['q'])
        self.fn_seen.add(fo['f']['q'])
        fr = Frame(fo, this)
        fr.sitekey = (id(node) if node is not None else 0)
        self.frames.append(fr)
        pc0 = self.s.pc
        try:
            for p, a in zip(fo['params'], args):
                if a[0] == 'r':
                    fr.env[p['d']] = ('ref', a[1])
                else:
                    r = self.newroot(p['n'])
                    fr.env[p['d']] = ('own', r)
                    self.s.vars[r] = a[1]
            if fo.get('inits') is not None:
                self.ctor_inits(fo, this)
            outs = self.exec(fo['body'])
        finally:
            self.frames.pop()
        rets = []
        for kind, st_, v in outs:
            if kind in ('ret', 'next'):
                rets.append((st_, v))
            elif kind == 'throw':
                pass
        if not rets:
            # never returns normally
            self.s.pc = pc0 + (FALSE,)
            return UNDEF
        return self.join(rets, len(pc0))

    def join(self, rets, n0):
        st_, v = rets[-1]
        if len(rets) == 1:
            self.s = st_
            self.sync()
            return v
        for s2, v2 in reversed(rets[:-1]):
            c = tand(*s2.pc[n0:])
            if (v is None) or (v2 is None):
                vv = v if v2 is None else v2
                if v is not None and v2 is not None:
                    vv = self.mval(c, v2, v)
            else:
                vv = self.mval_ret(c, v2, v)
            st_ = self.merge(c, s2, st_)
            v = vv
        # the join of all returns restores the path condition
        st_.pc = st_.pc[:n0] if len(rets) > 1 else st_.pc
        self.s = st_
        self.sync()
        return v

    def mval_ret(self, c, a, b):
        if isinstance(a, tuple) or isinstance(b, tuple):
            if a == b:
                return a
            # returned references: read both
            a = self.read(a[1]) if isinstance(a, tuple) else a
            b = self.read(b[1]) if isinstance(b, tuple) else b
        return self.mval(c, a, b)

    def ctor_inits(self, fo, this):
        cls = fo['f'].get('cls')
        for i in fo['inits']:
            if 'm' in i:
                lv = (this[0], this[1] + (('f', i['m']),))
                fty = self.field_type(cls, i['m'])
                if i['e'] is None:
                    continue
                if fty and fty.endswith('&'):
                    continue
                v = self.eval_init(i['e'], fty)
                self.write(lv, v)
            elif i.get('deleg'):
                v = self.eval(i['e'])
                self.write(this, v)

    def field_type(self, cls, name):
        r = self.P.recs.get(cls)
        if r:
            for f in r['fields']:
                if f['n'] == name:
                    return f['t']
        return None

    def default_value(self, ty, node=None):
        """value-initialised / default constructed object of a type"""
        t = noref(ty)
        if is_vec(t):
            return fill(num(0), num(0))
        if t.startswith('mpc_utils::StatusOr'):
            return obj('StatusOr', {'st': st('unknown'), 'val': UNDEF})
        if t == 'mpc_utils::Status':
            return OK
        if t.startswith('std::unique_ptr') or t.endswith('*'):
            return NULL
        if t.startswith('absl::optional'):
            return obj('optional', {'has': FALSE, 'val': UNDEF})
        if is_span(t):
            return span('m:empty', (), num(0), num(0))
        if t in self.rings:
            return num(0)
        if t in self.P.recs:
            return obj(t, {f['n']: self.default_field(f) for f in self.P.recs[t]['fields']})
        if t in ('NTL::ZZ_p', 'NTL::zz_p', 'NTL::ZZ'):
            return num(0)
        if t.startswith('Eigen::SparseMatrix'):
            return fn('matrix0', num(0), num(0))
        return UNDEF

    def default_field(self, f):
        if f.get('init') is not None:
            try:
                return self.eval(f['init'])
            except Unsupported:
                return UNDEF
        return self.default_value(f['t'])

    def zero_value(self, ty):
        t = noref(ty)
        if t in INTS or t == 'absl::uint128' or t == 'distributed_vector_ole::gf128' or t in ('NTL::ZZ_p', 'NTL::zz_p', 'NTL::ZZ', 'double', 'float'):
            return num(0)
        if t.endswith('*'):
            return NULL
        m = re.match(r'^(.*)\[(\d+)\]$', t)
        if m:
            return fill(num(int(m.group(2))), num(0))
        return self.default_value(t)

    # ------------------------------------------------------------ statements
    # exec returns list of (kind, state, value); self.s is undefined afterwards except through outcomes
    def exec(self, s):
        if s is None:
            return [('next', self.s, None)]
        self.stmts += 1
        if self.stmts > 400000:
            raise Unsupported('statement budget')
        self.sync()
        k = s['k']
        m = getattr(self, 'x_' + k.replace('?', '_'), None)
        if m is None:
            raise Unsupported('statement ' + k)
        return m(s)

    def x_Block(self, s):
        outs = []
        for st_ in s['b']:
            r = self.exec(st_)
            nxt = [x for x in r if x[0] == 'next']
            outs += [x for x in r if x[0] != 'next']
            if not nxt:
                return outs
            assert len(nxt) == 1
            self.s = nxt[0][1]
            self.sync()
            if FALSE in self.s.pc:
                return outs
        outs.append(('next', self.s, None))
        return outs

    def x_PyBody(self, s):
        s['f']()
        return [('next', self.s, None)]

    def x_Null(self, s):
        return [('next', self.s, None)]

    def x_Break(self, s):
        return [('break', self.s, None)]

    def x_Continue(self, s):
        return [('cont', self.s, None)]

    def x_Decl(self, s):
        for v in s['v']:
            self.declare(v)
        return [('next', self.s, None)]

    def declare(self, v):
        if v.get('decomp'):
            raise Unsupported('structured binding')
        fr = self.frames[-1]
        t = v['t']
        init = v.get('init')
        if v.get('static') or v.get('tls'):
            r = 'static:%d:%s' % (v['d'], v['n'])
            if t.startswith('const '):
                r = 'const' + r
            fr.env[v['d']] = ('own', r)
            if r not in self.s.vars:
                if t.startswith('const ') or self.static_mode == 'init':
                    self.s.vars[r] = self.zero_value(t) if init is None else self.eval_init(init, t)
                elif isinstance(self.static_mode, dict) and r in self.static_mode:
                    self.s.vars[r] = self.static_mode[r]
                else:
                    self.s.vars[r] = self.static_initial(v, r)
                if not t.startswith('const '):
                    self.static_vars[r] = v
            return
        if t.endswith('&') and init is not None:
            lv = self.try_lval(init)
            if lv is not None:
                fr.env[v['d']] = ('ref', lv)
                return
        r = self.newroot(v['n'])
        fr.env[v['d']] = ('own', r)
        if init is None:
            self.s.vars[r] = self.uninit(t, v['n'], v)
        else:
            val = self.eval_init(init, t)
            self.s.vars[r] = val

    def static_initial(self, v, r):
        """an object that outlives the call: arbitrary earlier contents"""
        t = noref(v['t'])
        if t.startswith('absl::optional'):
            return obj('optional', {'has': bfn('has', sym(r, 'any')), 'val': fn('old', sym(r, 'any'))})
        return fn('old', sym(r, 'any'))

    def uninit(self, t, name, node):
        d = self.default_value(t)
        return d

    def eval_init(self, e, ty):
        t = noref(ty) if ty else ''
        if is_vec(t) and e['k'] == 'Init':
            return lit([self.eval(x) for x in e['a']])
        v = self.eval(e)
        return v

    def x_Expr(self, s):
        self.eval_discard(s['e'])
        return [('next', self.s, None)] if FALSE not in self.s.pc else []

    def eval_discard(self, e):
        if e['k'] == 'Throw':
            self.thrown(e)
            self.s.pc = self.s.pc + (FALSE,)
            return
        self.eval(e)

    def x_Return(self, s):
        if s['e'] is None:
            return [('ret', self.s, None)]
        fr = self.frames[-1]
        ret = fr.fn['f']['ret'] if fr.fn else ''
        if ret.endswith('&') or ret.endswith('&&'):
            lv = self.try_lval(s['e'])
            if lv is not None:
                return [('ret', self.s, ('ref', lv))]
        v = self.eval(s['e'])
        return [('ret', self.s, v)]

    def x_If(self, s):
        if s.get('init'):
            r = self.exec(s['init'])
            self.s = r[0][1]
        if s.get('cv'):
            self.declare(s['cv'])
        c = decide(self.cond(s['c']))
        if c is TRUE:
            return self.exec(s['th'])
        if c is FALSE:
            return self.exec(s['el'])
        n0 = len(self.s.pc)
        base = self.s
        a = base.copy()
        b = base.copy()
        if base.log is not None:
            a.log, b.log = base.log, base.log
        self.s = a
        self.assume(c)
        oa = self.exec(s['th'])
        self.s = b
        self.assume(tnot(c))
        ob = self.exec(s['el'])
        na = [x for x in oa if x[0] == 'next']
        nb = [x for x in ob if x[0] == 'next']
        outs = [x for x in oa + ob if x[0] != 'next']
        if na and nb:
            # exact gate: the part of the path condition that separates the two
            ca = tand(*na[0][1].pc[n0:])
            cb = tand(*nb[0][1].pc[n0:])
            m = self.merge(c, na[0][1], nb[0][1])
            outs.append(('next', m, None))
        elif na:
            outs.append(na[0])
        elif nb:
            outs.append(nb[0])
        return outs

    def x_Do(self, s):
        c = s['c']
        if c.get('cv') == '0' or (c['k'] == 'Bool' and not c['v']):
            return self.exec(s['b'])
        # general do-while: body once, then while
        return self.loop(s, cond=lambda: self.cond(s['c']), body=s['b'], inc=None, post=True)

    def x_While(self, s):
        return self.loop(s, cond=lambda: self.cond(s['c']), body=s['b'], inc=None)

    def x_For(self, s):
        if s['init']:
            r = self.exec(s['init'])
            self.s = r[0][1]
        return self.loop(s, cond=(lambda: self.cond(s['c'])) if s['c'] else (lambda: TRUE), body=s['b'],
                         inc=(lambda: self.eval(s['inc'])) if s['inc'] else None)

    def x_Range(self, s):
        # for (v : range)
        rt = s['range']['t']
        fr = self.frames[-1]
        lv = self.try_lval(s['range'])
        val = self.read(lv) if lv is not None else self.eval(s['range'])
        if lv is None:
            r = self.newroot('range')
            self.s.vars[r] = val
            lv = (r, ())
        cnt = self.newroot('rangeidx')
        self.s.vars[cnt] = num(0)
        v = s['var']
        if val.op == 'span':
            n = val.args[3]
            elem = lambda i: self.span_lv(val, i)
        else:
            n = tlen(val)
            elem = lambda i: (lv[0], lv[1] + (('i', i),))

        def pre():
            i = self.s.vars[cnt]
            e = elem(i)
            if v['t'].endswith('&'):
                fr.env[v['d']] = ('ref', e)
            else:
                r = self.newroot(v['n'])
                fr.env[v['d']] = ('own', r)
                self.s.vars[r] = self.read(e)

        def inc():
            self.write((cnt, ()), add(self.s.vars[cnt], num(1)))
        return self.loop(s, cond=lambda: lt(self.s.vars[cnt], n), body=s['b'], inc=inc, pre=pre)

    def x_Omp(self, s):
        # sequential reading (one thread); what other numbers of threads could change is recorded for astp/omp.py
        dk = s['dk']
        self.notes.append(('omp', dk, s['loc']))
        b = s['b']
        if b is None:
            return [('next', self.s, None)]
        prev, pf = self.omp, self.omp_for
        try:
            if dk.startswith('parallel') or dk == 'teams':
                reg = {'loc': s['loc'], 'fn': self.frames[0].fn['f']['q'], 'shared': Shared(self, self.s.vars), 'loops': [], 'bad': [], 'nested': prev is not None,
                       'cl': s.get('cl') or [], 'odd': [], 'events': len(self.s.events), 'kind': dk, 'ctx': [], 'ntl': {}, 'pc': len(self.s.pc)}
                self.omp = reg
                self.omp_regions.append(reg)
                if dk not in ('parallel', 'parallel for', 'parallel for simd'):
                    reg['odd'].append(dk)
            elif dk not in ('for', 'for simd', 'critical', 'atomic', 'ordered', 'single', 'master', 'masked', 'simd', 'barrier') and self.omp is not None:
                self.omp['odd'].append(dk)
            if dk in ('for', 'for simd', 'parallel for', 'parallel for simd'):
                self.omp_for, self.omp_vars = s, set(self.s.vars)
                return self.exec(b)
            if dk in ('critical', 'atomic', 'ordered', 'single', 'master', 'masked'):
                if dk == 'ordered' and self.omp_ws is not None:
                    self.omp_ws['ordered'] += 1
                self.omp_crit += 1
                try:
                    return self.exec(b)
                finally:
                    self.omp_crit -= 1
            return self.exec(b)
        finally:
            self.omp, self.omp_for = prev, pf

    def x_Switch(self, s):
        raise Unsupported('switch')

    def x_Try(self, s):
        return self.exec(s['b'])

    def x__CapturedStmt(self, s):
        raise Unsupported('captured')

    # ------------------------------------------------------------ loops
    def loop(self, s, cond, body, inc, pre=None, post=False):
        o = self.omp_for
        if o is not None and o['b'] is s and self.omp is not None and self.omp_ws is None:
            ws = {'loc': o['loc'], 'cl': o.get('cl') or [], 'unlocked': set(), 'reads': set(), 'ordered': 0, 'phis': None, 'priv': set(x for x in self.omp_vars if x not in self.omp['shared']),
                  'events': len(self.s.events)}
            self.omp_ws = ws
            self.omp['loops'].append(ws)
            try:
                return self.loop_(s, cond, body, inc, pre, post)
            finally:
                self.omp_ws = None
        if self.unroll and not post and not self.s.log and self.omp is None:
            r = self.unroll_loop(cond, body, inc, pre)
            if r is not None:
                return r
        return self.loop_(s, cond, body, inc, pre, post)

    def unroll_loop(self, cond, body, inc, pre):
        """a loop whose condition is a constant before each of its few iterations"""
        base, nop, nuns = self.s, len(self.opaque), len(self.unsolved)
        n0 = len(base.pc)
        self.s = base.copy()
        outs, exits = [], []
        nu = len(self.unrolled)
        try:
            for it in range(self.unroll + 1):
                self.sync()
                c = decide(cond())
                if c is FALSE:
                    exits.append(self.s)
                    break
                if c is not TRUE or it == self.unroll:
                    self.s = base
                    del self.opaque[nop:], self.unsolved[nuns:]
                    self.sync()
                    return None
                self.unrolled.append(it)
                if pre:
                    pre()
                o = self.exec(body)
                outs += [x for x in o if x[0] == 'ret']
                exits += [x[1] for x in o if x[0] == 'break']
                nx = [x[1] for x in o if x[0] in ('next', 'cont')]
                if not nx:
                    break
                self.s = nx[0]
                if len(nx) > 1:
                    self.join([(a, None) for a in nx], n0)
                self.sync()
                if inc:
                    inc()
                del self.unrolled[nu:]
        finally:
            del self.unrolled[nu:]
        if exits:
            st_ = exits[-1]
            for s2 in reversed(exits[:-1]):
                st_ = self.merge(tand(*s2.pc[n0:]), s2, st_)
            self.s = st_
            self.sync()
            outs.append(('next', st_, None))
        return outs

    def loop_(self, s, cond, body, inc, pre=None, post=False):
        base = self.s
        L = []
        nit = len(self.iters)
        tau = fresh_bv('t')
        outer_log = base.log
        nopq = len(self.opaque)
        loopid = self.site(s, 'loop')

        def setup(closed):
            S = base.copy()
            S.log = []
            self.s = S
            phis = {}
            for (root, path) in L:
                cur = self.walk(S.vars[root], path)
                key = 'L%d:%s%s' % (loopid, root.split('#')[0], ''.join('.' + p[1] for p in path))
                keep = self.resized
                self.resized = resized
                ph = self.make_phi(cur, key + '~' + tau.args[0], phis, ((root, path), cur), closed)
                self.resized = keep
                S.vars[root] = self.upd(S.vars[root], path, ph)
            return phis

        closed = {}
        res = None
        N = None
        resized = set()
        for it in range(16):
            phis = setup({})
            self.iters.append((tau, num(0), None))
            try:
                r = self.run_body(cond, body, inc, pre, post)
            finally:
                del self.iters[nit:]
            logged = self.norm_log([x for x in r['log'] if x[0] in base.vars])
            new = self.norm_log(L + logged)
            if new == L:
                # arrays whose length the body changes
                more = set()
                for ph, (where, init) in phis.items():
                    if ph.args[1] == 'arr' and ph.args[2] is not None:
                        ends = [o[1] for o in r['outs'] if o[0] == 'break'] + ([r['end']] if r['end'] is not None else [])
                        for st_ in ends:
                            cur = self.walk(st_.vars[where[0]], where[1])
                            if not isarr(cur) or not self.keeps_length(cur, ph):
                                more.add(where)
                if more <= resized:
                    res = r
                    break
                resized |= more
                continue
            L = new
        if res is None:
            raise Unsupported('loop discovery')
        # linear inductions and trip count
        closed = {}
        changed = True
        while changed:
            changed = False
            for ph, (where, init) in phis.items():
                if ph in closed or ph.args[1] != 'num':
                    continue
                nx = subst(self.phi_next(res, where, ph, phis), closed)
                d = sub(nx, ph)
                if not any(p in phis and p not in closed for p in d.phis) and tau.args[0] not in d.bvs and not self.varies(d):
                    closed[ph] = add(init, mul(d, tau))
                    changed = True
        c = subst(res['cond'], closed)
        has_break = any(o[0] == 'break' for o in res['outs'])
        N = self.trip(c, tau, phis, closed)
        if post and N is not None:
            N = None
        rec = None
        if N is None or has_break:
            return self.general_loop(s, base, res, phis, closed, tau, c, N, cond, body, inc, pre, post, L, outer_log, loopid)
        # second pass with the solved inductions and the range as facts
        phis2 = setup(closed)
        self.iters.append((tau, num(0), N))
        self.s.pc = self.s.pc + (ge0(tau), lt(tau, N))
        # re-substitute solved phis
        for k in list(self.s.vars):
            v = self.s.vars[k]
            if v.phis:
                self.s.vars[k] = subst(v, closed)
        npc = len(self.s.pc)
        self.sync()
        try:
            r = self.run_body(cond, body, inc, pre, post, assume_cond=False)
        finally:
            del self.iters[nit:]
        self.s = base.copy()
        self.sync()
        # close the remaining phis
        rest = {ph: w for ph, w in phis2.items() if ph not in closed}
        cl2 = dict(closed)
        final = {}
        pending = dict(rest)
        nexts = {ph: subst(self.phi_next(r, where, ph, phis2), closed) for ph, (where, init) in rest.items()}
        ws = self.omp_ws
        if ws is not None and self.omp_for is not None and self.omp_for['b'] is s:
            ws.update(tau=tau, N=N, phis=dict(phis2), closed=dict(closed), nexts=dict(nexts), evs=self.loop_events(r, len(base.events), npc),
                      pc=list(self.s.pc) + [ge0(tau), lt(tau, N)])
        for ph, (where, init) in rest.items():
            if ph.args[1] == 'arr':
                m = self.stable_lens(ph, init, nexts[ph], nexts.values())
                if m:
                    nexts = {p: subst(t, m) for p, t in nexts.items()}
        for ph, (where, init) in rest.items():
            if ph.args[1] == 'arr' and ph.args[2] is None:
                lp = phi('len:' + ph.args[0], 'num')
                lt_ = TT._intern('len', (ph,))
                nl = subst(tlen(nexts[ph]), {lt_: lp})
                if (nl.phis - {lp}):
                    continue
                with with_facts(list(self.s.pc) + [ge0(tau), lt(tau, N)]):
                    at = self.solve_length(tlen(init), nl, lp, tau, N)
                if at is not None:
                    nexts = {p: subst(t, {lt_: at}) for p, t in nexts.items()}

        def advance():
            progress = True
            while pending and progress:
                progress = False
                for ph in list(pending):
                    where, init = pending[ph]
                    nx = subst(nexts[ph], cl2)
                    others = [p for p in nx.phis if p in pending and p is not ph]
                    rs = None if others else self.solve_phi(ph, init, nx, tau, N, subst(nexts[ph], closed))
                    if rs is None:
                        continue
                    at_tau, at_end = rs
                    if at_tau is not None:
                        cl2[ph] = at_tau
                    elif any(ph in nexts[q].phis for q in pending if q is not ph):
                        # somebody reads intermediate contents: not expressible
                        continue
                    final[ph] = at_end
                    del pending[ph]
                    progress = True
        recorded = False
        while pending:
            with with_facts(list(self.s.pc) + [ge0(tau), lt(tau, N)]):
                advance()
            if not pending:
                break
            # no closed form: keep the recurrence itself, smallest self-contained group first
            if not recorded:
                self.record_loop(s, loopid, phis2, r, cl2, tau, N, base)
                recorded = True
            deps = {}
            for ph in pending:
                seen, todo = {ph}, [ph]
                while todo:
                    for q in subst(nexts[todo.pop()], cl2).phis:
                        if q in pending and q not in seen:
                            seen.add(q)
                            todo.append(q)
                deps[ph] = seen
            g0 = min(deps.values(), key=len)
            grp = tuple(ph for ph in pending if ph in g0)
            t2 = fresh_bv('m')
            inits = tuple(pending[ph][1] for ph in grp)
            nx = tuple(subst(subst(nexts[ph], cl2), {tau: t2}) for ph in grp)
            for k, ph in enumerate(grp):
                self.unsolved.append(('loop-carried ' + str(ph.args[0]).split('~')[0], s['loc']))
                final[ph] = TT.mu(k, t2, grp, inits, nx, N)
            for k, ph in enumerate(grp):
                cl2[ph] = TT.mu(k, t2, grp, inits, nx, tau)
                del pending[ph]
        Nn = N if decide(ge0(N)) is TRUE else tmax(num(0), N)
        endmap = {}
        for ph in closed:
            endmap[ph] = subst(closed[ph], {tau: Nn})
        for ph, v in final.items():
            endmap[ph] = v
        # final state
        S = base.copy()
        S.log = outer_log
        self.s = S
        touched = {}
        for ph, (where, init) in phis2.items():
            touched.setdefault(where, []).append(ph)
        self.omp_quiet += 1
        for (root, path) in L:
            cur = self.walk(base.vars[root], path)
            v = self.make_phi_value(cur, endmap, phis2, (root, path))
            self.write((root, path), v)
        self.omp_quiet -= 1
        # events
        m = {ph: cl2[ph] for ph in cl2}
        for e in self.loop_events(r, len(base.events), npc):
            ee = e.sub(m, (tau, num(0), N))
            S.events = S.events + (ee,)
        outs = []
        # returns inside the loop
        rc = []
        for kind, st_, v in r['outs']:
            if kind == 'ret':
                g = subst(tand(*st_.pc[npc:]), m)
                rc.append((g, v, st_))
        for g, v, st_ in rc:
            ex = exists(tau, num(0), N, g)
            if ex is FALSE:
                continue
            T = S.copy()
            T.pc = base.pc + ((ex,) if ex is not TRUE else ())
            vv = v
            if isinstance(v, Term):
                w = fresh_bv('k')
                vv = subst(subst(v, m), {tau: sym('k@%d' % loopid)})
            outs.append(('ret', T, vv))
        for g, v, st_ in rc:
            ex = exists(tau, num(0), N, g)
            nx = tnot(ex)
            if nx is not TRUE:
                S.pc = S.pc + (tuple(nx.args) if nx.op == 'and' else (nx,))
        if FALSE not in S.pc:
            outs.append(('next', S, None))
        self.s = S
        self.sync()
        return outs

    def varies(self, t):
        return False

    def keeps_length(self, nx, ph):
        if tlen(nx) is ph.args[2]:
            return True
        return decide(eq(tlen(nx), ph.args[2])) is TRUE

    def solve_length(self, L0, nx, lp, tau, N):
        """length of an array at iteration tau, from its recurrence lp -> nx"""
        r = self.solve_phi(lp, L0, nx, tau, N, nx)
        if r is not None and r[0] is not None and lp not in r[0].phis and not has_op(r[0], ('choice',)):
            return r[0]
        # telescoping: some branch's value of the previous iteration is kept by every branch
        cands = []

        def leaves(t):
            if t.op == 'ite':
                leaves(t.args[1])
                leaves(t.args[2])
            elif lp not in t.phis and t not in cands:
                cands.append(t)
        leaves(nx)
        ats = [subst(n, {tau: sub(tau, num(1))}) for n in cands]
        for n in cands:
            ats += [x for x in atoms(n) if x.op == 'sum' and sub(x.args[2], tau) is ZERO]
        for at in ats:
            if subst(at, {tau: num(0)}) is not L0:
                continue
            d = sub(subst(nx, {lp: at}), unfold_sums(subst(at, {tau: add(tau, num(1))}), tau))
            if zero_by_cases(d):
                return at
        return None

    def grows(self, L, tau):
        d = sub(unfold_sums(subst(L, {tau: add(tau, num(1))}), tau), L)

        def rec(t, k):
            t = simp(t)
            if decide(ge0(t)) is TRUE:
                return True
            for x in atoms(t):
                if x.op == 'ite' and k and not x.args[0].bvs - {tau.args[0]}:
                    c = x.args[0]
                    with with_facts([c]):
                        if not rec(simp(t), k - 1):
                            return False
                    with with_facts([tnot(c)]):
                        return rec(simp(t), k - 1)
            return TT.nonneg(t)
        return rec(d, 4)

    def run_body(self, cond, body, inc, pre, post, assume_cond=True):
        S0 = self.s
        n0 = len(S0.pc)
        if post:
            c = TRUE
        else:
            c = cond()
            if assume_cond:
                self.assume(c)
        npc = len(self.s.pc)
        log = S0.log
        if pre:
            pre()
        outs = self.exec(body)
        nx = [(st_, None) for k, st_, v in outs if k in ('next', 'cont')]
        if nx:
            self.s = nx[0][0]
            if len(nx) > 1:
                self.join([(a, None) for a, _ in nx], npc)
            self.sync()
            if inc:
                inc()
            if post:
                c = cond()
            end = self.s
        else:
            end = None
        return {'cond': c, 'outs': outs, 'end': end, 'log': log, 'npc': npc}

    def loop_events(self, r, n0, npc):
        ev = []
        if r['end'] is not None:
            ev += list(r['end'].events[n0:])
        seen = set(id(e) for e in ev)
        for kind, st_, v in r['outs']:
            if kind in ('ret', 'break'):
                for e in st_.events[n0:]:
                    pass
        return ev

    def norm_log(self, xs):
        xs = sorted(set(xs), key=lambda x: (x[0], len(x[1]), x[1]))
        out = []
        for root, path in xs:
            if any(r == root and path[:len(p)] == p for r, p in out):
                continue
            out.append((root, path))
        return out

    def make_phi(self, cur, name, phis, where, closed):
        if cur.op == 'obj':
            d = dict(cur.args[1])
            (root, path), _ = where
            return obj(cur.args[0], {k: self.make_phi(v, name + '.' + k, phis, ((root, path + (('f', k),)), v), closed)
                                     for k, v in d.items()})
        if isarr(cur) or cur.op in ('asym',):
            p = phi(name, 'arr', None if (where[0] in self.resized) else tlen(cur))
        elif isbool(cur):
            p = _bphi(name)
        elif cur.op in ('st', 'ptr', 'span', 'null', 'str'):
            p = phi(name, 'other')
        else:
            p = phi(name, 'num')
        phis[p] = where
        return p

    def make_phi_value(self, cur, endmap, phis, where):
        for ph, (w, init) in phis.items():
            if w == where:
                return endmap[ph]
        if cur.op == 'obj':
            root, path = where
            return obj(cur.args[0], {k: self.make_phi_value(v, endmap, phis, (root, path + (('f', k),)))
                                     for k, v in dict(cur.args[1]).items()})
        return cur

    def phi_next(self, r, where, ph, phis):
        if r['end'] is None:
            return ph
        root, path = where
        return self.walk(r['end'].vars[root], path)

    def trip(self, c, tau, phis, closed):
        """number of iterations for a loop condition over tau, or None"""
        if c is TRUE:
            return None
        if any(p in phis and p not in closed for p in c.phis):
            return None
        parts = c.args if c.op == 'and' else (c,)
        ns = []
        for p in parts:
            if tau.args[0] not in p.bvs:
                # invariant condition: zero or infinite; only usable as a gate
                ns.append(('gate', p))
                continue
            if p.op == 'ge0':
                d = pd(p.args[0])
                coef = {}
                restd = {}
                bad = False
                for m, k in d.items():
                    mm = dict(m)
                    if tau.id in mm:
                        if mm[tau.id] != 1:
                            bad = True
                        coef[tuple(x for x in m if x[0] != tau.id)] = k
                    else:
                        restd[m] = k
                co, rest = poly(coef), poly(restd)
                if bad or tau.args[0] in rest.bvs or tau.args[0] in co.bvs:
                    # min(...) of affine terms
                    return None
                s_ = neg(co)
                if const_of(s_) is not None:
                    if const_of(s_) <= 0:
                        return None
                elif decide(ge0(sub(s_, num(1)))) is not TRUE:
                    # symbolic positive step assumed (a stride); recorded
                    self.notes.append(('assume-positive-step', show(s_)))
                ns.append(('n', div(add(rest, s_), s_)))
            elif p.op == 'not' and p.args[0].op == 'eq0':
                e = solve_lin(p.args[0].args[0], tau)
                if e is None:
                    return None
                ns.append(('n', e))
            else:
                return None
        n = [x for k, x in ns if k == 'n']
        if not n:
            return None
        N = tmin(*n)
        for k, g in ns:
            if k == 'gate':
                N = ite(g, N, num(0))
        return N

    # -------------------------------------------------- recurrences
    def solve_phi(self, ph, init, nx, tau, N, raw):
        """closed form of a loop-carried value: (value at iteration tau or None, value at the end) or None"""
        if nx is ph:
            return init, init
        if ph.args[1] == 'arr':
            return self.solve_arr(ph, init, nx, tau, N)
        kind = ph.args[1]
        if kind == 'num':
            g = self.minus_phi(nx, ph)
            if g is not None and ph not in g.phis:
                t2 = fresh_bv('u')
                return add(init, tsum(t2, num(0), tau, subst(g, {tau: t2}))), add(init, tsum(tau, num(0), N, g))
            g = self.xor_phi(nx, ph)
            if g is not None and ph not in g.phis:
                t2 = fresh_bv('u')
                return xor(init, xsum(t2, num(0), tau, subst(g, {tau: t2}))), xor(init, xsum(tau, num(0), N, g))
            if ph not in nx.phis:
                Nn = sub(N, num(1))
                prev = subst(nx, {tau: sub(tau, num(1))})
                # value already reached by the closed form at the previous step?
                if nx is subst(init, {}):
                    return init, init
                at = gite(lt(num(0), tau), prev, init)
                if subst(prev, {tau: num(0)}) is init:
                    at = prev
                end = subst(nx, {tau: Nn})
                if decide(lt(num(0), N)) is not TRUE and subst(prev, {tau: num(0)}) is not init:
                    end = gite(lt(num(0), N), end, init)
                return at, end
            # geometric
            d = pd(nx)
            if len(d) == 1:
                (m, c), = d.items()
                if dict(m).get(ph.id) == 1:
                    r = poly({tuple(x for x in m if x[0] != ph.id): c})
                    if ph not in r.phis and tau.args[0] not in r.bvs:
                        pw = lambda e: TT.tpow(r, e)
                        return mul(init, pw(tau)), mul(init, pw(N))
            # nested floor division: x -> div(x, q)
            if nx.op == 'div' and nx.args[0] is ph and ph not in nx.args[1].phis and tau.args[0] not in nx.args[1].bvs:
                q = nx.args[1]
                pw = lambda e: TT.tpow(q, e)
                return div(init, pw(tau)), div(init, pw(N))
            # x -> c + div(x - c, q)
            d = pd(nx)
            dv = [TT._byid[m[0][0]] for m, c in d.items() if len(m) == 1 and m[0][1] == 1 and c == 1 and ph in TT._byid[m[0][0]].phis]
            if len(dv) == 1 and dv[0].op == 'div':
                q, c = dv[0].args[1], sub(nx, dv[0])
                if ph not in c.phis and ph not in q.phis and tau.args[0] not in c.bvs and tau.args[0] not in q.bvs and \
                        sub(dv[0].args[0], ph) is neg(c):
                    f = lambda e: add(c, div(sub(init, c), TT.tpow(q, e)))
                    return f(tau), f(N)
            # first iteration differs
            if nx.op == 'ite' and nx.args[0] is eq0(tau) and ph not in nx.args[1].phis:
                x0 = subst(nx.args[1], {tau: num(0)})
                rest = subst(nx.args[2], {tau: add(tau, num(1))})
                r = self.solve_phi(ph, x0, rest, tau, sub(N, num(1)), rest)
                if r is not None and r[0] is not None and ph not in r[0].phis:
                    at = subst(r[0], {tau: sub(tau, num(1))})
                    return gite(lt(num(0), tau), at, init), gite(lt(num(0), N), r[1], init)
        # guarded overwrite
        if nx.op == 'ite' and (nx.args[2] is ph or nx.args[1] is ph):
            g, x = (nx.args[0], nx.args[1]) if nx.args[2] is ph else (tnot(nx.args[0]), nx.args[2])
            if ph not in g.phis and ph not in x.phis:
                def val(n, v):
                    w = fresh_bv('u')
                    xx = subst(x, {tau: w})
                    xv = xx if w.args[0] not in xx.bvs else TT._intern('choice', (amap(w, n, xx),))
                    return gite(exists(w, num(0), n, subst(g, {tau: w})), xv, init)
                return val(tau, 0), val(N, 0)
        if kind == 'bool':
            if nx.op in ('and', 'or'):
                if ph in nx.args:
                    rest = [x for x in nx.args if x is not ph]
                    if not any(ph in x.phis for x in rest):
                        g = (tand if nx.op == 'and' else tor)(*rest)
                        f = forall if nx.op == 'and' else exists
                        j = tand if nx.op == 'and' else tor
                        w = fresh_bv('u')
                        return j(init, f(w, num(0), tau, subst(g, {tau: w}))), j(init, f(tau, num(0), N, g))
            if ph not in nx.phis:
                end = subst(nx, {tau: sub(N, num(1))})
                return (gite(lt(num(0), tau), subst(nx, {tau: sub(tau, num(1))}), init),
                        end if decide(lt(num(0), N)) is TRUE else gite(lt(num(0), N), end, init))
            # or(and(g, x), phi)...
        if kind == 'other' and ph not in nx.phis:
            end = subst(nx, {tau: sub(N, num(1))})
            return (gite(lt(num(0), tau), subst(nx, {tau: sub(tau, num(1))}), init),
                    end if decide(lt(num(0), N)) is TRUE else gite(lt(num(0), N), end, init))
        return None

    def minus_phi(self, nx, ph):
        if nx.op == 'ite':
            a, b = self.minus_phi(nx.args[1], ph), self.minus_phi(nx.args[2], ph)
            if a is None or b is None or ph in nx.args[0].phis:
                return None
            return ite(nx.args[0], a, b)
        d = sub(nx, ph)
        if ph in d.phis:
            # poly containing ite(…phi…) with unit coefficient
            pdx = pd(nx)
            for m, c in pdx.items():
                if len(m) == 1 and m[0][1] == 1 and c == 1:
                    a = TT._byid[m[0][0]]
                    if a.op == 'ite' and ph in a.phis:
                        g = self.minus_phi(a, ph)
                        rest = sub(nx, a)
                        if g is not None and ph not in rest.phis:
                            return add(rest, g)
            return None
        return d

    def xor_phi(self, nx, ph):
        if nx is ph:
            return num(0)
        if nx.op == 'xor' and ph in nx.args:
            return xor(*[x for x in nx.args if x is not ph])
        if nx.op == 'ite' and ph not in nx.args[0].phis:
            a, b = self.xor_phi(nx.args[1], ph), self.xor_phi(nx.args[2], ph)
            if a is None or b is None:
                return None
            return ite(nx.args[0], a, b)
        return None

    def solve_arr(self, ph, init, nx, tau, N):
        # shape: nx = W( R(phi) , writes )
        if nx.op == 'concat' and nx.args[0] is ph:
            rest = nx.args[1:]
            if not any(ph in x.phis for x in rest) and all(x.op == 'lit' and len(x.args[0]) == 1 for x in rest):
                if len(rest) == 1:
                    body = rest[0].args[0][0]
                    return None, concat(init, amap(tau, N, body)) if tau.args[0] in body.bvs else concat(init, fill(N, body))
                return None
        r = self.solve_append(ph, init, nx, tau, N)
        if r is not None:
            return r
        if nx.op == 'concat' and nx.args[0] is ph:
            return None
        if nx.op == 'ite':
            # continue-guarded resize: ite(g, phi, W(resize(phi,n),..)) in either order
            g, a, b = nx.args
            if ph in g.phis:
                return None
            if a is ph or b is ph:
                body = b if a is ph else a
                gg = tnot(g) if a is ph else g
                return self.solve_arr_guarded(ph, init, body, gg, tau, N)
            ba, wa = (a.args if a.op == 'w' else (a, ()))
            bb, wb = (b.args if b.op == 'w' else (b, ()))
            if ba is ph and bb is ph:
                nx = mk_w(ph, tuple(TT._guard_write(w, g) for w in wa) + tuple(TT._guard_write(w, tnot(g)) for w in wb))
            else:
                return None
        if nx.op == 'fill' and ph not in nx.phis:
            return None
        base, writes = nx.args if nx.op == 'w' else (nx, ())
        if base is not ph:
            if base.op == 'resize' and base.args[0] is ph:
                return self.solve_arr_guarded(ph, init, nx, TRUE, tau, N)
            if ph not in nx.phis and not isinstance(nx, type(None)):
                # overwritten as a whole every iteration
                end = subst(nx, {tau: sub(N, num(1))})
                at = gite(lt(num(0), tau), subst(nx, {tau: sub(tau, num(1))}), init)
                return at, (end if decide(lt(num(0), N)) is TRUE else gite(lt(num(0), N), end, init))
            return None
        return self.solve_writes(ph, init, writes, tau, N, init)

    def solve_append(self, ph, init, nx, tau, N):
        """every iteration appends a (possibly empty) block"""
        def blocks(t):
            # [(guard, length, appended array)]
            if t is ph:
                return [(TRUE, num(0), None)]
            if t.op == 'concat' and t.args[0] is ph and not any(ph in x.phis for x in t.args[1:]):
                x = concat(*t.args[1:])
                return [(TRUE, tlen(x), x)]
            if t.op == 'ite' and ph not in t.args[0].phis:
                a, b = blocks(t.args[1]), blocks(t.args[2])
                if a is None or b is None or len(a) + len(b) > 4:
                    return None
                return [(tand(t.args[0], g), n, x) for g, n, x in a] + [(tand(tnot(t.args[0]), g), n, x) for g, n, x in b]
            return None
        bl = blocks(nx)
        if bl is None or not any(x is not None for g, n, x in bl):
            return None
        if any(x is not None and x.op not in ('map', 'lit', 'fill', 'w') for g, n, x in bl):
            return None
        n = num(0)
        for g, k, x in bl:
            n = ite(g, k, n)
        if n.phis & {ph}:
            return None
        L0 = tlen(init)

        def upto(t):
            u, b = fresh_bv('u'), fresh_bv('v')
            pre = lambda z: add(L0, tsum(fresh_bv('ap'), num(0), z, num(0)) if n is ZERO else self.psum(n, tau, z))
            ws = []
            for g, k, x in bl:
                if x is None:
                    continue
                gu, ku, xu = subst(g, {tau: u}), subst(k, {tau: u}), subst(x, {tau: u})
                ws.append(mk_write(((u, num(0), t), (b, num(0), ku)), gu, (add(pre(u), b),), 'set', sel(xu, (b,))))
            return mk_w(resize(init, pre(t), UNDEF), ws)
        return upto(tau), upto(N)

    def psum(self, n, tau, z):
        v = fresh_bv('ap')
        return tsum(v, num(0), z, subst(n, {tau: v}))

    def solve_arr_guarded(self, ph, init, body, g, tau, N):
        base, writes = body.args if body.op == 'w' else (body, ())
        if base.op != 'resize' or base.args[0] is not ph:
            if base is ph:
                return self.solve_writes(ph, init, tuple(TT._guard_write(w, g) for w in writes), tau, N, init)
            return None
        n = base.args[1]
        if ph in n.phis:
            return None
        # length after the loop
        lp = phi('len:' + ph.args[0], 'num')
        L0 = tlen(init)
        L = self.solve_length(L0, ite(g, n, lp), lp, tau, N)
        if L is None:
            return None
        # growing only: no element is dropped and filled again
        if decide(ge0(sub(subst(L, {tau: add(tau, num(1))}), L))) is not TRUE and \
                decide(simp(unfold_sums(ge0(sub(subst(L, {tau: add(tau, num(1))}), L)), tau))) is not TRUE and not self.grows(L, tau):
            return None
        nend = gite(lt(num(0), N), subst(L, {tau: N}), L0)
        ib = resize(init, nend, base.args[2])
        return self.solve_writes(ph, ib, tuple(TT._guard_write(w, g) for w in writes), tau, N, init, resized=True)

    def stable_lens(self, ph, init, nx, terms):
        """lengths of sub-arrays that the loop's writes cannot change"""
        m = {}
        for t in terms:
            if not isinstance(t, Term) or ph not in t.phis:
                continue
            for x in atoms(t):
                if x.op == 'len' and x.args[0].op == 'sel' and x.args[0].args[0] is ph and TT.keeps(nx, ph, len(x.args[0].args[1])):
                    m[x] = tlen(sel(init, x.args[0].args[1]))
        return m

    def scan(self, ph, init, writes, tau, N):
        """a[t+c] = f(t, a[t+c-1]) for every t: a recurrence in the cells themselves"""
        if not writes or any(w[0] or w[3] != 'set' or len(w[2]) != 1 for w in writes):
            return None
        idx = writes[0][2][0]
        if any(w[2][0] is not idx for w in writes) or solve_step(idx, tau) != 1 or ph in idx.phis:
            return None
        c = sub(idx, tau)
        if tau.args[0] in c.bvs:
            return None
        prev, cur = sel(ph, (sub(idx, num(1)),)), sel(ph, (idx,))
        v = cur
        for w in writes:
            v = ite(w[1], w[4], v) if v is not cur else (w[4] if w[1] is TRUE else TT._intern('ite', (w[1], w[4], cur)))
        x = phi('cell:' + ph.args[0], 'num')
        v = self.drop_uncovered(v, cur)
        if v is None:
            return None
        v = subst(v, {prev: x})
        if ph in v.phis or isbool(v):
            return None
        i0 = sel(init, (sub(c, num(1)),))
        r = self.solve_phi(x, i0, v, tau, N, v)
        if r is None or r[0] is None or x in r[0].phis:
            return None
        b = fresh_bv('p')
        f = subst(r[0], {tau: b})
        at = lambda n: mk_w(init, (mk_write(((b, num(0), add(n, num(1))),), TRUE, (sub(add(b, c), num(1)),), 'set', f),))
        return at(tau), at(N)

    def drop_uncovered(self, v, cur):
        """v without its last alternative 'cell not written' if the guards cover everything"""
        if v.op != 'ite':
            return v if cur not in atoms(v) else None
        conds = []

        def walk(t, path):
            if t is cur:
                conds.append(tand(*path))
                return None
            if t.op == 'ite' and any(x is cur for x in TT._walk_terms((t,))):
                a = walk(t.args[1], path + [t.args[0]])
                b = walk(t.args[2], path + [tnot(t.args[0])])
                if a is None:
                    return b
                if b is None:
                    return a
                return ite(t.args[0], a, b)
            return t
        r = walk(v, [])
        if any(decide(simp(c)) is not FALSE for c in conds):
            return None
        return r

    def solve_writes(self, ph, init, writes, tau, N, init0, resized=False):
        if not resized and any(ph in w[4].phis for w in writes):
            r = self.scan(ph, init, writes, tau, N)
            if r is not None:
                return r
        out = []
        for w in writes:
            iters, guard, idx, op, val = w
            if ph in guard.phis or any(ph in x.phis for x in idx) or any(ph in l.phis or ph in h.phis for _, l, h in iters):
                return None
            if op == 'set' and ph in val.phis:
                # accumulation  a[idx] = a[idx] + g
                cell = sel(ph, idx)
                # make binder names real for comparison
                g = self.minus_cell(val, cell)
                if g is not None and ph not in g.phis:
                    g = self.since(out, w, 'add', g, tau)
                    if g is None:
                        return None
                    out.append((iters, guard, idx, 'add', g))
                    continue
                g = self.xor_cell(val, cell)
                if g is not None and ph not in g.phis:
                    g = self.since(out, w, 'xor', g, tau)
                    if g is None:
                        return None
                    out.append((iters, guard, idx, 'xor', g))
                    continue
                # reads only its own, not yet written, cells
                reads = [t for t in atoms(val) if t.op == 'sel' and t.args[0] is ph]
                if all(len(t.args[1]) == len(idx) and all(x is y for x, y in zip(t.args[1], idx)) for t in reads) and \
                        self.injective_all(idx, [tau] + [x[0] for x in iters]) and \
                        all(w2 is w or w2[2] == idx or self.never_equal(w, w2, tau) for w2 in writes):
                    out.append((iters, guard, idx, 'set', subst(val, {ph: init})))
                    continue
                # reads provably outside everything this loop writes
                if self.disjoint_reads(ph, val, writes, tau, N):
                    out.append((iters, guard, idx, 'set', subst(val, {ph: init})))
                    continue
                # rows that grow:  a[idx] = a[idx] ++ g
                if val.op == 'concat' and val.args[0] is cell and idx and not any(ph in x.phis for x in val.args[1:]) and len(writes) == 1:
                    out.append((iters, guard, idx, 'app', concat(*val.args[1:])))
                    continue
                # prefix recurrence a[t+c] = a[t+c-1] + g   (single writer)
                if len(idx) == 1 and len(writes) == 1 and not iters and guard is TRUE:
                    k = solve_step(idx[0], tau)
                    if k == 1:
                        pc_ = sel(ph, (sub(idx[0], num(1)),))
                        g = self.minus_cell(val, pc_)
                        if g is not None and ph not in g.phis:
                            first = subst(sub(idx[0], num(1)), {tau: num(0)})
                            u = fresh_bv('p')
                            s_ = tsum(u, num(0), add(tau, num(1)), subst(g, {tau: u}))
                            nv = add(sel(init, (first,)), s_)
                            nw = mk_write(((tau, num(0), N),), TRUE, idx, 'set', nv)
                            # value during the loop: entries below the write frontier
                            at = mk_w(init, (mk_write(((u, num(0), tau),), TRUE, subst_any(idx, {tau: u}), 'set',
                                                      subst(nv, {tau: u})),))
                            return at, mk_w(init, (nw,))
                    if k == -1:
                        # descending: a[c - t] = f(a[c - t + 1]) with f(x) = div(x,q)
                        nxt = sel(ph, (add(idx[0], num(1)),))
                        if val.op == 'div' and val.args[0] is nxt and ph not in val.args[1].phis:
                            start = subst(add(idx[0], num(1)), {tau: num(0)})
                            q = val.args[1]
                            e = add(tau, num(1))
                            nv = div(sel(init, (start,)), TT.tpow(q, e))
                            nw = mk_write(((tau, num(0), N),), TRUE, idx, 'set', nv)
                            return None, mk_w(init, (nw,))
                return None
            if ph in val.phis:
                return None
            out.append(w)
        u = fresh_bv('v')
        ws_end = tuple(mk_write(((tau, num(0), N),) + w[0], w[1], w[2], w[3], w[4]) for w in self.rebind(out))
        ws_at = tuple(mk_write(((u, num(0), tau),) + tuple((v, subst(l, {tau: u}), subst(h, {tau: u})) for v, l, h in w[0]),
                               subst(w[1], {tau: u}), subst_any(w[2], {tau: u}), w[3], subst(w[4], {tau: u})) for w in self.rebind(out))
        if len(ws_end) > 1 and not self.reorder_ok(out, tau):
            # several writers per iteration: order matters between iterations; keep as one block only if disjoint
            return None
        at = mk_w(init0, ws_at) if not resized else None
        return at, mk_w(init, ws_end)

    def since(self, out, w, op, g, tau):
        """change g of a cell over the whole iteration, less what earlier writes of the iteration already changed"""
        for x in out:
            if tand(x[1], w[1]) is FALSE and not x[0] and not w[0]:
                continue
            if x[2] == w[2] and x[3] == op and not x[0] and not w[0]:
                d = ite(x[1], x[4], num(0))
                g = sub(g, d) if op == 'add' else xor(g, d)
            elif not self.never_equal(x, w, tau):
                return None
        return g

    def rebind(self, ws):
        # give inner binders fresh names so that they can be re-canonicalised under the outer one
        out = []
        for iters, g, idx, op, val in ws:
            ren = {}
            it2 = []
            for v, l, h in iters:
                f = fresh_bv('r')
                it2.append((f, subst(l, ren), subst(h, ren)))
                ren[v] = f
            out.append((tuple(it2), subst(g, ren), subst_any(idx, ren), op, subst(val, ren)))
        return out

    def reorder_ok(self, ws, tau):
        """writes of one iteration may be separated into independent write groups"""
        ops = set(w[3] for w in ws)
        if ops <= {'add'} or ops <= {'xor'}:
            return True
        # guards mutually exclusive or same-iteration injective and pairwise distinct index families
        n = len(ws)
        for i in range(n):
            for j in range(i + 1, n):
                a, b = ws[i], ws[j]
                if tand(a[1], b[1]) is FALSE and not a[0] and not b[0] and a[2] == b[2] and self.injective(a[2], tau):
                    continue
                if tand(a[1], b[1]) is FALSE and a[2] == b[2] and a[2] and self.injective(a[2][:1], tau):
                    continue
                if self.never_equal(a, b, tau):
                    continue
                if a[2] == b[2] and self.injective(a[2], tau) and not a[0] and not b[0]:
                    continue    # same cell, later write of the same iteration wins; order kept in list
                if (a[2][:len(b[2])] == b[2] or b[2][:len(a[2])] == a[2]) and a[2] and b[2] and \
                        self.injective(a[2][:1], tau) and self.injective(b[2][:1], tau):
                    continue
                return False
        return True

    def injective(self, idx, tau):
        for e in idx:
            k = solve_step(e, tau)
            if k not in (None, 0):
                return True
            # symbolic positive stride
            d = sub(subst(e, {tau: add(tau, num(1))}), e)
            if tau.args[0] not in d.bvs and const_of(d) != 0 and decide(ge0(sub(d, num(1)))) is TRUE:
                return True
        return False

    def injective_all(self, idx, binders):
        """distinct values of the binders give distinct index tuples"""
        left = list(binders)
        changed = True
        while left and changed:
            changed = False
            for e in idx:
                vs = [v for v in left if v.args[0] in e.bvs]
                if len(vs) == 1 and (solve_step(e, vs[0]) not in (None, 0) or self.injective((e,), vs[0])):
                    left.remove(vs[0])
                    changed = True
        return not left

    def never_equal(self, a, b, tau):
        for x, y in zip(a[2], b[2]):
            d = sub(x, y)
            # difference constant and not a multiple of the step
            c = const_of(d)
            k = solve_step(x, tau)
            if c is not None and c != 0 and k == solve_step(y, tau) and k:
                if c % k != 0:
                    return True
            if c is not None and c != 0 and k == 0:
                return True
        return False

    def disjoint_reads(self, ph, val, writes, tau, N):
        reads = [t for t in atoms(val) if t.op == 'sel' and t.args[0] is ph]
        if any(t.op in ('len',) and t.args[0] is ph for t in atoms(val)):
            pass
        bare = [t for t in atoms(val) if t.op not in ('sel', 'len') and any(x is ph for x in TT._walk_terms(t.args))] if True else []
        if bare:
            return False
        t2 = fresh_bv('d')
        for t in reads:
            for w in writes:
                iters, guard, idx, op, v = w
                ok = False
                for x, y in zip(idx, t.args[1]):
                    # x at any iteration t2 vs y at tau
                    x2 = subst(x, {tau: t2})
                    d = sub(x2, y)
                    c = const_of(d)
                    if c is not None and c != 0:
                        ok = True
                    elif c is None and (decide(ge0(sub(d, num(1)))) is TRUE or decide(ge0(sub(neg(d), num(1)))) is TRUE):
                        ok = True
                if not ok:
                    return False
        return True

    def minus_cell(self, val, cell):
        if val is cell:
            return num(0)
        if val.op == 'ite':
            a, b = self.minus_cell(val.args[1], cell), self.minus_cell(val.args[2], cell)
            if a is None or b is None:
                return None
            return ite(val.args[0], a, b)
        d = pd(val)
        if d.get(((cell.id, 1),)) == 1:
            return sub(val, cell)
        return None

    def xor_cell(self, val, cell):
        if val is cell:
            return num(0)
        if val.op == 'xor' and cell in val.args:
            return xor(*[x for x in val.args if x is not cell])
        if val.op == 'ite':
            a, b = self.xor_cell(val.args[1], cell), self.xor_cell(val.args[2], cell)
            if a is None or b is None:
                return None
            return ite(val.args[0], a, b)
        return None

    def record_loop(self, s, loopid, phis, r, closed, tau, N, base):
        lr = LoopRec()
        lr.node = s
        lr.loc = s['loc']
        lr.phis = phis
        lr.closed = closed
        lr.tau, lr.N = tau, N
        lr.body = r
        lr.base = base
        lr.nexts = {ph: subst(self.phi_next(r, w, ph, phis), {}) for ph, (w, i) in phis.items()}
        lr.fn = self.frames[-1].fn['f']['q'] if self.frames and self.frames[-1].fn else ''
        lr.iters = list(self.iters)
        lr.pc = base.pc
        self.loops[loopid] = lr
        return lr

    def general_loop(self, s, base, res, phis, closed, tau, c, N, cond, body, inc, pre, post, L, outer_log, loopid):
        lr = self.record_loop(s, loopid, phis, res, closed, tau, N, base)
        lr.cond = res['cond']
        S = base.copy()
        S.log = outer_log
        self.s = S
        self.unsolved.append(('general loop', s['loc']))
        npc = res['npc']
        t2 = fresh_bv('m')
        order = tuple(phis)
        loc = lambda st_, ph: self.walk(st_.vars[phis[ph][0][0]], phis[ph][0][1])
        inits = [phis[ph][1] for ph in order]
        nexts = [subst(self.phi_next(res, phis[ph][0], ph, phis), {tau: t2}) for ph in order]
        brk, brkv = FALSE, [ph for ph in order]
        flags, extra = [], []
        exits = [(k, st_, v) for k, st_, v in res['outs'] if k in ('break', 'ret')]
        rets = [e for e in exits if e[0] == 'ret']
        names = 'L%d~%s' % (loopid, t2.args[0])
        for j, (k, st_, v) in enumerate(rets):
            fl = phi('returned%d:%s' % (j, names), 'bool')
            rv = None
            if isinstance(v, Term):
                rv = phi('returns%d:%s' % (j, names), 'arr' if isarr(v) else 'bool' if isbool(v) else 'other')
            flags.append((fl, rv))
            extra += [fl] + ([rv] if rv is not None else [])
        group = order + tuple(extra)
        for j, (fl, rv) in enumerate(flags):
            inits.append(FALSE)
            nexts.append(fl)
            brkv.append(fl)
            if rv is not None:
                inits.append(sym('none', 'any'))
                nexts.append(rv)
                brkv.append(rv)
        for k, st_, v in exits:
            g = subst(tand(*st_.pc[npc:]), {tau: t2})
            vals = [subst(loc(st_, ph), {tau: t2}) for ph in order]
            for j, (fl, rv) in enumerate(flags):
                mine = k == 'ret' and rets[j][1] is st_
                vals.append(tbool(mine) if mine else fl)
                if rv is not None:
                    vals.append(subst(v, {tau: t2}) if mine else rv)
            brkv = [x if brk is FALSE else gite(g, x, y) for x, y in zip(vals, brkv)]
            brk = tor(brk, g)
        cnd = subst(res['cond'], {tau: t2}) if res['cond'] is not TRUE else None
        if post and cnd is not None:
            # do-while: the condition is evaluated after the body
            first = phi('again:' + names, 'bool')
            group += (first,)
            inits.append(TRUE)
            nexts.append(cnd)
            brkv = list(brkv) + [FALSE]
            cnd = first
        val = {ph: TT.mu(k, t2, group, tuple(inits), tuple(nexts), None, cnd, brk, tuple(brkv)) for k, ph in enumerate(group)}
        endmap = {ph: val[ph] for ph in order}
        for (root, path) in L:
            cur = self.walk(base.vars[root], path)
            self.omp_quiet += 1
            self.write((root, path), self.make_phi_value(cur, endmap, phis, (root, path)))
            self.omp_quiet -= 1
        # exit condition holds afterwards when there is no break
        if not exits and not post and res['cond'] is not TRUE:
            S.pc = S.pc + (tnot(subst(res['cond'], endmap)),)
        lr.post = endmap
        nb = len(base.events)
        evs = []
        if res['end'] is not None:
            evs += list(res['end'].events[nb:])
        m = dict(closed)
        for e in evs:
            ee = e.sub({}, (tau, num(0), sym('trip:%d' % loopid, 'nat')))
            S.events = S.events + (ee,)
        outs = []
        for j, (fl, rv) in enumerate(flags):
            T = S.copy()
            T.pc = base.pc + (val[fl],)
            outs.append(('ret', T, val[rv] if rv is not None else rets[j][2]))
            S.pc = S.pc + (tnot(val[fl]),)
        outs.append(('next', S, None))
        self.s = S
        self.sync()
        return outs

    # ------------------------------------------------------------ expressions
    def cond(self, e):
        v = self.eval(e)
        return v if isbool(v) else i2b(v)

    def try_lval(self, e):
        """location denoted by a glvalue expression, or None"""
        k = e['k']
        if k == 'Ref':
            if 'fn' in e:
                return None
            for fr in reversed(self.frames):
                b = fr.env.get(e['d'])
                if b is not None:
                    return (b[1], ()) if b[0] == 'own' else b[1]
            if e.get('g'):
                return self.global_lv(e)
            return None
        if k == 'Member':
            if 'fn' in e or 'g' in e:
                return self.global_lv(e) if 'g' in e else None
            b = e['b']
            if e['arrow']:
                p = self.eval(b)
                lv = self.deref(p, b)
                if lv is None:
                    return None
            else:
                lv = self.try_lval(b)
                if lv is None:
                    return None
            return (lv[0], lv[1] + (('f', e['n']),))
        if k == 'This':
            return None
        if k == 'Un' and e['op'] == '*':
            if e['e']['k'] == 'This':
                return self.this_lv()
            p = self.eval(e['e'])
            return self.deref(p, e['e'])
        if k == 'Un' and e['op'] in ('++', '--') and not e['post']:
            self.eval(e)
            return self.try_lval(e['e'])
        if k == 'Index':
            p = self.eval(e['l'])
            i = self.eval(e['r'])
            if p.op == 'ptr':
                return self.padd(p, i).args[0:2] if self.padd(p, i) is not None else None
            lv = self.try_lval(e['l'])
            if lv is not None:
                return (lv[0], lv[1] + (('i', i),))
            return None
        if k == 'Cast':
            if e['ck'] in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'LValueBitCast', 'ArrayToPointerDecay', 'LValueToRValue'):
                if e['ck'] == 'LValueToRValue':
                    return None
                return self.try_lval(e['e'])
            return None
        if k in ('Bin', 'CAssign') and (k == 'CAssign' or e['op'] == '='):
            self.eval(e)
            return self.try_lval(e['l'])
        if k == 'Bin' and e['op'] == ',':
            self.eval(e['l'])
            return self.try_lval(e['r'])
        if k == 'Cond':
            return None
        if k in ('Call', 'MCall', 'Op'):
            from . import libmodel
            r = libmodel.lval_call(self, e)
            if r is not None:
                return r
            f = e.get('fn')
            if f and f.get('def') and f['ret'].endswith('&') and f['id'] in self.P.funs:
                v = self.call_node(e)
                if isinstance(v, tuple) and v[0] == 'ref':
                    return v[1]
                if isinstance(v, Term):
                    r = self.newroot('tmp')
                    self.s.vars[r] = v
                    return (r, ())
            return None
        if k == 'Ctor' and e.get('cm') and len(e['a']) == 1:
            return None
        return None

    def global_lv(self, e):
        g = e['g'] if isinstance(e.get('g'), str) else e['n']
        gv = self.P.gvars.get(g)
        if gv is not None and not gv['t'].startswith('const ') and not gv.get('constexpr'):
            r = 'static:g:' + g
            if r not in self.s.vars:
                if self.static_mode == 'init':
                    self.s.vars[r] = self.zero_value(gv["t"]) if gv.get("init") is None else self.eval_init(gv['init'], gv['t'])
                elif isinstance(self.static_mode, dict) and r in self.static_mode:
                    self.s.vars[r] = self.static_mode[r]
                else:
                    self.s.vars[r] = self.static_initial(gv, r)
                self.static_vars[r] = gv
            return (r, ())
        r = 'g:' + g
        if r not in self.s.vars:
            if gv is not None and gv.get('init') is not None:
                self.s.vars[r] = self.eval_init(gv['init'], gv['t'])
            else:
                self.s.vars[r] = sym(r, 'any')
        return (r, ())

    def this_lv(self):
        for fr in reversed(self.frames):
            if fr.this is not None:
                return fr.this
            if fr.fn is not None:
                break
        return self.frames[-1].this or ('this', ())

    def deref(self, p, node):
        if isinstance(p, tuple):
            return p[1]
        if p.op == 'ptr':
            return (p.args[0], tuple(p.args[1]))
        if p.op == 'thisptr':
            return self.this_lv()
        # an opaque pointer value: its own abstract location
        r = 'obj:' + show(p)[:200]
        if r not in self.s.vars:
            self.s.vars[r] = fn('deref', p) if p.op != 'fn' or not p.args[0].startswith('new:') else p
        return (r, ())

    def padd_or(self, p, i, e):
        r = self.padd(p, i)
        return self.opq('pointer arithmetic', e) if r is None else r

    def padd(self, p, i):
        root, path, ety = p.args
        path = tuple(path)
        if path and path[-1][0] == 'i':
            return ptr(root, path[:-1] + (('i', add(path[-1][1], i)),), ety)
        if const_of(i) == 0:
            return p
        return None

    def load(self, p, ty, node):
        """*(ty*)p for a pointer into something of another element type"""
        root, path, ety = p.args
        ty = noref(ty)
        if ety == ty:
            return self.read((root, tuple(path)))
        sizes = {'unsigned char': 1, 'char': 1, 'unsigned long': 8, 'long': 8, 'absl::uint128': 16, 'unsigned int': 4, 'int': 4}
        a, b = sizes.get(ety), sizes.get(ty)
        path = tuple(path)
        if a and b and path and path[-1][0] == 'i':
            arr = self.read((root, path[:-1]))
            if a == 1:
                return fn('bytes', arr, path[-1][1], num(b))
            if b > a:
                v = num(0)
                for k in range(b // a):
                    v = add(v, scale(sel(arr, (add(path[-1][1], num(k)),)), 1 << (8 * a * k)))
                return v
        if a == b and a:
            return self.read((root, path))
        return self.opq('reinterpreting load', node)

    def storep(self, p, ty, v, node):
        """write a value of nbytes through a pointer whose target has element type ety"""
        root, path, ety = p.args
        path = tuple(path)
        ty = noref(ty)
        sizes = {'unsigned char': 1, 'char': 1, 'unsigned long': 8, 'long': 8, 'absl::uint128': 16}
        a, b = sizes.get(ety), sizes.get(ty)
        if a == b or a is None:
            self.write((root, path), v)
            return
        if a and b and b > a and path and path[-1][0] == 'i':
            for k in range(b // a):
                part = div(v, num(1 << (8 * a * k)))
                part = mod(part, num(1 << (8 * a))) if k < b // a - 1 else part
                self.write((root, path[:-1] + (('i', add(path[-1][1], num(k))),)), part)
            return
        self.write((root, path), self.opq('reinterpreting store', node))

    def eval(self, e):
        v = self.eval0(e)
        if isinstance(v, tuple) and v and v[0] == 'ref':
            return self.read(v[1])
        return v

    def eval0(self, e):
        if e is None:
            return UNDEF
        k = e['k']
        if 'cv' in e and k not in ('Call', 'MCall', 'Op', 'Bin', 'CAssign'):
            if e['t'] == 'bool':
                return tbool(int(e['cv']) != 0)
            return num(int(e['cv']))
        if 'cv' in e and k == 'Bin' and e['op'] not in ('=', ','):
            if e['t'] == 'bool':
                return tbool(int(e['cv']) != 0)
            return num(int(e['cv']))
        if 'cv' in e and k in ('Call', 'MCall') and not e.get('fn', {}).get('def'):
            if e['t'] == 'bool':
                return tbool(int(e['cv']) != 0)
            return num(int(e['cv']))
        m = getattr(self, 'e_' + k.replace('?', '_'), None)
        if m is None:
            for c in e.get('a', []):
                self.eval(c)
            return self.opq('expression ' + k, e)
        return m(e)

    def e_Int(self, e):
        return num(int(e['cv']))

    def e_Bool(self, e):
        return tbool(e['v'])

    def e_Float(self, e):
        from fractions import Fraction
        return num(TT.norm_c(Fraction(repr(float(e['v'])))))

    def e_Str(self, e):
        return tstr(e['v'])

    def e_Null(self, e):
        return NULL

    def e_Zero(self, e):
        return self.zero_value(e['t'])

    def e_This(self, e):
        lv = self.this_lv()
        return ptr(lv[0], lv[1], noref(e['t'][:-1]))

    def e_Ref(self, e):
        if 'fn' in e:
            return TT._intern('fnref', (e['fn']['id'],))
        lv = self.try_lval(e)
        if lv is None:
            return self.opq('unbound ' + e['n'], e)
        return self.read(lv)

    def e_Member(self, e):
        lv = self.try_lval(e)
        if lv is not None:
            return self.read(lv)
        b = self.eval(e['b'])
        return fld(b, e['n'])

    def e_Index(self, e):
        lv = self.try_lval(e)
        if lv is not None:
            return self.read(lv)
        return self.opq('index', e)

    def e_Trait(self, e):
        return self.opq('sizeof', e)

    def thrown(self, e):
        # the last recording of a site is the one made on the solved loop
        self.throws[self.site(e, 'throw')] = (self.s.copy(), tuple(self.iters))
        self.event('throw', (), e)

    def e_Throw(self, e):
        self.thrown(e)
        self.s.pc = self.s.pc + (FALSE,)
        return UNDEF

    def e_Un(self, e):
        op = e['op']
        if op == '&':
            lv = self.try_lval(e['e'])
            if lv is None:
                return self.opq('address', e)
            return ptr(lv[0], lv[1], noref(e['e']['t']))
        if op == '*':
            if e['e']['k'] == 'This':
                return self.read(self.this_lv())
            p = self.eval(e['e'])
            if p.op == 'ptr':
                return self.load(p, e['t'], e)
            lv = self.deref(p, e['e'])
            return self.read(lv)
        if op in ('++', '--'):
            lv = self.try_lval(e['e'])
            old = self.read(lv)
            if old.op == 'ptr':
                new = self.padd(old, num(1 if op == '++' else -1))
            else:
                new = add(old, num(1 if op == '++' else -1))
                t = noref(e.get('t', ''))
                if self.unroll and self.strict and WIDTH.get(t, 0) > 0:
                    new = wrap_int(new, t, None)
            self.write(lv, new)
            return old if e['post'] else new
        v = self.eval(e['e'])
        if op == '-':
            return neg(v)
        if op == '+':
            return v
        if op == '!':
            return tnot(v if isbool(v) else i2b(v))
        if op == '~':
            return sub(num(-1), v)
        return self.opq('unary ' + op, e)

    def real(self, e):
        return e['t'] in ('double', 'float', 'long double')

    def binop(self, op, l, r, e, lt_=None):
        v = self.binop1(op, l, r, e, lt_)
        if self.strict and op in ('+', '-', '*', '<<') and isinstance(e, dict):
            t = noref(e.get('t', ''))
            if t in WIDTH:
                return wrap_int(v, t, None)
        if op in ('+', '-', '*') and isinstance(e, dict) and noref(e.get('t', '')) in ('unsigned long', 'unsigned long long') \
                and (self.fullword(l) or self.fullword(r)):
            return wrap_int(v, 'unsigned long', None)
        return v

    @staticmethod
    def fullword(v):
        """half of a 128-bit number: every 64-bit value occurs, so arithmetic on it wraps"""
        if v.op in TT.NONNUM or isarr(v):
            return False
        for m, c in pd(v).items():
            if len(m) == 1:
                a = TT._byid[m[0][0]]
                if a.op == 'div' and const_of(a.args[1]) == 1 << 64:
                    return True
        return False

    def binop1(self, op, l, r, e, lt_=None):
        real = lt_ in ('double', 'float', 'long double')
        if isbool(l) and op not in ('&&', '||', '==', '!=', '&', '|', '^'):
            l = b2i(l)
        if isbool(r) and op not in ('&&', '||', '==', '!=', '&', '|', '^'):
            r = b2i(r)
        if op == '+':
            if l.op == 'ptr':
                return self.padd_or(l, r, e)
            if r.op == 'ptr':
                return self.padd_or(r, l, e)
            return add(l, r)
        if op == '-':
            if l.op == 'ptr' and r.op == 'ptr':
                if l.args[0] == r.args[0] and l.args[1][:-1] == r.args[1][:-1]:
                    return sub(l.args[1][-1][1], r.args[1][-1][1])
                return self.opq('pointer difference', e)
            if l.op == 'ptr':
                return self.padd_or(l, neg(r), e)
            return sub(l, r)
        if op == '*':
            return mul(l, r)
        if op == '/':
            if real:
                c = const_of(r)
                if c:
                    from fractions import Fraction
                    return scale(l, Fraction(1) / c)
                return fn('rdiv', l, r)
            return div(l, r)
        if op == '%':
            return mod(l, r)
        if op == '<<':
            return mul(l, pow2(r))
        if op == '>>':
            return div(l, pow2(r))
        if op == '^':
            if isbool(l) or isbool(r):
                l, r = b2i(l) if isbool(l) else l, b2i(r) if isbool(r) else r
            return xor(l, r)
        if op == '&':
            if isbool(l) and isbool(r):
                return tand(l, r)
            l, r = b2i(l) if isbool(l) else l, b2i(r) if isbool(r) else r
            for a, b in ((l, r), (r, l)):
                c = const_of(b)
                if isinstance(c, int) and c >= 0 and (c & (c + 1)) == 0:
                    return mod(a, num(c + 1))
            # x & (2^k - 1)
            for a, b in ((l, r), (r, l)):
                p = add(b, num(1))
                if p.op == 'pow2':
                    return mod(a, p)
            # x & 2^k
            for a, b in ((l, r), (r, l)):
                c = const_of(b)
                if b.op == 'pow2' or (isinstance(c, int) and c > 0 and c & (c - 1) == 0):
                    return mul(b, mod(div(a, b), num(2)))
            return fn('bitand', *sorted((l, r), key=lambda t: t.id))
        if op == '|':
            if isbool(l) and isbool(r):
                return tor(l, r)
            l, r = b2i(l) if isbool(l) else l, b2i(r) if isbool(r) else r
            return self.bitor(l, r)
        if op in ('<', '>', '<=', '>='):
            if l.op == 'ptr' and r.op == 'ptr' and l.args[0] == r.args[0] and l.args[1][:-1] == r.args[1][:-1]:
                l, r = l.args[1][-1][1], r.args[1][-1][1]
            if real:
                return {'<': rgt0(sub(r, l)), '>': rgt0(sub(l, r)), '<=': tnot(rgt0(sub(l, r))), '>=': tnot(rgt0(sub(r, l)))}[op]
            return {'<': lt(l, r), '>': lt(r, l), '<=': le(l, r), '>=': le(r, l)}[op]
        if op in ('==', '!='):
            if l.op == 'ptr' and r.op == 'ptr' and l.args[0] == r.args[0] and l.args[1][:-1] == r.args[1][:-1] and l.args[1]:
                l, r = l.args[1][-1][1], r.args[1][-1][1]
            if isbool(l) or isbool(r):
                if not isbool(l):
                    l = i2b(l)
                if not isbool(r):
                    r = i2b(r)
                q = tor(tand(l, r), tand(tnot(l), tnot(r)))
            else:
                q = eq(l, r)
            return q if op == '==' else tnot(q)
        return self.opq('binary ' + op, e)

    def bitor(self, l, r):
        """| of values with disjoint bits is +"""
        if const_of(l) == 0:
            return r
        if const_of(r) == 0:
            return l
        for a, b in ((l, r), (r, l)):
            # a is a multiple of 2^k and b < 2^k
            d = pd(a)
            ks = []
            for m, c in d.items():
                k = 0
                if isinstance(c, int) and c:
                    k = (c & -c).bit_length() - 1
                p2 = [TT._byid[i] for i, _ in m if TT._byid[i].op == 'pow2']
                ks.append((k, p2[0].args[0] if p2 else None))
            if ks and all(p is None for _, p in ks):
                k = min(k for k, _ in ks)
                if k and self.bounded(b, 1 << k):
                    return add(a, b)
            if ks and all(p is not None for _, p in ks):
                ps = set(p.id for _, p in ks)
                if len(ps) == 1:
                    w = add(ks[0][1], num(min(k for k, _ in ks)))
                    if self.bounded_pow(b, w):
                        return add(a, b)
        return fn('bitor', *sorted((l, r), key=lambda t: t.id))

    def bounded(self, b, lim):
        c = const_of(b)
        if c is not None:
            return 0 <= c < lim
        if b.op == 'fn' and b.args[0] in ('lo64', 'hi64'):
            return lim >= 1 << 64
        # x - 2^k*div(x,2^k)
        for m, cc in pd(b).items():
            if len(m) == 1 and isinstance(cc, int) and cc < 0:
                a = TT._byid[m[0][0]]
                if a.op == 'div' and const_of(a.args[1]) == -cc and -cc <= lim:
                    if add(b, scale(a, -cc)) is a.args[0]:
                        return True
        if b.op == 'div' and const_of(b.args[1]) == 1 << 64 and lim >= 1 << 64:
            return True   # high half of a 128-bit value
        return False

    def bounded_pow(self, b, w):
        return b.op == 'fn' and b.args[0] in ('ToUint128',) or const_of(b) == 0

    def e_Bin(self, e):
        op = e['op']
        if op == '=':
            rv = self.eval(e['r'])
            if isbool(rv) and e['l']['t'] != 'bool':
                rv = b2i(rv)
            lv = self.try_lval(e['l'])
            if lv is None:
                self.eval(e['l'])
                self.opq('assignment target', e)
                return rv
            if rv.op == 'obj' or True:
                self.write(lv, rv)
            return rv
        if op == ',':
            self.eval(e['l'])
            return self.eval(e['r'])
        if op in ('&&', '||'):
            l = self.cond(e['l'])
            l = decide(l)
            if (op == '&&' and l is FALSE) or (op == '||' and l is TRUE):
                return l
            # right side evaluated under the left one
            save = self.s.pc
            ev0 = self.s.events
            base = self.s.copy()
            self.assume(l if op == '&&' else tnot(l))
            r = self.cond(e['r'])
            if self.s.events is not ev0 and len(self.s.events) != len(ev0) or self.s.vars != base.vars:
                a = self.s
                a.pc = save + ((l if op == '&&' else tnot(l)),)
                b = base
                b.pc = save + ((tnot(l) if op == '&&' else l),)
                self.s = self.merge(l if op == '&&' else tnot(l), a, b)
                self.s.pc = save
            else:
                self.s.pc = save
            self.sync()
            return tand(l, r) if op == '&&' else tor(l, r)
        l = self.eval(e['l'])
        r = self.eval(e['r'])
        return self.binop(op, l, r, e, e['l']['t'])

    def e_CAssign(self, e):
        op = e['op'][:-1]
        r = self.eval(e['r'])
        lv = self.try_lval(e['l'])
        if lv is None:
            self.opq('assignment target', e)
            return UNDEF
        l = self.read(lv)
        v = self.binop(op, l, r, e, e.get('ct', e['l']['t']))
        if isbool(l) and not isbool(v):
            v = i2b(v)
        self.write(lv, v)
        return v

    def e_Cond(self, e):
        c = decide(self.cond(e['c']))
        if c is TRUE:
            return self.eval(e['l'])
        if c is FALSE:
            return self.eval(e['r'])
        base = self.s
        a, b = base.copy(), base.copy()
        self.s = a
        self.assume(c)
        va = self.eval(e['l'])
        a = self.s
        self.s = b
        self.assume(tnot(c))
        vb = self.eval(e['r'])
        b = self.s
        self.s = self.merge(c, a, b)
        self.s.pc = base.pc
        self.sync()
        return self.mval(c, va, vb)

    def e_Cast(self, e):
        ck = e['ck']
        if ck in ('LValueToRValue',):
            inner = e['e']
            # reinterpreting lvalue reads
            return self.eval(inner)
        if ck == 'IntegralToBoolean':
            v = self.eval(e['e'])
            return v if isbool(v) else i2b(v)
        if ck in ('PointerToBoolean',):
            v = self.eval(e['e'])
            return tnot(eqv(v, NULL))
        if ck == 'IntegralCast':
            v = self.eval(e['e'])
            if isbool(v):
                return b2i(v)
            if e['t'] == 'unsigned char' and e['e']['t'] in ('absl::uint128',):
                return mod(v, num(256))
            if self.strict or noref(e['t']) in ('unsigned short', 'short'):
                return wrap_int(v, noref(e['t']), noref(e['e']['t']))
            if self.narrow and abs(WIDTH.get(noref(e['t'])) or 64) < abs(WIDTH.get(noref(e['e']['t'])) or 0):
                return wrap_int(v, noref(e['t']), noref(e['e']['t']))
            return v
        if ck in ('IntegralToFloating', 'FloatingToIntegral', 'FloatingCast'):
            v = self.eval(e['e'])
            if isbool(v):
                v = b2i(v)
            if ck == 'FloatingToIntegral':
                return num(int(const_of(v))) if const_of(v) is not None else v if integral(v) or v.op == 'div' else fn('trunc', v)
            if self.strict and ck == 'FloatingCast' and e['t'] == 'float' and const_of(v) is None:
                return fn('float32', v)
            return v
        if ck in ('UserDefinedConversion', 'ConstructorConversion'):
            return self.eval(e['e'])
        if ck == 'BitCast':
            v = self.eval(e['e'])
            return v
        if ck == 'ArrayToPointerDecay':
            if e['e']['k'] == 'Str':
                return tstr(e['e']['v'])
            lv = self.try_lval(e['e'])
            if lv is not None:
                et = re.sub(r'\[\d+\]$', '', noref(e['e']['t']))
                return ptr(lv[0], lv[1] + (('i', num(0)),), noref(et))
            return self.eval(e['e'])
        if ck == 'NullToPointer':
            return NULL
        if ck == 'ToVoid':
            self.eval(e['e'])
            return UNDEF
        return self.eval(e['e'])

    def e_Init(self, e):
        t = noref(e['t'])
        if t in self.P.recs:
            fs = self.P.recs[t]['fields']
            return obj(t, {f['n']: self.eval(x) for f, x in zip(fs, e['a'])})
        vals = [self.eval(x) for x in e['a']]
        if t in INTS and len(vals) == 1:
            return vals[0]
        if t in INTS and not vals:
            return num(0)
        if t.startswith('__attribute__') or 'vector_size' in t:
            return lit(vals)
        m = re.match(r'^(.*)\[(\d+)\]$', t)
        if m and len(vals) < int(m.group(2)):
            vals += [self.zero_value(m.group(1))] * (int(m.group(2)) - len(vals))
        return lit(vals)

    def e__InitListExpr(self, e):
        return self.e_Init(e)

    def e_Lambda(self, e):
        caps = {}
        for c in e['caps']:
            if c.get('this'):
                continue
            for fr in reversed(self.frames):
                b = fr.env.get(c['d'])
                if b is not None:
                    if c.get('ref') or 'init' in c:
                        caps[c['d']] = b
                    else:
                        lv = (b[1], ()) if b[0] == 'own' else b[1]
                        r = self.newroot('cap')
                        self.s.vars[r] = self.read(lv)
                        caps[c['d']] = ('own', r)
                    break
            if 'init' in c and c['d'] not in caps:
                r = self.newroot('cap')
                self.s.vars[r] = self.eval(c['init'])
                caps[c['d']] = ('own', r)
        n = len(LAMBDAS)
        LAMBDAS.append((e, caps, self.this_lv() if any(c.get('this') for c in e['caps']) else None))
        return TT._intern('lambda', (n,))

    def call_lambda(self, t, args, node):
        e, caps, this = LAMBDAS[t.args[0]]
        fo = e['fn']
        fr = Frame(fo, this)
        fr.sitekey = id(node)
        fr.env.update(caps)
        self.frames.append(fr)
        pc0 = self.s.pc
        try:
            for p, a in zip(fo['params'], args):
                if isinstance(a, tuple) and a[0] == 'r':
                    fr.env[p['d']] = ('ref', a[1])
                else:
                    a = a[1] if isinstance(a, tuple) else a
                    r = self.newroot(p['n'])
                    fr.env[p['d']] = ('own', r)
                    self.s.vars[r] = a
            outs = self.exec(fo['body'])
        finally:
            self.frames.pop()
        rets = [(s_, v) for k, s_, v in outs if k in ('ret', 'next')]
        if not rets:
            return UNDEF
        return self.join(rets, len(pc0))

    def e_New(self, e):
        r = self.newroot('heap')
        self.s.vars[r] = self.default_value(e['at'])
        init = e.get('init')
        if init:
            if init['k'] == 'Ctor' and init['fn'].get('def') and init['fn']['id'] in self.P.funs:
                self.construct((r, ()), init)
            else:
                self.s.vars[r] = self.eval(init)
        return ptr(r, (), noref(e['at']))

    def construct(self, lv, e):
        fo = self.P.funs[e['fn']['id']]
        cls = e['fn'].get('cls')
        if cls in self.P.recs:
            self.write(lv, obj(cls, {f['n']: self.default_field(f) for f in self.P.recs[cls]['fields']}))
        args = self.bind_args(fo, e['a'])
        self.call(fo, lv, args, e)

    def bind_args(self, fo, nodes):
        out = []
        for p, a in zip(fo['params'], nodes):
            t = p['t']
            if t.endswith('&'):
                lv = self.try_lval(a)
                if lv is not None:
                    out.append(('r', lv))
                    continue
                v = self.eval(a)
                out.append(('v', v))
            else:
                out.append(('v', self.eval(a)))
        return out

    def e_Ctor(self, e):
        from . import libmodel
        f = e['fn']
        h = self.boundary.get(strip_t(f['q']))
        if h:
            r = h(self, e, f, None, e['a'])
            if r is not NotImplemented:
                return r
        cls = f.get('cls', e['t'])
        if e.get('cm') and len(e['a']) == 1:
            return self.eval(e['a'][0])
        if f.get('def') and f['id'] in self.P.funs:
            r = self.newroot('obj')
            self.s.vars[r] = self.default_value(noref(e['t']))
            self.construct((r, ()), e)
            return self.s.vars[r]
        return libmodel.ctor(self, e)

    def call_node(self, e):
        """Call / MCall / Op node; returns Term or ('ref', lval) or None"""
        f = e.get('fn')
        k = e['k']
        if f is None:
            callee = self.eval(e['callee']) if 'callee' in e else None
            if callee is not None and callee.op == 'lambda':
                return self.call_lambda(callee, [self.eval(a) for a in e['a']], e)
            for a in e.get('a', []):
                self.eval(a)
            return self.opq('indirect call', e)
        self.calls_seen.add((strip_t(f['q']), e['loc']))
        h = self.boundary.get(strip_t(f['q']))
        nodes = e['a']
        thisn = None
        if k == 'MCall':
            thisn = e['b']
        elif k == 'Op' and 'cls' in f and not f.get('static'):
            thisn, nodes = nodes[0], nodes[1:]
        if h:
            r = h(self, e, f, thisn, nodes)
            if r is not NotImplemented:
                return r
        if f.get('def') and f['id'] in self.P.funs:
            fo = self.P.funs[f['id']]
            this = None
            if thisn is not None:
                this = self.this_of(thisn, e)
            args = self.bind_args(fo, nodes)
            return self.call(fo, this, args, e)
        if k == 'Op' and thisn is not None and f['n'] == 'operator()':
            lam = self.eval(thisn)
            if lam.op == 'lambda':
                return self.call_lambda(lam, [self.eval(a) for a in nodes], e)
        from . import libmodel
        if self.omp is not None and not self.omp_quiet and 'NTL::' in f['q'][:60]:
            self.omp_ntl(e, f, thisn)
        return libmodel.call(self, e, f, thisn, nodes)

    def omp_ntl(self, e, f, thisn):
        """uses of the thread's modulus inside a parallel region"""
        reg, q, b = self.omp, f['q'], f['n']
        if b == 'restore':
            lv = self.try_lval(thisn)
            saved = [x for x in self.s.events if x.name == 'ntl-save' and x.info and lv is not None and x.info[1] == lv]
            reg['ctx'].append((q, self.omp_ws is None and len(self.s.pc) == reg['pc'] and not reg['loops'], bool(saved)))
        elif 'Context' in q or 'Bak' in q or 'Push' in q or b in ('init', 'save'):
            reg['ctx'].append((q, None, None))
        elif self.s.pc is not None:
            reg['ntl'].setdefault(q, e.get('loc', ''))

    def this_of(self, n, e):
        arrow = e.get('arrow')
        if n['k'] == 'This':
            return self.this_lv()
        if arrow or noref(n['t']).endswith('*'):
            p = self.eval(n)
            return self.deref(p, n)
        lv = self.try_lval(n)
        if lv is not None:
            return lv
        v = self.eval(n)
        r = self.newroot('tmpthis')
        self.s.vars[r] = v
        return (r, ())

    def e_Call(self, e):
        r = self.call_node(e)
        return UNDEF if r is None else r

    e_MCall = e_Call
    e_Op = e_Call

    # ------------------------------------------------------------ effects
    def event(self, name, args, node, info=None, key=None):
        ev = Event(name, tuple(args), (), TRUE, node.get('loc', '') if node else '', info, key)
        # condition relative to the function under analysis
        ev.cond = tand(*self.s.pc[self.pc_base():])
        self.s.events = self.s.events + (ev,)
        return ev

    def pc_base(self):
        return 0

    def fresh(self, tag, node):
        """result of an effect: a function of its static site and the enclosing iterations"""
        return fn('%s#%d' % (tag, self.site(node, tag)), *[x[0] for x in self.iters])

    def fresh_arr(self, tag, node, ln):
        t = fn('arr:%s' % tag, num(self.site(node, tag)), ln, *[x[0] for x in self.iters])
        return t

    # ------------------------------------------------------------ entry
    def run(self, fo, args=None, this_ty=None, facts=(), this_init=None):
        """summarise one function with symbolic inputs; returns Summary"""
        self.base_facts = self.base_facts + list(facts)
        fr = Frame(fo, None)
        fr.sitekey = 0
        cls = fo['f'].get('cls')
        if cls and not fo['f'].get('static'):
            fr.this = ('this', ())
            if this_init is not None:
                self.s.vars['this'] = this_init
            else:
                self.s.vars['this'] = self.sym_object(cls, 'this')
        self.frames.append(fr)
        self.init = {'this': self.s.vars.get('this')}
        for i, p in enumerate(fo['params']):
            a = (args or {}).get(p['n'])
            if a is None and args and i in args:
                a = args[i]
            if a is None:
                a = self.sym_value(p['t'], p['n'])
            r = self.newroot(p['n'])
            fr.env[p['d']] = ('own', r)
            self.s.vars[r] = a
        self.sync()
        try:
            if fo.get('inits') is not None:
                self.ctor_inits(fo, fr.this)
            outs = self.exec(fo['body'])
        finally:
            self.frames.pop()
            TT.FACTS[:] = []
        self.fn_seen.add(fo['f']['q'])
        sm = Summary()
        sm.eng = self
        sm.fo = fo
        sm.init = dict(self.init)
        sm.outs = []
        for kind, st_, v in outs:
            if isinstance(v, tuple):
                save = self.s
                self.s = st_
                v = self.read(v[1])
                self.s = save
            sm.outs.append((kind, st_, v))
        for st_, its in self.throws.values():
            for bv, lo, hi in reversed(its):
                st_.pc = (exists(bv, lo, hi, tand(*st_.pc)),) if hi is not None else (bfn('post', bv),)
            if FALSE not in st_.pc:
                sm.outs.append(('throw', st_, None))
        sm.opaque = list(self.opaque)
        return sm

    def sym_value(self, ty, name):
        t = noref(ty)
        if is_span(t) or is_vec(t):
            n = sym('n_' + name, 'nat')
            et = elem_type(t)
            if is_span(t):
                if et and is_span(et):
                    j = fresh_bv('j')
                    self.s.vars['m:' + name + '*'] = asym(name + '*')
                    arr = amap(j, n, span('m:' + name + '*', (('i', j),), num(0), sel(asym(name + '.len'), (j,))))
                    self.s.vars['m:' + name] = arr
                    return span('m:' + name, (), num(0), n)
                self.s.vars['m:' + name] = self.named_arr(name, n)
                return span('m:' + name, (), num(0), n)
            return self.named_arr(name, n)
        if t.endswith('*'):
            r = 'p:' + name
            self.s.vars[r] = self.sym_object(noref(t[:-1]), '*' + name)
            return sym('ptr:' + name, 'any')
        if t == 'bool':
            return bfn('sym', sym(name, 'any'))
        if t in self.P.recs and t not in self.rings:
            return self.sym_object(t, name)
        return sym(name, 'real' if t in ('double', 'float', 'long double') else 'num')

    def named_arr(self, name, n):
        return fn('input', tstr(name), n)

    def sym_object(self, cls, name):
        r = self.P.recs.get(cls)
        if not r:
            return sym(name, 'any')
        d = {}
        for f in r['fields']:
            d[f['n']] = self.sym_field(f['t'], name + '.' + f['n'])
        return obj(cls, d)

    def sym_field(self, ty, name):
        t = noref(ty)
        if is_vec(t):
            return fn('input', tstr(name), sym('n_' + name, 'nat'))
        if t.startswith('absl::optional'):
            return obj('optional', {'has': bfn('sym', sym(name + '.has', 'any')), 'val': sym(name + '.val', 'num')})
        if t == 'bool':
            return bfn('sym', sym(name, 'any'))
        if t in self.P.recs and t not in self.rings:
            return self.sym_object(t, name)
        if t.startswith('std::unique_ptr') or t.endswith('*'):
            return sym('ptr:' + name, 'any')
        return sym(name, 'real' if t in ('double', 'float', 'long double') else 'num')


LAMBDAS = []


def _bphi(name):
    t = phi(name, 'bool')
    return t


TT.BOOLOPS = TT.BOOLOPS


def _isbool(t):
    return t.op in TT.BOOLOPS or (t.op == 'phi' and t.args[1] == 'bool') or (t.op == 'ite' and _isbool(t.args[1])) or \
        (t.op == 'mu' and t.args[2][t.args[0]].args[1] == 'bool') or \
        (t.op == 'fn' and t.args[0].startswith('loop:') and len(t.args) > 1 and t.args[-1] is BOOLTAG)


BOOLTAG = sym('bool-tag', 'any')
TT.isbool = _isbool
isbool = _isbool





def _lens_lookup(name):
    return None


LENS['input'] = lambda t: t.args[2]
LENS['postarr'] = lambda t: t.args[2]


def asym_like(t, init, ph):
    if ph.args[1] == 'arr':
        return fn('postarr', t, tlen(init))
    if ph.args[1] == 'bool':
        return bfn('post', t)
    return t


def solve_step(e, tau):
    """constant coefficient of tau in e (0 if absent), None if not affine with constant coefficient"""
    d = sub(subst(e, {tau: add(tau, num(1))}), e)
    return const_of(d)


class Summary:
    """result of analysing one function"""

    def rets(self):
        return [(tand(*s.pc), s, v) for k, s, v in self.outs if k in ('ret', 'next')]

    def ok_rets(self):
        """returns that can carry success"""
        out = []
        for c, s, v in self.rets():
            if v is None:
                out.append((c, s, v))
                continue
            o = okof(v)
            if o is FALSE:
                continue
            out.append((c, s, v))
        return out


def okst(t):
    if t.op == 'st':
        return tbool(t.args[0] == 'ok')
    if t.op == 'ite':
        return ite(t.args[0], okst(t.args[1]), okst(t.args[2]))
    if t.op == 'choice':
        b = okst(t.args[0].args[2])
        if b in (TRUE, FALSE):
            return b
    return bfn('ok', t)


def unfold_sums(t, tau):
    """sums reaching one past tau-1 are split at their last term"""
    m = {}
    for x in atoms(t):
        if x.op == 'sum':
            bv, lo, hi, body = x.args
            if sub(hi, num(1)) is not lo and const_of(sub(hi, add(tau, num(1)))) == 0:
                m[x] = add(tsum(bv, lo, sub(hi, num(1)), body), subst(body, {bv: sub(hi, num(1))}))
    return subst(t, m) if m else t


def zero_by_cases(d, k=4):
    d = simp(d)
    if d is ZERO or decide(eq(d, ZERO)) is TRUE:
        return True
    if not k:
        return False
    for x in atoms(d):
        if x.op == 'ite':
            c = x.args[0]
            with with_facts([c]):
                if not zero_by_cases(d, k - 1):
                    return False
            with with_facts([tnot(c)]):
                return zero_by_cases(d, k - 1)
    return False


def okof(v):
    if v.op == 'obj' and v.args[0] == 'StatusOr':
        return okst(fld(v, 'st'))
    if v.op == 'obj':
        return TRUE
    return okst(v)
