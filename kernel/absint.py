"""Abstract interpretation of LLVM IR kernels in the bit-level ANF domain.

No input values are enumerated and nothing is executed: every bit of every
value is a canonical polynomial over GF(2) in the bits of the inputs, control
flow that depends on the inputs is joined at post-dominators (gated joins, no
path enumeration), loops whose trip count is a constant are followed to the
end, and everything else becomes "unknown".
"""
import re
import sys
from .anf import *
from .irparse import Module

sys.setrecursionlimit(20000)


class Imprecise(Exception):
    pass


class Bits(list):
    """A bit vector that remembers it is the bitwise OR of others (x|y == 0 <=> x == 0 && y == 0)."""
    ors = None


class Ptr:
    __slots__ = ('obj', 'off', 'sym')

    def __init__(self, obj, off, sym=None):
        self.obj, self.off, self.sym = obj, off, sym

    def __eq__(self, o):
        return isinstance(o, Ptr) and (self.obj, self.off, self.sym) == (o.obj, o.off, o.sym)

    def __repr__(self):
        return '&%s+%d' % (self.obj, self.off)


class Fn:
    def __init__(self, n):
        self.name = n


class Vec(list):
    pass


class Agg(list):
    pass


class Unknown:
    def __repr__(self):
        return 'unknown'


UNK = Unknown()
UNDEF = 'undef-bit'


class State:
    def __init__(self):
        self.mem = {}      # obj -> list of bits
        self.ptrs = {}     # (obj, off) -> Ptr

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.ptrs = dict(self.ptrs)
        return s


class Interp:
    def __init__(self, mod, hooks=None):
        self.m = mod
        self.vars = Vars()
        self.eqspan = {}       # variable number -> basis (frozenset of polys)
        self.eqkey = {}
        self.hooks = hooks or {}
        self.nobj = 0
        self.steps = 0
        self.notes = []
        self.funcs_seen = set()
        self.instr_seen = 0
        self.depth = 0

    # ---------------------------------------------------------------- types
    def rt(self, t):
        while t[0] == 'named':
            t = self.m.types[t[1]]
        return t

    def align(self, t):
        t = self.rt(t)
        k = t[0]
        if k == 'i':
            b = max(1, (t[1] + 7) // 8)
            p = 1
            while p < b:
                p *= 2
            return min(p, 16)
        if k == 'ptr':
            return 8
        if k == 'f':
            return {'float': 4, 'double': 8}.get(t[1], 16)
        if k == 'arr':
            return self.align(t[2])
        if k == 'vec':
            return min(self.size(t), 64)
        if k == 'st':
            return 1 if t[2] else max([self.align(x) for x in t[1]] + [1])
        return 1

    def size(self, t):
        t = self.rt(t)
        k = t[0]
        if k == 'i':
            b = (t[1] + 7) // 8
            a = self.align(t)
            return (b + a - 1) // a * a
        if k == 'ptr':
            return 8
        if k == 'f':
            return {'float': 4, 'double': 8}.get(t[1], 16)
        if k == 'arr':
            return t[1] * self.size(t[2])
        if k == 'vec':
            return t[1] * self.width(t[2]) // 8
        if k == 'st':
            return self.offsets(t)[-1]
        raise Imprecise('size of %r' % (t,))

    def offsets(self, t):
        t = self.rt(t)
        o = 0
        out = []
        for x in t[1]:
            a = 1 if t[2] else self.align(x)
            o = (o + a - 1) // a * a
            out.append(o)
            o += self.size(x)
        a = self.align(t)
        out.append((o + a - 1) // a * a)
        return out

    def width(self, t):
        t = self.rt(t)
        if t[0] == 'i':
            return t[1]
        if t[0] == 'ptr':
            return 64
        if t[0] == 'f':
            return 8 * self.size(t)
        raise Imprecise('width of %r' % (t,))

    # --------------------------------------------------------------- memory
    def new_obj(self, st, nbytes, name='obj', init=None):
        self.nobj += 1
        o = '%s#%d' % (name, self.nobj)
        st.mem[o] = list(init) if init is not None else [TOP] * (8 * nbytes)
        return Ptr(o, 0)

    def glob(self, st, name):
        if name in self.m.aliases:
            name = self.m.aliases[name]
        if name in self.m.globals:
            if name not in st.mem:
                t, v, const_ = self.m.globals[name]
                if t is None:
                    return UNK
                n = self.size(t)
                st.mem[name] = [TOP] * (8 * n)
                if v is not None:
                    self.store(st, Ptr(name, 0), t, self.const(st, t, v))
            return Ptr(name, 0)
        return Fn(name)

    def load(self, st, p, t):
        t = self.rt(t)
        if isinstance(p, Fn) or not isinstance(p, Ptr):
            return self.unk(t)
        if t[0] == 'vec':
            es = self.width(t[2])
            raw = self.loadbits(st, p, es * t[1])
            return Vec(raw[i * es:(i + 1) * es] for i in range(t[1]))
        if t[0] == 'arr':
            n = self.size(t[2])
            return Agg(self.load(st, Ptr(p.obj, p.off + i * n), t[2]) for i in range(t[1]))
        if t[0] == 'st':
            return Agg(self.load(st, Ptr(p.obj, p.off + o), x) for o, x in zip(self.offsets(t), t[1]))
        if t[0] == 'ptr':
            v = st.ptrs.get((p.obj, p.off))
            return v if v is not None else UNK
        if t[0] == 'f':
            return UNK
        return self.loadbits(st, p, t[1])

    def loadbits(self, st, p, w):
        m = st.mem.get(p.obj)
        if m is None:
            return [TOP] * w
        if p.sym is not None:
            idx, scale = p.sym
            n = len(m) // 8
            out = None
            # mux over every in-range index
            k = 0
            while p.off + k * scale + (w + 7) // 8 <= n and k < 512 and k < (1 << len(idx)):
                o = (p.off + k * scale) * 8
                v = m[o:o + w]
                sel = ONE
                for i, b in enumerate(idx):
                    sel = band(sel, b if (k >> i) & 1 else bnot(b))
                out = v if out is None else [bite(sel, x, y) for x, y in zip(v, out)]
                k += 1
            return out if out is not None else [TOP] * w
        o = p.off * 8
        if o < 0 or o + w > len(m):
            self.notes.append('out-of-bounds load %r %d bits' % (p, w))
            raise Imprecise('load outside %r' % p)
        return [TOP if b is UNDEF else b for b in m[o:o + w]]

    def store(self, st, p, t, v):
        t = self.rt(t)
        if not isinstance(p, Ptr):
            # a write through an unknown pointer: forget everything
            for k in list(st.mem):
                st.mem[k] = [TOP] * len(st.mem[k])
            st.ptrs.clear()
            return
        if t[0] == 'vec':
            es = self.width(t[2])
            raw = []
            for x in v:
                raw += x if isinstance(x, list) else [TOP] * es
            return self.storebits(st, p, raw)
        if t[0] == 'arr':
            n = self.size(t[2])
            for i in range(t[1]):
                self.store(st, Ptr(p.obj, p.off + i * n), t[2], v[i])
            return
        if t[0] == 'st':
            for o, x, e in zip(self.offsets(t), t[1], v):
                self.store(st, Ptr(p.obj, p.off + o), x, e)
            return
        if t[0] == 'ptr':
            self.storebits(st, p, [TOP] * 64)
            if p.sym is None and isinstance(v, (Ptr, Fn)):
                st.ptrs[(p.obj, p.off)] = v
            return
        if t[0] == 'f':
            return self.storebits(st, p, [TOP] * self.width(t))
        bits = v if isinstance(v, list) else [TOP] * t[1]
        pad = self.size(t) * 8 - len(bits)
        self.storebits(st, p, list(bits) + [ZERO] * pad)

    def storebits(self, st, p, bits):
        m = st.mem.get(p.obj)
        if m is None:
            return
        m = list(m)
        w = len(bits)
        if p.sym is not None:
            idx, scale = p.sym
            k = 0
            n = len(m) // 8
            while p.off + k * scale + w // 8 <= n and k < 512 and k < (1 << len(idx)):
                sel = ONE
                for i, b in enumerate(idx):
                    sel = band(sel, b if (k >> i) & 1 else bnot(b))
                o = (p.off + k * scale) * 8
                for j in range(w):
                    m[o + j] = bite(sel, bits[j], m[o + j])
                k += 1
            st.mem[p.obj] = m
            return
        o = p.off * 8
        if o < 0 or o + w > len(m):
            raise Imprecise('store outside %r' % p)
        m[o:o + w] = bits
        for k in [k for k in st.ptrs if k[0] == p.obj and p.off - 7 <= k[1] < p.off + w // 8]:
            del st.ptrs[k]
        st.mem[p.obj] = m

    def unk(self, t):
        t = self.rt(t)
        if t[0] == 'i':
            return [TOP] * t[1]
        if t[0] == 'vec':
            return Vec(self.unk(t[2]) for _ in range(t[1]))
        if t[0] == 'arr':
            return Agg(self.unk(t[2]) for _ in range(t[1]))
        if t[0] == 'st':
            return Agg(self.unk(x) for x in t[1])
        return UNK

    # ------------------------------------------------------------ constants
    def const(self, st, t, v):
        t = self.rt(t)
        k = v[0]
        if k == 'int':
            return const(v[1] & ((1 << t[1]) - 1), t[1])
        if k == 'zero':
            if t[0] == 'i':
                return const(0, t[1])
            if t[0] == 'vec':
                return Vec(self.const(st, t[2], v) for _ in range(t[1]))
            if t[0] == 'arr':
                return Agg(self.const(st, t[2], v) for _ in range(t[1]))
            if t[0] == 'st':
                return Agg(self.const(st, x, v) for x in t[1])
            return UNK
        if k == 'undef':
            return self.unk(t)
        if k == 'glob':
            return self.glob(st, v[1])
        if k == 'agg':
            c = Vec if t[0] == 'vec' else Agg
            return c(self.const(st, a, b) for a, b in v[1])
        if k == 'splat':
            return Vec(self.const(st, t[2], v[2]) for _ in range(t[1]))
        if k == 'str':
            raw = re.sub(r'\\([0-9A-Fa-f]{2})', lambda m: chr(int(m.group(1), 16)), v[1])
            return Agg(const(ord(c), 8) for c in raw)
        if k == 'gep':
            return self.gep(st, v[1], [(a, self.const(st, a, b)) for a, b in v[2]])
        if k == 'cast':
            return self.cast(v[1], v[2], self.const(st, v[2], v[3]), v[4])
        return self.unk(t)

    def val(self, env, st, t, v):
        if v[0] == 'loc':
            return env[v[1]]
        return self.const(st, t, v)

    # ------------------------------------------------------------ operations
    def gep(self, st, ty, ops):
        base = ops[0][1]
        if not isinstance(base, Ptr):
            return UNK
        off = base.off
        sym = base.sym
        t = ty
        for n, (it, iv) in enumerate(ops[1:]):
            if n == 0:
                sc = self.size(t)
            else:
                rt = self.rt(t)
                if rt[0] == 'st':
                    i = to_int(iv)
                    off += self.offsets(rt)[i]
                    t = rt[1][i]
                    continue
                t = rt[2]
                sc = self.size(t) if rt[0] == 'arr' else self.width(t) // 8
            c = to_int(iv)
            if c is None:
                if sym is not None or any(b is TOP for b in iv):
                    return UNK
                # unsigned view; drop constant-zero high bits
                bits = list(iv)
                while bits and bits[-1] == ZERO:
                    bits.pop()
                if len(bits) > 10:
                    return UNK
                sym = (tuple(bits), sc)
                continue
            if c >> (len(iv) - 1):
                c -= 1 << len(iv)
            off += c * sc
        return Ptr(base.obj, off, sym)

    def eq_zero(self, bits):
        """canonical polynomial of 'all these bits are zero'"""
        work, flat = [bits], []
        while work:
            b = work.pop()
            if isinstance(b, Bits) and b.ors is not None:
                work += list(b.ors)
            else:
                flat += list(b)
        if any(b is not TOP and b == ONE for b in flat):
            return ZERO
        if any(b is TOP for b in flat):
            return TOP
        return self.conj([b for b in flat if b])

    def conj(self, polys):
        # expand equality variables inside: (1 ^ e_B) = 0 means e_B holds
        todo, lin = list(polys), []
        while todo:
            p = todo.pop()
            if len(p) == 2 and 0 in p:
                (m,) = [x for x in p if x]
                if m in self.eqspan:
                    todo += list(self.eqspan[m])
                    continue
            lin.append(p)
        basis = {}
        for p in lin:
            p = set(p)
            while p:
                lead = max(p)
                if lead in basis:
                    p ^= basis[lead]
                else:
                    basis[lead] = p
                    break
        # reduce fully
        for lead in sorted(basis):
            for l2 in basis:
                if l2 != lead and lead in basis[l2]:
                    basis[l2] = basis[l2] ^ basis[lead]
        if 0 in basis:
            return ZERO
        if not basis:
            return ONE
        fs = frozenset(frozenset(p) for p in basis.values())
        if len(fs) == 1:
            return bnot(next(iter(fs)))
        if fs not in self.eqkey:
            v = self.vars.new('[%d linear conditions]' % len(fs))
            (m,) = v
            self.eqkey[fs] = v
            self.eqspan[m] = fs
        return self.eqkey[fs]

    def same(self, x, y):
        """are two polynomials equal wherever the equality facts inside mean what they stand for? True, False or None"""
        if x == y:
            return True
        d = bxor(x, y)
        if d is TOP:
            return None
        return self.vanishes(d, {}, [], 12)

    def vanishes(self, d, basis, off, depth):
        """is d zero on the affine space {basis}, outside the subspaces whose codimensions are listed?"""
        e = next((e for e in self.eqspan if any(m & e for m in d)), None)
        if e is None:
            if not d:
                return True
            deg = max(bin(m).count('1') for m in d)
            # a non-zero polynomial of degree k is non-zero on a fraction of at least 2^-k
            return False if 2.0 ** -deg > sum(2.0 ** -r for r in off) else None
        if depth == 0:
            return None
        hold = self.restrict(basis, self.eqspan[e])
        if hold is None:
            return None
        res = []
        one = set()
        for m in d:
            one ^= {m & ~e}
        if hold != 'never':
            one = self.reduce(frozenset(one), hold)
            res.append(self.vanishes(one, hold, off, depth - 1) if one is not TOP else None)
            if res[-1] is False:
                return False
        zero = frozenset(m for m in d if not m & e)
        k = len(hold) - len(basis) if hold != 'never' else None
        if k != 0:
            res.append(self.vanishes(zero, basis, off + ([k] if k is not None else []), depth - 1))
        return False if False in res else None if None in res else True

    def restrict(self, basis, conds):
        """the basis (leading variable -> what it equals) after imposing linear conditions; 'never' if they contradict it, None if not linear"""
        b = dict(basis)
        todo = sorted(conds, key=max)
        while todo:
            left = []
            for c in todo:
                c = self.reduce(c, b)
                if c is TOP:
                    return None
                if any(bin(m).count('1') > 1 for m in c) or any(m in self.eqspan for m in c):
                    left.append(c)       # may become linear once more variables are known
                    continue
                if not c:
                    continue
                if c == ONE:
                    return 'never'
                lead = max(c)
                rest = c ^ frozenset([lead])
                for v in list(b):
                    if lead in b[v]:
                        b[v] = b[v] ^ frozenset([lead]) ^ rest
                b[lead] = rest
            if len(left) == len(todo):
                return None
            todo = left
        return b

    def reduce(self, p, basis):
        if not basis:
            return p
        mask = 0
        for v in basis:
            mask |= v
        out = set()
        for m in p:
            hit = m & mask
            if not hit:
                out ^= {m}
                continue
            q = frozenset([m & ~mask])
            while hit and q:
                v = hit & -hit
                hit ^= v
                q = band(q, basis[v])
                if q is TOP:
                    return TOP
            out ^= q
        return frozenset(out)

    def and_(self, a, b):
        r = band(a, b)
        if r is TOP or not self.eqspan:
            return r
        # a conjunction of two equality facts is one equality fact
        if a is not TOP and b is not TOP and len(r) == 1:
            (m,) = r
            if any(e & m for e in self.eqspan):
                conds = []
                left = m
                for e in self.eqspan:
                    if e & m:
                        conds += list(self.eqspan[e])
                        left &= ~e
                i = 0
                while left >> i:
                    if (left >> i) & 1:
                        conds.append(frozenset([1 << i, 0]))
                    i += 1
                return self.conj(conds)
        # linear * equality fact, e.g. (1^d) * e
        for x, y in ((a, b), (b, a)):
            if y is not TOP and len(y) == 1:
                (m,) = y
                if m in self.eqspan and x is not TOP and all(bin(q).count('1') <= 1 for q in x):
                    return self.conj(list(self.eqspan[m]) + [bnot(x)])
        return r

    def cast(self, op, t, v, t2):
        t, t2 = self.rt(t), self.rt(t2)
        if t[0] == 'vec' and t2[0] == 'vec' and op not in ('bitcast',):
            return Vec(self.cast(op, t[2], x, t2[2]) for x in v)
        if op == 'bitcast':
            if t == t2 or t[0] == 'ptr':
                return v
            raw = []
            if t[0] == 'vec':
                w = self.width(t[2])
                for x in v:
                    raw += list(x) if isinstance(x, list) else [TOP] * w
            elif isinstance(v, list):
                raw = list(v)
            else:
                raw = [TOP] * self.width(t)
            if t2[0] == 'vec':
                w = self.width(t2[2])
                return Vec(raw[i * w:(i + 1) * w] for i in range(t2[1]))
            if t2[0] == 'i':
                return raw
            return UNK
        if t2[0] == 'i' and isinstance(v, list) and t[0] == 'i':
            w = t2[1]
            if op == 'trunc':
                return v[:w]
            if op == 'zext':
                return list(v) + [ZERO] * (w - len(v))
            if op == 'sext':
                return list(v) + [v[-1]] * (w - len(v))
        if t2[0] == 'ptr' or t2[0] == 'f':
            return UNK
        return self.unk(t2)

    def binop(self, op, t, a, b):
        t = self.rt(t)
        if t[0] == 'vec':
            return Vec(self.binop(op, t[2], x, y) for x, y in zip(a, b))
        if t[0] != 'i' or not isinstance(a, list) or not isinstance(b, list):
            return self.unk(t)
        w = t[1]
        if op == 'xor':
            return [bxor(x, y) for x, y in zip(a, b)]
        if op == 'and':
            return [self.and_(x, y) for x, y in zip(a, b)]
        if op == 'or':
            if w == 1:
                x, y = a[0], b[0]
                # !(p or q) = !p and !q keeps equality facts canonical
                return [bnot(self.and_(bnot(x), bnot(y)))]
            r = Bits(bor(x, y) for x, y in zip(a, b))
            r.ors = (a, b)
            return r
        if op == 'add':
            return add(a, b)[0]
        if op == 'sub':
            return add(a, [bnot(x) for x in b], ONE)[0]
        ca, cb = to_int(a), to_int(b)
        if ca is not None and cb is not None:
            return self.constop(op, w, ca, cb)
        if op in ('shl', 'lshr', 'ashr'):
            if cb is None:
                # barrel shifter over the bits of the amount
                if any(x is TOP for x in b):
                    return [TOP] * w
                r = list(a)
                for i in range(w.bit_length()):
                    if i < len(b) and b[i] != ZERO:
                        s = self.shift(op, r, 1 << i)
                        r = [bite(b[i], x, y) for x, y in zip(s, r)]
                for i in range(w.bit_length(), len(b)):
                    if b[i] != ZERO:
                        return [TOP] * w
                return r
            if cb >= w:
                return [TOP] * w       # poison
            return self.shift(op, a, cb)
        if op == 'mul':
            if ca is not None:
                a, b, ca, cb = b, a, cb, ca
            if cb is not None:
                acc = const(0, w)
                # signed-digit recoding keeps e.g. *(2^k-1) small
                for i in range(w):
                    if (cb >> i) & 1:
                        acc = add(acc, self.shift('shl', a, i) if i else list(a))[0]
                return acc
            if w <= 8:
                acc = const(0, w)
                for i in range(w):
                    sh = self.shift('shl', a, i) if i else list(a)
                    acc = add(acc, [band(x, b[i]) for x in sh])[0]
                return acc
            return [TOP] * w
        if op in ('udiv', 'urem') and cb is not None and cb and cb & (cb - 1) == 0:
            k = cb.bit_length() - 1
            if op == 'udiv':
                return self.shift('lshr', a, k) if k else list(a)
            return [x if i < k else ZERO for i, x in enumerate(a)]
        return [TOP] * w

    def shift(self, op, a, n):
        w = len(a)
        n = min(n, w)
        if op == 'shl':
            return [ZERO] * n + list(a[:w - n])
        fill = ZERO if op == 'lshr' else a[-1]
        return list(a[n:]) + [fill] * n

    def constop(self, op, w, a, b):
        M = (1 << w) - 1
        sa = a - (1 << w) if a >> (w - 1) else a
        sb = b - (1 << w) if b >> (w - 1) else b
        if op == 'mul':
            r = a * b
        elif op == 'shl':
            r = a << b if b < w else 0
        elif op == 'lshr':
            r = a >> b if b < w else 0
        elif op == 'ashr':
            r = sa >> min(b, w - 1)
        elif op in ('udiv', 'urem', 'sdiv', 'srem'):
            if b == 0:
                return [TOP] * w
            if op == 'udiv':
                r = a // b
            elif op == 'urem':
                r = a % b
            else:
                q = abs(sa) // abs(sb) * (1 if (sa < 0) == (sb < 0) else -1)
                r = q if op == 'sdiv' else sa - q * sb
        else:
            return [TOP] * w
        return const(r & M, w)

    def icmp(self, pred, t, a, b):
        t = self.rt(t)
        if t[0] == 'vec':
            return Vec(self.icmp(pred, t[2], x, y) for x, y in zip(a, b))
        if t[0] == 'ptr':
            if isinstance(a, Ptr) and isinstance(b, Ptr) and not a.sym and not b.sym:
                if pred in ('eq', 'ne'):
                    return const(int((a == b) == (pred == 'eq')), 1)
                if a.obj == b.obj:
                    c = {'ult': a.off < b.off, 'ule': a.off <= b.off, 'ugt': a.off > b.off,
                         'uge': a.off >= b.off}.get(pred)
                    if c is not None:
                        return const(int(c), 1)
            if pred in ('eq', 'ne') and (isinstance(a, Ptr) != isinstance(b, Ptr)):
                # a live object is not null (null is represented as unknown): only for literal null
                return const(int(pred == 'ne'), 1) if getattr(self, '_null', False) else [TOP]
            return [TOP]
        if not isinstance(a, list) or not isinstance(b, list):
            return [TOP]
        if pred in ('eq', 'ne'):
            cb = to_int(b)
            if cb == 0:
                r = self.eq_zero(a)
            else:
                r = self.eq_zero([bxor(x, y) for x, y in zip(a, b)])
            return [r if pred == 'eq' else bnot(r)]
        ca, cb = to_int(a), to_int(b)
        w = len(a)
        if ca is not None and cb is not None:
            sa = ca - (1 << w) if ca >> (w - 1) else ca
            sb = cb - (1 << w) if cb >> (w - 1) else cb
            r = {'ult': ca < cb, 'ule': ca <= cb, 'ugt': ca > cb, 'uge': ca >= cb,
                 'slt': sa < sb, 'sle': sa <= sb, 'sgt': sa > sb, 'sge': sa >= sb}[pred]
            return const(int(r), 1)
        # sign tests
        if pred == 'slt' and cb == 0:
            return [a[-1]]
        if pred == 'sgt' and cb == (1 << w) - 1:
            return [bnot(a[-1])]
        x, y = list(a), list(b)
        if pred[0] == 's':
            x[-1], y[-1] = bnot(x[-1]), bnot(y[-1])
        p = pred[1:]
        if p in ('gt', 'le'):
            x, y = y, x
        # x < y  <=> no carry out of x + ~y + 1
        c = ONE
        for u, v in zip(x, y):
            v = bnot(v)
            c = bxor(band(u, v), band(c, bxor(u, v)))
        lt = bnot(c)
        return [lt if p in ('lt', 'gt') else bnot(lt)]

    def merge(self, c, a, b):
        """ite(c, a, b) on values"""
        if a is b:
            return a
        if isinstance(a, (Vec, Agg)) and isinstance(b, (Vec, Agg)):
            return type(a)(self.merge(c, x, y) for x, y in zip(a, b))
        if isinstance(a, list) and isinstance(b, list):
            return [self.ite(c, x, y) for x, y in zip(a, b)]
        if isinstance(a, (Ptr, Fn)) and a == b:
            return a
        return UNK

    def ite(self, c, x, y):
        if c is not TOP and x is not TOP and y is not TOP:
            if x == ONE and not y:
                return c
            if not x and y == ONE:
                return bnot(c)
            if not y and x != ONE:
                return self.and_(c, x)
            if not x:
                return self.and_(bnot(c), y)
            if x == ONE:
                return bnot(self.and_(bnot(c), bnot(y)))
        return bite(c, x, y)

    def merge_state(self, c, a, b):
        s = State()
        for k in set(a.mem) | set(b.mem):
            x, y = a.mem.get(k), b.mem.get(k)
            if x is None or y is None or x is y:
                s.mem[k] = x if y is None else y
            else:
                s.mem[k] = [u if u is v else self.ite(c, u, v) for u, v in zip(x, y)]
        for k in a.ptrs:
            if k in b.ptrs and a.ptrs[k] == b.ptrs[k]:
                s.ptrs[k] = a.ptrs[k]
        return s

    # ------------------------------------------------------------- execution
    def call(self, name, args, st):
        f = self.m.func(name)
        if f is None:
            raise Imprecise('call to unknown function %s' % name)
        self.funcs_seen.add(name)
        self.depth += 1
        if self.depth > 60:
            raise Imprecise('call depth')
        env = {}
        for (t, n), a in zip(f.params, args):
            env[n] = a
        r = self.run(f, env, st, f.entry, None, None, 0)
        self.depth -= 1
        if r[0] == 'ret':
            return r[1], r[2]
        if r[0] == 'abort':
            raise Imprecise('%s does not return' % name)
        raise Imprecise('no return in ' + name)

    def phis(self, f, block, env, st, prev):
        out = {}
        for ins in f.blocks[block]:
            if ins.op != 'phi':
                break
            t, arms = ins.a
            for v, l in arms:
                if l == prev:
                    out[ins.dst] = self.val(env, st, t, v)
                    break
            else:
                raise Imprecise('phi')
        return out

    def run(self, f, env, st, block, prev, stop, depth):
        """execute from `block`; returns ('ret',v,st) | ('join',env,st,phivals) | ('abort',)"""
        phivals = None
        if depth > 400:
            raise Imprecise('branch nesting in ' + f.name)
        while True:
            if phivals is None:
                phivals = self.phis(f, block, env, st, prev)
            if block == stop and prev is not None:
                return ('join', env, st, phivals)
            env.update(phivals)
            phivals = None
            nxt = None
            for ins in f.blocks[block]:
                if ins.op == 'phi':
                    continue
                self.steps += 1
                if self.steps > 3000000:
                    raise Imprecise('step budget')
                op = ins.op
                if op == 'br':
                    nxt = ins.a[0]
                elif op == 'ret':
                    v = self.val(env, st, *ins.a) if ins.a else None
                    return ('ret', v, st)
                elif op == 'unreachable':
                    return ('abort',)
                elif op in ('condbr', 'switch'):
                    if op == 'condbr':
                        c = self.val(env, st, *ins.a[0])
                        c = c[0] if isinstance(c, list) else TOP
                        arms = [(c, ins.a[1]), (None, ins.a[2])]
                    else:
                        v = self.val(env, st, *ins.a[0])
                        arms = []
                        for k, l in ins.a[2]:
                            arms.append((self.icmp('eq', ins.a[0][0], v,
                                                   const(k & ((1 << len(v)) - 1), len(v)))[0], l))
                        arms.append((None, ins.a[1]))
                    live = []
                    for c, l in arms:
                        if c is None or c == ONE:
                            live.append((None, l))
                            break
                        if c is not TOP and not c:
                            continue
                        live.append((c, l))
                    if len(live) == 1 or len(set(l for _, l in live)) == 1 and not any(
                            i.op == 'phi' for i in f.blocks[live[0][1]]):
                        nxt = live[0][1]
                    else:
                        ip = f.ipdom[block]
                        tgt = None if ip == '%exit' else ip
                        res = []
                        for c, l in live:
                            r = self.run(f, dict(env), st.copy(), l, block, tgt, depth + 1)
                            res.append((c, r))
                        res = [x for x in res if x[1][0] != 'abort']
                        if not res:
                            return ('abort',)
                        acc = res[-1][1]
                        for c, r in reversed(res[:-1]):
                            if r[0] != acc[0]:
                                raise Imprecise('mixed join')
                            if r[0] == 'ret':
                                acc = ('ret', self.merge(c, r[1], acc[1]) if r[1] is not None else None,
                                       self.merge_state(c, r[2], acc[2]))
                            else:
                                pv = {k: self.merge(c, r[3][k], acc[3][k]) for k in r[3]}
                                acc = ('join', r[1], self.merge_state(c, r[2], acc[2]), pv)
                        if acc[0] == 'ret':
                            return acc
                        st = acc[2]
                        if len(res) == 1:
                            env = acc[1]
                        phivals = acc[3]
                        if ip == stop:
                            return ('join', env, st, phivals)
                        prev, block = block, ip
                        nxt = 'joined'
                        break
                elif op == 'invoke':
                    rt_, callee, args, cont = ins.a
                    self.do_call(env, st, ins.dst, rt_, callee, args)
                    st = self.st_after or st
                    nxt = cont
                elif op == 'call':
                    self.do_call(env, st, ins.dst, *ins.a)
                    if self.aborted:
                        return ('abort',)
                    st = self.st_after or st
                else:
                    self.simple(env, st, ins)
            if nxt == 'joined':
                continue
            prev, block = block, nxt

    def simple(self, env, st, ins):
        op, a = ins.op, ins.a
        d = ins.dst
        if op == 'load':
            env[d] = self.load(st, self.val(env, st, *a[1]), a[0])
        elif op == 'store':
            self.store(st, self.val(env, st, *a[1]), a[0][0], self.val(env, st, *a[0]))
        elif op == 'alloca':
            n = to_int(self.const(st, ('i', 64), a[1])) if a[1][0] == 'int' else None
            if n is None:
                raise Imprecise('dynamic alloca')
            env[d] = self.new_obj(st, n * self.size(a[0]), 'stack')
        elif op == 'gep':
            env[d] = self.gep(st, a[0], [(t, self.val(env, st, t, v)) for t, v in a[1]])
        elif op == 'cast':
            env[d] = self.cast(a[0], a[1], self.val(env, st, a[1], a[2]), a[3])
        elif op == 'icmp':
            lit_null = ('zero',) in (a[2][:1], a[3][:1])
            self._null = lit_null
            env[d] = self.icmp(a[0], a[1], self.val(env, st, a[1], a[2]), self.val(env, st, a[1], a[3]))
            self._null = False
        elif op == 'select':
            c = self.val(env, st, *a[0])
            x, y = self.val(env, st, *a[1]), self.val(env, st, *a[2])
            if isinstance(c, Vec):
                env[d] = Vec(self.merge(k[0], u, v) for k, u, v in zip(c, x, y))
            else:
                cb = c[0] if isinstance(c, list) else TOP
                if cb == ONE:
                    env[d] = x
                elif cb is not TOP and not cb:
                    env[d] = y
                else:
                    env[d] = self.merge(cb, x, y)
        elif op == 'freeze':
            env[d] = self.val(env, st, *a)
        elif op == 'extractvalue':
            v = self.val(env, st, *a[0])
            for i in a[1]:
                v = v[i] if isinstance(v, Agg) else UNK
            env[d] = v
        elif op == 'insertvalue':
            def ins_(v, idx, w):
                v = Agg(v)
                v[idx[0]] = w if len(idx) == 1 else ins_(v[idx[0]], idx[1:], w)
                return v
            env[d] = ins_(self.val(env, st, *a[0]), a[2], self.val(env, st, *a[1]))
        elif op == 'extractelement':
            v = self.val(env, st, *a[0])
            i = to_int(self.val(env, st, *a[1]))
            env[d] = v[i] if i is not None and i < len(v) else self.unk(self.rt(a[0][0])[2])
        elif op == 'insertelement':
            v = Vec(self.val(env, st, *a[0]))
            i = to_int(self.val(env, st, *a[2]))
            if i is None:
                v = self.unk(a[0][0])
            else:
                v[i] = self.val(env, st, *a[1])
            env[d] = v
        elif op == 'shufflevector':
            v, w = self.val(env, st, *a[0]), self.val(env, st, *a[1])
            both = list(v) + list(w)
            mt, mv = a[2]
            if mv[0] == 'zero':
                idx = [0] * mt[1]
            elif mv[0] == 'agg':
                idx = [x[1][1] if x[1][0] == 'int' else None for x in mv[1]]
            else:
                idx = [None] * mt[1]
            et = self.rt(a[0][0])[2]
            env[d] = Vec(self.unk(et) if i is None else both[i] for i in idx)
        elif op == 'unparsed':
            raise Imprecise('instruction not understood: ' + ins.text[:80])
        elif d is not None and op in ('fcmp',):
            env[d] = [TOP]
        elif op in ('fneg',):
            env[d] = UNK
        elif op == 'asm':
            raise Imprecise('inline assembly')
        else:
            t = a[0] if isinstance(a, tuple) else None
            env[d] = self.binop(op, t, self.val(env, st, t, a[1]), self.val(env, st, t, a[2]))

    def do_call(self, env, st, dst, rt_, callee, args):
        self.aborted = False
        self.st_after = None
        av = [self.val(env, st, t, v) if v[0] != 'undef' or t[0] != 'metadata' else None for t, v in args]
        if callee.startswith('%'):
            f = env.get(callee)
            if not isinstance(f, Fn):
                raise Imprecise('indirect call')
            callee = f.name
        name = callee[1:].strip('"')
        if name in self.hooks:
            r = self.hooks[name](self, st, av)
        elif name.startswith('llvm.'):
            r = self.intrinsic(name, st, av, rt_)
        elif name in ('_Znwm', '_Znam', 'malloc', '_ZnwmSt11align_val_t', '_ZnwmRKSt9nothrow_t'):
            n = to_int(av[0])
            if n is None:
                raise Imprecise('allocation of unknown size')
            r = self.new_obj(st, n, 'heap')
        elif name in ('_ZdlPv', '_ZdlPvm', 'free', '_ZdaPv', '_ZdaPvm', '_ZdlPvmSt11align_val_t'):
            r = None
        elif name in ('memcpy', 'memmove'):
            self.memcpy(st, av[0], av[1], av[2])
            r = av[0]
        elif name in ('memcmp', 'bcmp'):
            n = to_int(av[2])
            if n is None or not isinstance(av[0], Ptr) or not isinstance(av[1], Ptr):
                r = [TOP] * 32
            else:
                x = self.loadbits(st, av[0], 8 * n)
                y = self.loadbits(st, av[1], 8 * n)
                e = self.eq_zero([bxor(u, v) for u, v in zip(x, y)])
                r = [bnot(e)] + [ZERO] * 31
        elif name == '__umodti3' or name == '__udivti3':
            x, y = av[0] + av[1], av[2] + av[3]
            r = self.binop('urem' if 'mod' in name else 'udiv', ('i', 128), x, y)
            r = Agg([r[:64], r[64:]]) if self.rt(rt_)[0] == 'st' else r
        elif name in ('abort', '__assert_fail', '__clang_call_terminate', '_ZSt9terminatev') or \
                name.startswith('_ZSt') and 'throw' in name:
            self.aborted = True
            return
        elif self.m.func(callee):
            r, st2 = self.call(callee, av, st)
            self.st_after = st2
        else:
            raise Imprecise('call to unmodelled function %s' % name)
        if dst:
            env[dst] = r if r is not None else UNK

    def memcpy(self, st, d, s, n):
        n = to_int(n)
        if n is None:
            raise Imprecise('copy of unknown size')
        if n == 0:
            return
        if not isinstance(d, Ptr) or not isinstance(s, Ptr):
            raise Imprecise('copy through unknown pointer')
        bits = self.loadbits(st, s, 8 * n)
        pp = {k[1] - s.off: v for k, v in st.ptrs.items() if k[0] == s.obj and s.off <= k[1] <= s.off + n - 8}
        self.storebits(st, d, bits)
        for o, v in pp.items():
            st.ptrs[(d.obj, d.off + o)] = v

    def intrinsic(self, name, st, av, rt_):
        if name.startswith(('llvm.lifetime', 'llvm.assume', 'llvm.dbg', 'llvm.experimental.noalias', 'llvm.invariant')):
            return None
        if name.startswith(('llvm.memcpy', 'llvm.memmove')):
            self.memcpy(st, av[0], av[1], av[2])
            return None
        if name.startswith('llvm.memset'):
            n = to_int(av[2])
            if n is None or not isinstance(av[0], Ptr):
                raise Imprecise('memset')
            self.storebits(st, av[0], list(av[1]) * n)
            return None
        if name.startswith(('llvm.fshl', 'llvm.fshr')):
            if isinstance(av[0], Vec):
                return self.unk(rt_)
            n = to_int(av[2])
            a, b = av[0], av[1]
            w = len(a)
            if n is None:
                return [TOP] * w
            n %= w
            cat = list(b) + list(a)      # low .. high
            if name.startswith('llvm.fshl'):
                return cat[w - n:2 * w - n]
            return cat[n:n + w]
        if name.startswith('llvm.threadlocal.address'):
            return av[0]
        if name == 'llvm.x86.pclmulqdq':
            i = to_int(av[2])
            x = av[0][i & 1]
            y = av[1][(i >> 4) & 1]
            r = clmul(x, y)
            return Vec([r[:64], r[64:]])
        if name.startswith(('llvm.bswap', 'llvm.bitreverse')):
            a = av[0]
            if name.startswith('llvm.bitreverse'):
                return a[::-1]
            return [b for i in range(len(a) // 8 - 1, -1, -1) for b in a[8 * i:8 * i + 8]]
        if name.startswith('llvm.vector.reduce.'):
            k = name.split('.')[3]
            acc = av[0][0]
            for x in av[0][1:]:
                acc = self.binop(k, ('i', len(acc)), acc, x)
            return acc
        if name.startswith(('llvm.umin', 'llvm.umax', 'llvm.smin', 'llvm.smax')) and isinstance(av[0], list) \
                and not isinstance(av[0], Vec):
            p = {'umin': 'ult', 'umax': 'ugt', 'smin': 'slt', 'smax': 'sgt'}[name[5:9]]
            c = self.icmp(p, ('i', len(av[0])), av[0], av[1])[0]
            return self.merge(c, av[0], av[1])
        if name.startswith('llvm.ctpop') and not isinstance(av[0], Vec):
            w = len(av[0])
            acc = const(0, w)
            for b in av[0]:
                acc = add(acc, [b] + [ZERO] * (w - 1))[0]
            return acc
        if name.startswith('llvm.usub.sat') and to_int(av[0]) is not None and to_int(av[1]) is not None:
            return const(max(0, to_int(av[0]) - to_int(av[1])), len(av[0]))
        if name.startswith('llvm.trap'):
            self.aborted = True
            return None
        if name.startswith(('llvm.ctlz', 'llvm.cttz')) and to_int(av[0]) is not None:
            v, w = to_int(av[0]), len(av[0])
            n = w if v == 0 else (w - v.bit_length() if 'ctlz' in name else (v & -v).bit_length() - 1)
            return const(n, w)
        return self.unk(rt_)


def load_module(path):
    return Module(open(path).read())
