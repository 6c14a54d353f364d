"""A parser for the subset of textual LLVM IR that clang emits for our kernels."""
import re

TOK = re.compile(r'''\s*(?:
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<glob>@(?:[-\w$.]+|"[^"]*"))
 | (?P<loc>%(?:[-\w$.]+|"[^"]*"))
 | (?P<meta>!(?:[-\w$.]+)?)
 | (?P<attr>\#\d+)
 | (?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?|0x[0-9A-Fa-f]+)
 | (?P<word>[A-Za-z_$.][-\w$.]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[()\[\]{}<>,=*|:])
)''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        if s[i] in ' \t':
            i += 1
            continue
        if s[i] == ';':
            break
        m = TOK.match(s, i)
        if not m:
            raise SyntaxError('token at %r' % s[i:i + 40])
        out.append(m.group(m.lastgroup))
        i = m.end()
    return out


class T:  # types as tuples: ('i',n) ('ptr',) ('vec',n,t) ('arr',n,t) ('st',[t]) ('void',) ('f',name)
    pass


class Parser:
    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        if not self.eat(x):
            raise SyntaxError('expected %s got %s in %s' % (x, self.peek(), ' '.join(self.t)))

    def type(self):
        x = self.next()
        if x == 'void':
            t = ('void',)
        elif x == 'ptr':
            t = ('ptr',)
            if self.eat('addrspace'):
                self.expect('('); self.next(); self.expect(')')
        elif re.fullmatch(r'i\d+', x):
            t = ('i', int(x[1:]))
        elif x in ('float', 'double', 'half', 'x86_fp80', 'fp128'):
            t = ('f', x)
        elif x in ('label', 'metadata', 'token'):
            t = (x,)
        elif x == '[':
            n = int(self.next()); self.expect('x'); e = self.type(); self.expect(']')
            t = ('arr', n, e)
        elif x == '<':
            if self.peek() == '{':
                self.next()
                fs = self.types('}')
                self.expect('>')
                t = ('st', tuple(fs), True)
            else:
                n = int(self.next()); self.expect('x'); e = self.type(); self.expect('>')
                t = ('vec', n, e)
        elif x == '{':
            t = ('st', tuple(self.types('}')), False)
        elif x.startswith('%'):
            t = ('named', x)
        else:
            raise SyntaxError('type %s in %s' % (x, ' '.join(self.t)))
        while self.peek() == '(':      # function type
            self.next()
            a = []
            while not self.eat(')'):
                if self.eat('...'):
                    continue
                a.append(self.type())
                self.eat(',')
            t = ('fn', t, tuple(a))
        return t

    def types(self, close):
        fs = []
        while not self.eat(close):
            fs.append(self.type())
            self.eat(',')
        return fs

    def skip_attrs(self):
        while True:
            x = self.peek()
            if x in ('noundef', 'nonnull', 'noalias', 'nocapture', 'readonly', 'writeonly', 'signext', 'zeroext',
                     'returned', 'immarg', 'readnone', 'inreg', 'allocptr', 'allocalign', 'nofree', 'nest', 'swiftself',
                     'noreturn', 'nofpclass', 'dead_on_unwind', 'writable', 'range', 'initializes'):
                self.next()
                if self.peek() == '(' and x in ('nofpclass', 'range'):
                    self.skip_paren()
            elif x in ('align',):
                self.next()
                if self.eat('('):
                    self.next(); self.expect(')')
                else:
                    self.next()
            elif x in ('dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'elementtype', 'captures'):
                self.next()
                self.skip_paren()
            else:
                return

    def skip_paren(self):
        self.expect('(')
        d = 1
        while d:
            x = self.next()
            d += (x == '(') - (x == ')')

    def value(self, ty):
        """operand of type ty -> ('loc',n) ('int',v) ('undef',) ('zero',) ('glob',n) ('agg',[..]) ('cexpr',op,...)"""
        x = self.next()
        if x.startswith('%'):
            return ('loc', x)
        if x.startswith('@'):
            return ('glob', x)
        if re.fullmatch(r'-?\d+', x):
            return ('int', int(x))
        if x in ('true', 'false'):
            return ('int', int(x == 'true'))
        if x in ('undef', 'poison'):
            return ('undef',)
        if x in ('zeroinitializer', 'null', 'none'):
            return ('zero',)
        if x in ('<', '[', '{'):
            close = {'<': '>', '[': ']', '{': '}'}[x]
            out = []
            if x == '<' and self.peek() == '{':
                self.next()
                while not self.eat('}'):
                    t = self.type(); out.append((t, self.value(t))); self.eat(',')
                self.expect('>')
                return ('agg', out)
            while not self.eat(close):
                t = self.type()
                out.append((t, self.value(t)))
                self.eat(',')
            return ('agg', out)
        if x == 'splat':
            self.expect('(')
            t = self.type(); v = self.value(t); self.expect(')')
            return ('splat', t, v)
        if x.startswith('c"'):
            return ('str', x[2:-1])
        if x == 'getelementptr':
            while self.peek() in ('inbounds', 'nuw', 'nusw', 'inrange'):
                self.next()
                if self.peek() == '(' and self.t[self.i - 1] == 'inrange':
                    self.skip_paren()
            self.expect('(')
            st = self.type(); self.expect(',')
            ops = []
            while True:
                while self.peek() in ('inrange',):
                    self.next()
                t = self.type(); ops.append((t, self.value(t)))
                if not self.eat(','):
                    break
            self.expect(')')
            return ('gep', st, ops)
        if x in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext'):
            self.expect('(')
            t = self.type(); v = self.value(t); self.expect('to'); t2 = self.type(); self.expect(')')
            return ('cast', x, t, v, t2)
        if x.startswith('0x') or '.' in x:
            return ('fp', x)
        return ('unknown', x)

    def tv(self):
        t = self.type()
        self.skip_attrs()
        return (t, self.value(t))


class Instr:
    __slots__ = ('op', 'dst', 'a', 'text')

    def __init__(self, op, dst, a, text):
        self.op, self.dst, self.a, self.text = op, dst, a, text


class Func:
    def __init__(self, name, ret, params):
        self.name, self.ret, self.params = name, ret, params
        self.blocks = {}
        self.entry = None


FLAGS = {'nuw', 'nsw', 'exact', 'inbounds', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc',
         'disjoint', 'nneg', 'volatile', 'nusw', 'samesign'}
BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
       'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext',
         'fptrunc', 'addrspacecast'}


class Module:
    def __init__(self, text):
        self.funcs = {}
        self.types = {}
        self.globals = {}
        self.aliases = {}
        lines = text.split('\n')
        i = 0
        while i < len(lines):
            ln = lines[i]
            if ln.startswith('%') and ' = type ' in ln:
                toks = tokenize(ln)
                p = Parser(toks, self)
                name = p.next(); p.expect('='); p.expect('type')
                self.types[name] = None if p.peek() == 'opaque' else p.type()
            elif ln.startswith('@'):
                self._global(ln)
            elif ln.startswith('define'):
                f = self._header(ln)
                i += 1
                body = []
                while lines[i] != '}':
                    body.append(lines[i])
                    i += 1
                f.src = body
                self.funcs[f.name] = f
            i += 1

    def _global(self, ln):
        m = re.match(r'(@(?:[-\w$.]+|"[^"]*"))\s*=\s*(.*)$', ln)
        name, rest = m.group(1), m.group(2)
        if ' alias ' in ' ' + rest:
            m2 = re.search(r'ptr (@(?:[-\w$.]+|"[^"]*"))', rest)
            if m2:
                self.aliases[name] = m2.group(1)
            return
        m2 = re.search(r'\b(global|constant)\s+(.*)$', rest)
        if not m2:
            return
        ext = re.search(r'\bexternal\b', rest[:m2.start()])
        try:
            p = Parser(tokenize(m2.group(2)), self)
            t = p.type()
            v = None if ext else p.value(t)
            self.globals[name] = (t, v, m2.group(1) == 'constant')
        except (SyntaxError, IndexError, ValueError):
            self.globals[name] = (None, None, False)

    def _header(self, ln):
        toks = tokenize(ln.rstrip('{').rstrip())
        j = next(k for k, x in enumerate(toks) if x.startswith('@'))
        name = toks[j]
        # return type: parse backwards is awkward; skip known words
        p = Parser(toks, self)
        p.next()
        while True:
            x = p.peek()
            if x in ('dso_local', 'internal', 'private', 'linkonce_odr', 'weak_odr', 'weak', 'hidden', 'protected',
                     'unnamed_addr', 'local_unnamed_addr', 'available_externally', 'fastcc', 'ccc', 'linkonce'):
                p.next()
            else:
                p.skip_attrs()
                if p.peek() == x:
                    break
        ret = p.type()
        p.skip_attrs()
        assert p.next() == name
        p.expect('(')
        params = []
        while not p.eat(')'):
            if p.eat('...'):
                continue
            t = p.type()
            p.skip_attrs()
            nm = p.next() if p.peek() and p.peek().startswith('%') else '%%%d' % len(params)
            params.append((t, nm))
            p.eat(',')
        return Func(name, ret, params)

    def func(self, name):
        seen = set()
        while name in self.aliases and name not in seen:
            seen.add(name)
            name = self.aliases[name]
        f = self.funcs.get(name)
        if f and not f.blocks:
            self._body(f)
        return f

    def _body(self, f):
        label = None
        cur = None
        unnamed = len([1 for _, n in f.params if re.fullmatch(r'%\d+', n)])
        buf = []
        # join multi-line switch
        k = 0
        src = f.src
        while k < len(src):
            ln = src[k]
            if re.match(r'\s+switch .*\[\s*$', ln):
                while src[k].strip() != ']' :
                    k += 1
                    ln += ' ' + src[k].strip()
            elif re.search(r'\binvoke\b', ln) and ' to label ' not in ln:
                k += 1
                ln += ' ' + src[k].strip()
            buf.append(ln)
            k += 1
        for ln in buf:
            if not ln.strip() or ln.strip().startswith(';'):
                continue
            m = re.match(r'^([-\w$.]+|"[^"]*"):', ln)
            if m:
                label = '%' + m.group(1)
                cur = f.blocks.setdefault(label, [])
                if f.entry is None:
                    f.entry = label
                continue
            if cur is None:
                label = '%%%d' % unnamed
                f.entry = label
                cur = f.blocks.setdefault(label, [])
            s = ln.strip()
            s = re.sub(r'\s*#dbg_.*$', '', s)
            if not s:
                continue
            try:
                cur.append(self.instr(s))
            except (SyntaxError, IndexError, ValueError) as e:
                cur.append(Instr('unparsed', None, str(e), s))
        f.succ = {}
        for b, ins in f.blocks.items():
            t = ins[-1]
            if t.op == 'br':
                f.succ[b] = [t.a[0]]
            elif t.op == 'condbr':
                f.succ[b] = [t.a[1], t.a[2]]
            elif t.op == 'switch':
                f.succ[b] = [t.a[1]] + [d for _, d in t.a[2]]
            elif t.op == 'invoke':
                f.succ[b] = [t.a[-1]]
            else:
                f.succ[b] = []
        f.ipdom = ipdoms(f)

    def instr(self, s):
        toks = tokenize(s)
        p = Parser(toks, self)
        dst = None
        if p.peek(1) == '=' and p.peek().startswith('%'):
            dst = p.next()
            p.next()
        op = p.next()
        while op in ('tail', 'musttail', 'notail'):
            op = p.next()
        while p.peek() in FLAGS:
            p.next()
        if op in BIN:
            t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
            return Instr(op, dst, (t, a, b), s)
        if op in CASTS:
            t, v = p.tv(); p.expect('to'); t2 = p.type()
            return Instr('cast', dst, (op, t, v, t2), s)
        if op in ('icmp', 'fcmp'):
            pred = p.next()
            while pred in FLAGS:
                pred = p.next()
            t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
            return Instr(op, dst, (pred, t, a, b), s)
        if op == 'load':
            t = p.type(); p.expect(','); q = p.tv()
            return Instr('load', dst, (t, q), s)
        if op == 'store':
            v = p.tv(); p.expect(','); q = p.tv()
            return Instr('store', dst, (v, q), s)
        if op == 'getelementptr':
            st = p.type(); p.expect(',')
            ops = [p.tv()]
            while p.eat(','):
                if p.peek().startswith('!'):
                    break
                ops.append(p.tv())
            return Instr('gep', dst, (st, ops), s)
        if op == 'alloca':
            t = p.type()
            n = ('int', 1)
            if p.eat(',') and p.peek() != 'align':
                _, n = p.tv()
            return Instr('alloca', dst, (t, n), s)
        if op == 'select':
            c = p.tv(); p.expect(','); a = p.tv(); p.expect(','); b = p.tv()
            return Instr('select', dst, (c, a, b), s)
        if op == 'phi':
            t = p.type()
            arms = []
            while True:
                p.expect('['); v = p.value(t); p.expect(','); l = p.next(); p.expect(']')
                arms.append((v, l))
                if not p.eat(','):
                    break
            return Instr('phi', dst, (t, arms), s)
        if op == 'br':
            if p.eat('label'):
                return Instr('br', None, (p.next(),), s)
            c = p.tv(); p.expect(','); p.expect('label'); a = p.next(); p.expect(','); p.expect('label'); b = p.next()
            return Instr('condbr', None, (c, a, b), s)
        if op == 'switch':
            v = p.tv(); p.expect(','); p.expect('label'); d = p.next(); p.expect('[')
            cases = []
            while not p.eat(']'):
                t = p.type(); cv = p.value(t); p.expect(','); p.expect('label')
                cases.append((cv[1], p.next()))
            return Instr('switch', None, (v, d, cases), s)
        if op == 'ret':
            if p.peek() == 'void':
                return Instr('ret', None, None, s)
            return Instr('ret', None, p.tv(), s)
        if op == 'unreachable' or op == 'resume':
            return Instr('unreachable', None, None, s)
        if op in ('call', 'invoke'):
            while True:
                x = p.peek()
                if x in FLAGS or x in ('fastcc', 'ccc'):
                    p.next()
                else:
                    p.skip_attrs()
                    if p.peek() == x:
                        break
            rt = p.type()
            p.skip_attrs()
            if rt[0] == 'fn':
                rt = rt[1]
            callee = p.next()
            args = []
            if callee == 'asm':
                return Instr('asm', dst, s, s)
            p.expect('(')
            while not p.eat(')'):
                t = p.type()
                p.skip_attrs()
                if t == ('metadata',):
                    d = 0
                    while d > 0 or p.peek() not in (',', ')'):
                        x = p.next()
                        d += (x == '(') - (x == ')')
                    args.append((t, ('undef',)))
                else:
                    args.append((t, p.value(t)))
                p.eat(',')
            if op == 'invoke':
                while p.peek() != 'to':
                    p.next()
                p.next(); p.expect('label')
                return Instr('invoke', dst, (rt, callee, args, p.next()), s)
            return Instr('call', dst, (rt, callee, args), s)
        if op in ('extractvalue',):
            v = p.tv()
            idx = []
            while p.eat(','):
                idx.append(int(p.next()))
            return Instr(op, dst, (v, idx), s)
        if op == 'insertvalue':
            v = p.tv(); p.expect(','); w = p.tv()
            idx = []
            while p.eat(','):
                idx.append(int(p.next()))
            return Instr(op, dst, (v, w, idx), s)
        if op == 'extractelement':
            v = p.tv(); p.expect(','); i = p.tv()
            return Instr(op, dst, (v, i), s)
        if op == 'insertelement':
            v = p.tv(); p.expect(','); w = p.tv(); p.expect(','); i = p.tv()
            return Instr(op, dst, (v, w, i), s)
        if op == 'shufflevector':
            v = p.tv(); p.expect(','); w = p.tv(); p.expect(','); m = p.tv()
            return Instr(op, dst, (v, w, m), s)
        if op == 'freeze':
            return Instr('freeze', dst, p.tv(), s)
        if op == 'fneg':
            return Instr('fneg', dst, p.tv(), s)
        raise SyntaxError('op ' + op)


def ipdoms(f):
    """immediate post-dominators, '%exit' is the virtual exit"""
    EXIT = '%exit'
    nodes = list(f.blocks)
    succ = {b: (f.succ[b] or [EXIT]) for b in nodes}
    allset = set(nodes) | {EXIT}
    pd = {b: set(allset) for b in nodes}
    pd[EXIT] = {EXIT}
    ch = True
    while ch:
        ch = False
        for b in reversed(nodes):
            # blocks that only abort (unreachable) should not hide joins: handled by caller
            s = set.intersection(*[pd[x] for x in succ[b]]) | {b}
            if s != pd[b]:
                pd[b] = s
                ch = True
    ip = {}
    for b in nodes:
        c = pd[b] - {b}
        # the closest: the one post-dominated by all the others
        best = EXIT
        for x in c:
            if all(y in pd[x] for y in c):
                best = x
                break
        ip[b] = best
    return ip
