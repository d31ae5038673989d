"""Parser for the textual LLVM IR (opaque pointers) emitted by clang."""
import re
import struct


class IRError(Exception):
    pass


# ---------------------------------------------------------------- types
# ('i',n) ('f',w) ('p',) ('v',n,t) ('a',n,t) ('s',(t,..),packed) ('void',)
# ('vs',n,t) scalable vector

VOID = ('void',)
PTR = ('p',)


def ivec(n, w):
    return ('v', n, ('i', w))


class Layout(object):
    def __init__(self):
        self.cache = {}

    def size(self, t):
        """store/alloc size in bytes"""
        r = self.cache.get(t)
        if r is not None:
            return r[0]
        self.cache[t] = self._c(t)
        return self.cache[t][0]

    def align(self, t):
        self.size(t)
        return self.cache[t][1]

    def _c(self, t):
        k = t[0]
        if k == 'i':
            b = (t[1] + 7) // 8
            a = 1
            while a < b:
                a *= 2
            a = min(a, 16)
            return ((b + a - 1) // a * a, a)
        if k == 'f':
            b = t[1] // 8
            return (b, b) if t[1] != 80 else (16, 16)
        if k == 'p':
            return (8, 8)
        if k == 'v':
            bits = self.bits(t[2]) * t[1]
            b = (bits + 7) // 8
            a = 1
            while a < b:
                a *= 2
            return (a, a)
        if k == 'a':
            return (self.size(t[2]) * t[1], self.align(t[2]))
        if k == 's':
            off = 0
            al = 1
            for x in t[1]:
                a = 1 if t[2] else self.align(x)
                off = (off + a - 1) // a * a
                off += self.size(x)
                al = max(al, a)
            off = (off + al - 1) // al * al
            return (off, al)
        raise IRError('size of %r' % (t,))

    def bits(self, t):
        if t[0] == 'i' or t[0] == 'f':
            return t[1]
        if t[0] == 'p':
            return 64
        if t[0] == 'v':
            return t[1] * self.bits(t[2])
        return self.size(t) * 8

    def offsets(self, t):
        off = 0
        out = []
        for x in t[1]:
            a = 1 if t[2] else self.align(x)
            off = (off + a - 1) // a * a
            out.append(off)
            off += self.size(x)
        return out


# ---------------------------------------------------------------- lexer

TOK = re.compile(r'''\s*(?:
   (c"(?:[^"\\]|\\.)*")
 | ([%@]"(?:[^"\\]|\\.)*"|[%@][-A-Za-z$._0-9]+)
 | ("(?:[^"\\]|\\.)*")
 | (-?[0-9]+\.[0-9]*(?:[eE][-+]?[0-9]+)?|0x[HKLMR]?[0-9A-Fa-f]+|-?[0-9]+)
 | ([A-Za-z_][-A-Za-z_0-9.$]*)
 | (\#[0-9]+)
 | (![-A-Za-z$._0-9]*)
 | (\.\.\.)
 | (.)
)''', re.X)


def lex(s):
    out = []
    for m in TOK.finditer(s):
        i = m.lastindex
        if i is None:
            continue
        out.append(m.group(i))
    return out


FTYPES = {'half': 16, 'bfloat': 16, 'float': 32, 'double': 64, 'x86_fp80': 80,
          'fp128': 128}

PARAM_ATTRS = set('''zeroext signext inreg byval byref inalloca sret nocapture
 noalias noundef nonnull readonly writeonly readnone returned align
 dereferenceable dereferenceable_or_null immarg nofree swiftself nest
 allocalign allocptr alignstack elementtype nofpclass captures writable
 dead_on_unwind preallocated'''.split())

FLAGS = set('''nuw nsw exact disjoint nneg fast nnan ninf nsz arcp contract
 afn reassoc inbounds volatile tail musttail notail'''.split())


class P(object):
    def __init__(self, mod, toks):
        self.m = mod
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else ''

    def next(self):
        r = self.t[self.i]
        self.i += 1
        return r

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def need(self, x):
        if not self.eat(x):
            raise IRError('expected %r got %r in %r' % (x, self.peek(), self.t))

    def end(self):
        return self.i >= len(self.t)

    def type(self):
        t = self._type()
        while True:
            if self.peek() == '(':
                # function type: skip
                d = 0
                while True:
                    x = self.next()
                    if x == '(':
                        d += 1
                    elif x == ')':
                        d -= 1
                        if d == 0:
                            break
                t = ('fn', t)
                continue
            return t

    def _type(self):
        x = self.next()
        if x[0] == 'i' and x[1:].isdigit():
            return ('i', int(x[1:]))
        if x in FTYPES:
            return ('f', FTYPES[x])
        if x == 'ptr':
            if self.peek() == 'addrspace':
                self.next()
                self.need('(')
                self.next()
                self.need(')')
            return PTR
        if x == 'void':
            return VOID
        if x in ('metadata', 'token', 'label', 'opaque'):
            return (x,)
        if x == '<':
            if self.peek() == '{':
                self.next()
                r = self._struct(True)
                self.need('>')
                return r
            if self.peek() == 'vscale':
                self.next()
                self.need('x')
                n = int(self.next())
                self.need('x')
                t = self.type()
                self.need('>')
                return ('vs', n, t)
            n = int(self.next())
            self.need('x')
            t = self.type()
            self.need('>')
            return ('v', n, t)
        if x == '[':
            n = int(self.next())
            self.need('x')
            t = self.type()
            self.need(']')
            return ('a', n, t)
        if x == '{':
            return self._struct(False)
        if x[0] == '%':
            return self.m.named(x)
        if x == 'target':
            self.need('(')
            while not self.eat(')'):
                self.next()
            return ('target',)
        raise IRError('type %r' % x)

    def _struct(self, packed):
        ts = []
        if self.eat('}'):
            return ('s', (), packed)
        while True:
            ts.append(self.type())
            if self.eat(','):
                continue
            self.need('}')
            return ('s', tuple(ts), packed)

    # ------------------------------------------------ operands
    # ('r',name) local; ('c',value) const scalars: ints/float bits
    # ('g',name) global; ('null',) ('undef',) ('zero',)
    # ('vec',[ops]) ('agg',[ops]) ('gep', ...) ('str', bytes) ('castop',..)
    def attrs(self):
        a = {}
        while True:
            x = self.peek()
            if x in PARAM_ATTRS:
                self.next()
                if self.peek() == '(':
                    self.next()
                    if x in ('sret', 'byval', 'byref', 'elementtype',
                             'inalloca', 'preallocated'):
                        a[x] = self.type()
                    else:
                        d = 1
                        v = []
                        while d:
                            y = self.next()
                            if y == '(':
                                d += 1
                            elif y == ')':
                                d -= 1
                            else:
                                v.append(y)
                        a[x] = v
                        continue
                    self.need(')')
                elif x == 'align':
                    a[x] = int(self.next())
                else:
                    a[x] = True
            elif x.startswith('"') or x.startswith('#'):
                self.next()
                if self.eat('='):
                    self.next()
            else:
                return a

    def value(self, t):
        x = self.next()
        c = x[0]
        if c == '%':
            return ('r', x)
        if c == '@':
            return ('g', x)
        if t[0] == 'f' and (c in '-0123456789'):
            return ('c', self.fconst(x, t[1]))
        if c.isdigit() or c == '-':
            return ('c', int(x) & ((1 << t[1]) - 1))
        if x == 'true':
            return ('c', 1)
        if x == 'false':
            return ('c', 0)
        if x == 'null':
            return ('null',)
        if x in ('undef', 'poison'):
            return ('undef', x)
        if x == 'zeroinitializer':
            return ('zero',)
        if x == 'none':
            return ('undef', 'poison')
        if x == '<' or x == '[' or x == '{':
            if x == '<' and self.peek() == '{':
                self.next()
                es = self._elems('}')
                self.need('>')
                return ('agg', es)
            close = {'<': '>', '[': ']', '{': '}'}[x]
            es = self._elems(close)
            return ('vec' if x == '<' else 'agg', es)
        if c == 'c' and x.startswith('c"'):
            s = x[2:-1]
            b = re.sub(r'\\([0-9A-Fa-f]{2})',
                       lambda m: chr(int(m.group(1), 16)), s)
            return ('str', b.encode('latin1'))
        if x == 'getelementptr':
            while self.peek() in FLAGS or self.peek() == 'inrange':
                self.next()
            self.need('(')
            et = self.type()
            self.need(',')
            ops = []
            while True:
                if self.peek() == 'inrange':
                    self.next()
                    if self.eat('('):
                        while not self.eat(')'):
                            self.next()
                ty = self.type()
                ops.append((ty, self.value(ty)))
                if self.eat(','):
                    continue
                self.need(')')
                break
            return ('gep', et, ops)
        if x in ('bitcast', 'inttoptr', 'ptrtoint', 'trunc', 'zext', 'sext',
                 'addrspacecast'):
            self.need('(')
            st = self.type()
            v = self.value(st)
            self.need('to')
            dt = self.type()
            self.need(')')
            return ('cast', x, st, v, dt)
        if x in ('add', 'sub', 'mul', 'xor', 'and', 'or', 'shl', 'lshr'):
            while self.peek() in FLAGS:
                self.next()
            self.need('(')
            st = self.type()
            a = self.value(st)
            self.need(',')
            st2 = self.type()
            b = self.value(st2)
            self.need(')')
            return ('bin', x, st, a, b)
        if x == 'splat':
            self.need('(')
            st = self.type()
            a = self.value(st)
            self.need(')')
            return ('splat', (st, a))
        raise IRError('value %r of type %r in %r' % (x, t, self.t))

    def _elems(self, close):
        es = []
        if self.eat(close):
            return es
        while True:
            ty = self.type()
            es.append((ty, self.value(ty)))
            if self.eat(','):
                continue
            self.need(close)
            return es

    @staticmethod
    def fconst(x, w):
        if x.startswith('0x'):
            if x[2] in 'HRKLM':
                return int(x[3:], 16)
            d = int(x[2:], 16)
            if w == 64:
                return d
            f = struct.unpack('<d', struct.pack('<Q', d))[0]
            if w == 32:
                # signalling NaN payload must be kept
                if (d >> 52) & 0x7ff == 0x7ff:
                    return ((d >> 63) << 31) | 0x7f800000 | \
                        ((d >> 29) & 0x7fffff)
                return struct.unpack('<I', struct.pack('<f', f))[0]
            raise IRError('fconst ' + x)
        f = float(x)
        if w == 64:
            return struct.unpack('<Q', struct.pack('<d', f))[0]
        if w == 32:
            return struct.unpack('<I', struct.pack('<f', f))[0]
        if w == 16:
            return struct.unpack('<H', struct.pack('<e', f))[0]
        raise IRError('fconst')


class Ins(object):
    __slots__ = ('op', 'res', 'a', 'line')

    def __init__(self, op, res, a, line):
        self.op = op
        self.res = res
        self.a = a
        self.line = line


class Block(object):
    __slots__ = ('name', 'phis', 'ins', 'term')

    def __init__(self, name):
        self.name = name
        self.phis = []
        self.ins = []
        self.term = None


class Fn(object):
    def __init__(self, mod, name, head, body):
        self.mod = mod
        self.name = name
        self.head = head
        self.body = body
        self._parsed = False

    def parse_head(self):
        if hasattr(self, 'params'):
            return
        s = self.head
        i = s.index('@')
        # return type: parse from 'define' skipping linkage words
        toks = lex(s[len('define'):] if s.startswith('define') else
                   s[len('declare'):])
        p = P(self.mod, toks)
        skip = set('''private internal available_externally linkonce weak common
          appending extern_weak linkonce_odr weak_odr external default hidden
          protected dllimport dllexport dso_local dso_preemptable fastcc ccc
          coldcc unnamed_addr local_unnamed_addr'''.split())
        while p.peek() in skip:
            p.next()
        self.rattrs = p.attrs()
        t = p._type()
        self.rtype = t
        p.next()  # name
        p.need('(')
        self.params = []
        self.vararg = False
        if not p.eat(')'):
            while True:
                if p.eat('...'):
                    self.vararg = True
                else:
                    ty = p.type()
                    at = p.attrs()
                    nm = p.next() if p.peek()[:1] == '%' else None
                    self.params.append((ty, nm, at))
                if p.eat(','):
                    continue
                p.need(')')
                break

    def parse(self):
        if self._parsed:
            return self
        self.parse_head()
        self.blocks = {}
        self.order = []
        k = 0
        for (ty, nm, at) in self.params:
            if nm is None:
                self.params[k] = (ty, '%' + str(k), at)
            k += 1
        cur = None
        lines = self.body
        i = 0
        while i < len(lines):
            ln = lines[i]
            i += 1
            if not ln or ln.isspace():
                continue
            s = ln.strip()
            if s.startswith(';'):
                continue
            if ln[0] not in ' \t' and ':' in s:
                name = s.split(':')[0]
                if name.startswith('"'):
                    name = name
                cur = Block('%' + name)
                self.blocks[cur.name] = cur
                self.order.append(cur.name)
                continue
            if cur is None:
                cur = Block('%' + str(len(self.params)))
                # entry block label is implicit: number after unnamed params
                n_un = sum(1 for (_, nm, _) in self.params
                           if nm and nm[1:].isdigit())
                cur = Block('%' + str(n_un))
                self.blocks[cur.name] = cur
                self.order.append(cur.name)
            if s.startswith('switch') and ']' not in s:
                while ']' not in lines[i]:
                    s += ' ' + lines[i].strip()
                    i += 1
                s += ' ' + lines[i].strip()
                i += 1
            if s.startswith('invoke') or ' = invoke' in s or \
                    'landingpad' in s:
                while i < len(lines) and lines[i].startswith('          '):
                    s += ' ' + lines[i].strip()
                    i += 1
            ins = self.parse_ins(s)
            if ins is None:
                continue
            if ins.op == 'phi':
                cur.phis.append(ins)
            elif ins.op in ('ret', 'br', 'switch', 'unreachable', 'invoke',
                            'resume', 'indirectbr'):
                cur.term = ins
            else:
                cur.ins.append(ins)
        self.entry = self.order[0]
        self._parsed = True
        return self

    def parse_ins(self, s):
        j = s.find(', !')
        if j >= 0 and 'metadata' not in s:
            s = s[:j]
        toks = lex(s)
        p = P(self.mod, toks)
        res = None
        if toks[0][0] == '%' and p.peek(1) == '=':
            res = toks[0]
            p.i = 2
        op = p.next()
        while op in ('tail', 'musttail', 'notail'):
            op = p.next()
        flags = set()
        if op not in ('call', 'invoke'):
            while p.peek() in FLAGS or p.peek() == 'atomic':
                flags.add(p.next())
        m = getattr(self, 'p_' + op, None)
        if m is None:
            if op in BINOPS:
                m = self._bin
            elif op in CASTS:
                m = self._cast
            else:
                return Ins('unsupported', res, (op, s), s)
        return Ins(op, res, m(p, flags), s)

    def _bin(self, p, flags):
        t = p.type()
        a = p.value(t)
        p.need(',')
        b = p.value(t)
        return (t, a, b, flags)

    def _cast(self, p, flags):
        t = p.type()
        a = p.value(t)
        p.need('to')
        return (t, a, p.type(), flags)

    def p_fneg(self, p, flags):
        t = p.type()
        return (t, p.value(t))

    def p_freeze(self, p, flags):
        t = p.type()
        return (t, p.value(t))

    def p_icmp(self, p, flags):
        pr = p.next()
        t = p.type()
        a = p.value(t)
        p.need(',')
        return (pr, t, a, p.value(t))

    p_fcmp = p_icmp

    def p_select(self, p, flags):
        ct = p.type()
        c = p.value(ct)
        p.need(',')
        t = p.type()
        a = p.value(t)
        p.need(',')
        t2 = p.type()
        return (ct, c, t, a, p.value(t2))

    def p_phi(self, p, flags):
        t = p.type()
        inc = []
        while True:
            p.need('[')
            v = p.value(t)
            p.need(',')
            b = p.next()
            p.need(']')
            inc.append((v, b))
            if not p.eat(','):
                break
        return (t, inc)

    def p_alloca(self, p, flags):
        if p.peek() == 'inalloca':
            p.next()
        t = p.type()
        n = None
        al = None
        while p.eat(','):
            if p.eat('align'):
                al = int(p.next())
            elif p.peek() == 'addrspace':
                p.next(); p.next(); p.next(); p.next()
            else:
                nt = p.type()
                n = (nt, p.value(nt))
        return (t, n, al)

    def p_load(self, p, flags):
        t = p.type()
        p.need(',')
        p.type()
        a = p.value(PTR)
        al = None
        while p.eat(','):
            if p.eat('align'):
                al = int(p.next())
        return (t, a, al, flags)

    def p_store(self, p, flags):
        t = p.type()
        v = p.value(t)
        p.need(',')
        p.type()
        a = p.value(PTR)
        al = None
        while p.eat(','):
            if p.eat('align'):
                al = int(p.next())
        return (t, v, a, al, flags)

    def p_getelementptr(self, p, flags):
        t = p.type()
        p.need(',')
        ops = []
        while True:
            ty = p.type()
            ops.append((ty, p.value(ty)))
            if not p.eat(','):
                break
        return (t, ops, flags)

    def p_extractelement(self, p, flags):
        t = p.type()
        v = p.value(t)
        p.need(',')
        it = p.type()
        return (t, v, it, p.value(it))

    def p_insertelement(self, p, flags):
        t = p.type()
        v = p.value(t)
        p.need(',')
        et = p.type()
        e = p.value(et)
        p.need(',')
        it = p.type()
        return (t, v, et, e, it, p.value(it))

    def p_shufflevector(self, p, flags):
        t = p.type()
        a = p.value(t)
        p.need(',')
        p.type()
        b = p.value(t)
        p.need(',')
        mt = p.type()
        return (t, a, b, mt, p.value(mt))

    def p_extractvalue(self, p, flags):
        t = p.type()
        v = p.value(t)
        idx = []
        while p.eat(','):
            idx.append(int(p.next()))
        return (t, v, idx)

    def p_insertvalue(self, p, flags):
        t = p.type()
        v = p.value(t)
        p.need(',')
        et = p.type()
        e = p.value(et)
        idx = []
        while p.eat(','):
            idx.append(int(p.next()))
        return (t, v, et, e, idx)

    def _callee(self, p):
        cc = set('''fastcc ccc coldcc tailcc cc aarch64_vector_pcs
          aarch64_sve_vector_pcs x86_vectorcallcc'''.split())
        while p.peek() in FLAGS or p.peek() in cc:
            p.next()
        ra = p.attrs()
        rt = p.type()
        if rt[0] == 'fn':
            rt = rt[1]
        if p.peek() == 'asm':
            return (rt, ('asm',), [], ra)
        c = p.value(PTR)
        p.need('(')
        args = []
        if not p.eat(')'):
            while True:
                ty = p.type()
                at = p.attrs()
                if ty == ('metadata',):
                    d = 0
                    while True:
                        y = p.peek()
                        if d == 0 and y in (',', ')'):
                            break
                        if y == '(':
                            d += 1
                        elif y == ')':
                            d -= 1
                        p.next()
                    args.append((ty, None, at))
                else:
                    args.append((ty, p.value(ty), at))
                if p.eat(','):
                    continue
                p.need(')')
                break
        return (rt, c, args, ra)

    def p_call(self, p, flags):
        return self._callee(p)

    def p_invoke(self, p, flags):
        r = self._callee(p)
        while p.peek() != 'to':
            p.next()
        p.need('to')
        p.need('label')
        ok = p.next()
        p.need('unwind')
        p.need('label')
        return r + (ok, p.next())

    def p_ret(self, p, flags):
        t = p.type()
        if t == VOID:
            return (t, None)
        return (t, p.value(t))

    def p_br(self, p, flags):
        if p.eat('label'):
            return (None, p.next(), None)
        t = p.type()
        c = p.value(t)
        p.need(',')
        p.need('label')
        a = p.next()
        p.need(',')
        p.need('label')
        return (c, a, p.next())

    def p_switch(self, p, flags):
        t = p.type()
        v = p.value(t)
        p.need(',')
        p.need('label')
        d = p.next()
        p.need('[')
        cases = []
        while not p.eat(']'):
            ct = p.type()
            cv = p.value(ct)
            p.need(',')
            p.need('label')
            cases.append((cv[1], p.next()))
        return (t, v, d, cases)

    def p_unreachable(self, p, flags):
        return ()

    def p_resume(self, p, flags):
        return ()

    def p_landingpad(self, p, flags):
        return (p.type(),)

    def p_fence(self, p, flags):
        return ()

    # ------------------------------------------------ control-flow analysis
    def succs(self, b):
        t = self.blocks[b].term
        if t.op == 'br':
            c, a, d = t.a
            return [a] if c is None else [a, d]
        if t.op == 'switch':
            return [t.a[2]] + [x[1] for x in t.a[3]]
        if t.op == 'invoke':
            return [t.a[-2]]      # exceptional edge handled separately
        return []

    def ipdom(self):
        """immediate postdominators (None = function exit)"""
        if hasattr(self, '_ipdom'):
            return self._ipdom
        EXIT = ''
        # reverse graph postorder
        succ = {b: self.succs(b) or [EXIT] for b in self.order}
        for b in self.order:
            t = self.blocks[b].term
            if t.op in ('unreachable', 'resume'):
                succ[b] = []
        pred = {b: [] for b in self.order}
        pred[EXIT] = []
        for b, ss in succ.items():
            for s in ss:
                pred[s].append(b)
        order = []
        seen = set([EXIT])
        st = [(EXIT, iter(pred[EXIT]))]
        while st:
            n, it = st[-1]
            for x in it:
                if x not in seen:
                    seen.add(x)
                    st.append((x, iter(pred[x])))
                    break
            else:
                order.append(n)
                st.pop()
        num = {n: i for i, n in enumerate(order)}
        idom = {EXIT: EXIT}
        ch = True

        def inter(a, b):
            while a != b:
                while num[a] < num[b]:
                    a = idom[a]
                while num[b] < num[a]:
                    b = idom[b]
            return a
        while ch:
            ch = False
            for n in reversed(order):
                if n == EXIT:
                    continue
                new = None
                for s in succ[n]:
                    if s in idom:
                        new = s if new is None else inter(s, new)
                if new is not None and idom.get(n) != new:
                    idom[n] = new
                    ch = True
        r = {b: (idom.get(b) or None) for b in self.order}
        self._ipdom = r
        return r


BINOPS = set('''add sub mul udiv sdiv urem srem and or xor shl lshr ashr fadd
 fsub fmul fdiv frem'''.split())
CASTS = set('''trunc zext sext bitcast fptosi fptoui sitofp uitofp fpext
 fptrunc ptrtoint inttoptr addrspacecast'''.split())


class Module(object):
    def __init__(self, text):
        self.fns = {}
        self.decls = {}
        self.types = {}
        self.globals_txt = {}
        self.globals_ = {}
        self._named = {}
        self.layout = Layout()
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            i += 1
            if not ln:
                continue
            c = ln[0]
            if c == 'd':
                if ln.startswith('define'):
                    m = re.search(r'@("[^"]*"|[-A-Za-z$._0-9]+)\(', ln)
                    nm = '@' + m.group(1)
                    st = i
                    while lines[i] != '}':
                        i += 1
                    self.fns[nm] = Fn(self, nm, ln, lines[st:i])
                    i += 1
                elif ln.startswith('declare'):
                    m = re.search(r'@("[^"]*"|[-A-Za-z$._0-9]+)\(', ln)
                    if m:
                        self.decls['@' + m.group(1)] = ln
            elif c == '%':
                m = re.match(r'(%"[^"]*"|%[-A-Za-z$._0-9]+) = type (.*)$', ln)
                if m:
                    self.types[m.group(1)] = m.group(2)
            elif c == '@':
                m = re.match(r'(@"[^"]*"|@[-A-Za-z$._0-9]+) = (.*)$', ln)
                if m:
                    self.globals_txt[m.group(1)] = m.group(2)

    def named(self, x):
        r = self._named.get(x)
        if r is None:
            if x not in self.types:
                raise IRError('unknown type ' + x)
            txt = self.types[x]
            if txt == 'opaque':
                r = ('opaque',)
            else:
                r = P(self, lex(txt)).type()
            self._named[x] = r
        return r

    def glob(self, name):
        """-> (type, initialiser operand or None, is_constant, align)"""
        r = self.globals_.get(name)
        if r is None:
            txt = self.globals_txt[name]
            toks = lex(txt)
            p = P(self, toks)
            ext_ = False
            while p.peek() not in ('global', 'constant', 'alias'):
                x = p.next()
                if x in ('external', 'extern_weak'):
                    ext_ = True
                if p.end():
                    raise IRError('global ' + name)
            kind = p.next()
            t = p.type()
            init = None
            if not ext_ and kind != 'alias':
                init = p.value(t)
            al = None
            m = re.search(r'align (\d+)', txt)
            if m:
                al = int(m.group(1))
            r = (t, init, kind == 'constant', al)
            self.globals_[name] = r
        return r
