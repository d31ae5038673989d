"""Symbolic execution of LLVM IR functions: the verification-condition
generator.  It runs a function on symbolic inputs, merging states at immediate
post-dominators, so that one run yields for every output byte a closed
expression in the inputs (no path enumeration, no bound other than loops whose
trip count is a compile-time constant), together with the safety obligations
met on the way (bounds, alignment, validity of each access, division by zero,
shift ranges, reachability of 'unreachable')."""
import sys
from . import expr as E
from .expr import N, const, ext, cat, zx, sx, mkbin, ite, and_, or_, not_
from .ir import IRError, PTR, VOID

sys.setrecursionlimit(20000)


class Unsupported(Exception):
    pass


class Obj(object):
    _n = [0]

    def __init__(self, name, size, align=1, writable=True, valid=None,
                 unbounded=False, local=False):
        Obj._n[0] += 1
        self.id = Obj._n[0]
        self.name = name
        self.size = size          # bytes, None when unbounded
        self.align = align
        self.writable = writable
        self.valid = valid        # per byte 1-bit node: access allowed
        self.unbounded = unbounded
        self.local = local
        self.canon = None         # f(off) -> provably equal offset
        self.access_hook = None   # f(ex, st, off, n, is_store)
        self.arr = None           # element size of an array (see loops.py)

    def __repr__(self):
        return '<obj %s>' % self.name


class Ptr(object):
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return 'Ptr(%r)' % (self.alts,)


def mkptr(obj, off=0):
    if isinstance(off, int):
        off = const(off, 64)
    return Ptr([(E.T(), obj, off)])


NULL = None


def null():
    return Ptr([(E.T(), None, const(0, 64))])


class State(object):
    __slots__ = ('mem', 'owned', 'pc', 'log', 'shared')

    def __init__(self):
        self.mem = {}
        self.owned = set()
        self.log = {}
        self.pc = E.T()

    def fork(self, c):
        s = State()
        s.mem = dict(self.mem)
        s.log = dict(self.log)
        self.owned = set()
        s.owned = set()
        s.pc = and_(self.pc, c)
        return s


class Obligation(object):
    __slots__ = ('kind', 'pc', 'cond', 'where')

    def __init__(self, kind, pc, cond, where):
        self.kind = kind
        self.pc = pc
        self.cond = cond
        self.where = where


class Exec(object):
    def __init__(self, mod, intrinsics, contract_hook=None, max_blocks=60000,
                 check_ub=True):
        self.mod = mod
        self.L = mod.layout
        self.intr = intrinsics
        self.hook = contract_hook
        self.obl = []
        self.globals = {}
        self.visits = 0
        self.max_blocks = max_blocks
        self.stack = []
        self.terms = []           # (kind, pc) abnormal terminations
        self.check_ub = check_ub
        self.inlined = set()
        self.assume = []
        self.undefs = 0
        self.loop_hook = None
        self.feasible = None      # optional pc -> bool, used when unrolling

    # ------------------------------------------------------------ helpers
    def oblige(self, kind, st, cond, where=''):
        if cond.op == 'c' and cond.v == 1:
            return
        if st.pc.op == 'c' and st.pc.v == 0:
            return
        self.obl.append(Obligation(kind, st.pc, cond,
                                   where or (self.stack[-1] if self.stack
                                             else '')))

    def undef(self, t):
        k = t[0]
        if k in ('i', 'f'):
            self.undefs += 1
            return E.fresh('undef', t[1])
        if k == 'v' or k == 'a':
            return [self.undef(t[2]) for _ in range(t[1])]
        if k == 's':
            return [self.undef(x) for x in t[1]]
        if k == 'p':
            return null()
        raise Unsupported('undef %r' % (t,))

    def zero(self, t):
        k = t[0]
        if k in ('i', 'f'):
            return const(0, t[1])
        if k in ('v', 'a'):
            z = self.zero(t[2])
            return [z] * t[1] if k == 'v' else \
                [self.zero(t[2]) for _ in range(t[1])]
        if k == 's':
            return [self.zero(x) for x in t[1]]
        if k == 'p':
            return null()
        raise Unsupported('zero %r' % (t,))

    # flat bits of a value (memory image), lsb-first list of nodes
    def flat(self, t, v):
        k = t[0]
        if k in ('i', 'f'):
            return [v]
        if k == 'v':
            if t[2] == PTR:
                raise Unsupported('vector of pointers in memory')
            return list(v)
        raise Unsupported('flat %r' % (t,))

    def bits_of(self, t, v):
        if t[0] in ('i', 'f'):
            return v
        if t[0] == 'v':
            return cat(list(v))
        raise Unsupported('bits of %r' % (t,))

    def from_bits(self, t, b):
        if t[0] in ('i', 'f'):
            return b
        if t[0] == 'v':
            w = self.L.bits(t[2])
            return [ext(b, i * w, w) for i in range(t[1])]
        raise Unsupported('from_bits %r' % (t,))

    def bitcast(self, st_, v, dt):
        if st_ == dt:
            return v
        if st_[0] == 'p' and dt[0] == 'p':
            return v
        # lane-wise fast paths
        if st_[0] == 'v':
            sw = self.L.bits(st_[2])
            lanes = v
        else:
            sw = self.L.bits(st_)
            lanes = [v]
        if dt[0] == 'v':
            dw = self.L.bits(dt[2])
            if dw == sw:
                out = list(lanes)
            elif dw < sw and sw % dw == 0:
                out = []
                for x in lanes:
                    for j in range(sw // dw):
                        out.append(ext(x, j * dw, dw))
            elif dw % sw == 0:
                k = dw // sw
                out = [cat(lanes[i * k:(i + 1) * k])
                       for i in range(len(lanes) // k)]
            else:
                b = cat(list(lanes))
                out = [ext(b, i * dw, dw) for i in range(dt[1])]
            return out
        return cat(list(lanes)) if len(lanes) > 1 else lanes[0]

    # ------------------------------------------------------------ memory
    def new_obj(self, st, name, size, **kw):
        o = Obj(name, size, **kw)
        if not o.unbounded:
            st.mem[o.id] = [None] * size
            st.owned.add(o.id)
        else:
            st.log[o.id] = ()
        return o

    def cells(self, st, o):
        return st.mem[o.id]

    def wcells(self, st, o):
        if o.id not in st.owned:
            st.mem[o.id] = list(st.mem[o.id])
            st.owned.add(o.id)
        return st.mem[o.id]

    def set_bytes(self, st, o, off, node):
        """unchecked initialisation"""
        c = self.wcells(st, o)
        for k in range(node.w // 8):
            c[off + k] = (node, k)

    def get_bytes(self, st, o, off, n):
        """unchecked read of a concrete range -> node"""
        return self._read(st, o, off, n)

    def _read(self, st, o, off, n):
        c = st.mem[o.id]
        x = c[off]
        if x is not None and not isinstance(x[0], N):
            raise Unsupported('pointer bytes read as integer')
        if x is not None and x[1] == 0 and x[0].w == 8 * n:
            nd = x[0]
            ok = True
            for k in range(1, n):
                y = c[off + k]
                if y is None or y[0] is not nd or y[1] != k:
                    ok = False
                    break
            if ok:
                return nd
        parts = []
        k = 0
        while k < n:
            x = c[off + k]
            if x is None:
                self.undefs += 1
                u = E.fresh('uninit', 8)
                if not o.local:
                    raise Unsupported('uninitialised input object')
                parts.append(u)
                k += 1
                continue
            nd, b = x
            if not isinstance(nd, N):
                raise Unsupported('pointer bytes read as integer')
            j = 1
            while k + j < n:
                y = c[off + k + j]
                if y is None or y[0] is not nd or y[1] != b + j:
                    break
                j += 1
            parts.append(ext(nd, 8 * b, 8 * j))
            k += j
        return cat(parts)

    def check_access(self, st, g, o, off, n, store, align, where):
        """g: guard of this alternative; returns False if surely invalid"""
        pc0 = st.pc
        kind = 'store' if store else 'load'

        def ob(k, cond):
            if not (g.op == 'c' and g.v == 1):
                cond = E.implies(g, cond)
            self.oblige(k, st, cond, where)
        if o is None:
            ob(kind + '-null', E.F())
            return False
        if align is not None and align > 1:
            al = o.align
            if off.op == 'c':
                while al > 1 and off.v % al:
                    al //= 2
                if al < align:
                    ob('align', E.F())
            else:
                if al < align:
                    ob('align', E.F())
                else:
                    m = align.bit_length() - 1
                    ob('align', E.eq(ext(off, 0, m), const(0, m)))
        if store and not o.writable:
            ob('store-readonly', E.F())
        if o.access_hook is not None:
            o.access_hook(self, st, g, o, off, n, store, where)
        if o.unbounded:
            return True
        if off.op == 'c':
            a = E.sgn(off.v, 64)
            if a < 0 or a + n > o.size:
                ob(kind + '-bounds', E.F())
                return False
            if o.valid is not None:
                for k in range(n):
                    ob(kind + '-valid', o.valid[a + k])
            return True
        ob(kind + '-bounds', E.ule(off, const(o.size - n, 64))
           if o.size >= n else E.F())
        if o.valid is not None:
            for s in range(0, o.size - n + 1):
                hit = E.eq(off, const(s, 64))
                ob(kind + '-valid',
                   E.implies(hit, and_(*[o.valid[s + k] for k in range(n)])))
        return True

    def load_bits(self, st, p, n, align=None, where=''):
        """n bytes at pointer -> node of 8n bits"""
        res = None
        for (g, o, off) in reversed(p.alts):
            ok = self.check_access(st, g, o, off, n, False, align, where)
            if not ok:
                v = E.fresh('badload', 8 * n)
            elif o.unbounded:
                v = self.read_log(st, o, off, n)
            elif off.op == 'c':
                v = self._read(st, o, off.v, n)
            else:
                v = self._read_sym(st, o, off, n)
            res = v if res is None else ite(g, v, res)
        return res

    def _read_sym(self, st, o, off, n):
        if o.size > 4096:
            raise Unsupported('symbolic offset into a large object')
        step = 1
        # offsets known multiple of a power of two?
        tz = trailing_zeros(off)
        step = 1 << min(tz, 6)
        v = None
        for s in range(0, o.size - n + 1, step):
            x = self._read(st, o, s, n)
            v = x if v is None else ite(E.eq(off, const(s, 64)), x, v)
        if v is None:
            return E.fresh('badload', 8 * n)
        return v

    def read_log(self, st, o, off, n):
        if o.arr:
            from . import loops
            return loops.read_arr(self, st, o, off, n)
        off = o.canon(off) if o.canon else off
        parts = []
        for k in range(n):
            a = E.add(off, const(k, 64))
            parts.append(self.log_byte(st.log[o.id], o, a))
        return cat(parts)

    def log_byte(self, log, o, a):
        v = E.uf('mem:' + o.name, [a], 8)
        for (g, eoff, m, nd) in log:
            d = E.sub(a, eoff)
            if d.op == 'c':
                if d.v < m:
                    v = ite(g, ext(nd, 8 * d.v, 8), v)
            else:
                for j in range(m):
                    v = ite(and_(g, E.eq(a, E.add(eoff, const(j, 64)))),
                            ext(nd, 8 * j, 8), v)
        return v

    def arr_store(self, o, off, n):
        if o.arr and (n % o.arr or (1 << trailing_zeros(off)) % o.arr):
            raise Unsupported('store of part of an element')

    def store_bits(self, st, p, node, align=None, where=''):
        n = node.w // 8
        for (g, o, off) in p.alts:
            ok = self.check_access(st, g, o, off, n, True, align, where)
            if not ok:
                continue
            full = g.op == 'c' and g.v == 1
            if o.unbounded:
                off = o.canon(off) if o.canon else off
                self.arr_store(o, off, n)
                st.log[o.id] = st.log[o.id] + ((g, off, n, node),)
            elif off.op == 'c':
                v = node
                if not full:
                    c = st.mem[o.id]
                    old = self._read(st, o, off.v, n)
                    v = ite(g, node, old)
                self.set_bytes(st, o, off.v, v)
            else:
                if o.size > 4096:
                    raise Unsupported('symbolic store into a large object')
                tz = trailing_zeros(off)
                step = 1 << min(tz, 6)
                for s in range(0, o.size - n + 1, step):
                    c = and_(g, E.eq(off, const(s, 64)))
                    if c.op == 'c' and c.v == 0:
                        continue
                    if step >= n or True:
                        old = self._read(st, o, s, n)
                        self.set_bytes(st, o, s, ite(c, node, old))

    def load(self, st, t, p, align=None, where=''):
        k = t[0]
        if k in ('i', 'f'):
            nb = (t[1] + 7) // 8
            b = self.load_bits(st, p, nb, align, where)
            return ext(b, 0, t[1])
        if k == 'v':
            if t[2] == PTR:
                return [self.load(st, PTR, self.padd(p, 8 * i), None, where)
                        for i in range(t[1])]
            ew = self.L.bits(t[2])
            tot = (ew * t[1] + 7) // 8
            if ew % 8:
                b = self.load_bits(st, p, tot, align, where)
                return [ext(b, i * ew, ew) for i in range(t[1])]
            if len(p.alts) == 1:
                (g, o, off) = p.alts[0]
                ok = self.check_access(st, g, o, off, tot, False, align, where)
                if ok and not o.unbounded and off.op == 'c':
                    return [self._read(st, o, off.v + i * ew // 8, ew // 8)
                            for i in range(t[1])]
                if ok and o.unbounded:
                    return [self.read_log(st, o, E.add(off, const(i * ew // 8,
                                                                  64)),
                                          ew // 8) for i in range(t[1])]
                if not ok:
                    return [E.fresh('badload', ew) for i in range(t[1])]
            b = self.load_bits(st, p, tot, align, where)
            return [ext(b, i * ew, ew) for i in range(t[1])]
        if k == 'p':
            return self.load_ptr(st, p, where)
        if k == 'a':
            es = self.L.size(t[2])
            return [self.load(st, t[2], self.padd(p, es * i), None, where)
                    for i in range(t[1])]
        if k == 's':
            return [self.load(st, x, self.padd(p, o), None, where)
                    for x, o in zip(t[1], self.L.offsets(t))]
        raise Unsupported('load %r' % (t,))

    def load_ptr(self, st, p, where):
        if len(p.alts) != 1:
            res = None
            for (g, o, off) in reversed(p.alts):
                v = self.load_ptr(st, Ptr([(E.T(), o, off)]), where)
                res = v if res is None else pite(g, v, res)
            return res
        (g, o, off) = p.alts[0]
        ok = self.check_access(st, g, o, off, 8, False, None, where)
        if not ok:
            return null()
        if o.unbounded or off.op != 'c':
            raise Unsupported('pointer load at symbolic address')
        c = st.mem[o.id][off.v]
        if c is None:
            return null()
        if isinstance(c[0], Ptr):
            return c[0]
        if isinstance(c[0], N):
            b = self._read(st, o, off.v, 8)
            if b.op == 'c' and b.v == 0:
                return null()
        raise Unsupported('load of non-pointer bytes as pointer')

    def store(self, st, t, v, p, align=None, where=''):
        k = t[0]
        if k in ('i', 'f'):
            nb = (t[1] + 7) // 8
            self.store_bits(st, p, zx(v, nb * 8), align, where)
            return
        if k == 'v':
            if t[2] == PTR:
                for i in range(t[1]):
                    self.store(st, PTR, v[i], self.padd(p, 8 * i), None, where)
                return
            ew = self.L.bits(t[2])
            if ew % 8:
                b = cat(list(v))
                self.store_bits(st, p, zx(b, (b.w + 7) // 8 * 8), align, where)
                return
            if len(p.alts) == 1 and p.alts[0][1] is not None and \
                    p.alts[0][2].op == 'c' and not p.alts[0][1].unbounded:
                (g, o, off) = p.alts[0]
                tot = ew * t[1] // 8
                if self.check_access(st, g, o, off, tot, True, align, where):
                    for i in range(t[1]):
                        self.set_bytes(st, o, off.v + i * ew // 8, v[i])
                return
            if len(p.alts) == 1 and p.alts[0][1] is not None and \
                    p.alts[0][1].unbounded:
                (g, o, off) = p.alts[0]
                tot = ew * t[1] // 8
                if self.check_access(st, g, o, off, tot, True, align, where):
                    lg = st.log[o.id]
                    for i in range(t[1]):
                        eo = E.add(off, const(i * ew // 8, 64))
                        self.arr_store(o, eo, ew // 8)
                        lg = lg + ((g, o.canon(eo) if o.canon else eo,
                                    ew // 8, v[i]),)
                    st.log[o.id] = lg
                return
            self.store_bits(st, p, cat(list(v)), align, where)
            return
        if k == 'p':
            if len(p.alts) != 1:
                raise Unsupported('pointer store through ambiguous pointer')
            (g, o, off) = p.alts[0]
            ok = self.check_access(st, g, o, off, 8, True, None, where)
            if ok:
                if o.unbounded or off.op != 'c':
                    raise Unsupported('pointer store at symbolic address')
                c = self.wcells(st, o)
                for j in range(8):
                    c[off.v + j] = (v, j)
            return
        if k == 'a':
            es = self.L.size(t[2])
            for i in range(t[1]):
                self.store(st, t[2], v[i], self.padd(p, es * i), None, where)
            return
        if k == 's':
            for x, o, y in zip(t[1], self.L.offsets(t), v):
                self.store(st, x, y, self.padd(p, o), None, where)
            return
        raise Unsupported('store %r' % (t,))

    def padd(self, p, off):
        if isinstance(off, int):
            if off == 0:
                return p
            off = const(off, 64)
        return Ptr([(g, o, E.add(f, off)) for (g, o, f) in p.alts])

    def memcpy(self, st, d, s, n, where='', move=False):
        if n.op != 'c':
            raise Unsupported('memcpy of symbolic size')
        n = n.v
        if n == 0:
            return
        if len(d.alts) != 1 or len(s.alts) != 1:
            b = self.load_bits(st, s, n, None, where)
            self.store_bits(st, d, b, None, where)
            return
        (_, so, sf) = s.alts[0]
        (_, do, df) = d.alts[0]
        ok1 = self.check_access(st, E.T(), so, sf, n, False, None, where)
        ok2 = self.check_access(st, E.T(), do, df, n, True, None, where)
        if not (ok1 and ok2):
            return
        if so.unbounded or do.unbounded or sf.op != 'c' or df.op != 'c':
            b = self.load_bits(st, s, n, None, where)
            self.store_bits(st, d, b, None, where)
            return
        src = st.mem[so.id][sf.v:sf.v + n]
        dst = self.wcells(st, do)
        dst[df.v:df.v + n] = src

    # ------------------------------------------------------------ operands
    def val(self, env, t, v, st):
        k = v[0]
        if k == 'r':
            try:
                return env[v[1]]
            except KeyError:
                raise Unsupported('undefined register ' + v[1])
        if k == 'c':
            return const(v[1], t[1])
        if k == 'undef':
            return self.undef(t)
        if k == 'zero':
            return self.zero(t)
        if k == 'null':
            return null()
        if k in ('vec', 'agg'):
            return [self.val(env, et, ev, st) for (et, ev) in v[1]]
        if k == 'g':
            return self.global_ptr(v[1], st)
        if k == 'str':
            return [const(b, 8) for b in v[1]]
        if k == 'gep':
            return self.gep(env, v[1], v[2], st)
        if k == 'cast':
            x = self.val(env, v[2], v[3], st)
            return self.cast(v[1], v[2], x, v[4], st)
        if k == 'bin':
            a = self.val(env, v[2], v[3], st)
            b = self.val(env, v[2], v[4], st)
            return self.binop(v[1], v[2], a, b, (), st)
        if k == 'splat':
            x = self.val(env, v[1][0], v[1][1], st)
            return [x] * t[1]
        raise Unsupported('operand %r' % (v,))

    def global_ptr(self, name, st):
        o = self.globals.get(name)
        if o is None:
            if name in self.mod.fns or name in self.mod.decls:
                o = Obj(name, 0)
                o.fn = name
                self.globals[name] = o
                st.mem[o.id] = []
                return mkptr(o)
            t, init, isconst, al = self.mod.glob(name)
            try:
                size = self.L.size(t)
            except IRError:
                size = 8
            o = Obj(name, size, align=al or 1, writable=not isconst)
            self.globals[name] = o
            o.init = (t, init)
            o.isconst = isconst
        if o.id not in st.mem:
            st.mem[o.id] = [None] * o.size
            st.owned.add(o.id)
            t, init = o.init
            if init is not None:
                w = o.writable
                o.writable = True
                self.store(st, t, self.val({}, t, init, st), mkptr(o))
                o.writable = w
            else:
                for i in range(o.size):
                    self.set_bytes(st, o, i, E.var('%s[%d]' % (name, i), 8))
        return mkptr(o)

    def gep(self, env, et, ops, st):
        base = self.val(env, ops[0][0], ops[0][1], st)
        if isinstance(base, list) or any(t[0] == 'v' for t, _ in ops[1:]):
            n = [t[1] for t, _ in ops if t[0] == 'v'][0]
            out = []
            for i in range(n):
                b = base[i] if isinstance(base, list) else base
                idx = []
                for (t, v) in ops[1:]:
                    x = self.val(env, t, v, st)
                    if t[0] == 'v':
                        x = x[i]
                    idx.append(x)
                out.append(self._gep1(b, et, idx))
            return out
        return self._gep1(base, et,
                          [self.val(env, t, v, st) for t, v in ops[1:]])

    def _gep1(self, base, et, idx):
        off = const(0, 64)
        t = et
        first = True
        for x in idx:
            x = sx(x, 64) if x.w < 64 else ext(x, 0, 64)
            if first:
                off = E.add(off, E.mul(x, const(self.L.size(t), 64)))
                first = False
            elif t[0] in ('a', 'v'):
                t = t[2]
                off = E.add(off, E.mul(x, const(self.L.size(t), 64)))
            elif t[0] == 's':
                if x.op != 'c':
                    raise Unsupported('symbolic struct index')
                off = E.add(off, const(self.L.offsets(t)[x.v], 64))
                t = t[1][x.v]
            else:
                raise Unsupported('gep into %r' % (t,))
        return self.padd(base, off)

    # ------------------------------------------------------------ arithmetic
    def binop(self, op, t, a, b, flags, st, where=''):
        if t[0] == 'v':
            return [self.binop1(op, t[2], x, y, flags, st, where)
                    for x, y in zip(a, b)]
        return self.binop1(op, t, a, b, flags, st, where)

    def binop1(self, op, t, a, b, flags, st, where):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            raise Unsupported('arithmetic on pointer')
        w = a.w
        if op[0] == 'f':
            if op == 'fsub' and a.op == 'c' and a.v == 1 << (w - 1):
                # -0.0 - b
                return E.f_neg(b)
            if op == 'frem':
                return E.uf('frem%d' % w, [a, b], w)
            return E.fop(op, [a, b], w)
        if self.check_ub:
            if op in ('udiv', 'sdiv', 'urem', 'srem'):
                c = E.ne(b, const(0, w))
                if op[0] == 's':
                    c = and_(c, not_(and_(E.eq(a, const(1 << (w - 1), w)),
                                          E.eq(b, const(-1, w)))))
                self.oblige('div', st, c, where)
            elif op in ('shl', 'lshr', 'ashr'):
                self.oblige('shift-range', st, E.ult(b, const(w, w))
                            if w & (w - 1) or w >= 1 else E.T(), where)
            if 'nsw' in flags and op in ('add', 'sub', 'mul'):
                self.nsw(op, a, b, st, where)
        return mkbin(op, a, b)

    def nsw(self, op, a, b, st, where):
        if getattr(self, 'check_nsw', False):
            w = a.w
            if op == 'mul':
                r = mkbin('mul', sx(a, 2 * w), sx(b, 2 * w))
            else:
                r = mkbin(op, sx(a, w + 1), sx(b, w + 1))
            self.oblige('signed-overflow', st,
                        E.eq(r, sx(ext(r, 0, w), r.w)), where)

    def cast(self, op, t, v, dt, st):
        if op == 'bitcast':
            return self.bitcast(t, v, dt)
        if op == 'addrspacecast':
            return v
        if t[0] == 'v':
            return [self.cast1(op, t[2], x, dt[2], st) for x in v]
        return self.cast1(op, t, v, dt, st)

    def cast1(self, op, t, v, dt, st):
        if op == 'trunc':
            return ext(v, 0, dt[1])
        if op == 'zext':
            return zx(v, dt[1])
        if op == 'sext':
            return sx(v, dt[1])
        if op == 'ptrtoint':
            r = None
            for (g, o, off) in reversed(v.alts):
                if o is None:
                    x = off
                else:
                    al = o.align.bit_length() - 1
                    base = E.var('addr:%s#%d' % (o.name, o.id), 64 - al)
                    base = cat([const(0, al), base]) if al else base
                    x = E.add(base, off)
                r = x if r is None else ite(g, x, r)
            return zx(r, dt[1])
        if op == 'inttoptr':
            if v.op == 'c' and v.v == 0:
                return null()
            raise Unsupported('inttoptr')
        if op in ('fptosi', 'fptoui'):
            return E.fop(op, [v], dt[1], 'trunc')
        return E.fop(op, [v], dt[1])

    def select(self, c, t, a, b):
        if isinstance(c, list):
            return [self.select(x, t[2], y, z) for x, y, z in zip(c, a, b)]
        return vite(c, a, b)

    # ------------------------------------------------------------ execution
    def call(self, name, args, st):
        fn = self.mod.fns.get(name)
        if fn is None:
            raise Unsupported('call of undefined function ' + name)
        fn.parse()
        self.inlined.add(name)
        if len(self.stack) > 200:
            raise Unsupported('recursion')
        self.stack.append(name)
        env = {}
        for (t, nm, at), a in zip(fn.params, args):
            if 'byval' in at:
                # callee owns a copy
                bt = at['byval']
                o = self.new_obj(st, 'byval', self.L.size(bt),
                                 align=max(self.L.align(bt),
                                           at.get('align', 1) or 1),
                                 local=True)
                self.memcpy(st, mkptr(o), a, const(self.L.size(bt), 64))
                a = mkptr(o)
            env[nm] = a
        r = self.region(fn, fn.entry, None, None, env, st)
        self.stack.pop()
        return r                   # (retval, state) or None when no return

    def phis(self, fn, blk, prev, env, st):
        b = fn.blocks[blk]
        if not b.phis:
            return
        new = []
        for i in b.phis:
            t, inc = i.a
            for v, pb in inc:
                if pb == prev:
                    new.append((i.res, self.val(env, t, v, st)))
                    break
            else:
                raise Unsupported('phi')
        for r, v in new:
            env[r] = v

    def region(self, fn, blk, prev, stop, env, st, skip_phi=False):
        """run from blk until control reaches `stop` (exclusive, its phis
        evaluated) or the function returns.  Returns (env, st) at stop, or
        (retval, st) when stop is None; None if no execution gets there."""
        while True:
            if blk == stop:
                if not skip_phi:
                    self.phis(fn, blk, prev, env, st)
                return (env, st)
            self.visits += 1
            if self.visits > self.max_blocks:
                raise Unsupported('loop bound exceeded (symbolic trip count?)')
            if self.loop_hook is not None:
                r = self.loop_hook(self, fn, blk, prev, env, st, skip_phi)
                if r is not None:
                    (blk, prev, env, st, skip_phi) = r
                    if blk is None:
                        return None
                    continue
            if not skip_phi:
                self.phis(fn, blk, prev, env, st)
            skip_phi = False
            b = fn.blocks[blk]
            for ins in b.ins:
                if self.step(fn, ins, env, st) is False:
                    return None
            t = b.term
            op = t.op
            if op == 'br':
                c, x, y = t.a
                if c is None:
                    prev, blk = blk, x
                    continue
                cv = self.val(env, ('i', 1), c, st)
                if cv.op == 'c':
                    prev, blk = blk, (x if cv.v else y)
                    continue
                # implied by the path condition (syntactic)
                cj = conjuncts(st.pc)
                if cv in cj:
                    prev, blk = blk, x
                    continue
                if not_(cv) in cj:
                    prev, blk = blk, y
                    continue
                if self.feasible is not None:
                    if not self.feasible(and_(st.pc, cv)):
                        prev, blk = blk, y
                        continue
                    if not self.feasible(and_(st.pc, not_(cv))):
                        prev, blk = blk, x
                        continue
                res = self.branch(fn, blk, [(cv, x), (not_(cv), y)], env, st,
                                  stop)
            elif op == 'switch':
                ty, v, d, cases = t.a
                vv = self.val(env, ty, v, st)
                if vv.op == 'c':
                    nx = d
                    for cv, lb in cases:
                        if cv == vv.v:
                            nx = lb
                            break
                    prev, blk = blk, nx
                    continue
                br = []
                rest = E.T()
                for cv, lb in cases:
                    e = E.eq(vv, const(cv, vv.w))
                    br.append((e, lb))
                    rest = and_(rest, not_(e))
                br.append((rest, d))
                res = self.branch(fn, blk, br, env, st, stop)
            elif op == 'ret':
                ty, v = t.a
                rv = None if v is None else self.val(env, ty, v, st)
                return (rv, st)
            elif op == 'unreachable':
                self.oblige('unreachable', st, E.F(),
                            '%s: %s' % (fn.name, t.line))
                return None
            elif op == 'invoke':
                rt, c, args, ra, ok, uw = t.a
                r = self.do_call(fn, (rt, c, args, ra), env, st, t)
                if r is False:
                    return None
                if t.res is not None:
                    env[t.res] = r
                prev, blk = blk, ok
                continue
            elif op == 'resume':
                self.terms.append(('throw', st.pc))
                return None
            else:
                raise Unsupported('terminator ' + op)
            # result of a branch
            if res is None:
                return None
            kind, a, b_ = res
            if kind == 'ret':
                return (a, b_)
            env, st, blk = a[0], a[1], b_
            skip_phi = True
            prev = None

    def branch(self, fn, blk, targets, env, st, stop):
        """fork over (cond, label) and merge at the immediate postdominator"""
        j = fn.ipdom()[blk]
        outs = []
        intact = True
        for k, (c, lb) in enumerate(targets):
            s2 = st.fork(c)
            if s2.pc.op == 'c' and s2.pc.v == 0:
                continue
            e2 = dict(env)
            # a join outside the current region cannot happen for reducible
            # control flow with single exit; stop is postdominating j
            pc0 = s2.pc
            r = self.region(fn, lb, blk, j, e2, s2)
            if r is not None:
                outs.append((c, r[0], r[1]))
                intact = intact and r[1].pc is pc0
            else:
                intact = False
        if not outs:
            return None
        # merge right to left
        c, a, s = outs[-1]
        for (c2, a2, s2) in reversed(outs[:-1]):
            s = merge_state(self, c2, s2, s)
            if j is None:
                a = None if a is None else vite(c2, a2, a)
            else:
                a = merge_env(c2, a2, a)
        if intact:
            s.pc = st.pc
        if j is None:
            return ('ret', a, s)
        return ('join', (a, s), j)

    def step(self, fn, ins, env, st):
        op = ins.op
        a = ins.a
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr',
                  'ashr', 'udiv', 'sdiv', 'urem', 'srem', 'fadd', 'fsub',
                  'fmul', 'fdiv', 'frem'):
            t, x, y, flags = a
            env[ins.res] = self.binop(op, t, self.val(env, t, x, st),
                                      self.val(env, t, y, st), flags, st,
                                      ins.line)
        elif op in ('trunc', 'zext', 'sext', 'bitcast', 'fptosi', 'fptoui',
                    'sitofp', 'uitofp', 'fpext', 'fptrunc', 'ptrtoint',
                    'inttoptr', 'addrspacecast'):
            t, x, dt, flags = a
            v = self.val(env, t, x, st)
            if op in ('fptosi', 'fptoui'):
                # out of range: undefined
                from .intr import in_range
                for y in (v if t[0] == 'v' else [v]):
                    w = (dt[2] if t[0] == 'v' else dt)
                    self.oblige('fp-range', st, in_range(
                        y, w[1],
                        op == 'fptosi', 'trunc'), ins.line)
            env[ins.res] = self.cast(op, t, v, dt, st)
        elif op == 'fneg':
            t, x = a
            v = self.val(env, t, x, st)
            env[ins.res] = [E.f_neg(y) for y in v] if t[0] == 'v' \
                else E.f_neg(v)
        elif op == 'freeze':
            env[ins.res] = self.val(env, a[0], a[1], st)
        elif op == 'icmp':
            pr, t, x, y = a
            x = self.val(env, t, x, st)
            y = self.val(env, t, y, st)
            env[ins.res] = [icmp(pr, p, q, self, st) for p, q in zip(x, y)] \
                if t[0] == 'v' else icmp(pr, x, y, self, st)
        elif op == 'fcmp':
            pr, t, x, y = a
            x = self.val(env, t, x, st)
            y = self.val(env, t, y, st)
            env[ins.res] = [E.fcmp(pr, p, q) for p, q in zip(x, y)] \
                if t[0] == 'v' else E.fcmp(pr, x, y)
        elif op == 'select':
            ct, c, t, x, y = a
            env[ins.res] = self.select(self.val(env, ct, c, st), t,
                                       self.val(env, t, x, st),
                                       self.val(env, t, y, st))
        elif op == 'alloca':
            t, n, al = a
            size = self.L.size(t)
            if n is not None:
                nv = self.val(env, n[0], n[1], st)
                if nv.op != 'c':
                    raise Unsupported('variable length array')
                size *= nv.v
            o = self.new_obj(st, ins.res, size, align=al or 1, local=True)
            env[ins.res] = mkptr(o)
        elif op == 'load':
            t, p, al, flags = a
            env[ins.res] = self.load(st, t, self.val(env, PTR, p, st), al,
                                     ins.line)
        elif op == 'store':
            t, v, p, al, flags = a
            self.store(st, t, self.val(env, t, v, st),
                       self.val(env, PTR, p, st), al, ins.line)
        elif op == 'getelementptr':
            t, ops, flags = a
            env[ins.res] = self.gep(env, t, ops, st)
        elif op == 'extractelement':
            t, v, it, i = a
            v = self.val(env, t, v, st)
            i = self.val(env, it, i, st)
            if i.op == 'c':
                env[ins.res] = v[i.v] if i.v < len(v) else self.undef(t[2])
            else:
                self.oblige('lane-index', st,
                            E.ult(i, const(len(v), i.w))
                            if len(v) < (1 << i.w) else E.T(), ins.line)
                r = v[-1]
                for k in range(len(v) - 2, -1, -1):
                    r = ite(E.eq(i, const(k, i.w)), v[k], r)
                env[ins.res] = r
        elif op == 'insertelement':
            t, v, et, e, it, i = a
            v = list(self.val(env, t, v, st))
            e = self.val(env, et, e, st)
            i = self.val(env, it, i, st)
            if i.op == 'c':
                v[i.v] = e
            else:
                v = [ite(E.eq(i, const(k, i.w)), e, x)
                     for k, x in enumerate(v)]
            env[ins.res] = v
        elif op == 'shufflevector':
            t, x, y, mt, m = a
            x = self.val(env, t, x, st)
            if m[0] == 'zero':
                env[ins.res] = [x[0]] * mt[1]
            elif m[0] == 'undef':
                env[ins.res] = self.undef(('v', mt[1], t[2]))
            else:
                yv = None
                out = []
                n = t[1]
                for (_, ev) in m[1]:
                    if ev[0] == 'undef':
                        out.append(self.undef(t[2]))
                    elif ev[0] == 'zero':
                        out.append(x[0])
                    else:
                        k = ev[1]
                        if k < n:
                            out.append(x[k])
                        else:
                            if yv is None:
                                yv = self.val(env, t, y, st)
                            out.append(yv[k - n])
                env[ins.res] = out
        elif op == 'extractvalue':
            t, v, idx = a
            v = self.val(env, t, v, st)
            for i in idx:
                v = v[i]
            env[ins.res] = v
        elif op == 'insertvalue':
            t, v, et, e, idx = a
            v = self.val(env, t, v, st)
            e = self.val(env, et, e, st)
            env[ins.res] = ins_val(v, e, idx)
        elif op == 'call':
            r = self.do_call(fn, a, env, st, ins)
            if r is False:
                return False
            if ins.res is not None:
                env[ins.res] = r
        elif op == 'fence':
            pass
        elif op == 'landingpad':
            env[ins.res] = self.undef(a[0])
        else:
            raise Unsupported('instruction ' + ins.line)
        return True

    def do_call(self, fn, a, env, st, ins):
        rt, c, args, ra = a
        if c[0] == 'asm':
            raise Unsupported('inline asm')
        if c[0] == 'g':
            name = c[1]
        else:
            p = self.val(env, PTR, c, st)
            if isinstance(p, Ptr) and len(p.alts) == 1 and \
                    getattr(p.alts[0][1], 'fn', None):
                name = p.alts[0][1].fn
            else:
                raise Unsupported('indirect call')
        if name.startswith('@llvm.'):
            if name.startswith(('@llvm.lifetime', '@llvm.dbg', '@llvm.assume',
                                '@llvm.experimental.noalias', '@llvm.prefetch',
                                '@llvm.invariant', '@llvm.stacksave',
                                '@llvm.stackrestore', '@llvm.donothing',
                                '@llvm.va_')):
                return self.undef(rt) if rt != VOID else None
        vals = [None if t == ('metadata',) else self.val(env, t, v, st)
                for (t, v, at) in args]
        types = [t for (t, v, at) in args]
        if self.hook is not None:
            r = self.hook(self, name, rt, types, vals,
                          [at for (_, _, at) in args], st)
            if r is not NotImplemented:
                return r
        if name in self.mod.fns:
            r = self.call(name, vals, st)
            if r is None:
                return False
            rv, st2 = r
            if st2 is not st:
                st.mem = st2.mem
                st.owned = st2.owned
                st.log = st2.log
                st.pc = st2.pc
            return rv
        r = self.intr.call(self, name, rt, types, vals, st, ins.line)
        if r is NotImplemented:
            raise Unsupported('external function ' + name)
        return r


def conjuncts(pc):
    out = set()
    st = [pc]
    while st:
        n = st.pop()
        if n.op == 'and' and n.w == 1:
            st.extend(n.args)
        else:
            out.add(n)
    return out


def trailing_zeros(n):
    op = n.op
    if op == 'c':
        return 64 if n.v == 0 else (n.v & -n.v).bit_length() - 1
    if op == 'cat':
        z = 0
        for p in n.args:
            k = trailing_zeros(p)
            if k < p.w:
                return z + k
            z += p.w
        return z
    if op in ('add', 'sub', 'or', 'xor'):
        return min(trailing_zeros(n.args[0]), trailing_zeros(n.args[1]))
    if op == 'mul':
        return min(64, trailing_zeros(n.args[0]) + trailing_zeros(n.args[1]))
    if op in ('sx', 'zx'):
        return trailing_zeros(n.args[0])
    if op == 'ite':
        return min(trailing_zeros(n.args[1]), trailing_zeros(n.args[2]))
    if op == 'shl' and n.args[1].op == 'c':
        return min(64, trailing_zeros(n.args[0]) + n.args[1].v)
    return 0


def ins_val(v, e, idx):
    v = list(v)
    if len(idx) == 1:
        v[idx[0]] = e
    else:
        v[idx[0]] = ins_val(v[idx[0]], e, idx[1:])
    return v


def pite(c, a, b):
    if a is b:
        return a
    if c.op == 'c':
        return a if c.v else b
    alts = {}
    order = []
    for (g, o, f), side in [(x, c) for x in a.alts] + \
                           [(x, not_(c)) for x in b.alts]:
        g = and_(side, g)
        if g.op == 'c' and g.v == 0:
            continue
        k = (None if o is None else o.id)
        if k in alts:
            g0, o0, f0 = alts[k]
            alts[k] = (or_(g0, g), o, ite(g, f, f0))
        else:
            alts[k] = (g, o, f)
            order.append(k)
    if len(order) == 1:
        g, o, f = alts[order[0]]
        return Ptr([(E.T(), o, f)])
    return Ptr([alts[k] for k in order])


def vite(c, a, b):
    if a is b:
        return a
    if isinstance(a, list):
        return [vite(c, x, y) for x, y in zip(a, b)]
    if isinstance(a, Ptr):
        return pite(c, a, b)
    return ite(c, a, b)


def merge_env(c, a, b):
    out = {}
    for k, x in a.items():
        if k in b:
            y = b[k]
            out[k] = x if x is y else vite(c, x, y)
    return out


def merge_state(ex, c, a, b):
    s = State()
    s.pc = or_(a.pc, b.pc)
    for k, x in a.mem.items():
        y = b.mem.get(k)
        if y is None or x is y:
            s.mem[k] = x
            continue
        out = []
        memo = {}
        for p, q in zip(x, y):
            if p is q or p == q:
                out.append(p)
                continue
            if p is None or q is None:
                # uninitialised on one side: take the initialised value (the
                # other side would be an undefined read)
                out.append(p if q is None else q)
                continue
            if isinstance(p[0], Ptr) or isinstance(q[0], Ptr):
                if isinstance(p[0], Ptr) and isinstance(q[0], Ptr) and \
                        p[1] == q[1]:
                    key = (id(p[0]), id(q[0]))
                    if key not in memo:
                        memo[key] = pite(c, p[0], q[0])
                    out.append((memo[key], p[1]))
                else:
                    out.append(None)
                continue
            if p[1] == q[1] and p[0].w == q[0].w:
                key = (p[0].id, q[0].id)
                n = memo.get(key)
                if n is None:
                    n = ite(c, p[0], q[0])
                    memo[key] = n
                out.append((n, p[1]))
            else:
                out.append((ite(c, ext(p[0], 8 * p[1], 8),
                                ext(q[0], 8 * q[1], 8)), 0))
        s.mem[k] = out
        s.owned.add(k)
    for k, y in b.mem.items():
        if k not in s.mem:
            s.mem[k] = y
    split = set()
    for k in a.log:
        if isinstance(k, tuple) and k in b.log:
            x, y = a.log[k], b.log[k]
            if x is y or x == y:
                s.log[k] = x
            else:
                split.add(k[1])
                s.log[k] = ('ite', c, (x, a.log[k[1]]), (y, b.log[k[1]]))
                s.log[k[1]] = ()
    for k in set(a.log) | set(b.log):
        if isinstance(k, tuple) or k in split:
            continue
        x, y = a.log.get(k, ()), b.log.get(k, ())
        if x is y or x == y:
            s.log[k] = x
            continue
        n = 0
        while n < len(x) and n < len(y) and x[n] == y[n]:
            n += 1
        s.log[k] = x[:n] + tuple([(and_(c, g), o, m, v)
                                  for g, o, m, v in x[n:]]) + \
            tuple([(and_(not_(c), g), o, m, v) for g, o, m, v in y[n:]])
    return s


def icmp(pr, a, b, ex=None, st=None):
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        return ptr_cmp(pr, a, b, ex, st)
    if pr == 'eq':
        return E.eq(a, b)
    if pr == 'ne':
        return E.ne(a, b)
    if pr in ('ult', 'ule', 'slt', 'sle'):
        return E.cmp(pr, a, b)
    return E.cmp({'ugt': 'ult', 'uge': 'ule', 'sgt': 'slt', 'sge': 'sle'}[pr],
                 b, a)


def ptr_cmp(pr, a, b, ex, st):
    res = None
    for (g, o, f) in a.alts:
        for (h, p, q) in b.alts:
            c = and_(g, h)
            if o is p:
                r = icmp(pr, f, q)
            elif pr in ('eq', 'ne'):
                if o is None or p is None:
                    nb = getattr((o or p), 'maybe_null', None)
                    r = E.F() if nb is None else nb
                else:
                    r = E.F()
                if pr == 'ne':
                    r = not_(r)
            else:
                x = ex.cast1('ptrtoint', PTR, Ptr([(E.T(), o, f)]), ('i', 64),
                             st)
                y = ex.cast1('ptrtoint', PTR, Ptr([(E.T(), p, q)]), ('i', 64),
                             st)
                r = icmp(pr, x, y)
            res = r if res is None else ite(c, r, res)
    return res
