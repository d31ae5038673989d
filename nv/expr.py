"""Hash-consed bit-vector expression DAG with local normalisation.

Every value is a bit-vector node (floats are their IEEE bit patterns, booleans
are 1-bit vectors).  Floating-point operations are nodes ('f...') whose meaning
is given in solve.py (z3: uninterpreted first, IEEE-exact second) and in
evalc.py (concrete evaluation).
"""


class N(object):
    __slots__ = ('op', 'args', 'w', 'v', 'id')

    def __repr__(self):
        return show(self)


_tab = {}
_cnt = [0]


def reset():
    _tab.clear()
    _const.clear()
    _extmemo.clear()


def mk(op, w, args=(), v=None):
    key = (op, w, v) + tuple([a.id for a in args])
    n = _tab.get(key)
    if n is None:
        n = N()
        n.op = op
        n.w = w
        n.args = args
        n.v = v
        _cnt[0] += 1
        n.id = _cnt[0]
        _tab[key] = n
    return n


_const = {}


def const(v, w):
    v &= (1 << w) - 1
    k = (v, w)
    n = _const.get(k)
    if n is None:
        n = mk('c', w, (), v)
        _const[k] = n
    return n


def var(name, w):
    return mk('v', w, (), name)


_fresh = [0]


def fresh(prefix, w):
    _fresh[0] += 1
    return var('%s!%d' % (prefix, _fresh[0]), w)


def T():
    return const(1, 1)


def F():
    return const(0, 1)


def isc(n):
    return n.op == 'c'


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def ones(w):
    return const(-1, w)


# ---------------------------------------------------------------- structure

_extmemo = {}


def ext(n, lo, w):
    """bits [lo, lo+w) of n"""
    if lo == 0 and w == n.w:
        return n
    if n.op in ('c', 'v'):
        return const(n.v >> lo, w) if n.op == 'c' else \
            mk('ext', w, (n,), lo)
    k = (n.id, lo, w, LANE[0])
    r = _extmemo.get(k)
    if r is None:
        r = _extmemo[k] = _ext(n, lo, w)
    return r


# parts of a 64-bit lane are taken from the lane as a whole: the halves of an
# intermediate 64-bit result are not rewritten in terms of its operands
LANE = [0]


def _ext(n, lo, w):
    op = n.op
    L = LANE[0]
    if w < L and op in ('and', 'or', 'xor', 'add', 'sub', 'mul'):
        if n.w == L:
            return mk('ext', w, (n,), lo)
        if n.w > L and n.w % L == 0 and (lo % L) + w <= L and \
                op in ('and', 'or', 'xor'):
            return ext(ext(n, lo - lo % L, L), lo % L, w)
    if op == 'c':
        return const(n.v >> lo, w)
    if op == 'ext':
        return ext(n.args[0], n.v + lo, w)
    if op == 'cat':
        # args lsb first
        out = []
        pos = 0
        end = lo + w
        for a in n.args:
            a0, a1 = pos, pos + a.w
            pos = a1
            if a1 <= lo:
                continue
            if a0 >= end:
                break
            s = max(lo, a0) - a0
            e = min(end, a1) - a0
            out.append(ext(a, s, e - s))
        return cat(out)
    if op == 'zx':
        a = n.args[0]
        if lo >= a.w:
            return const(0, w)
        if lo + w <= a.w:
            return ext(a, lo, w)
        if lo == 0:
            return zx(a, w)
        return zx(ext(a, lo, a.w - lo), w)
    if op == 'sx':
        a = n.args[0]
        if a.w == 1:
            return sx(a, w)
        if lo + w <= a.w:
            return ext(a, lo, w)
        if lo == 0:
            return sx(a, w)
        if lo < a.w:
            return sx(ext(a, lo, a.w - lo), w)
        return sx(ext(a, a.w - 1, 1), w)
    if op == 'not':
        return not_(ext(n.args[0], lo, w))
    if op in ('and', 'or', 'xor'):
        return mkbin(op, ext(n.args[0], lo, w), ext(n.args[1], lo, w))
    if op in ('add', 'sub', 'mul') and lo == 0:
        return mkbin(op, ext(n.args[0], 0, w), ext(n.args[1], 0, w))
    if op == 'ite':
        return ite(n.args[0], ext(n.args[1], lo, w), ext(n.args[2], lo, w))
    if op in ('sdiv', 'srem') and lo == 0:
        x, y = n.args
        if all(z.op == 'sx' and z.args[0].w <= w for z in (x, y)):
            # the quotient of w-bit values wraps to w bits the same way at
            # both widths, MIN / -1 and x / 0 included
            return mkbin(op, ext(x, 0, w), ext(y, 0, w))
    if op == 'lshr' and isc(n.args[1]):
        s = n.args[1].v
        if lo + s + w <= n.w:
            return ext(n.args[0], lo + s, w)
        if lo + s >= n.w:
            return const(0, w)
        return zx(ext(n.args[0], lo + s, n.w - lo - s), w)
    if op == 'ashr' and isc(n.args[1]):
        s = min(n.args[1].v, n.w - 1)
        if lo + s + w <= n.w:
            return ext(n.args[0], lo + s, w)
        if lo + s < n.w:
            return sx(ext(n.args[0], lo + s, n.w - lo - s), w)
        return sx(ext(n.args[0], n.w - 1, 1), w)
    if op == 'shl' and isc(n.args[1]):
        s = n.args[1].v
        if s >= n.w or lo + w <= s:
            return const(0, w)
        if lo >= s:
            return ext(n.args[0], lo - s, w)
        return cat([const(0, s - lo), ext(n.args[0], 0, w - (s - lo))])
    return mk('ext', w, (n,), lo)


def cat(parts):
    """concatenate, least significant first"""
    flat = []
    for p in parts:
        if p.op == 'cat':
            flat.extend(p.args)
        else:
            flat.append(p)
    out = []
    for p in flat:
        if out:
            q = out[-1]
            if q.op == 'c' and p.op == 'c':
                out[-1] = const(q.v | (p.v << q.w), q.w + p.w)
                continue
            if p.op == 'ext':
                a = p.args[0]
                if q.op == 'ext' and q.args[0] is a and q.v + q.w == p.v:
                    out[-1] = ext(a, q.v, q.w + p.w)
                    continue
                if p.v == q.w and a.op in ('add', 'sub', 'mul') and \
                        ext(a, 0, q.w) is q:
                    out[-1] = ext(a, 0, q.w + p.w)
                    continue
            if q.op == 'sx' and p.op == 'sx' and q.args[0] is p.args[0] \
                    and q.args[0].w == 1:
                out[-1] = sx(q.args[0], q.w + p.w)
                continue
        out.append(p)
    if len(out) == 1:
        return out[0]
    if out[-1].op == 'c' and out[-1].v == 0 and len(out) == 2:
        return zx(out[0], out[0].w + out[1].w)
    return mk('cat', sum(a.w for a in out), tuple(out))


def zx(n, w):
    if w == n.w:
        return n
    if w < n.w:
        return ext(n, 0, w)
    if n.op == 'c':
        return const(n.v, w)
    if n.op == 'zx':
        return zx(n.args[0], w)
    if n.op == 'cat' and len(n.args) > 1:
        return mk('cat', w, n.args + (const(0, w - n.w),))
    return mk('zx', w, (n,))


def sx(n, w):
    if w == n.w:
        return n
    if w < n.w:
        return ext(n, 0, w)
    if n.op == 'c':
        return const(sgn(n.v, n.w), w)
    if n.op == 'sx':
        return sx(n.args[0], w)
    if n.op == 'zx':
        return zx(n.args[0], w)
    return mk('sx', w, (n,))


# ---------------------------------------------------------------- bitwise

def not_(a):
    if a.op == 'c':
        return const(~a.v, a.w)
    if a.op == 'not':
        return a.args[0]
    if a.op == 'sx' and a.args[0].w == 1:
        return sx(not_(a.args[0]), a.w)
    if a.op == 'cat':
        return cat([not_(x) for x in a.args])
    if a.w == 1 and a.op == 'ite':
        return ite(a.args[0], not_(a.args[1]), not_(a.args[2]))
    return mk('not', a.w, (a,))


def is_mask(a):
    return a.op == 'sx' and a.args[0].w == 1


def _split_like(a, parts):
    out = []
    pos = 0
    for p in parts:
        out.append(ext(a, pos, p.w))
        pos += p.w
    return out


def is_neg(a):
    return a.op == 'sub' and a.args[0].op == 'c' and a.args[0].v == 0


def narrow(a, b):
    """(x, y) of a common smaller width with a = zx(x), b = zx(y)"""
    k = 1
    for n in (a, b):
        if n.op == 'zx':
            k = max(k, n.args[0].w)
        elif n.op == 'c':
            k = max(k, n.v.bit_length())
        else:
            return None, None
    if k >= a.w:
        return None, None
    return ext(a, 0, k), ext(b, 0, k)


def mkbin(op, a, b):
    w = a.w
    assert a.w == b.w, (op, a.w, b.w)
    if op in ('and', 'or', 'xor', 'add', 'mul'):
        # canonical order, constants second
        if a.op == 'c' or (b.op != 'c' and a.id > b.id):
            a, b = b, a
    ca, cb = a.op == 'c', b.op == 'c'
    if ca and cb:
        return const(fold(op, a.v, b.v, w), w)
    if op == 'and':
        if a is b:
            return a
        if cb:
            if b.v == 0:
                return b
            if b.v == (1 << w) - 1:
                return a
            # contiguous low mask -> zext of extract; contiguous fields
            m = b.v
            if w > 1:
                lo = (m & -m).bit_length() - 1
                hi = m.bit_length()
                if m == ((1 << hi) - (1 << lo)):
                    parts = []
                    if lo:
                        parts.append(const(0, lo))
                    parts.append(ext(a, lo, hi - lo))
                    if hi < w:
                        parts.append(const(0, w - hi))
                    return cat(parts)
        if is_mask(a) and is_mask(b):
            return sx(mkbin('and', a.args[0], b.args[0]), w)
        if a.op == 'not' and a.args[0] is b or b.op == 'not' and b.args[0] is a:
            return const(0, w)
        if is_mask(a):
            return ite(a.args[0], b, const(0, w))
        if is_mask(b):
            return ite(b.args[0], a, const(0, w))
    elif op == 'or':
        if a is b:
            return a
        if cb:
            if b.v == 0:
                return a
            if b.v == (1 << w) - 1:
                return b
        if is_mask(a) and is_mask(b):
            return sx(mkbin('or', a.args[0], b.args[0]), w)
        if a.op == 'not' and a.args[0] is b or b.op == 'not' and b.args[0] is a:
            return ones(w)
        # ite(c,x,0)|ite(!c,y,0)
        if w > 1 and a.op == 'ite' and b.op == 'ite':
            z = const(0, w)
            if a.args[0] is b.args[0]:
                return ite(a.args[0], mkbin('or', a.args[1], b.args[1]),
                           mkbin('or', a.args[2], b.args[2]))
        # disjoint zero-padded concatenations
        r = _or_disjoint(a, b)
        if r is not None:
            return r
    elif op == 'xor':
        if a is b:
            return const(0, w)
        if cb:
            if b.v == 0:
                return a
            if b.v == (1 << w) - 1:
                return not_(a)
            if w > 1 and b.v == 1 << (w - 1):
                return cat([ext(a, 0, w - 1), not_(ext(a, w - 1, 1))])
        if is_mask(a) and is_mask(b):
            return sx(mkbin('xor', a.args[0], b.args[0]), w)
        if a.op == 'not' and b.op == 'not':
            return mkbin('xor', a.args[0], b.args[0])
    elif op == 'add':
        if cb and b.v == 0:
            return a
        if w == 1:
            return mkbin('xor', a, b)
        if cb and a.op == 'add' and a.args[1].op == 'c':
            return mkbin('add', a.args[0], const(a.args[1].v + b.v, w))
        if is_neg(b):
            return mkbin('sub', a, b.args[1])
        if is_neg(a):
            return mkbin('sub', b, a.args[1])
    elif op == 'sub':
        if a is b:
            return const(0, w)
        if cb:
            return mkbin('add', a, const(-b.v, w))
        if w == 1:
            return mkbin('xor', a, b)
        if is_neg(b):
            return mkbin('add', a, b.args[1])
    elif op == 'mul':
        if cb:
            if b.v == 0:
                return b
            if b.v == 1:
                return a
            if b.v & (b.v - 1) == 0:
                return mkbin('shl', a, const(b.v.bit_length() - 1, w))
        if w == 1:
            return mkbin('and', a, b)
        if is_neg(a):
            return mkbin('sub', const(0, w), mkbin('mul', a.args[1], b))
        if is_neg(b):
            return mkbin('sub', const(0, w), mkbin('mul', a, b.args[1]))
    elif op in ('shl', 'lshr', 'ashr'):
        if cb:
            s = b.v
            if s == 0:
                return a
            if op == 'shl':
                if s >= w:
                    return const(0, w)
                return cat([const(0, s), ext(a, 0, w - s)])
            if op == 'lshr':
                if s >= w:
                    return const(0, w)
                return zx(ext(a, s, w - s), w)
            s = min(s, w - 1)
            return sx(ext(a, s, w - s), w)
        if ca and a.v == 0:
            return a
        if op == 'ashr' and is_mask(a):
            return a
    elif op in ('udiv', 'sdiv', 'urem', 'srem'):
        if cb and b.v == 1 and op in ('udiv', 'sdiv'):
            return a
        if b.op == 'zx' or cb:
            x, y = narrow(a, b)
            if x is not None and x.w < w and not (cb and b.v == 0):
                o = 'u' + op[1:]
                # division by zero gives all ones at either width
                if o == 'udiv' and not cb:
                    return ite(eq(y, const(0, y.w)),
                               ones(w), zx(mkbin(o, x, y), w))
                return zx(mkbin(o, x, y), w)
    return mk(op, w, (a, b))


def _zpat(a):
    """list of (lo, w, part or None-if-zero) of a"""
    if a.op == 'cat':
        out = []
        pos = 0
        for p in a.args:
            out.append((pos, p.w, None if (p.op == 'c' and p.v == 0) else p))
            pos += p.w
        return out
    if a.op == 'zx':
        x = a.args[0]
        return [(0, x.w, x), (x.w, a.w - x.w, None)]
    return None


def _or_disjoint(a, b):
    pa, pb = _zpat(a), _zpat(b)
    if pa is None or pb is None:
        return None
    cuts = sorted(set([x[0] for x in pa] + [x[0] for x in pb] + [a.w]))
    # both nonzero on a segment -> give up
    def nz(p, lo):
        for (l, w, x) in p:
            if l <= lo < l + w:
                return x is not None
        return False
    out = []
    for lo, hi in zip(cuts, cuts[1:]):
        na, nb = nz(pa, lo), nz(pb, lo)
        if na and nb:
            return None
        if na:
            out.append(ext(a, lo, hi - lo))
        elif nb:
            out.append(ext(b, lo, hi - lo))
        else:
            out.append(const(0, hi - lo))
    return cat(out)


def fold(op, a, b, w):
    M = (1 << w) - 1
    if op == 'and':
        return a & b
    if op == 'or':
        return a | b
    if op == 'xor':
        return a ^ b
    if op == 'add':
        return (a + b) & M
    if op == 'sub':
        return (a - b) & M
    if op == 'mul':
        return (a * b) & M
    if op == 'udiv':
        return M if b == 0 else a // b
    if op == 'urem':
        return a if b == 0 else a % b
    if op in ('sdiv', 'srem'):
        x, y = sgn(a, w), sgn(b, w)
        if y == 0:
            return ((1 if x < 0 else -1) & M) if op == 'sdiv' else a
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0):
            q = -q
        return (q if op == 'sdiv' else x - q * y) & M
    if op == 'shl':
        return (a << b) & M if b < w else 0
    if op == 'lshr':
        return a >> b if b < w else 0
    if op == 'ashr':
        return (sgn(a, w) >> min(b, w - 1)) & M
    raise Exception(op)


def and_(*xs):
    r = T()
    first = True
    for x in xs:
        r = x if first else mkbin('and', r, x)
        first = False
    return r


def or_(*xs):
    r = F()
    first = True
    for x in xs:
        r = x if first else mkbin('or', r, x)
        first = False
    return r


def add(a, b): return mkbin('add', a, b)
def sub(a, b): return mkbin('sub', a, b)
def mul(a, b): return mkbin('mul', a, b)
def neg(a): return mkbin('sub', const(0, a.w), a)
def band(a, b): return mkbin('and', a, b)
def bor(a, b): return mkbin('or', a, b)
def bxor(a, b): return mkbin('xor', a, b)
def implies(a, b): return mkbin('or', not_(a), b)


# ---------------------------------------------------------------- predicates

def addend(a):
    """a as base + constant"""
    if a.op == 'add':
        if a.args[1].op == 'c':
            return a.args[0], a.args[1].v
        if a.args[0].op == 'c':
            return a.args[1], a.args[0].v
    return a, 0


def cmp(op, a, b):
    """op in eq ult ule slt sle"""
    assert a.w == b.w, (op, a.w, b.w)
    w = a.w
    if a.op == 'c' and b.op == 'c':
        x, y = a.v, b.v
        if op[0] == 's':
            x, y = sgn(x, w), sgn(y, w)
        r = {'eq': x == y, 'ult': x < y, 'ule': x <= y, 'slt': x < y,
             'sle': x <= y}[op]
        return const(int(r), 1)
    if a is b:
        return const(1 if op in ('eq', 'ule', 'sle') else 0, 1)
    if op == 'eq':
        if a.op == 'c' or (b.op != 'c' and a.id > b.id):
            a, b = b, a
        if w == 1:
            if b.op == 'c':
                return a if b.v else not_(a)
            return not_(mkbin('xor', a, b))
        if a.op == 'add' or b.op == 'add':
            x, c = addend(a)
            y, d = addend(b)
            if x is y:
                return const(int(c == d), 1)
        if b.op == 'c':
            if is_mask(a):
                if b.v == 0:
                    return not_(a.args[0])
                if b.v == (1 << w) - 1:
                    return a.args[0]
                return F()
            if a.op == 'zx':
                x = a.args[0]
                if b.v >> x.w:
                    return F()
                return cmp('eq', x, const(b.v, x.w))
            if a.op == 'ite' and a.args[1].op == 'c' and a.args[2].op == 'c':
                e1, e2 = a.args[1].v == b.v, a.args[2].v == b.v
                if e1 and e2:
                    return T()
                if e1:
                    return a.args[0]
                if e2:
                    return not_(a.args[0])
                return F()
        if a.op == 'zx' and b.op == 'zx' and a.args[0].w == b.args[0].w:
            return cmp('eq', a.args[0], b.args[0])
        if a.op == 'sx' and b.op == 'sx' and a.args[0].w == b.args[0].w:
            return cmp('eq', a.args[0], b.args[0])
        return mk('eq', 1, (a, b))
    if op == 'slt' and b.op == 'c' and b.v == 0:
        return ext(a, w - 1, 1)
    if op == 'sle' and a.op == 'c' and a.v == 0:
        return not_(ext(b, w - 1, 1))
    if op == 'slt' and a.op == 'c' and sgn(a.v, w) == -1:
        return not_(ext(b, w - 1, 1))
    if op == 'ult' and b.op == 'c' and b.v == 0:
        return F()
    # canonical: only ult/slt nodes
    if op == 'ule':
        return not_(cmp('ult', b, a))
    if op == 'sle':
        return not_(cmp('slt', b, a))
    if op in ('slt', 'ult') and a.op == 'sx' and b.op == 'sx' and \
            a.args[0].w == b.args[0].w and a.args[0].w > 1:
        return cmp(op, a.args[0], b.args[0])
    if op in ('slt', 'ult') and a.op == 'zx' and b.op == 'zx' and \
            a.args[0].w == b.args[0].w:
        return cmp('ult', a.args[0], b.args[0])
    # unsigned comparison through sign-bit flip: cat(lo, not(msb))
    return mk(op, 1, (a, b))


def eq(a, b): return cmp('eq', a, b)
def ne(a, b): return not_(cmp('eq', a, b))
def ult(a, b): return cmp('ult', a, b)
def slt(a, b): return cmp('slt', a, b)
def ule(a, b): return cmp('ule', a, b)
def sle(a, b): return cmp('sle', a, b)


def ite(c, a, b):
    assert c.w == 1 and a.w == b.w, (c.w, a.w, b.w)
    if c.op == 'c':
        return a if c.v else b
    if a is b:
        return a
    if c.op == 'not':
        return ite(c.args[0], b, a)
    w = a.w
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if w == 1:
        if a.op == 'c':
            return mkbin('or', c, b) if a.v else mkbin('and', not_(c), b)
        if b.op == 'c':
            return mkbin('or', not_(c), a) if b.v else mkbin('and', c, a)
        if a is c:
            return mkbin('or', c, b)
        if b is c:
            return mkbin('and', c, a)
    else:
        M = (1 << w) - 1
        if a.op == 'c' and b.op == 'c':
            if a.v == M and b.v == 0:
                return sx(c, w)
            if a.v == 0 and b.v == M:
                return sx(not_(c), w)
            if a.v == 1 and b.v == 0:
                return zx(c, w)
            if a.v == 0 and b.v == 1:
                return zx(not_(c), w)
    return mk('ite', w, (c, a, b))


# ---------------------------------------------------------------- floats

FMT = {16: (5, 11), 32: (8, 24), 64: (11, 53)}


def f_parts(a):
    e, s = FMT[a.w]
    return ext(a, a.w - 1, 1), ext(a, s - 1, e), ext(a, 0, s - 1)


def f_isnan(a):
    if a.op == 'fop' and a.v[0] in ('fpext', 'fptrunc'):
        return f_isnan(a.args[0])
    if a.op == 'ite':
        return ite(a.args[0], f_isnan(a.args[1]), f_isnan(a.args[2]))
    e, s = FMT[a.w]
    # |a| > inf
    inf = ((1 << e) - 1) << (s - 1)
    return ult(const(inf, a.w - 1), ext(a, 0, a.w - 1))


def f_iszero(a):
    return eq(ext(a, 0, a.w - 1), const(0, a.w - 1))


def f_neg(a):
    return cat([ext(a, 0, a.w - 1), not_(ext(a, a.w - 1, 1))])


def f_abs(a):
    return zx(ext(a, 0, a.w - 1), a.w)


def f_cmp(pred, a, b):
    """base predicates kept as nodes: feq flt fle fun"""
    if pred == 'feq':
        if a.op == 'c' or (b.op != 'c' and a.id > b.id):
            a, b = b, a
    if pred == 'fun':
        return or_(f_isnan(a), f_isnan(b)) if a is not b else f_isnan(a)
    if a.op == 'c' and b.op == 'c':
        from . import softfp
        return const(softfp.cmp(pred, a.v, b.v, a.w), 1)
    return mk(pred, 1, (a, b))


def fcmp(pred, a, b):
    nb = not_
    p = pred
    if p == 'false':
        return F()
    if p == 'true':
        return T()
    if p == 'oeq':
        return f_cmp('feq', a, b)
    if p == 'une':
        return nb(f_cmp('feq', a, b))
    if p == 'olt':
        return f_cmp('flt', a, b)
    if p == 'ogt':
        return f_cmp('flt', b, a)
    if p == 'ole':
        return f_cmp('fle', a, b)
    if p == 'oge':
        return f_cmp('fle', b, a)
    if p == 'ult':
        return nb(f_cmp('fle', b, a))
    if p == 'ule':
        return nb(f_cmp('flt', b, a))
    if p == 'ugt':
        return nb(f_cmp('fle', a, b))
    if p == 'uge':
        return nb(f_cmp('flt', a, b))
    if p == 'uno':
        return f_cmp('fun', a, b)
    if p == 'ord':
        return nb(f_cmp('fun', a, b))
    if p == 'one':
        return or_(f_cmp('flt', a, b), f_cmp('flt', b, a))
    if p == 'ueq':
        return nb(or_(f_cmp('flt', a, b), f_cmp('flt', b, a)))
    raise Exception(p)


COMM = ('fadd', 'fmul')


def widened(x, w):
    if x.op == 'ite':
        return widened(x.args[1], w) and widened(x.args[2], w)
    return x.op == 'fop' and x.v[0] == 'fpext' and x.args[0].w == w


def f_narrow(x, w):
    if x.op == 'ite':
        return ite(x.args[0], f_narrow(x.args[1], w),
                   f_narrow(x.args[2], w))
    y = x.args[0]
    return ite(f_isnan(y), mk('fop', w, (x,), ('fptrunc', None)), y)


def fop(name, args, w, extra=None):
    """name: fadd fsub fmul fdiv fsqrt ffma frint(mode) fpext fptrunc
    fptosi fptoui sitofp uitofp"""
    args = tuple(args)
    if name in COMM and args[0].id > args[1].id:
        args = (args[1], args[0])
    if name == 'ffma' and args[0].id > args[1].id:
        args = (args[1], args[0], args[2])
    if all(a.op == 'c' for a in args):
        from . import softfp
        r = softfp.fop(name, [a.v for a in args], [a.w for a in args], w, extra)
        if r is not None:
            return const(r, w)
    if name == 'fptrunc' and args[0].op == 'ite':
        # a widened value comes back unchanged, a NaN as some NaN
        c, x, y = args[0].args
        if widened(x, w) and widened(y, w):
            return ite(c, f_narrow(x, w), f_narrow(y, w))
    if name == 'fptrunc' and w == 32 and args[0].op == 'fop' and \
            args[0].v[0] == 'fsqrt' and args[0].w == 64:
        # (float)sqrt((double)x) == sqrtf(x): double rounding is innocuous
        # for sqrt when the wide format has >= 2p+2 bits (Figueroa 1995)
        x = args[0].args[0]
        if x.op == 'fop' and x.v[0] == 'fpext' and x.args[0].w == 32:
            return fop('fsqrt', [x.args[0]], 32)
    return mk('fop', w, args, (name, extra))


def uf(name, args, w):
    return mk('uf', w, tuple(args), name)


# ---------------------------------------------------------------- utilities

def show(n, depth=6):
    if n.op == 'c':
        return '0x%x:%d' % (n.v, n.w)
    if n.op == 'v':
        return str(n.v)
    if depth == 0:
        return '..'
    a = ', '.join(show(x, depth - 1) for x in n.args)
    if n.op == 'ext':
        return '%s[%d+:%d]' % (a, n.v, n.w)
    if n.op in ('fop', 'uf'):
        return '%s(%s)' % (n.v, a)
    return '%s%d(%s)' % (n.op, n.w, a)


def subst(n, m, memo):
    """n with variables replaced according to m (name -> node)"""
    st = [(n, 0)]
    while st:
        x, k = st.pop()
        if x.id in memo:
            continue
        if k == 0 and x.args:
            st.append((x, 1))
            st.extend((y, 0) for y in x.args if y.id not in memo)
            continue
        memo[x.id] = rebuild(x, [memo[y.id] for y in x.args], m)
    return memo[n.id]


PRED_SIMP = []


def rebuild(n, a, m):
    op = n.op
    if op == 'v':
        return m.get(n.v, n)
    if not a:
        return n
    if op == 'ext':
        return ext(a[0], n.v, n.w)
    if op == 'cat':
        return cat(a)
    if op == 'zx':
        return zx(a[0], n.w)
    if op == 'sx':
        return sx(a[0], n.w)
    if op == 'not':
        return not_(a[0])
    if op == 'ite':
        return ite(*a)
    if op in ('eq', 'ult', 'slt'):
        return cmp(op, *a)
    if op == 'fop':
        return fop(n.v[0], a, n.w, n.v[1])
    if op == 'pred':
        for f in PRED_SIMP:
            r = f(n.v, a)
            if r is not None:
                return r
    if op in ('feq', 'flt', 'fle', 'uf', 'pred'):
        return mk(op, n.w, tuple(a), n.v)
    return mkbin(op, *a)


def subterms(n):
    seen = set()
    st = [n]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        st.extend(x.args)


def replace(n, m):
    """n with the nodes of m (node -> node) replaced"""
    memo = {k.id: v for k, v in m.items()}
    return subst(n, {}, memo)


def variables(nodes):
    seen = set()
    out = {}
    st = list(nodes)
    while st:
        n = st.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        if n.op == 'v':
            out[n.v] = n
        st.extend(n.args)
    return out


def size(nodes):
    seen = set()
    st = list(nodes)
    while st:
        n = st.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        st.extend(n.args)
    return len(seen)
