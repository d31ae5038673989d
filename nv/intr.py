"""Semantics of the LLVM intrinsics and external C functions that the compiled
code of /repo uses (trusted base; validated by differential execution against
the CPU, see conform.py)."""
import re
from . import expr as E
from .expr import const, ext, cat, zx, sx, mkbin, ite, and_, or_, not_, fop
from .ir import VOID
from .sym import Unsupported, null, mkptr

TABLE = []


def reg(rx):
    def d(f):
        TABLE.append((re.compile(rx + r'$'), f))
        return f
    return d


_memo = {}


def call(ex, name, rt, ts, vs, st, where):
    nm = name[1:]
    r = _memo.get(nm)
    if r is None:
        for rx, f in TABLE:
            m = rx.match(nm)
            if m:
                r = (f, m)
                break
        else:
            r = ()
        _memo[nm] = r
    if not r:
        return NotImplemented
    c = Ctx()
    c.ex, c.name, c.rt, c.ts, c.st, c.where, c.m = ex, nm, rt, ts, st, where, r[1]
    return r[0](c, *vs)


class Ctx(object):
    pass


def lanes(f, *vs):
    """apply f lane-wise on scalars or vectors"""
    if isinstance(vs[0], list):
        return [f(*xs) for xs in zip(*vs)]
    return f(*vs)


# ------------------------------------------------------------ generic

@reg(r'llvm\.(s|u)(min|max)\.\w+')
def _(c, a, b):
    s, k = c.m.group(1), c.m.group(2)

    def f(x, y):
        lt = E.cmp(s + 'lt', x, y)
        return ite(lt, x, y) if k == 'min' else ite(lt, y, x)
    return lanes(f, a, b)


def sat(kind, op, x, y):
    w = x.w
    if kind == 'u':
        if op == 'add':
            r = mkbin('add', zx(x, w + 1), zx(y, w + 1))
            return ite(ext(r, w, 1), const(-1, w), ext(r, 0, w))
        return ite(E.ult(x, y), const(0, w), E.sub(x, y))
    r = mkbin(op, sx(x, w + 1), sx(y, w + 1))
    ov = E.ne(ext(r, w, 1), ext(r, w - 1, 1))
    mx = const((1 << (w - 1)) - 1, w)
    mn = const(1 << (w - 1), w)
    return ite(ov, ite(ext(r, w, 1), mn, mx), ext(r, 0, w))


@reg(r'llvm\.(s|u)(add|sub)\.sat\.\w+')
def _(c, a, b):
    return lanes(lambda x, y: sat(c.m.group(1), c.m.group(2), x, y), a, b)


@reg(r'llvm\.(s|u)(add|sub|mul)\.with\.overflow\.\w+')
def _(c, a, b):
    s, op = c.m.group(1), c.m.group(2)
    ex_ = sx if s == 's' else zx

    def f(x, y):
        w = x.w
        W = 2 * w if op == 'mul' else w + 1
        r = mkbin(op, ex_(x, W), ex_(y, W))
        lo = ext(r, 0, w)
        return lo, E.ne(r, ex_(lo, W))
    if isinstance(a, list):
        rs = [f(x, y) for x, y in zip(a, b)]
        return [[r[0] for r in rs], [r[1] for r in rs]]
    r = f(a, b)
    return [r[0], r[1]]


@reg(r'llvm\.abs\.\w+')
def _(c, a, poison):
    return lanes(lambda x: ite(ext(x, x.w - 1, 1), E.neg(x), x), a)


def popcnt(x):
    w = x.w
    W = max(8, w.bit_length())
    parts = [zx(ext(x, i, 1), W) for i in range(w)]
    while len(parts) > 1:
        parts = [E.add(parts[i], parts[i + 1]) if i + 1 < len(parts)
                 else parts[i] for i in range(0, len(parts), 2)]
    return zx(parts[0], w) if w >= W else ext(parts[0], 0, w)


@reg(r'llvm\.ctpop\.\w+')
def _(c, a):
    return lanes(popcnt, a)


@reg(r'llvm\.(ctlz|cttz)\.\w+')
def _(c, a, z):
    def f(x):
        r = const(x.w, x.w)
        rng = range(x.w) if c.m.group(1) == 'ctlz' else range(x.w - 1, -1, -1)
        for i in rng:
            k = x.w - 1 - i if c.m.group(1) == 'ctlz' else i
            r = ite(ext(x, i, 1), const(k, x.w), r)
        return r
    return lanes(f, a)


@reg(r'llvm\.bswap\.\w+')
def _(c, a):
    return lanes(lambda x: cat([ext(x, x.w - 8 - 8 * i, 8)
                                for i in range(x.w // 8)]), a)


@reg(r'llvm\.fsh(l|r)\.\w+')
def _(c, a, b, s):
    left = c.m.group(1) == 'l'

    def f(x, y, k):
        w = x.w
        k = mkbin('urem', k, const(w, w)) if k.op != 'c' else \
            const(k.v % w, w)
        v = cat([y, x])
        if k.op == 'c':
            return ext(v, w - k.v, w) if left else ext(v, k.v, w)
        kk = zx(k, 2 * w)
        if left:
            return ext(mkbin('shl', v, kk), w, w)
        return ext(mkbin('lshr', v, kk), 0, w)
    return lanes(f, a, b, s)


@reg(r'llvm\.fma\.\w+|fmaf?|llvm\.fmuladd\.\w+')
def _(c, a, b, d):
    if 'fmuladd' in c.name:
        return lanes(lambda x, y, z: fop('fadd', [fop('fmul', [x, y], x.w), z],
                                         x.w), a, b, d)
    return lanes(lambda x, y, z: fop('ffma', [x, y, z], x.w), a, b, d)


@reg(r'llvm\.sqrt\.\w+|sqrtf?')
def _(c, a):
    return lanes(lambda x: fop('fsqrt', [x], x.w), a)


RM = {'floor': 'floor', 'ceil': 'ceil', 'trunc': 'trunc', 'rint': 'rne',
      'nearbyint': 'rne', 'roundeven': 'rne', 'round': 'rna'}


@reg(r'(?:llvm\.)?(floor|ceil|trunc|rint|nearbyint|roundeven|round)(?:f|\.\w+)?')
def _(c, a):
    m = RM[c.m.group(1)]
    return lanes(lambda x: fop('frint', [x], x.w, m), a)


@reg(r'llvm\.fabs\.\w+|fabsf?')
def _(c, a):
    return lanes(E.f_abs, a)


@reg(r'llvm\.copysign\.\w+|copysignf?')
def _(c, a, b):
    return lanes(lambda x, y: cat([ext(x, 0, x.w - 1), ext(y, x.w - 1, 1)]),
                 a, b)


@reg(r'llvm\.is\.fpclass\.\w+')
def _(c, a, mask):
    m = mask.v

    def f(x):
        e, p = E.FMT[x.w]
        sg, ex_, mt = E.f_parts(x)
        em = E.eq(ex_, const(-1, e))
        ez = E.eq(ex_, const(0, e))
        mz = E.eq(mt, const(0, p - 1))
        nan = and_(em, not_(mz))
        q = ext(x, p - 2, 1)
        cls = [and_(nan, not_(q)), and_(nan, q),
               and_(sg, em, mz), and_(sg, not_(em), not_(ez)),
               and_(sg, ez, not_(mz)), and_(sg, ez, mz),
               and_(not_(sg), ez, mz), and_(not_(sg), ez, not_(mz)),
               and_(not_(sg), not_(em), not_(ez)), and_(not_(sg), em, mz)]
        r = E.F()
        for i, k in enumerate(cls):
            if m >> i & 1:
                r = or_(r, k)
        return r
    return lanes(f, a)


@reg(r'llvm\.(minnum|maxnum)\.\w+|(fmin|fmax)f?')
def _(c, a, b):
    mn = 'min' in c.name

    def f(x, y):
        lt = E.fcmp('olt', x, y)
        r = ite(lt, x, y) if mn else ite(lt, y, x)
        return ite(E.f_isnan(x), y, ite(E.f_isnan(y), x, r))
    return lanes(f, a, b)


@reg(r'llvm\.(fptosi|fptoui)\.sat\.\w+\.\w+')
def _(c, a):
    w = (c.rt[2] if c.rt[0] == 'v' else c.rt)[1]
    return lanes(lambda x: E.uf(c.m.group(1) + 'sat%d' % w, [x], w), a)


@reg(r'llvm\.memcpy\..*|memcpy')
def _(c, d, s, n, *r):
    c.ex.memcpy(c.st, d, s, n, c.where)
    return d if c.rt != VOID else None


@reg(r'llvm\.memmove\..*|memmove')
def _(c, d, s, n, *r):
    c.ex.memcpy(c.st, d, s, n, c.where, move=True)
    return d if c.rt != VOID else None


@reg(r'llvm\.memset\..*|memset')
def _(c, d, v, n, *r):
    if n.op != 'c':
        raise Unsupported('memset of symbolic size')
    b = ext(v, 0, 8)
    for i in range(n.v):
        c.ex.store_bits(c.st, c.ex.padd(d, i), b, None, c.where)
    return d if c.rt != VOID else None


@reg(r'llvm\.masked\.load\.\w+\.p0')
def _(c, p, al, mask, pas):
    es = c.ex.L.bits(c.rt[2]) // 8
    return masked_load(c, [c.ex.padd(p, i * es) for i in range(c.rt[1])],
                       mask, pas, es, base=(p, al.v))


def masked_load(c, ptrs, mask, pas, es, base=None):
    ex, st = c.ex, c.st
    if base is not None:
        p, al = base
        tot = es * len(mask)
        check_align(c, p, al)
    out = []
    pc = st.pc
    for i, p in enumerate(ptrs):
        m = mask[i]
        if m.op == 'c' and m.v == 0:
            out.append(pas[i])
            continue
        st.pc = and_(pc, m)
        if st.pc.op == 'c' and st.pc.v == 0:
            out.append(pas[i])
            continue
        v = ex.load_bits(st, p, es, None, c.where)
        out.append(ite(m, v, pas[i]))
    st.pc = pc
    return out


def check_align(c, p, al):
    if al is None or al <= 1:
        return
    for (g, o, off) in p.alts:
        if o is None:
            continue
        a = o.align
        if off.op == 'c':
            while a > 1 and off.v % a:
                a //= 2
            if a < al:
                c.ex.oblige('align', c.st, E.implies(g, E.F()), c.where)
        else:
            m = al.bit_length() - 1
            c.ex.oblige('align', c.st,
                        E.F() if a < al else
                        E.implies(g, E.eq(ext(off, 0, m), const(0, m))),
                        c.where)


def masked_store(c, ptrs, mask, vals, base=None):
    ex, st = c.ex, c.st
    if base is not None:
        check_align(c, base[0], base[1])
    pc = st.pc
    for p, m, v in zip(ptrs, mask, vals):
        if m.op == 'c' and m.v == 0:
            continue
        st.pc = and_(pc, m)
        if st.pc.op == 'c' and st.pc.v == 0:
            continue
        from .sym import Ptr
        q = Ptr([(and_(m, g), o, f) for (g, o, f) in p.alts])
        ex.store_bits(st, q, v, None, c.where)
    st.pc = pc


@reg(r'llvm\.masked\.store\.\w+\.p0')
def _(c, v, p, al, mask):
    es = c.ex.L.bits(c.ts[0][2]) // 8
    masked_store(c, [c.ex.padd(p, i * es) for i in range(len(v))], mask, v,
                 (p, al.v))


@reg(r'llvm\.masked\.gather\.\w+\.\w+')
def _(c, ps, al, mask, pas):
    es = c.ex.L.bits(c.rt[2]) // 8
    return masked_load(c, ps, mask, pas, es)


@reg(r'llvm\.masked\.scatter\.\w+\.\w+')
def _(c, v, ps, al, mask):
    masked_store(c, ps, mask, v)


@reg(r'llvm\.vector\.reduce\.(\w+)\.\w+')
def _(c, *vs):
    k = c.m.group(1)
    v = vs[-1]
    if k in ('and', 'or', 'xor', 'add', 'mul'):
        r = v[0]
        for x in v[1:]:
            r = mkbin(k, r, x)
        return r
    if k in ('smin', 'smax', 'umin', 'umax'):
        r = v[0]
        for x in v[1:]:
            lt = E.cmp(k[0] + 'lt', x, r)
            r = ite(lt, x, r) if k[1:] == 'min' else ite(lt, r, x)
        return r
    if k in ('fadd', 'fmul'):
        r = vs[0]
        for x in v:
            r = fop(k, [r, x], x.w)
        return r
    raise Unsupported(c.name)


@reg(r'llvm\.vector\.(insert|extract)\..*')
def _(c, a, *r):
    if c.m.group(1) == 'extract':
        i = r[0].v
        return a[i:i + c.rt[1]]
    b, i = r
    out = list(a)
    out[i.v:i.v + len(b)] = b
    return out


@reg(r'llvm\.is\.constant\..*')
def _(c, a):
    return E.F()


@reg(r'llvm\.expect\..*')
def _(c, a, *r):
    return a


@reg(r'llvm\.objectsize\..*')
def _(c, *r):
    return const(-1, c.rt[1])


@reg(r'__cxa_throw|_ZSt\d+__throw\w*|abort|exit|_ZSt9terminatev')
def _(c, *r):
    c.ex.terms.append((c.name, c.st.pc))
    return False


@reg(r'llvm\.(trap|debugtrap)')
def _(c, *r):
    c.ex.terms.append((c.name, c.st.pc))
    return False


# ------------------------------------------------------------ x86 helpers

def flatbits(v):
    return cat(list(v)) if isinstance(v, list) else v


def as_lanes(v, w):
    """re-slice a vector value into w-bit lanes"""
    if v[0].w == w:
        return list(v)
    if v[0].w % w == 0:
        return [ext(x, j, w) for x in v for j in range(0, x.w, w)]
    k = w // v[0].w
    return [cat(v[i:i + k]) for i in range(0, len(v), k)]


def out_lanes(c, v):
    if c.rt[0] != 'v':
        return flatbits(v)
    return as_lanes(v, c.ex.L.bits(c.rt[2]))


@reg(r'llvm\.x86\.(?:ssse3\.pshuf\.b\.128|avx2\.pshuf\.b|avx512\.pshuf\.b\.512)')
def _(c, a, m):
    out = []
    for i in range(len(a)):
        base = i & ~15
        k = m[i]
        r = None
        if k.op == 'c':
            out.append(const(0, 8) if k.v & 0x80 else a[base + (k.v & 15)])
            continue
        idx = ext(k, 0, 4)
        r = a[base + 15]
        for j in range(14, -1, -1):
            r = ite(E.eq(idx, const(j, 4)), a[base + j], r)
        out.append(ite(ext(k, 7, 1), const(0, 8), r))
    return out


def permvar(tbl, idx):
    n = len(tbl)
    b = n.bit_length() - 1
    i = ext(idx, 0, b)
    if i.op == 'c':
        return tbl[i.v]
    r = tbl[n - 1]
    for j in range(n - 2, -1, -1):
        r = ite(E.eq(i, const(j, b)), tbl[j], r)
    return r


@reg(r'llvm\.x86\.avx512\.vpermi2var\.(\w+)\.(\d+)')
def _(c, a, i, b):
    tbl = list(a) + list(b)
    return [permvar(tbl, k) for k in i]


@reg(r'llvm\.x86\.(?:avx2\.perm(?:d|ps)|avx512\.permvar\.\w+\.\d+)')
def _(c, a, i):
    return [permvar(list(a), k) for k in i]


@reg(r'llvm\.x86\.avx(?:512)?\.vpermilvar\.(ps|pd)(?:\.\d+)?')
def _(c, a, m):
    out = []
    if c.m.group(1) == 'ps':
        for i in range(len(a)):
            out.append(permvar(a[i & ~3:(i & ~3) + 4], m[i]))
    else:
        for i in range(len(a)):
            out.append(permvar(a[i & ~1:(i & ~1) + 2], ext(m[i], 1, 1)))
    return out


@reg(r'llvm\.x86\.(?:sse2\.pmovmskb\.128|avx2\.pmovmskb|sse2\.movmsk\.pd|sse\.movmsk\.ps|avx\.movmsk\.p[sd]\.256)')
def _(c, a):
    return zx(cat([ext(x, x.w - 1, 1) for x in a]), 32)


@reg(r'llvm\.x86\.sse2\.maskmov\.dqu')
def _(c, v, m, p):
    # bytes whose mask bits are the same are stored together: elements of an
    # array of known shape are stored whole
    b = [ext(x, 7, 1) for x in m]
    es = max([o.arr or 1 for (g, o, f) in p.alts if o is not None] or [1])
    while es > 1 and any(b[i] is not b[i - i % es] for i in range(16)):
        es //= 2
    masked_store(c, [c.ex.padd(p, i) for i in range(0, 16, es)],
                 b[::es], [cat(v[i:i + es]) for i in range(0, 16, es)])


def shift_imm(kind, a, s):
    # s : 32-bit node
    out = []
    for x in a:
        w = x.w
        if s.op == 'c':
            k = s.v
            if k >= w:
                out.append(const(0, w) if kind != 'ashr'
                           else mkbin('ashr', x, const(w - 1, w)))
            else:
                out.append(mkbin(kind, x, const(k, w)))
            continue
        big = not_(E.ult(s, const(w, s.w)))
        k = zx(s, w) if w >= s.w else ext(s, 0, w)
        if kind == 'ashr':
            out.append(mkbin('ashr', x, ite(big, const(w - 1, w), k)))
        else:
            out.append(ite(big, const(0, w), mkbin(kind, x, k)))
    return out


SK = {'ps' + 'll': 'shl', 'psrl': 'lshr', 'psra': 'ashr'}


@reg(r'llvm\.x86\.(?:sse2|avx2|avx512)\.(psll|psrl|psra)i\.[wdq](?:\.\d+)?')
def _(c, a, s):
    return shift_imm(SK[c.m.group(1)], a, s)


@reg(r'llvm\.x86\.(?:sse2|avx2|avx512)\.(psll|psrl|psra)\.[wdq](?:\.\d+)?')
def _(c, a, s):
    cnt = as_lanes(s, 64)[0]
    return shift_imm(SK[c.m.group(1)], a, cnt)


@reg(r'llvm\.x86\.(?:avx2|avx512)\.(psll|psrl|psra)v\.\w+(?:\.\d+)?')
def _(c, a, s):
    return [shift_imm(SK[c.m.group(1)], [x], k)[0] for x, k in zip(a, s)]


@reg(r'llvm\.x86\.(?:sse41\.pblendvb|avx2\.pblendvb|sse41\.blendvp[sd]|avx\.blendv\.p[sd]\.256)')
def _(c, a, b, m):
    return [ite(ext(k, k.w - 1, 1), y, x) for x, y, k in zip(a, b, m)]


@reg(r'llvm\.x86\.avx2?\.maskload\.\w+(?:\.256)?')
def _(c, p, m):
    es = c.ex.L.bits(c.rt[2]) // 8
    return masked_load(c, [c.ex.padd(p, i * es) for i in range(len(m))],
                       [ext(x, x.w - 1, 1) for x in m],
                       [const(0, 8 * es)] * len(m), es)


@reg(r'llvm\.x86\.avx2?\.maskstore\.\w+(?:\.256)?')
def _(c, p, m, v):
    es = c.ex.L.bits(c.ts[2][2]) // 8
    masked_store(c, [c.ex.padd(p, i * es) for i in range(len(m))],
                 [ext(x, x.w - 1, 1) for x in m], v)


def minmax(kind, x, y):
    # MINPS: a < b ? a : b ; MAXPS: a > b ? a : b
    if kind == 'min':
        return ite(E.fcmp('olt', x, y), x, y)
    return ite(E.fcmp('ogt', x, y), x, y)


@reg(r'llvm\.x86\.(?:sse2?|avx|avx512)\.(min|max)\.p[sd](?:\.\d+)?')
def _(c, a, b, *r):
    return [minmax(c.m.group(1), x, y) for x, y in zip(a, b)]


@reg(r'llvm\.x86\.sse2?\.(min|max)\.s[sd]')
def _(c, a, b):
    return [minmax(c.m.group(1), a[0], b[0])] + list(a[1:])


def rnd_mode(imm):
    if imm & 4:
        return 'rne'
    return ['rne', 'floor', 'ceil', 'trunc'][imm & 3]


@reg(r'llvm\.x86\.(?:sse41\.round|avx\.round)\.p[sd](?:\.256)?')
def _(c, a, imm):
    m = rnd_mode(imm.v)
    return [fop('frint', [x], x.w, m) for x in a]


@reg(r'llvm\.x86\.avx512\.mask\.rndscale\.p[sd]\.(\d+)')
def _(c, a, imm, src, mask, *r):
    if imm.v >> 4:
        raise Unsupported('rndscale scale')
    m = rnd_mode(imm.v & 15)
    return msel(mask, [fop('frint', [x], x.w, m) for x in a], src)


def msel(mask, v, src):
    out = []
    for i, (x, s) in enumerate(zip(v, src)):
        m = ext(mask, i, 1) if not isinstance(mask, list) else mask[i]
        out.append(ite(m, x, s))
    return out


def f2i_rne(x, w, sgn=True):
    return fop('fptosi' if sgn else 'fptoui', [x], w, 'rne')


def f2i_x86(x, w, sgn, mode):
    """x86 conversion: out of range gives the integer indefinite value"""
    r = fop('fptosi' if sgn else 'fptoui', [x], w, mode)
    ok = in_range(x, w, sgn, mode)
    ind = const(1 << (w - 1), w) if sgn else const(-1, w)
    return ite(ok, r, ind)


def in_range(x, w, sgn, mode):
    """1-bit: rounding x (mode) gives a value representable in w bits.
    Decided on the float encoding; bounds are computed with rationals."""
    from fractions import Fraction
    from . import softfp
    lo = -(1 << (w - 1)) if sgn else 0
    hi = (1 << (w - 1)) - 1 if sgn else (1 << w) - 1
    fw = x.w
    e, p = E.FMT[fw]
    # largest float whose rounding is <= hi : binary search on positive bits
    def ok(b, neg):
        bb = b | ((1 << (fw - 1)) if neg else 0)
        u = softfp.unpack(bb, fw)
        if u[0] != 'fin':
            return False
        v = softfp.rint(u[2], mode)
        return lo <= v <= hi
    def search(neg):
        if not ok(0, neg):
            return -1
        a, b = 0, softfp.inf(fw)
        while b - a > 1:
            m = (a + b) // 2
            if ok(m, neg):
                a = m
            else:
                b = m
        return a
    pos, ng = search(False), search(True)
    mag = ext(x, 0, fw - 1)
    s = ext(x, fw - 1, 1)
    return ite(s, E.ule(mag, const(ng, fw - 1)) if ng >= 0 else E.F(),
               E.ule(mag, const(pos, fw - 1)))


@reg(r'llvm\.x86\.(?:sse2\.cvt(t?)ps2dq|avx\.cvt(t?)\.ps2dq\.256)')
def _(c, a):
    t = c.m.group(1) or c.m.group(2)
    return [f2i_x86(x, 32, True, 'trunc' if t else 'rne') for x in a]


@reg(r'llvm\.x86\.(?:sse2\.cvt(t?)pd2dq|avx\.cvt(t?)\.pd2dq?\.256)')
def _(c, a):
    t = c.m.group(1) or c.m.group(2)
    r = [f2i_x86(x, 32, True, 'trunc' if t else 'rne') for x in a]
    return r + [const(0, 32)] * (c.rt[1] - len(r))


@reg(r'llvm\.x86\.avx512\.mask\.cvt(t?)p[sd]2(u?)(dq|qq)\.(\d+)')
def _(c, a, src, mask, *r):
    w = 32 if c.m.group(3) == 'dq' else 64
    mode = 'trunc' if c.m.group(1) else 'rne'
    rm(r)
    v = [f2i_x86(x, w, not c.m.group(2), mode) for x in a]
    v = v + [const(0, w)] * (len(src) - len(v))
    return msel(mask, v, src)


def rm(r):
    """explicit rounding operand: only current-direction (4) or nearest|SAE"""
    for x in r:
        if x.v not in (4, 8):
            raise Unsupported('explicit rounding mode %d' % x.v)


@reg(r'llvm\.x86\.avx512\.(?:mask\.)?(add|sub|mul|div)\.p[sd]\.512')
def _(c, a, b, *r):
    rm(r)
    return [fop('f' + c.m.group(1), [x, y], x.w) for x, y in zip(a, b)]


@reg(r'llvm\.x86\.avx512\.sqrt\.p[sd]\.512')
def _(c, a, *r):
    rm(r)
    return [fop('fsqrt', [x], x.w) for x in a]


@reg(r'llvm\.x86\.avx512\.vfmadd\.p[sd]\.512')
def _(c, a, b, d, *r):
    rm(r)
    return [fop('ffma', [x, y, z], x.w) for x, y, z in zip(a, b, d)]


@reg(r'llvm\.x86\.avx512\.(sitofp|uitofp)\.round\.\w+\.\w+')
def _(c, a, *r):
    rm(r)
    w = c.rt[2][1]
    return [fop(c.m.group(1), [x], w) for x in a]


@reg(r'llvm\.x86\.sse2\.cvtpd2ps')
def _(c, a):
    return [fop('fptrunc', [x], 32) for x in a] + [const(0, 32)] * 2


@reg(r'llvm\.x86\.avx\.cvt\.pd2\.ps\.256')
def _(c, a):
    return [fop('fptrunc', [x], 32) for x in a]


@reg(r'llvm\.x86\.avx512\.mask\.cvtpd2ps(?:\.\d+)?')
def _(c, a, src, mask, *r):
    rm(r)
    return msel(mask, [fop('fptrunc', [x], 32) for x in a], src)


@reg(r'llvm\.x86\.avx512\.mask\.cvtps2pd(?:\.\d+)?')
def _(c, a, src, mask, *r):
    return msel(mask, [fop('fpext', [x], 64) for x in a], src)


@reg(r'llvm\.x86\.vcvtps2ph\.(\d+)')
def _(c, a, imm):
    phm(imm)
    r = [fop('fptrunc', [x], 16) for x in a]
    return r + [const(0, 16)] * (c.rt[1] - len(r))


def phm(imm):
    if imm.v & 4 == 0 and imm.v & 3 != 0:
        raise Unsupported('vcvtps2ph rounding')


@reg(r'llvm\.x86\.avx512\.mask\.vcvtps2ph\.(\d+)')
def _(c, a, imm, src, mask):
    phm(imm)
    r = [fop('fptrunc', [x], 16) for x in a]
    return msel(mask, r, src)


@reg(r'llvm\.x86\.avx512\.mask\.vcvtph2ps\.(\d+)')
def _(c, a, src, mask, *r):
    return msel(mask, [fop('fpext', [x], 32) for x in a], src)


@reg(r'llvm\.x86\.(sse|avx|avx512)\.(rcp|rsqrt)(14|28)?\.(ps|pd)(?:\.\d+)?')
def _(c, a, *r):
    k = c.m.group(2) + (c.m.group(3) or '') + c.m.group(4)
    v = [E.uf('x86.' + k, [x], x.w) for x in a]
    if r:
        return msel(r[1], v, r[0])
    return v


def gather_ptrs(c, p, idx, scale):
    return [c.ex.padd(p, E.mul(sx(i, 64), const(scale.v, 64))) for i in idx]


@reg(r'llvm\.x86\.avx2\.gather\.\w+\.\w+(?:\.256)?')
def _(c, src, p, idx, mask, scale):
    n = c.rt[1]
    es = c.ex.L.bits(c.rt[2]) // 8
    ps = gather_ptrs(c, p, idx[:n], scale)
    k = len(ps)
    m = [ext(x, x.w - 1, 1) for x in mask]
    r = masked_load(c, ps, m[:k], list(src)[:k], es)
    return r + [const(0, 8 * es)] * (n - k)


@reg(r'llvm\.x86\.avx512\.mask\.gather(?:3\w*|\.\w+)(?:\.\w+)?')
def _(c, src, p, idx, mask, scale):
    es = c.ex.L.bits(c.rt[2]) // 8
    ps = gather_ptrs(c, p, idx, scale)
    m = mask if isinstance(mask, list) else [ext(mask, i, 1)
                                             for i in range(mask.w)]
    k = min(len(ps), c.rt[1])
    r = masked_load(c, ps[:k], m[:k], list(src)[:k], es)
    return r + [const(0, 8 * es)] * (c.rt[1] - k)


@reg(r'llvm\.x86\.avx512\.mask\.scatter(?:\.\w+|siv\w*|div\w*)(?:\.\w+)?')
def _(c, p, mask, idx, v, scale):
    ps = gather_ptrs(c, p, idx, scale)
    m = mask if isinstance(mask, list) else [ext(mask, i, 1)
                                             for i in range(mask.w)]
    k = min(len(ps), len(v))
    masked_store(c, ps[:k], m[:k], list(v)[:k])


def sat_pack(x, w, src_signed_to_unsigned):
    W = x.w
    if src_signed_to_unsigned:
        mx = const((1 << w) - 1, W)
        return ite(ext(x, W - 1, 1), const(0, w),
                   ite(E.slt(mx, x), const(-1, w), ext(x, 0, w)))
    mx = (1 << (w - 1)) - 1
    return ite(E.slt(const(mx, W), x), const(mx, w),
               ite(E.slt(x, const(-mx - 1, W)), const(-mx - 1, w),
                   ext(x, 0, w)))


@reg(r'llvm\.x86\.(?:sse2|sse41|avx2|avx512)\.pack(ss|us)(wb|dw)(?:\.\d+)?')
def _(c, a, b):
    us = c.m.group(1) == 'us'
    w = 8 if c.m.group(2) == 'wb' else 16
    per = 128 // (2 * w)
    out = []
    for l in range(0, len(a), per):
        for s in (a, b):
            out += [sat_pack(x, w, us) for x in s[l:l + per]]
    return out


@reg(r'llvm\.x86\.(?:sse2|avx2|avx512)\.pmulh(u?)\.w(?:\.\d+)?')
def _(c, a, b):
    e = zx if c.m.group(1) else sx
    return [ext(E.mul(e(x, 32), e(y, 32)), 16, 16) for x, y in zip(a, b)]


@reg(r'llvm\.x86\.(?:sse2|avx2|avx512)\.pmadd\.wd(?:\.\d+)?|llvm\.x86\.avx512\.pmaddw\.d\.512')
def _(c, a, b):
    p = [E.mul(sx(x, 32), sx(y, 32)) for x, y in zip(a, b)]
    return [E.add(p[i], p[i + 1]) for i in range(0, len(p), 2)]


@reg(r'llvm\.x86\.(?:sse2|avx2|avx512)\.psad\.bw(?:\.\d+)?')
def _(c, a, b):
    out = []
    for i in range(0, len(a), 8):
        s = const(0, 16)
        for x, y in zip(a[i:i + 8], b[i:i + 8]):
            s = E.add(s, zx(ite(E.ult(x, y), E.sub(y, x), E.sub(x, y)), 16))
        out.append(zx(s, 64))
    return out


@reg(r'llvm\.x86\.(?:ssse3|avx2)\.ph(add|sub)\.[wd](?:\.128)?')
def _(c, a, b):
    op = c.m.group(1)
    per = 128 // a[0].w
    out = []
    for l in range(0, len(a), per):
        for s in (a, b):
            q = s[l:l + per]
            out += [mkbin(op, q[i], q[i + 1]) for i in range(0, per, 2)]
    return out


@reg(r'llvm\.x86\.(?:sse3|avx)\.h(add|sub)\.p[sd](?:\.256)?')
def _(c, a, b):
    per = 128 // a[0].w
    out = []
    for l in range(0, len(a), per):
        for s in (a, b):
            q = s[l:l + per]
            out += [fop('f' + c.m.group(1), [q[i], q[i + 1]], q[i].w)
                    for i in range(0, per, 2)]
    return out


@reg(r'llvm\.x86\.(?:ssse3|avx2)\.psign\.[bwd](?:\.128)?')
def _(c, a, b):
    return [ite(E.eq(y, const(0, y.w)), const(0, y.w),
                ite(ext(y, y.w - 1, 1), E.neg(x), x)) for x, y in zip(a, b)]


@reg(r'llvm\.x86\.(?:sse41|avx)\.(ptest|vtest)(z|c|nzc)(?:\.p[sd])?(?:\.256)?')
def _(c, a, b):
    if c.m.group(1) == 'vtest':
        a = [ext(x, x.w - 1, 1) for x in a]
        b = [ext(x, x.w - 1, 1) for x in b]
    x, y = flatbits(a), flatbits(b)
    z = E.eq(E.band(x, y), const(0, x.w))
    cc = E.eq(E.band(not_(x), y), const(0, x.w))
    k = c.m.group(2)
    r = z if k == 'z' else cc if k == 'c' else and_(not_(z), not_(cc))
    return zx(r, 32)


CMPP = ['oeq', 'olt', 'ole', 'uno', 'une', 'uge', 'ugt', 'ord', 'ueq', 'ult',
        'ule', 'false', 'one', 'oge', 'ogt', 'true']


@reg(r'llvm\.x86\.(?:sse2?|avx)\.cmp\.p[sd](?:\.256)?')
def _(c, a, b, imm):
    return [sx(E.fcmp(CMPP[imm.v & 15], x, y), x.w) for x, y in zip(a, b)]


@reg(r'llvm\.x86\.avx512\.mask\.cmp\.p[sd]\.\d+')
def _(c, a, b, imm, mask, *r):
    v = [E.fcmp(CMPP[imm.v & 15], x, y) for x, y in zip(a, b)]
    m = mask if isinstance(mask, list) else [ext(mask, i, 1)
                                             for i in range(mask.w)]
    v = [and_(x, y) for x, y in zip(v, m)]
    return v if c.rt[0] == 'v' else cat(v)


@reg(r'llvm\.x86\.avx512\.pternlog\.[dq]\.\d+')
def _(c, a, b, d, imm):
    def f(x, y, z):
        w = x.w
        r = const(0, w)
        for k in range(8):
            if imm.v >> k & 1:
                t = x if k & 4 else not_(x)
                t = E.band(t, y if k & 2 else not_(y))
                t = E.band(t, z if k & 1 else not_(z))
                r = E.bor(r, t)
        return r
    return [f(x, y, z) for x, y, z in zip(a, b, d)]


@reg(r'llvm\.x86\.avx512\.(kortestz|kortestc)\.w')
def _(c, a, b):
    x = E.bor(flatbits(a), flatbits(b))
    if c.m.group(1) == 'kortestz':
        return zx(E.eq(x, const(0, x.w)), 32)
    return zx(E.eq(x, const(-1, x.w)), 32)


@reg(r'llvm\.x86\.(?:sse41|avx2?)\.insertps')
def _(c, a, b, imm):
    k = imm.v
    out = list(a)
    out[(k >> 4) & 3] = b[k >> 6]
    return [const(0, 32) if k >> i & 1 else x for i, x in enumerate(out)]


@reg(r'llvm\.x86\.sse2?\.(?:cvt(t?)s[sd]2si(?:64)?)')
def _(c, a):
    return f2i_x86(a[0], c.rt[1], True, 'trunc' if c.m.group(1) else 'rne')


@reg(r'llvm\.x86\.sse\.(sfence|lfence)|llvm\.x86\.sse2\.(mfence|lfence|pause)|llvm\.x86\.avx\.vzero\w+')
def _(c, *r):
    return None


@reg(r'llvm\.x86\.(?:sse3|avx)\.addsub\.p[sd](?:\.256)?')
def _(c, a, b):
    return [fop('fsub' if i % 2 == 0 else 'fadd', [x, y], x.w)
            for i, (x, y) in enumerate(zip(a, b))]


@reg(r'llvm\.x86\.avx512\.mask\.(compress|expand)\.\w+(?:\.\d+)?|llvm\.x86\.avx512\.mask\.(compress|expand)')
def _(c, *r):
    raise Unsupported(c.name)
