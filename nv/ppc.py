"""Semantics of the POWER vector intrinsics (AltiVec and VSX) that the compiled
code of /repo uses, little-endian, from the Power ISA (part of the trusted
base; this machine cannot run them)."""
from . import expr as E
from .expr import const, ext, zx, sx, ite, and_, or_, not_, fop, mkbin
from .intr import reg, sat, in_range, check_align, as_lanes
from .arm import qnan

A = r'llvm\.ppc\.altivec\.v'
W = {'b': 8, 'h': 16, 'w': 32, 'd': 64}


def reslice(a, w):
    return as_lanes(a, w)


@reg(A + '(min|max)(s|u)([bhwd])')
def _(c, a, b):
    k, s = c.m.group(1), c.m.group(2)
    r = []
    for x, y in zip(a, b):
        lt = E.cmp(s + 'lt', x, y)
        r.append(ite(lt, x, y) if k == 'min' else ite(lt, y, x))
    return r


@reg(A + '(add|sub)(s|u)([bhw])s')
def _(c, a, b):
    return [sat(c.m.group(2), c.m.group(1), x, y) for x, y in zip(a, b)]


@reg(A + 's(l|r|ra)([bhwd])')
def _(c, a, b):
    op = {'l': 'shl', 'r': 'lshr', 'ra': 'ashr'}[c.m.group(1)]
    return [mkbin(op, x, mkbin('and', y, const(x.w - 1, x.w)))
            for x, y in zip(a, b)]


def relation(c, a, b):
    if c.m.group(1) == 'equ':
        return [E.eq(x, y) for x, y in zip(a, b)]
    s = c.m.group(1)[2]
    return [E.cmp(s + 'lt', y, x) for x, y in zip(a, b)]


@reg(A + 'cmp(equ|gts|gtu)([bhwd])')
def _(c, a, b):
    return [sx(q, x.w) for q, x in zip(relation(c, a, b), a)]


@reg(A + r'cmp(equ|gts|gtu)([bhwd])\.p')
def _(c, cr, a, b):
    # bits of CR6: all false (0, 1: its negation), all true (2, 3)
    q = relation(c, a, b)
    r = and_(*q) if cr.v & 2 else and_(*[not_(x) for x in q])
    return zx(not_(r) if cr.v & 1 else r, 32)


@reg(A + 'perm')
def _(c, a, b, m):
    # indices count bytes from the most significant end
    xs = as_lanes(b, 8) + as_lanes(a, 8)     # little-endian bytes of a:b
    out = []
    for k in as_lanes(m, 8):
        i = not_(ext(k, 0, 5))               # 31 - index
        if i.op == 'c':
            out.append(xs[i.v])
            continue
        r = xs[0]
        for j in range(1, 32):
            r = ite(E.eq(i, const(j, 5)), xs[j], r)
        out.append(r)
    return as_lanes(out, c.ex.L.bits(c.rt[2]))


@reg(A + 'upk(h|l)s([bhw])')
def _(c, a):
    n = len(a) // 2
    h = a[n:] if c.m.group(1) == 'h' else a[:n]
    return [sx(x, 2 * x.w) for x in h]


@reg(A + 'ct(s|u)xs')
def _(c, a, k):
    sgn = c.m.group(1) == 's'
    assert k.v == 0
    r = []
    for x in a:
        v = fop('fptosi' if sgn else 'fptoui', [x], 32, 'trunc')
        mx = const((1 << 31) - 1 if sgn else -1, 32)
        mn = const(1 << 31 if sgn else 0, 32)
        r.append(ite(E.f_isnan(x), const(0, 32),
                     ite(in_range(x, 32, sgn, 'trunc'), v,
                         ite(ext(x, 31, 1), mn, mx))))
    return r


@reg(A + 'cf(s|u)x')
def _(c, a, k):
    assert k.v == 0
    return [fop('sitofp' if c.m.group(1) == 's' else 'uitofp', [x], 32)
            for x in a]


@reg(r'llvm\.ppc\.altivec\.lvx')
def _(c, p):
    # the address is used rounded down to a multiple of 16: must be one
    check_align(c, p, 16)
    es = c.ex.L.bits(c.rt[2]) // 8
    return [c.ex.load_bits(c.st, c.ex.padd(p, i * es), es, None, c.where)
            for i in range(c.rt[1])]


@reg(r'llvm\.ppc\.altivec\.stvx')
def _(c, v, p):
    check_align(c, p, 16)
    es = c.ex.L.bits(c.ts[0][2]) // 8
    for i, x in enumerate(v):
        c.ex.store_bits(c.st, c.ex.padd(p, i * es), x, None, c.where)


@reg(r'llvm\.ppc\.fnmsub\.\w+')
def _(c, a, b, d):
    return [E.f_neg(fop('ffma', [x, y, E.f_neg(z)], x.w))
            for x, y, z in zip(a, b, d)]


@reg(r'llvm\.ppc\.vsx\.xv(min|max)[sd]p')
def _(c, a, b):
    r = []
    for x, y in zip(a, b):
        mn = c.m.group(1) == 'min'
        e, p = E.FMT[x.w]
        lt, gt = E.fcmp('olt', x, y), E.fcmp('olt', y, x)
        z = mkbin('or', x, y) if mn else mkbin('and', x, y)
        v = ite(or_(lt, gt), ite(lt if mn else gt, x, y), z)

        def snan(u):
            return and_(E.f_isnan(u), not_(ext(u, p - 2, 1)))
        v = ite(E.f_isnan(x), y, ite(E.f_isnan(y), x, v))
        r.append(ite(or_(snan(x), snan(y)), qnan(x.w), v))
    return r


@reg(r'llvm\.ppc\.vsx\.xv(r)(sqrt)?e[sd]p')
def _(c, a):
    # accurate to one part in 2^14
    return [E.uf('ppc.%s%d' % ('rsqrt' if c.m.group(2) else 'rec', x.w), [x],
                 x.w) for x in a]
