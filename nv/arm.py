"""Semantics of the AArch64 and ARMv7 Advanced SIMD intrinsics that the compiled code
of /repo uses, from the Arm Architecture Reference Manual (part of the trusted
base; this machine cannot run them, so unlike intr.py they are not validated
by execution)."""
from . import expr as E
from .expr import const, ext, zx, sx, ite, or_, not_, fop, mkbin
from .intr import reg, sat, in_range, check_align

N = r'llvm\.(?:aarch64|arm)\.neon\.'
SFX = r'\.v\d+[if]\d+'


@reg(N + 'v?abs' + SFX)
def _(c, a):
    return [ite(ext(x, x.w - 1, 1), E.neg(x), x) for x in a]


@reg(N + '(?:(s|u)(min|max)|v(min|max)(s|u))' + SFX)
def _(c, a, b):
    g = c.m.group
    s, k = g(1) or g(4), g(2) or g(3)
    if c.ex.L is not None and c.rt[2][0] == 'f':
        return fminmax(k, a, b)
    r = []
    for x, y in zip(a, b):
        lt = E.cmp(s + 'lt', x, y)
        r.append(ite(lt, x, y) if k == 'min' else ite(lt, y, x))
    return r


def qnan(w):
    e, p = E.FMT[w]
    return const(((1 << (e + 1)) - 1) << (p - 2), w)


@reg(N + 'f(min|max)' + SFX)
def _(c, a, b):
    return fminmax(c.m.group(1), a, b)


def fminmax(k, a, b):
    # FMIN, FMAX: NaN if one operand is, -0 < +0
    r = []
    for x, y in zip(a, b):
        mn = k == 'min'
        lt = E.fcmp('olt', x, y)
        gt = E.fcmp('olt', y, x)
        z = mkbin('or', x, y) if mn else mkbin('and', x, y)
        v = ite(lt, x, y) if mn else ite(gt, x, y)
        v = ite(or_(lt, gt), v, z)
        r.append(ite(or_(E.f_isnan(x), E.f_isnan(y)), qnan(x.w), v))
    return r


@reg(N + '(s|u)q(add|sub)' + SFX)
def _(c, a, b):
    return [sat(c.m.group(1), c.m.group(2), x, y) for x, y in zip(a, b)]


@reg(N + '(?:v?shift)?(s|u)(?:shl)?' + SFX)
def _(c, a, b):
    # shift left by the signed low byte of the lane, right when negative
    r = []
    for x, y in zip(a, b):
        w = x.w
        n = ext(y, 0, 8)
        neg = ext(n, 7, 1)
        l, d = n, E.neg(n)
        big = lambda k: E.ule(const(w, 8), k)
        amt = lambda k: zx(k, w) if w > 8 else k
        left = ite(big(l), const(0, w), mkbin('shl', x, amt(l)))
        if c.m.group(1) == 'u':
            right = ite(big(d), const(0, w), mkbin('lshr', x, amt(d)))
        else:
            right = ite(big(d), sx(ext(x, w - 1, 1), w),
                        mkbin('ashr', x, amt(d)))
        r.append(ite(neg, right, left))
    return r


@reg(N + 'fcvtz(s|u)' + SFX + SFX)
def _(c, a):
    # towards zero, saturating; NaN gives 0
    sgn = c.m.group(1) == 's'
    r = []
    for x in a:
        w = x.w
        v = fop('fptosi' if sgn else 'fptoui', [x], w, 'trunc')
        mx = const((1 << (w - 1)) - 1 if sgn else -1, w)
        mn = const(1 << (w - 1) if sgn else 0, w)
        s = ite(ext(x, w - 1, 1), mn, mx)
        r.append(ite(E.f_isnan(x), const(0, w),
                     ite(in_range(x, w, sgn, 'trunc'), v, s)))
    return r


@reg(N + r'faddv\.f\d+' + SFX)
def _(c, a):
    # FADDP, repeatedly
    a = list(a)
    while len(a) > 1:
        a = [fop('fadd', [a[i], a[i + 1]], a[0].w)
             for i in range(0, len(a), 2)]
    return a[0]


@reg(N + r'(s|u)addv\.i(\d+)' + SFX)
def _(c, a):
    W = int(c.m.group(2))
    r = None
    for x in a:
        r = x if r is None else E.add(r, x)
    # ADDV: the sum modulo 2^lane, in the low bits of the register
    return (sx if c.m.group(1) == 's' else zx)(r, W) if W > r.w else r


@reg(N + r'(s|u)(min|max)v\.i(\d+)' + SFX)
def _(c, a):
    s, k, W = c.m.group(1), c.m.group(2), int(c.m.group(3))
    r = a[0]
    for x in a[1:]:
        lt = E.cmp(s + 'lt', x, r)
        r = ite(lt, x, r) if k == 'min' else ite(lt, r, x)
    return (sx if c.m.group(1) == 's' else zx)(r, W) if W > r.w else r


@reg(N + r'[fv](rec|rsqrt)(p?)e\.v\d+f(\d+)')
def _(c, a):
    # estimates to 8 bits: RecipEstimate, RecipSqrtEstimate
    return [E.uf('arm.%s%d' % (c.m.group(1), x.w), [x], x.w) for x in a]


@reg(N + r'v?ld([234])' + SFX + r'\.p0')
def _(c, p, al=None):
    if al is not None:
        check_align(c, p, al.v)
    k = int(c.m.group(1))
    ty = c.rt
    n, et = lanes_of_struct(c, ty)
    es = c.ex.L.bits(et) // 8
    out = [[] for _ in range(k)]
    for i in range(n):
        for j in range(k):
            out[j].append(c.ex.load_bits(c.st, c.ex.padd(p, (i * k + j) * es),
                                         es, None, c.where))
    return out


def lanes_of_struct(c, ty):
    f = ty[1][0] if ty[0] != 'v' else ty
    return f[1], f[2]


@reg(N + r'vld1' + SFX + r'\.p0')
def _(c, p, al):
    check_align(c, p, al.v)
    es = c.ex.L.bits(c.rt[2]) // 8
    return [c.ex.load_bits(c.st, c.ex.padd(p, i * es), es, None, c.where)
            for i in range(c.rt[1])]


@reg(N + r'vst([1234])\.p0' + SFX)
def _(c, p, *r):
    k = int(c.m.group(1))
    vs = r[:k]
    check_align(c, p, r[k].v)
    es = c.ex.L.bits(c.ts[1][2]) // 8
    for i in range(len(vs[0])):
        for j in range(k):
            c.ex.store_bits(c.st, c.ex.padd(p, (i * k + j) * es), vs[j][i],
                            None, c.where)


@reg(N + r'vbsl' + SFX)
def _(c, m, a, b):
    return [mkbin('or', mkbin('and', x, z), mkbin('and', y, not_(z)))
            for z, x, y in zip(m, a, b)]


@reg(N + r'st([234])' + SFX + r'\.p0')
def _(c, *r):
    k = int(c.m.group(1))
    vs, p = r[:k], r[k]
    es = c.ex.L.bits(c.ts[0][2]) // 8
    for i in range(len(vs[0])):
        for j in range(k):
            c.ex.store_bits(c.st, c.ex.padd(p, (i * k + j) * es), vs[j][i],
                            None, c.where)
