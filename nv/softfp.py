"""Exact IEEE-754 (round to nearest even) concrete arithmetic on bit patterns
for binary16/32/64, by rationals.  Used to evaluate contracts on concrete
inputs (replay, differential validation) and for constant folding."""
from fractions import Fraction
import math

FMT = {16: (5, 11), 32: (8, 24), 64: (11, 53)}


def unpack(b, w):
    """-> ('nan',) ('inf',s) ('fin', s, Fraction)"""
    e, p = FMT[w]
    s = b >> (w - 1)
    ex = (b >> (p - 1)) & ((1 << e) - 1)
    m = b & ((1 << (p - 1)) - 1)
    bias = (1 << (e - 1)) - 1
    if ex == (1 << e) - 1:
        return ('nan',) if m else ('inf', s)
    if ex == 0:
        v = Fraction(m) * pow2(1 - bias - (p - 1))
    else:
        v = Fraction(m | (1 << (p - 1))) * pow2(ex - bias - (p - 1))
    return ('fin', s, -v if s else v)


def pow2(k):
    return Fraction(1 << k) if k >= 0 else Fraction(1, 1 << -k)


def qnan(w):
    e, p = FMT[w]
    return (((1 << e) - 1) << (p - 1)) | (1 << (p - 2))


def inf(w, s=0):
    e, p = FMT[w]
    return (s << (w - 1)) | (((1 << e) - 1) << (p - 1))


def isnan(b, w):
    return unpack(b, w)[0] == 'nan'


def rne(fr):
    f = math.floor(fr)
    d = fr - f
    if d > Fraction(1, 2) or (d == Fraction(1, 2) and f & 1):
        f += 1
    return f


def pack(v, w, s=0):
    """round Fraction v to nearest even; s = sign used for zero"""
    e, p = FMT[w]
    bias = (1 << (e - 1)) - 1
    if v == 0:
        return s << (w - 1)
    sg = 1 if v < 0 else 0
    a = abs(v)
    # exponent
    ex = a.numerator.bit_length() - a.denominator.bit_length()
    if a < pow2(ex):
        ex -= 1
    emin = 1 - bias
    q = max(ex, emin) - (p - 1)
    m = rne(a / pow2(q))
    if m >= (1 << p):
        m >>= 1
        q += 1
    if m >= (1 << (p - 1)):
        be = q + (p - 1) + bias
        if be >= (1 << e) - 1:
            return inf(w, sg)
        return (sg << (w - 1)) | (be << (p - 1)) | (m - (1 << (p - 1)))
    return (sg << (w - 1)) | m


def cmp(pred, a, b, w):
    x, y = unpack(a, w), unpack(b, w)
    if x[0] == 'nan' or y[0] == 'nan':
        return 1 if pred == 'fun' else 0
    if pred == 'fun':
        return 0

    def val(u):
        if u[0] == 'inf':
            return (-1 if u[1] else 1, 0)
        return (0, u[2])
    vx, vy = val(x), val(y)
    return int({'feq': vx == vy, 'flt': vx < vy, 'fle': vx <= vy}[pred])


def isqrt_pack(v, w):
    # correctly rounded sqrt of positive Fraction
    e, p = FMT[w]
    # scale so that integer sqrt has p+3 bits, sticky
    n, d = v.numerator, v.denominator
    ex = n.bit_length() - d.bit_length()
    sh = 2 * (p + 4) - ex
    if sh & 1:
        sh += 1
    num = n << sh if sh >= 0 else n
    den = d if sh >= 0 else d << (-sh)
    q, r = divmod(num, den)
    s = math.isqrt(q)
    exact = (s * s == q and r == 0)
    t = Fraction(2 * s + (0 if exact else 1), 2) * pow2(-sh // 2)
    return pack(t, w)


def rint(v, mode):
    if mode == 'floor':
        return math.floor(v)
    if mode == 'ceil':
        return math.ceil(v)
    if mode == 'trunc':
        return math.trunc(v)
    if mode == 'rne':
        return rne(v)
    if mode == 'rna':
        f = math.floor(abs(v) + Fraction(1, 2))
        return -f if v < 0 else f
    raise Exception(mode)


def fop(name, a, ws, w, extra):
    iw = ws[0]
    if name in ('fadd', 'fsub', 'fmul', 'fdiv'):
        x, y = unpack(a[0], iw), unpack(a[1], iw)
        if x[0] == 'nan' or y[0] == 'nan':
            return qnan(w)
        if name == 'fsub':
            y = (y[0], 1 - y[1]) + ((-y[2],) if y[0] == 'fin' else ())
            name = 'fadd'
        if name == 'fadd':
            if x[0] == 'inf':
                if y[0] == 'inf' and x[1] != y[1]:
                    return qnan(w)
                return inf(w, x[1])
            if y[0] == 'inf':
                return inf(w, y[1])
            s = x[2] + y[2]
            return pack(s, w, 1 if (x[1] and y[1]) else 0)
        sg = x[1] ^ y[1]
        if name == 'fmul':
            if x[0] == 'inf' or y[0] == 'inf':
                if (x[0] == 'fin' and x[2] == 0) or \
                        (y[0] == 'fin' and y[2] == 0):
                    return qnan(w)
                return inf(w, sg)
            return pack(x[2] * y[2], w, sg)
        if x[0] == 'inf':
            return qnan(w) if y[0] == 'inf' else inf(w, sg)
        if y[0] == 'inf':
            return sg << (w - 1)
        if y[2] == 0:
            return qnan(w) if x[2] == 0 else inf(w, sg)
        return pack(x[2] / y[2], w, sg)
    if name == 'ffma':
        x, y, z = [unpack(v, iw) for v in a]
        if 'nan' in (x[0], y[0], z[0]):
            return qnan(w)
        sg = x[1] ^ y[1]
        if x[0] == 'inf' or y[0] == 'inf':
            if (x[0] == 'fin' and x[2] == 0) or (y[0] == 'fin' and y[2] == 0):
                return qnan(w)
            if z[0] == 'inf' and z[1] != sg:
                return qnan(w)
            return inf(w, sg)
        if z[0] == 'inf':
            return inf(w, z[1])
        pr = x[2] * y[2]
        return pack(pr + z[2], w, 1 if (sg and z[1]) else 0)
    if name == 'fsqrt':
        x = unpack(a[0], iw)
        if x[0] == 'nan':
            return qnan(w)
        if x[0] == 'fin' and x[2] == 0:
            return a[0]
        if x[1]:
            return qnan(w)
        if x[0] == 'inf':
            return a[0]
        return isqrt_pack(x[2], w)
    if name == 'frint':
        x = unpack(a[0], iw)
        if x[0] == 'nan':
            return qnan(w)
        if x[0] == 'inf':
            return a[0]
        return pack(Fraction(rint(x[2], extra)), w, x[1])
    if name in ('fpext', 'fptrunc'):
        x = unpack(a[0], iw)
        if x[0] == 'nan':
            # keep sign and top payload bits, quieted (x86 behaviour)
            e0, p0 = FMT[iw]
            e1, p1 = FMT[w]
            m = a[0] & ((1 << (p0 - 1)) - 1)
            m = m << (p1 - p0) if p1 >= p0 else m >> (p0 - p1)
            return ((a[0] >> (iw - 1)) << (w - 1)) | \
                (((1 << e1) - 1) << (p1 - 1)) | (1 << (p1 - 2)) | m
        if x[0] == 'inf':
            return inf(w, x[1])
        return pack(x[2], w, x[1])
    if name in ('sitofp', 'uitofp'):
        v = a[0]
        if name == 'sitofp' and v >> (iw - 1):
            v -= 1 << iw
        return pack(Fraction(v), w)
    if name in ('fptosi', 'fptoui'):
        # extra: rounding mode; out of range -> None (undefined)
        x = unpack(a[0], iw)
        if x[0] != 'fin':
            return None
        v = rint(x[2], extra or 'trunc')
        if name == 'fptosi':
            if not -(1 << (w - 1)) <= v < (1 << (w - 1)):
                return None
        elif not 0 <= v < (1 << w):
            return None
        return v & ((1 << w) - 1)
    return None


def value(b, w):
    """exact rational value, None for NaN and infinities"""
    k = unpack(b, w)
    return k[2] if k[0] == 'fin' else None
