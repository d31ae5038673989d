"""P17: every spelling of an operator is the operator.

The library offers each operator as a C function nsimd_<op>_<ext>_<type>, as
the macros v<op> and v<op>_e, as the C++ functions nsimd::<op>(..., T()) and
nsimd::<op>(..., T(), ext()), and as the C11 generic macro nsimd_<op>.  Every
spelling is under the contract "same result, same memory as the C function",
the C function being under its own contract in P01-P12."""
from . import expr as E
from . import spec
from .build import cty
from .driver import Unit
from .expr import const, ext, cat
from .packs import (W, canary, SKIP, cname, div_pre, shift_pre, cmpf)
from .spec import bits, isf, lw, nlanes, lenc, FAMILY

MEMK = ('mem', 'mask', 'aos')


class A(W):
    """operands are plain registers; c11: wrapped in the generic types"""

    def __init__(self, name, t, x, c11=False):
        W.__init__(self, name, t, x, 1)
        self.c11 = c11

    def vec(self, nm, t=None, kind='v'):
        t = t or self.t
        x = self.x
        self.ps.append('const %s *%s' % (cty(kind, t, x), nm))

        def mk(P):
            n = nlanes(x, t)
            w = 1 if kind == 'l' else lw(t)
            ls = [E.var('%s_%d' % (nm, k), w) for k in range(n)]
            P.lanes[nm] = ls
            P.inp(nm, cat([lenc(x, t, b) for b in ls])
                  if kind == 'l' else cat(ls))
        self.mk.append(mk)
        if self.c11:
            self.pre.append('nsimd_pack%s_%s x%s; x%s.v = *%s;' % (
                'l' if kind == 'l' else '', t, nm, nm, nm))
            return 'x' + nm
        return '*' + nm


# spelling -> (language, call)
def spell(form, name, t, o, x, args, pk):
    if form == 'm':                      # v<op>
        return 'v%s(%s)' % (name, ', '.join(args + [t] + ([o] if o else [])))
    if form == 'e':                      # v<op>_e
        return 'v%s_e(%s)' % (name, ', '.join(
            args + [t] + ([o] if o else []) + [x]))
    if form == 'x':
        return 'nsimd::%s(%s)' % (name, ', '.join(
            args + [t + '()'] + ([o + '()'] if o else [])))
    if form == 'y':
        return 'nsimd::%s(%s)' % (name, ', '.join(
            args + [t + '()'] + ([o + '()'] if o else []) +
            ['nsimd::%s()' % x]))
    # C11: a type is given where no operand determines it
    return 'nsimd_%s(%s)' % (name, ', '.join(([pk] if pk else []) + args))


def op(sig, t, o, x, form):
    name = sig[1]
    to = o or t
    c11 = form == 'g'
    w = A('%s_%s_%s%s' % (form, name, o + '_' if o else '', t), t, x, c11)
    args, rs = [], []
    typed = False
    n, sz = nlanes(x, t), bits(t) // 8
    deg = int(name[name.index('load') + 4]) if name[:4] == 'load' and \
        name[4] in '234' else int(name[5]) if name[:5] == 'store' and \
        name[5] in '234' else 1
    for i, c in enumerate(sig[2:]):
        nm = 'a%d' % i
        if c in ('v', 'l'):
            typed = True
            args.append(w.vec(nm, t, c))
            rs.append('*' + nm)
        elif c == 'p':
            args.append(w.scalar(nm, 'int'))
            rs.append(nm)
        elif c == 's':
            args.append(w.scalar(nm, t))
            rs.append('*' + nm)
        elif c in ('*', 'c*'):
            al = 64 if name.rstrip('1').endswith('a') else sz
            args.append(w.mem(nm, n * deg, al, c == '*', twin=c == '*'))
            rs.append(nm + ('_' if c == '*' else ''))
        else:
            return None
    if name in ('shl', 'shr', 'shra'):
        w.pres.append(shift_pre('a1'))
    if name == 'div' and not isf(t):
        w.pres.append(div_pre())
    if name == 'mask_for_loop_tail':
        w.pres.append(lambda P: [
            E.sle(const(0, 32), P.lanes['a0']),
            E.sle(const(0, 32), P.lanes['a1']),
            E.sle(P.lanes['a0'], const(0x7fffffff - n, 32))])
    ro = sig[0]
    K = {'v': 'pack', 'l': 'packl'}.get(ro, 'pack' + ro[1:])
    pk = 'nsimd_%s_%s' % (K, to)
    call = spell(form, name, t, o, x, args,
                 'nsimd_pack_' + t if name == 'len' else
                 pk if o or not typed else None)
    finish(w, ro, to, x, call, '%s(%s)' % (cname(name, x, t, o),
                                           ', '.join(rs)), pk, c11, name)
    return w


def finish(w, ro, to, x, call, ref, pk, c11, name):
    if ro == '_':
        w.body.append(call + ';')
        w.ref.append(ref + ';')
    elif ro in ('v', 'l'):
        w.out(to, ro)
        w.body.append('%s y = %s; *r = y.v;' % (pk, call) if c11 else
                      '*r = %s;' % call)
        w.ref.append('*e = %s;' % ref)
    elif ro[:2] == 'vx':
        k = int(ro[2])
        T_ = cty(ro, to, x)
        w.out(to, 'v', k)
        w.body.append('{ %s y = %s; %s }' % (
            pk if c11 else T_, call,
            ' '.join('r[%d] = y.v%d%s;' % (m, m, '.v' if c11 else '')
                     for m in range(k))))
        w.ref.append('{ %s z = %s; %s }' % (
            T_, ref, ' '.join('e[%d] = z.v%d;' % (m, m) for m in range(k))))
    elif ro == 's':
        w.ps += ['%s *r' % to, '%s *e' % to]
        size = bits(to) // 8
        w.mk.append(lambda P: (P.out('r', size), P.out('e', size)))
        w.posts.append(lambda P, o: [('result', cmpf(isf(to), o['r'],
                                                     o['e']))])
        w.body.append('*r = %s;' % call)
        w.ref.append('*e = %s;' % ref)
    else:                                 # int
        w.out('int', 'c')
        b = '!!' if name in ('all', 'any') else ''
        w.body.append('*r = %s(%s);' % (b, call))
        w.ref.append('*e = %s(%s);' % (b, ref))


class GS(object):
    """gather and scatter in another spelling, under their own contract"""

    def __init__(self, sig, t, x, form):
        self.sig, self.t, self.x, self.form = sig, t, x, form
        self.fn = 'w_%s_%s_%s' % (form, sig[1], t)

    def text(self):
        sig, t, x = self.sig, self.t, self.x
        ps, args, pre = [], [], ''
        for i, c in enumerate(sig[2:]):
            nm = 'a%d' % i
            if c in ('*', 'c*', 'p'):
                ps.append('%s %s' % (cty(c, t, x), nm))
                args.append(nm)
            else:
                ps.append('const %s *%s' % (cty(c, t, x), nm))
                args.append('*' + nm)
                if self.form == 'g':
                    pre += 'nsimd_pack_%s x%s; x%s.v = *%s; ' % (
                        'i' + t[1:] if c == 'vi' else t, nm, nm, nm)
                    args[-1] = 'x' + nm
        ld = sig[0] == 'v'
        call = spell(self.form, sig[1], t, None, x, args,
                     'nsimd_pack_' + t if ld else None)
        if ld:
            ps.append('%s *r' % cty('v', t, x))
            call = '*r = (%s)%s' % (call, '.v' if self.form == 'g' else '')
        return 'void %s(%s) { %s%s; }' % (self.fn, ', '.join(ps), pre, call)

    def prob(self, fn=None):
        return spec.contract(self.sig, self.t, None, self.x,
                             fn=fn or self.fn)


def extra(t, x, form):
    """spellings parametrised by the alignment, and if_else"""
    ws = []
    n, sz = nlanes(x, t), bits(t) // 8
    c11 = form == 'g'

    def arg(al, base, args):
        if form == 'm':
            return 'v%s(%s, %s, %s)' % (base, ', '.join(args), t, (
                'NSIMD_UNALIGNED', 'NSIMD_ALIGNED')[al])
        if form == 'e':
            return 'v%s_e(%s, %s, %s, %s)' % (
                base, ', '.join(args), t, x,
                ('NSIMD_UNALIGNED', 'NSIMD_ALIGNED')[al])
        tag = 'nsimd::%saligned()' % ('un', '')[al]
        if form == 'x':
            return 'nsimd::%s(%s, %s(), %s)' % (base, ', '.join(args), t, tag)
        if form == 'y':
            return 'nsimd::%s(%s, %s(), nsimd::%s(), %s)' % (
                base, ', '.join(args), t, x, tag)
        a = ('unaligned', 'aligned')[al]
        if base == 'load':
            return 'nsimd_load(%s, nsimd_pack_%s, %s)' % (a, t, args[0])
        return 'nsimd_store(%s, %s)' % (a, ', '.join(args))

    for al in (0, 1):
        s = 'ua'[al]
        A_ = 64 if al else sz
        for base in ('load', 'load2', 'load3', 'load4', 'loadl'):
            if c11 and base != 'load' or base == 'loadl' and form in 'xy':
                continue
            k = int(base[4]) if base[-1] in '234' else 1
            w = A('%s_%s_%s_%s' % (form, base, s, t), t, x, c11)
            w.mem('p', n * k, A_, False)
            ro = 'l' if base == 'loadl' else 'v' if k == 1 else 'vx%d' % k
            finish(w, ro, t, x, arg(al, base, ['p']),
                   '%s(p)' % cname(base + s, x, t), 'nsimd_pack_' + t, c11,
                   base)
            ws.append(w)
        for base in ('store', 'store2', 'store3', 'store4', 'storel'):
            if c11 and base != 'store':
                continue
            k = int(base[5]) if base[-1] in '234' else 1
            w = A('%s_%s_%s_%s' % (form, base, s, t), t, x, c11)
            w.mem('p', n * k, A_, True, twin=True)
            kind = 'l' if base == 'storel' else 'v'
            vs = [w.vec('a%d' % m, t, kind) for m in range(k)]
            finish(w, '_', t, x, arg(al, base, ['p'] + vs),
                   '%s(p_, %s)' % (cname(base + s, x, t), ', '.join(
                       '*a%d' % m for m in range(k))), None, c11, base)
            ws.append(w)
    if not c11:
        for lt in {'8': ('i8', 'u8'), '16': ('i16', 'f16', 'u16'),
                   '32': ('i32', 'f32', 'u32'),
                   '64': ('i64', 'f64', 'u64')}[t[1:]]:
            w = A('%s_if_else_%s_%s' % (form, lt, t), t, x)
            a = [w.vec('a0', lt, 'l'), w.vec('a1'), w.vec('a2')]
            finish(w, 'v', t, x, {
                'm': 'vif_else(%s, %s, %s)' % (', '.join(a), lt, t),
                'e': 'vif_else_e(%s, %s, %s, %s)' % (', '.join(a), lt, t, x),
                'x': 'nsimd::if_else(%s, %s(), %s())' % (', '.join(a), lt, t),
                'y': 'nsimd::if_else(%s, %s(), %s(), nsimd::%s())' % (
                    ', '.join(a), lt, t, x)}[form],
                '%s(%s(*a0), *a1, *a2)' % (
                    cname('if_else1', x, t),
                    cname('reinterpretl', x, lt, t)), None, False, 'if_else')
            ws.append(w)
    return ws


def fns(t, x, form, gs):
    from .props import OPS
    ws = []
    for sig, types, cop, has, out in OPS:
        fam = FAMILY[sig[1]]
        for tt, o in types:
            if tt != t:
                continue
            if fam == 'gather':
                if gs:
                    ws.append(GS(sig, t, x, form))
                continue
            w = op(sig, t, o, x, form)
            if w:
                ws.append(w)
    return ws + extra(t, x, form)


CONF = [('avx2', 'xym', None, True), ('avx2', 'g', 'c11', True),
        ('sse2', 'me', 'c89', True), ('sse42', 'xe', 'c++98', True),
        ('cpu', 'xym', None, True), ('cpu', 'g', 'c11', True),
        ('avx', 'x', None, False), ('avx512_knl', 'xm', None, False),
        ('avx512_skylake', 'xye', None, False),
        ('avx512_skylake', 'g', 'c11', False),
        ('aarch64', 'xym', None, True), ('aarch64', 'g', 'c11', False)]
MORE = [('sse2', 'xy', None, True), ('sse2', 'g', 'c11', True),
        ('sse42', 'g', 'c11', True), ('avx', 'gme', 'c11', True),
        ('avx512_knl', 'g', 'c11', False),
        ('neon128', 'xym', None, True), ('neon128', 'g', 'c11', False),
        ('vsx', 'xym', None, True), ('vmx', 'xym', None, True)]


def api_units(tier):
    us = []
    for x, forms, std, gs in CONF + (MORE if tier == 'thorough' else []):
        for t in spec.TYPES:
            fs = [w for f in forms for w in fns(t, x, f, gs)]
            us.append(unit('api-%s-%s-%s' % (x, forms, t), x, fs, std))
    return us


def unit(key, x, fs, std):
    c = std in ('c89', 'c11')
    text = '#include <nsimd/%s>\n' % ('nsimd-all.h' if c else 'nsimd.h')
    ct, cans = canary(fs)
    body = '\n'.join([f.text() for f in fs] + [ct])
    if not c:
        body = 'extern "C" {\n%s\n}' % body
    return Unit(key, x, text + body + '\n', spec.FLAGS[x],
                [(f.fn[2:], f.prob) for f in fs], std=std, canaries=cans)
