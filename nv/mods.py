"""Contracts of the parts of nsimd that are not SIMD operators: f16
conversions, scalar operators, floating-point classification, ..."""
from . import expr as E
from . import spec
from .expr import const, ext, ite, and_, or_, not_, fop, zx, sx
from .driver import Unit
from .spec import Prob, bits, isf, eqf, veq, fconst

_prover = []


def feas(pc):
    """False only if the path condition is proved unsatisfiable"""
    from .solve import Prover
    if not _prover:
        _prover.append(Prover(3000, 3000, 1))
    return _prover[0].prove(not_(pc), [])[0] != 'valid'


def no_hook(*a):
    return NotImplemented


CT = {'int': 32}


def cw(t):
    return CT[t] if t in CT else bits(t)


def fn_wrapper(w, call, args, ret):
    """void w(const A *a0, ..., R *r) { *r = call; } ; call uses {0} {1}"""
    ps = ['const %s *a%d' % (c, i) for i, c in enumerate(args)]
    if ret:
        ps.append('%s *r' % ret)
    body = call.format(*['(*a%d)' % i for i in range(len(args))])
    return 'void %s(%s) { %s%s; }' % (w, ', '.join(ps),
                                      '*r = ' if ret else '', body)


class Fn(object):
    """one scalar function under contract: C++ call expression, argument
    types, result type, contract(P, args) -> (pre list, post(result))"""

    def __init__(self, name, call, args, ret, spec_):
        self.name, self.call, self.args, self.ret = name, call, args, ret
        self.spec = spec_
        self.text = fn_wrapper('w_' + name, call, args, ret)

    def prob(self, fn=None):
        P = Prob(fn or 'w_' + self.name)
        P.op, P.t, P.o, P.ext = self.name, None, None, 'cpu'
        a = [P.inp('a%d' % i, E.var('a%d' % i, cw(t)))
             for i, t in enumerate(self.args)]
        P.out('r', cw(self.ret) // 8)
        pre, post = self.spec(*a)
        P.pre = list(pre)
        P.post = lambda o: post(o['r'])
        return P

    def canary(self):
        ps = ['const %s *a%d' % (c, i) for i, c in enumerate(self.args)]
        return 'void k_%s(%s, %s *r) { w_%s(%s, r); ' \
            '((unsigned char *)r)[0] ^= 1; }' % (
                self.name, ', '.join(ps), self.ret, self.name,
                ', '.join('a%d' % i for i in range(len(self.args))))


def fn_unit(key, x, head, fns, flags, std=None, hook=None, opts=None,
            extra_src=('fp16.cpp',), canary=True):
    text = head + '\n#ifdef __cplusplus\nextern "C" {\n#endif\n' + '\n'.join(f.text for f in fns) + '\n'
    cans = []
    if canary:
        text += fns[0].canary() + '\n'
        cans = [('k_' + fns[0].name, lambda f=fns[0]: f.prob('k_' + f.name))]
    text += '#ifdef __cplusplus\n}\n#endif\n'
    return Unit(key, x, text, flags, [(f.name, f.prob) for f in fns],
                std=std, hook=hook, opts=opts, canaries=cans,
                extra_src=extra_src)


# ------------------------------------------------------------------ f16

def to_f32(a):
    return [], lambda r: [('value', eqf(r, fop('fpext', [a], 32)))]


def to_f16(a):
    return [], lambda r: [('value', eqf(r, fop('fptrunc', [a], 16)))]


def rt16(a):
    # a binary16 value survives the trip through f32
    return [], lambda r: [('value', eqf(r, a))]


def fp16_fns(cxx=True):
    fs = [Fn('nsimd_u16_to_f32', 'nsimd_u16_to_f32({0})', ['u16'], 'f32',
             to_f32),
          Fn('nsimd_f32_to_u16', 'nsimd_f32_to_u16({0})', ['f32'], 'u16',
             to_f16),
          Fn('nsimd_f16_to_f32', 'nsimd_f16_to_f32({0})', ['f16'], 'f32',
             to_f32),
          Fn('nsimd_f32_to_f16', 'nsimd_f32_to_f16({0})', ['f32'], 'f16',
             to_f16),
          Fn('roundtrip_f16', 'nsimd_f32_to_f16(nsimd_f16_to_f32({0}))',
             ['f16'], 'f16', rt16)]
    if cxx:
        for n, a, r, s in (('u16_to_f32', 'u16', 'f32', to_f32),
                           ('f32_to_u16', 'f32', 'u16', to_f16),
                           ('f16_to_f32', 'f16', 'f32', to_f32),
                           ('f32_to_f16', 'f32', 'f16', to_f16)):
            fs.append(Fn('cxx_' + n, 'nsimd::%s({0})' % n, [a], r, s))
    return fs


def fp16_units(tier):
    us = []
    for name, flags, std in (('cpu', '-DCPU', None),
                             ('avx2', spec.FLAGS['avx2'], None),
                             ('cpu98', '-DCPU', 'c++98')):
        us.append(fn_unit('fp16-' + name, 'avx2' if name == 'avx2' else 'cpu',
                          '#include <../src/fp16.cpp>', fp16_fns(), flags,
                          std, no_hook, {'feasible': feas}, ()))
    return us


# --------------------------------------------------------- scalar operators

def truth(a):
    return E.ne(a, const(0, a.w))


def one_of(t, exps):
    def post(r):
        c = E.F()
        for e in exps:
            c = or_(c, veq(t, r, e))
        return [('value', c)]
    return post


def up(t, a):
    return fop('fpext', [a], 32) if t == 'f16' else a


def down(t, a):
    return fop('fptrunc', [a], 16) if t == 'f16' else a


def scalar_spec(name, t, o):
    """contract of nsimd_scalar_<name>_[<o>_]<t>; f16: the operation on the
    f32 values, rounded to f16"""
    from .intr import sat

    def f(*a):
        w = bits(t)
        if name in ('orl', 'andl', 'andnotl', 'xorl', 'notl'):
            b = [truth(x) for x in a]
            e = {'orl': lambda x, y: or_(x, y), 'andl': lambda x, y: and_(x, y),
                 'andnotl': lambda x, y: and_(x, not_(y)),
                 'xorl': lambda x, y: E.bxor(x, y),
                 'notl': not_}[name](*b)
            return [], lambda r: [('truth', E.eq(truth(r), e))]
        if name == 'to_mask':
            return [], lambda r: [('mask', E.eq(r, sx(truth(a[0]), w)))]
        if name == 'to_logical':
            return [], lambda r: [('truth', E.eq(truth(r), truth(a[0])))]
        if name in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
            e = spec.compare(name, t, up(t, a[0]), up(t, a[1]))
            return [], lambda r: [('truth', E.eq(truth(r), e))]
        if name in ('orb', 'andb', 'xorb', 'andnotb'):
            e = spec.lane2(name, 'u64', *a)[1]
            return [], lambda r: [('bits', veq(t, r, e))]
        if name == 'notb':
            return [], lambda r: [('bits', veq(t, r, not_(a[0])))]
        if name in ('min', 'max'):
            if t == 'f16':
                return [], lambda r: [('value', spec.minmax_post(
                    name, 'f32', up(t, a[0]), up(t, a[1]), up(t, r)))]
            return [], lambda r: [('value', spec.minmax_post(
                name, t, a[0], a[1], r))]
        if name in ('shl', 'shr', 'shra'):
            s = a[1]
            sw = zx(s, w) if w >= 32 else ext(s, 0, w)
            op = 'shl' if name == 'shl' else 'ashr' if name == 'shra' and \
                t[0] == 'i' else 'lshr'
            return [E.ult(s, const(w, 32))], one_of(t, [E.mkbin(op, a[0], sw)])
        if name in ('fma', 'fnma', 'fms', 'fnms'):
            ft = 'f32' if t == 'f16' else t
            return [], one_of(t, [down(t, e) for e in spec.fma_lane(
                name, ft, *[up(t, x) for x in a])])
        if name == 'reinterpret':
            return [], lambda r: [('bits', E.eq(r, a[0]))]
        if name == 'cvt':
            pre, e = spec.conv('f32' if o == 'f16' else o,
                               'f32' if t == 'f16' else t, up(t, a[0]))
            return [pre], one_of(o, [down(o, e)])
        if name in ('rec11', 'rec8', 'rsqrt11', 'rsqrt8'):
            rs = name.startswith('rsqrt')
            if t == 'f16':
                x = fop('fpext', [a[0]], 32)
                # 1/a and 1/sqrt(a) are normal binary16 numbers
                pre = [E.ule(const(1, 5), ext(a[0], 10, 5)),
                       E.ule(ext(a[0], 10, 5), const(28, 5))]
                if rs:
                    pre.append(not_(ext(a[0], 15, 1)))

                def post(r):
                    if r.op == 'fop' and r.v[0] == 'fptrunc' and \
                            spec.approx_ok(name, 'f32', x, r.args[0]) is E.T():
                        return [('error bound', E.T())]
                    from .solve import mkpred
                    return [('error bound', mkpred('approx', (name, 16),
                                                   [r, a[0]]))]
                return pre, post
            pre = [spec.normal_pos(a[0], rs)]
            return pre, lambda r: [('error bound',
                                    spec.approx_ok(name, t, a[0], r))]
        if len(a) == 1:
            if name in ('neg', 'abs') and t == 'f16':
                p, e = spec.lane1(name, t, a[0])
            else:
                p, e = spec.lane1(name, t, up(t, a[0]))
                e = down(t, e)
        else:
            p, e = spec.lane2(name, t, up(t, a[0]), up(t, a[1]))
            e = down(t, e)
        return [p], one_of(t, [e])
    return f


def scalar_fns(cxx):
    from .props import OPS
    fs, seen = [], set()
    for sig, types, _, has, out in OPS:
        if not has:
            continue
        name = sig[1]
        for t, o in types:
            args = [{'v': t, 'l': 'int', 'p': 'int'}[c] for c in sig[2:]]
            ret = 'int' if sig[0] == 'l' else o or t
            isl = name in ('orl', 'andl', 'andnotl', 'xorl', 'notl')
            al = ', '.join('{%d}' % i for i in range(len(args)))
            if isl:
                if name in seen:
                    continue
                seen.add(name)
                nm = name
            else:
                nm = '%s_%s%s' % (name, o + '_' if o else '', t)
            if cxx:
                tag = '%s(), ' % (o or t) if o or name == 'to_mask' else ''
                call = 'nsimd::scalar_%s(%s%s)' % (name, tag, al)
            else:
                call = 'nsimd_scalar_%s(%s)' % (nm, al)
            fs.append(Fn(('cxx_' if cxx else '') + nm, call, args, ret,
                         scalar_spec(name, t, o)))
    return fs


def scalar_units(tier):
    us = []
    head = '#include <nsimd/nsimd.h>'
    for name, x, flags, std, cxx in (
            ('c++11', 'cpu', '-DCPU', None, False),
            ('c++11-api', 'cpu', '-DCPU', None, True),
            ('c++98', 'cpu', '-DCPU', 'c++98', False),
            ('c89', 'cpu', '-DCPU', 'c89', False),
            ('avx2', 'avx2', spec.FLAGS['avx2'], None, False)):
        fs = scalar_fns(cxx)
        for k in range(0, len(fs), 130):
            us.append(fn_unit('scalar-%s-%d' % (name, k), x, head,
                              fs[k:k + 130], flags, std))
    return us


# ------------------------------------------- floating-point classification

FM = {'f16': (5, 10), 'f32': (8, 23), 'f64': (11, 52)}


def fparts(t, a):
    e, m = FM[t]
    return ext(a, m, e), ext(a, 0, m)


def class_spec(kind, t):
    def f(a):
        e, m = fparts(t, a)
        full = E.eq(e, const(-1, e.w))
        mz = E.eq(m, const(0, m.w))
        if kind == 'isnan':
            c = and_(full, not_(mz))
            return [], lambda r: [('truth', E.eq(truth(r), c))]
        if kind == 'isinf':
            c = and_(full, mz)
            return [], lambda r: [('truth', E.eq(truth(r), c))]
        ez = E.eq(e, const(0, e.w))
        return [], lambda r: [
            ('normal numbers', E.implies(and_(not_(ez), not_(full)),
                                         truth(r))),
            ('subnormal numbers', E.implies(and_(ez, not_(mz)),
                                            not_(truth(r))))]
    return f


def ufp_spec(t):
    def f(a, b):
        ew, mw = FM[t]
        W = 64
        (ea, ma), (eb, mb) = fparts(t, a), fparts(t, b)
        norm = [E.ne(ea, const(0, ew)), E.ne(ea, const(-1, ew)),
                E.ne(eb, const(0, ew)), E.ne(eb, const(-1, ew)),
                E.eq(ext(a, ew + mw, 1), ext(b, ew + mw, 1))]
        A = zx(E.cat([ma, const(1, 1)]), W)
        B = zx(E.cat([mb, const(1, 1)]), W)
        one = const(1, W)

        def ab(x, y):
            return ite(E.ult(x, y), E.sub(y, x), E.sub(x, y))
        e1, e2 = zx(ea, 16), zx(eb, 16)
        far = and_(E.ne(e1, e2), E.ne(E.add(e1, const(1, 16)), e2),
                   E.ne(E.add(e2, const(1, 16)), e1))
        # distance in units of the last place of the smaller one
        D = ite(E.eq(ea, eb), ab(A, B),
                ite(E.ult(ea, eb), ab(E.mkbin('shl', B, one), A),
                    ab(E.mkbin('shl', A, one), B)))

        def post(r):
            c = E.F()
            for u in range(-1, mw + 2):
                p = and_(E.eq(r, const(u, 32)),
                         E.ult(D, const(1 << (mw + 1 - u), W)))
                if u <= mw:
                    p = and_(p, E.ule(const(1 << (mw - u), W), D))
                c = or_(c, p)
            return [('numbers apart', E.implies(far, E.eq(r, const(0, 32)))),
                    ('leading bits in agreement', or_(far, c))]
        return norm, post
    return f


def class_units(tier):
    us = []
    for name, flags, std, cxx in (('c++11', '-DCPU', None, 1),
                                  ('c++98', '-DCPU', 'c++98', 1),
                                  ('c89', '-DCPU', 'c89', 0)):
        fs = []
        for k in ('isnan', 'isinf', 'isnormal'):
            for t in FM:
                fs.append(Fn('nsimd_%s_%s' % (k, t),
                             'nsimd_%s_%s({0})' % (k, t), [t], 'int',
                             class_spec(k, t)))
                if cxx:
                    fs.append(Fn('cxx_%s_%s' % (k, t),
                                 'nsimd::%s({0})' % k, [t], 'int',
                                 class_spec(k, t)))
        us.append(fn_unit('class-' + name, 'cpu', '#include <nsimd/nsimd.h>',
                          fs, flags, std))
    for t in FM:
        fs = [Fn('nsimd_ufp_' + t, 'nsimd_ufp_%s({0}, {1})' % t, [t, t],
                 'int', ufp_spec(t)),
              Fn('cxx_ufp_' + t, 'nsimd::ufp({0}, {1})', [t, t],
                 'int', ufp_spec(t))]
        us.append(fn_unit('ufp-' + t, 'cpu', '#include <../src/ufp.cpp>', fs,
                          '-DCPU'))
    return us
