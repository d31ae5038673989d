"""Contracts of the fixed-point module: fp_t<lf, rt> (scalar) and pack<fp_t>
(SIMD).  A value is raw / 2^rt; representable values have -2^(lf+rt-1) <= raw
< 2^(lf+rt-1).  Each operation returns the exactly specified raw value when
its operands and its result are representable."""
from . import expr as E
from . import spec
from .build import cty
from .driver import Unit
from .expr import const, ext, cat, ite, and_, or_, not_, fop, sx, mkbin
from .intr import in_range
from .spec import Prob, nlanes, llay, vlay, lenc

# (lf, rt): the four storage widths, tight and loose
FMTS = [(4, 1), (4, 2), (8, 3), (8, 4), (2, 7), (16, 3), (16, 8), (8, 12),
        (16, 10), (32, 16)]


def storage(lf, rt):
    n = lf + 2 * rt
    return 8 if n <= 8 else 16 if n <= 16 else 32 if n <= 32 else 64


def fits(x, n):
    """x, seen as signed, is an n-bit number"""
    if x.w <= n:
        return E.T()
    return and_(E.sle(const(-(1 << (n - 1)), x.w), x),
                E.sle(x, const((1 << (n - 1)) - 1, x.w)))


def ashr(a, k):
    return mkbin('ashr', a, const(k, a.w)) if k else a


def shl(a, k):
    return mkbin('shl', a, const(k, a.w))


class F(object):
    """semantics of the operations of one format, on raw values"""

    def __init__(self, lf, rt):
        self.lf, self.rt = lf, rt
        self.w = storage(lf, rt)
        self.n = lf + rt

    def rep(self, *xs):
        return [fits(x, self.n) for x in xs]

    def bin(self, op, a, b):
        """-> (preconditions, result)"""
        w, rt = self.w, self.rt
        pre = self.rep(a, b)
        if op in ('add', 'sub'):
            r = mkbin(op, a, b)
            return pre + self.rep(r), r
        if op == 'mul':
            r = ashr(E.mul(a, b), rt)
            x = E.mul(sx(a, 2 * w), sx(b, 2 * w)) if w < 64 else None
            # the product of representable values with a representable result
            # fits the storage
            pre = pre + ([fits(x, self.n + rt)] if x is not None else
                         self.mul64(a, b))
            return pre, r
        if op == 'div':
            n = shl(a, rt)
            r = mkbin('sdiv', n, b)
            return pre + [E.ne(b, const(0, w))] + self.rep(r) + \
                [not_(and_(E.eq(b, const(-1, w)),
                           E.eq(n, const(1 << (w - 1), w))))], r
        if op in ('min', 'max'):
            lt = E.slt(a, b)
            return pre, ite(lt, a, b) if op == 'min' else ite(lt, b, a)
        return [], {'andb': E.band, 'orb': E.bor, 'xorb': E.bxor,
                    'andnotb': lambda p, q: E.band(p, not_(q))}[op](a, b)

    def mul64(self, a, b):
        # operands small enough for the product to be exact
        h = (self.n + self.rt) // 2
        return [fits(a, h), fits(b, h)]

    def cmp(self, op, a, b):
        return self.rep(a, b), {
            'eq': E.eq(a, b), 'ne': E.ne(a, b), 'lt': E.slt(a, b),
            'le': E.sle(a, b), 'gt': E.slt(b, a), 'ge': E.sle(b, a)}[op]

    def of_float(self, f):
        """raw value of the float f: nearest, ties away from zero"""
        w = self.w
        y = fop('fmul', [f, spec.fconst(1 << self.rt, 32)], 32)
        q = fop('frint', [y], 32, 'rna')
        lim = spec.fconst(1 << (self.n - 1), 32)
        pre = [E.f_cmp('flt', q, lim), E.f_cmp('fle', fop_neg(lim), q)]
        return pre, fop('fptosi', [q], w, 'trunc')

    def to_float(self, a):
        return fop('fdiv', [fop('sitofp', [a], 32),
                            spec.fconst(1 << self.rt, 32)], 32)


def fop_neg(c):
    return const(c.v | 1 << 31, 32)


HEAD = '#include <iostream>\n#include <cmath>\n' \
    '#include <nsimd/modules/fixed_point.hpp>\n' \
    'namespace fp = nsimd::fixed_point;\n'


class S(object):
    """a scalar function: operands are raw values, floats or ints"""

    def __init__(self, f, name, args, ret, expr, spec_, pre_txt=''):
        self.f, self.name, self.spec = f, name, spec_
        self.args, self.ret = args, ret
        self.fn = 'w_%d_%d_%s' % (f.lf, f.rt, name)
        T = 'fp::fp_t<%d, %d>' % (f.lf, f.rt)
        C = {'fp': T, 'f32': 'float', 'int': 'int',
             'raw': 'i%d' % f.w, 'bool': 'int'}
        ps = ['const %s *a%d' % (C[c], i) for i, c in enumerate(args)]
        ps.append('%s *r' % C[ret])
        self.text = 'void %s(%s) { *r = %s; }' % (
            self.fn, ', '.join(ps), expr.format(
                *['(*a%d)' % i for i in range(len(args))], T=T))

    def prob(self, fn=None):
        f = self.f
        P = Prob(fn or self.fn)
        P.op, P.t, P.o, P.ext = self.name, None, None, 'cpu'
        W = {'fp': f.w, 'raw': f.w, 'f32': 32, 'int': 32, 'bool': 32}
        a = [P.inp('a%d' % i, E.var('a%d' % i, W[c]))
             for i, c in enumerate(self.args)]
        P.out('r', W[self.ret] // 8)
        pre, r = self.spec(*a)
        P.pre = [c for c in pre if c is not E.T()]
        P.skip_safety = ('signed-overflow',)
        if self.ret == 'bool':
            P.post = lambda o: [('result', E.eq(E.ne(o['r'], const(0, 32)),
                                                r))]
        elif self.ret == 'f32':
            P.post = lambda o: [('result', spec.eqf(o['r'], r))]
        elif self.ret == 'int':
            P.post = lambda o: [('result', E.eq(o['r'], r))]
        else:
            P.post = lambda o: [('raw value', E.eq(o['r'], r))]
        return P


OPC = {'add': '+', 'sub': '-', 'mul': '*', 'div': '/'}
CMPC = {'eq': '==', 'ne': '!=', 'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>='}


def scalar_fns(f):
    r = []

    def add(name, args, ret, expr, sp):
        r.append(S(f, name, args, ret, expr, sp))

    def conv(x):
        return f.of_float(x)

    def iconv(x):
        return f.of_float(fop('sitofp', [x], 32))
    for op, c in OPC.items():
        add(op, ['fp', 'fp'], 'fp', 'fp::%s({0}, {1})' % op,
            lambda a, b, op=op: f.bin(op, a, b))
        add('op_' + op, ['fp', 'fp'], 'fp', '{0} %s {1}' % c,
            lambda a, b, op=op: f.bin(op, a, b))
        add('as_' + op, ['fp', 'fp'], 'fp', '({T}({0}) %s= {1})' % c,
            lambda a, b, op=op: f.bin(op, a, b))
        if f.w > 32:
            continue
        for ty, cv in (('f32', conv), ('int', iconv)):
            def mix(a, b, sw, cv=cv, op=op):
                p, q = cv(b)
                p2, x = f.bin(op, q, a) if sw else f.bin(op, a, q)
                return p + p2, x
            add('mix_%s_%s' % (op, ty), ['fp', ty], 'fp', '{0} %s {1}' % c,
                lambda a, b, mix=mix: mix(a, b, False))
            add('xim_%s_%s' % (op, ty), ['fp', ty], 'fp', '{1} %s {0}' % c,
                lambda a, b, mix=mix: mix(a, b, True))
    for op, c in CMPC.items():
        add('cmp_' + op, ['fp', 'fp'], 'bool', '{0} %s {1}' % c,
            lambda a, b, op=op: f.cmp(op, a, b))
        if op in ('lt', 'gt', 'le', 'ge'):
            add('fn_' + op, ['fp', 'fp'], 'bool', 'fp::%s({0}, {1})' % (
                op if op[1] == 't' else op + 'x'[:0] if False else
                {'lt': 'lt', 'gt': 'gt', 'le': 'lte', 'ge': 'gte'}[op]),
                lambda a, b, op=op: f.cmp(op, a, b))

            def mixc(a, b, sw, op=op):
                p, q = conv(b)
                p2, x = f.cmp(op, q, a) if sw else f.cmp(op, a, q)
                return p + p2, x
            add('mixc_' + op, ['fp', 'f32'], 'bool', '{0} %s {1}' % c,
                lambda a, b, mixc=mixc: mixc(a, b, False))
            add('ximc_' + op, ['fp', 'f32'], 'bool', '{1} %s {0}' % c,
                lambda a, b, mixc=mixc: mixc(a, b, True))

    def ulp(a, b, u):
        d = E.sub(sx(a, 2 * f.w), sx(b, 2 * f.w))
        u_ = sx(u, 2 * f.w) if 2 * f.w > 32 else u
        d = sx(d, u_.w) if d.w < u_.w else d
        return f.rep(a, b) + [E.sle(const(0, 32), u)], \
            and_(E.sle(d, u_), E.sle(E.neg(u_), d))
    add('equal_ulp', ['fp', 'fp', 'int'], 'bool',
        'fp::equal_ulp({0}, {1}, {2})', ulp)
    add('neg', ['fp'], 'fp', '-{0}', lambda a: (f.rep(a), E.neg(a)))
    add('bnot', ['fp'], 'fp', '~{0}', lambda a: ([], not_(a)))
    for nm, c, g in (('and', '&', E.band), ('or', '|', E.bor),
                     ('xor', '^', E.bxor)):
        add('b' + nm, ['fp', 'raw'], 'fp', '{0} %s {1}' % c,
            lambda a, b, g=g: ([], g(a, b)))
    add('bnor', ['fp', 'raw'], 'fp', 'fp::bitwise_nor({0}, {1})',
        lambda a, b: ([], not_(E.bor(a, b))))

    def sh(kind):
        def g(a, k):
            kk = ext(k, 0, f.w) if f.w < 32 else sx(k, 64) if f.w > 32 else k
            return [E.sle(const(0, 32), k), E.slt(k, const(f.w, 32))], \
                mkbin(kind, a, kk)
        return g
    add('shl', ['fp', 'int'], 'fp', '{0} << {1}', sh('shl'))
    add('shr', ['fp', 'int'], 'fp', '{0} >> {1}', sh('ashr'))
    add('of_f32', ['f32'], 'fp', '{T}({0})', conv)
    add('of_int', ['int'], 'fp', '{T}({0})', iconv)
    add('to_f32', ['fp'], 'f32', '(float){0}',
        lambda a: (f.rep(a), f.to_float(a)))
    add('to_int', ['fp'], 'int', '(int){0}',
        lambda a: (f.rep(a) + [in_range(f.to_float(a), 32, True, 'trunc')],
                   fop('fptosi', [f.to_float(a)], 32, 'trunc')))
    add('left', ['fp'], 'int', 'fp::left({0})',
        lambda a: ([], const(f.lf, 32)))
    add('right', ['fp'], 'int', 'fp::right({0})',
        lambda a: ([], const(f.rt, 32)))
    return r


class V(object):
    """a SIMD function on packs"""

    def __init__(self, f, x, name, kinds, ro, expr, spec_):
        self.f, self.x, self.name, self.kinds = f, x, name, kinds
        self.ro, self.spec = ro, spec_
        self.t = t = 'i%d' % f.w
        self.fn = 'w_%d_%d_v_%s' % (f.lf, f.rt, name)
        T = 'fp::fp_t<%d, %d>' % (f.lf, f.rt)
        ps, pre, xs = [], '', []
        for i, k in enumerate(kinds):
            if k in ('v', 'l'):
                ps.append('const %s *a%d' % (cty(k, t, x), i))
                pre += 'fp::pack%s<%s > x%d; x%d.val._raw = *a%d; ' % (
                    'l' if k == 'l' else '', T, i, i, i)
                xs.append('x%d' % i)
            elif k == 's':
                ps.append('const %s *a%d' % (T, i))
                xs.append('*a%d' % i)
            elif k == 'm':
                ps.append('%s *a%d' % (T, i))
                xs.append('a%d' % i)
            elif k == 'ml':
                ps.append('%s *a%d' % (t, i))
                xs.append('a%d' % i)
        e = expr.format(*xs, P='fp::pack<%s >' % T, L='fp::packl<%s >' % T)
        if ro in ('v', 'l'):
            ps.append('%s *r' % cty(ro, t, x))
            e = 'fp::pack%s<%s > y = %s; *r = y.val._raw' % (
                'l' if ro == 'l' else '', T, e)
        elif ro == 'int':
            ps.append('int *r')
            e = '*r = ' + e
        self.text = 'void %s(%s) { %s%s; }' % (self.fn, ', '.join(ps), pre, e)

    def prob(self, fn=None):
        f, x, t = self.f, self.x, self.t
        P = Prob(fn or self.fn)
        P.op, P.t, P.o, P.ext = self.name, t, None, x
        n = nlanes(x, t)
        sz = f.w // 8
        A = []
        mem = None
        for i, k in enumerate(self.kinds):
            nm = 'a%d' % i
            if k == 'v':
                ls = [E.var('%s_%d' % (nm, j), f.w) for j in range(n)]
                P.inp(nm, cat(ls))
            elif k == 'l':
                ls = [E.var('%s_%d' % (nm, j), 1) for j in range(n)]
                P.inp(nm, cat([lenc(x, t, b) for b in ls]))
            elif k == 's':
                ls = [P.inp(nm, E.var(nm, f.w))] * n
            else:
                st = self.ro == '_'
                al = 64 if self.name.rstrip('l').endswith('a') else sz
                b = P.mem(nm, n * sz, al, st)
                mem = nm
                if not st:
                    m = cat(list(b)) if isinstance(b, (list, tuple)) else b
                    ls = [ext(m, j * f.w, f.w) for j in range(n)]
            A.append(ls if k not in ('m', 'ml') or self.ro != '_' else
                     [None] * n)
        rs = []
        for j in range(n):
            pre, r = self.spec(*[a[j] for a in A if a[j] is not None])
            P.pre += [c for c in pre if c is not E.T()]
            rs.append(r)
        P.skip_safety = ('signed-overflow', 'div')
        ro = self.ro
        if ro == 'int':
            P.out('r', 4)
            P.post = lambda o: [('length', E.eq(o['r'], const(n, 32)))]
        elif ro == '_':
            P.post = lambda o: [
                ('element %d' % j, E.eq(ext(o[mem], j * f.w, f.w), rs[j]))
                if rs[j].w > 1 else
                ('element %d' % j, E.eq(E.ne(ext(o[mem], j * f.w, f.w),
                                             const(0, f.w)), rs[j]))
                for j in range(n)]
        else:
            L = llay(x, t) if ro == 'l' else vlay(x, t)
            P.out('r', L.size)
            P.post = lambda o: [
                ('lane %d' % j, E.eq(ext(o['r'], q, w),
                                     lenc(x, t, rs[j]) if ro == 'l' and
                                     w > 1 else rs[j]))
                for j, (q, w) in enumerate(L.lanes)]
        return P


def simd_fns(f, x):
    r = []

    def add(name, kinds, ro, expr, sp):
        r.append(V(f, x, name, kinds, ro, expr, sp))
    for op in ('add', 'sub', 'mul', 'div', 'min', 'max', 'andb', 'orb',
               'xorb', 'andnotb'):
        sp = (lambda a, b, op=op: f.bin(op, a, b))
        add(op, 'vv', 'v', 'fp::%s({0}, {1})' % op, sp)
        if op in OPC:
            add('op_' + op, 'vv', 'v', '{0} %s {1}' % OPC[op], sp)

    def fma(a, b, c):
        p, m = f.bin('mul', a, b)
        p2, q = f.bin('add', m, c)
        return p + p2, q
    add('fma', 'vvv', 'v', 'fp::fma({0}, {1}, {2})', fma)
    for op in CMPC:
        sp = (lambda a, b, op=op: f.cmp(op, a, b))
        add(op, 'vv', 'l', 'fp::%s({0}, {1})' % op, sp)
        add('op_' + op, 'vv', 'l', '{0} %s {1}' % CMPC[op], sp)
    add('if_else1', 'lvv', 'v', 'fp::if_else1({0}, {1}, {2})',
        lambda m, a, b: ([], ite(m, a, b)))
    for op, g in (('andl', and_), ('orl', or_), ('xorl', E.bxor),
                  ('andnotl', lambda a, b: and_(a, not_(b)))):
        add(op, 'll', 'l', 'fp::%s({0}, {1})' % op,
            lambda a, b, g=g: ([], g(a, b)))
    add('notl', 'l', 'l', 'fp::notl({0})', lambda a: ([], not_(a)))
    add('notb', 'v', 'v', 'fp::notb({0})', lambda a: ([], not_(a)))
    add('abs', 'v', 'v', 'fp::abs({0})',
        lambda a: (f.rep(a), ite(E.ext(a, f.w - 1, 1), E.neg(a), a)))
    add('rec', 'v', 'v', 'fp::rec({0})',
        lambda a: f.bin('div', const(1 << f.rt, f.w), a))
    add('set1', 's', 'v', 'fp::set1<{P} >({0})', lambda a: ([], a))
    for al in 'ua':
        add('load' + al, ('m',), 'v', 'fp::load%s<{P} >({0})' % al,
            lambda a: ([], a))
        add('loadl' + al, ('ml',), 'l', 'fp::loadl%s<{L} >({0})' % al,
            lambda a: ([], E.ne(a, const(0, f.w))))
        add('store' + al, ('m', 'v'), '_', 'fp::store%s({0}, {1})' % al,
            lambda a: ([], a))
        add('storel' + al, ('ml', 'l'), '_', 'fp::storel%s({0}, {1})' % al,
            lambda a: ([], a))
    add('len', 'v', 'int', 'fp::len({0})', lambda a: ([], a))
    return r


def fixed_units(tier):
    us = []
    fm = FMTS if tier == 'quick' else FMTS + [
        (4, 4), (8, 1), (8, 8), (4, 12), (16, 5), (16, 16), (20, 20), (3, 2)]
    for i, (lf, rt) in enumerate(fm):
        f = F(lf, rt)
        fs = scalar_fns(f)
        us.append(unit('fixed-%d.%d' % (lf, rt), 'cpu', spec.FLAGS['cpu'],
                       fs, None, i == 0))
        for x, std in (('avx2', None), ('sse2', 'c++98'),
                       ('avx512_skylake', None)) if i % 2 else \
                (('avx2', 'c++98'), ('cpu', None), ('sse42', None)):
            us.append(unit('fixed-%s-%d.%d' % (x, lf, rt), x, spec.FLAGS[x],
                           simd_fns(f, x), std, False))
    return us


def unit(key, x, flags, fs, std, can):
    text = HEAD + 'extern "C" {\n' + '\n'.join(f.text for f in fs)
    cans = []
    if can:
        f = fs[0]
        k = 'k' + f.fn[1:]
        text += '\n' + f.text.replace(f.fn, k).rstrip()[:-1] + \
            '((unsigned char *)r)[0] ^= 1; }\n'
        cans = [(k, lambda: f.prob(k))]
    return Unit(key, x, text + '\n}\n', flags,
                [(f.fn[2:], f.prob) for f in fs], std=std, canaries=cans)
