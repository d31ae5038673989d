"""Contracts of the expression templates (tet1d): for every number of elements
n, every element k < n of the output is the scalar operation on elements k of
the inputs, nothing outside the n elements is read or written, elements whose
mask is false keep their value.  The loops are cut (see loops.py)."""
from . import expr as E
from . import loops
from . import spec
from .expr import const, and_, or_, not_, implies
from .driver import Unit
from .mods import scalar_spec, truth, up, down
from .spec import Prob, bits, isf, veq

HEAD = '#include <nsimd/modules/tet1d.hpp>'
SIZES = (1, 2, 3, 5, 8, 9, 16, 17, 33, 34, 65)


class Tet(object):
    """ins: [(name, type)] arrays; scal: [(name, ctype, width)]; expr: C++
    statement body using array pointers, n and scalars; cpp out type; elem:
    f(dict name->value of the elements, dict scalars, old) -> (pre list,
    post(r) -> [(label, cond)])"""

    def __init__(self, name, body, ins, out, elem, scal=(), slice_=None,
                 inplace=False, spre=None):
        self.name, self.body, self.ins, self.out = name, body, ins, out
        self.elem, self.scal, self.slice = elem, scal, slice_
        self.inplace = inplace
        self.spre = spre
        ps = ['const %s *%s' % (t, n) for n, t in ins]
        ps += ['%s *dst' % out, 'nsimd::nat n']
        ps += ['const %s *%s' % (t, n) for n, t, w in scal]
        if slice_:
            ps += ['nsimd::nat na', 'nsimd::nat i0', 'nsimd::nat i1']
        self.text = 'void w_%s(%s) { %s }' % (name, ', '.join(ps), body)

    def base(self, fn):
        P = Prob(fn or 'w_' + self.name)
        P.op, P.t, P.o, P.ext = self.name, None, None, 'cpu'
        return P

    def prob(self, fn=None):
        P = self.base(fn)
        n = E.var('n', 64)
        Z = const(0, 64)
        big = const(1 << 58, 64)
        k = E.var('koff', 64)
        P.koff, P.counts = k, [n]
        osz = bits(self.out) // 8
        P.esz = osz
        P.pre = [E.sle(Z, n), E.sle(n, big)]
        scal = {}
        na = i0 = i1 = e0 = None
        if self.slice:
            na, i0, i1 = (E.var(x, 64) for x in ('na', 'i0', 'i1'))
            e0 = E.ite(E.sle(Z, i0), i0, E.add(na, i0))
            e1 = E.ite(E.sle(Z, i1), i1, E.add(na, i1))
            P.pre += [E.sle(Z, na), E.sle(na, big), E.sle(Z, e0),
                      E.sle(E.sub(Z, na), i0), E.sle(E.sub(Z, na), i1),
                      E.slt(i0, na), E.slt(i1, na),
                      E.slt(e0, e1), E.slt(e1, na),
                      E.eq(n, E.add(E.sub(e1, e0), const(1, 64)))]

        def nbytes(t, m):
            return E.mul(m, const(bits(t) // 8, 64))

        def at(name, t, a):
            """element of an input for the output offset a"""
            sz = bits(t) // 8
            off = a
            if sz != osz:
                off = E.mkbin('lshr', a, const(osz.bit_length() - 1, 64))
                off = nbytes(t, off)
            if self.slice and name == self.ins[0][0]:
                off = E.add(off, nbytes(t, e0))
            return loops.elem0(name, off, sz)

        def inside(a):
            lg = osz.bit_length() - 1
            c = and_(E.sle(Z, a), E.slt(a, nbytes(self.out, n)))
            if lg:
                c = and_(c, E.eq(E.ext(a, 0, lg), const(0, lg)))
            return c
        for nm, t, w in self.scal:
            scal[nm] = E.var(nm, w)

        def contract(a):
            d = {nm: at(nm, t, a) for nm, t in self.ins}
            return self.elem(d, scal, loops.elem0('dst', a, osz))

        def fact(a):
            return implies(inside(a), and_(*contract(a)[0]))
        has_pre = any(p.op != 'c' for p in contract(k)[0])

        def ifact(t, sl):
            def f(a):
                if sl:
                    a = E.sub(a, nbytes(t, e0))
                if bits(t) // 8 != osz:
                    a = E.mkbin('lshr', a, const((bits(t) // 8).bit_length()
                                                 - 1, 64))
                    a = nbytes(self.out, a)
                return fact(a)
            return f
        for nm, t in self.ins:
            sl = self.slice and nm == self.ins[0][0]
            P.params.append(dict(
                kind='arr', name=nm, sz=bits(t) // 8, writable=False,
                bytes=nbytes(t, na if sl else n),
                facts=(ifact(t, sl),) if has_pre else ()))
        P.params.append(dict(kind='arr', name='dst', sz=osz, writable=True,
                             bytes=nbytes(self.out, n),
                             facts=(fact,) if has_pre and self.inplace
                             else ()))
        P.params.append(dict(kind='val', name='n', node=n, cty='long'))
        for nm, t, w in self.scal:
            P.inp(nm, scal[nm])
        if self.slice:
            for nm, v in (('na', na), ('i0', i0), ('i1', i1)):
                P.params.append(dict(kind='val', name=nm, node=v, cty='long'))
        P.koff_pre = inside
        P.pre.append(inside(k))
        P.pre += [p for p in contract(k)[0] if p.op != 'c']
        if self.spre:
            P.pre += self.spre(scal)

        def final(a, v):
            return and_(*[c for l, c in contract(a)[1](v)])
        P.final = {'dst': final}
        P.post = lambda o: [('element ' + l, c)
                            for l, c in contract(k)[1](o['dst'])]
        P.instances = lambda: [self.inst(m, fn) for m in SIZES]
        return P

    def inst(self, m, fn=None):
        """the same function on exactly m elements (for native runs)"""
        P = self.base(fn)
        osz = bits(self.out) // 8
        P.pre = []
        el, na, s0 = {}, m, 0
        if self.slice:
            if m < 2:
                m = 2
            na, s0 = m + 3, 2
        for nm, t in self.ins:
            c = na if self.slice and nm == self.ins[0][0] else m
            vs = [E.var('%s[%d]' % (nm, i), bits(t)) for i in range(c)]
            P.mem(nm, c * bits(t) // 8, bits(t) // 8, False, init=E.cat(vs))
            el[nm] = vs[s0:s0 + m] if c != m else vs
        old = [E.var('dst[%d]' % i, 8 * osz) for i in range(m)]
        P.mem('dst', m * osz, osz, True, init=E.cat(old))
        P.params.append(dict(kind='val', name='n', node=const(m, 64),
                             cty='long'))
        scal = {}
        for nm, t, w in self.scal:
            scal[nm] = P.inp(nm, E.var(nm, w))
        if self.slice:
            for nm, v in (('na', na), ('i0', s0), ('i1', s0 + m - 1 - na)):
                P.params.append(dict(kind='val', name=nm, node=const(v, 64),
                                     cty='long'))
        cs = [self.elem({nm: el[nm][i] for nm, _ in self.ins}, scal, old[i])
              for i in range(m)]
        for pre, _ in cs:
            P.pre += [p for p in pre if p.op != 'c']
        if self.spre:
            P.pre += self.spre(scal)

        def post(o):
            r = []
            for i, (_, f) in enumerate(cs):
                r += [('element %d of %d %s' % (i, m, l), c)
                      for l, c in f(E.ext(o['dst'], 8 * osz * i, 8 * osz))]
            return r
        P.post = post
        return P

    def canary(self):
        ps = self.text[self.text.index('('):self.text.index(') {') + 1]
        names = [x.split()[-1].lstrip('*') for x in ps[1:-1].split(',')]
        return 'void k_%s%s { w_%s(%s); if (n > 40) dst[n - 1] = ' \
            'dst[0]; }' % (self.name, ps, self.name,
                                                  ', '.join(names))


CMP = {'eq': '==', 'ne': '!=', 'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>='}


def masked(c, f, old, t):
    """post: f where c, old elsewhere"""
    pre, post = f
    return [or_(not_(c), p) for p in pre], lambda r: \
        [(l, implies(c, q)) for l, q in post(r)] + \
        [('masked out', or_(c, veq(t, r, old)))]


def IN(x):
    return 'tet1d::in(%s, n)' % x


def OUT(o, pk=None):
    if pk:
        return 'tet1d::out<%s, %s>(dst, 128, NULL)' % (o, pk)
    return 'tet1d::out(dst)'


def same(t):
    return lambda a: ([], lambda r: [('value', veq(t, r, a))])


def op_fns(pk=None, pfx=''):
    """one function per operator and type"""
    from .props import OPS
    fs = []
    L = ('orl', 'andl', 'andnotl', 'xorl')
    for sig, types, cxx, has, out in OPS:
        if not has:
            continue
        name = sig[1]
        args = sig[2:]
        for t, o in types:
            nm = '%s%s_%s%s' % (pfx, name, o + '_' if o else '', t)
            PK = 'nsimd::pack<%s, %s>' % (o or t, pk) if pk else None
            S = scalar_spec(name, t, o)
            if 'f16' in (t, o) and name in ('orb', 'andb', 'andnotb', 'xorb',
                                            'notb'):
                continue          # bits of the emulated representation
            if name == 'reinterpret' and 'f16' in (t, o):
                # the payload of a NaN may change on the way
                def S(a):
                    return [], lambda r: [('bits', veq('f16', r, a))]
            if name in L or name == 'notl':
                k = 1 if name == 'notl' else 2
                ins = [('a', t), ('b', t), ('c', t)]
                es = ['tet1d::lt(%s, %s)' % (IN('a'), IN('b')),
                      'tet1d::ne(%s, %s)' % (IN('b'), IN('c'))][:k]
                body = '%s(tet1d::%s(%s)) = %s;' % (
                    OUT(t, PK), name, ', '.join(es), IN('c'))

                def elem(d, s, old, name=name, t=t, k=k):
                    x = [spec.compare('lt', t, up(t, d['a']), up(t, d['b'])),
                         spec.compare('ne', t, up(t, d['b']), up(t, d['c']))]
                    c = {'orl': lambda p, q: or_(p, q),
                         'andl': lambda p, q: and_(p, q),
                         'andnotl': lambda p, q: and_(p, not_(q)),
                         'xorl': lambda p, q: E.bxor(p, q),
                         'notl': lambda p: not_(p)}[name](*x[:k])
                    return masked(c, same(t)(d['c']), old, t)
                fs.append(Tet(nm, body, ins, t, elem))
                continue
            if name == 'to_mask':
                body = '%s = tet1d::to_mask(tet1d::lt(%s, %s));' % (
                    OUT(t, PK), IN('a'), IN('b'))

                def elem(d, s, old, t=t):
                    c = spec.compare('lt', t, up(t, d['a']), up(t, d['b']))
                    return [], lambda r: [('mask', veq(t, r, E.sx(
                        c, bits(t))))]
                fs.append(Tet(nm, body, [('a', t), ('b', t)], t, elem))
                continue
            ins, ar, scal = [], [], []
            for i, c in enumerate(args):
                if c == 'p':
                    scal.append(('s', 'int', 32))
                    ar.append('*s')
                else:
                    ins.append(('abc'[len(ins)], t))
                    ar.append(IN(ins[-1][0]))
            call = 'tet1d::%s%s(%s)' % (name, '<%s>' % o if o else '',
                                        ', '.join(ar))
            if sig[0] == 'l':
                # a logical: used as mask
                ins.append(('d', t))
                body = '%s(%s) = %s;' % (OUT(t, PK), call, IN('d'))

                def elem(d, s, old, name=name, t=t, k=len(ins) - 1):
                    x = [d['abc'[i]] for i in range(k)]
                    if name == 'to_logical':
                        c = truth(x[0]) if not isf(t) else None
                        if c is None:
                            c = spec_logical(t, x[0])
                    else:
                        c = spec.compare(name, t, up(t, x[0]), up(t, x[1]))
                    return masked(c, same(t)(d['d']), old, t)
                fs.append(Tet(nm, body, ins, t, elem))
                continue
            body = '%s = %s;' % (OUT(o or t, PK), call)

            def elem(d, s, old, S=S, k=len(ins), sh=bool(scal)):
                x = [d['abc'[i]] for i in range(k)] + \
                    ([s['s']] if sh else [])
                return S(*x)
            sp = None
            if scal:
                def sp(s, t=t):
                    return [E.ult(s['s'], const(bits(t), 32))]
            fs.append(Tet(nm, body, ins, o or t, elem, scal, spre=sp))
    return fs


def spec_logical(t, x):
    return E.ne(x, const(0, x.w))


def infix_fns(types, pk=None):
    from .props import OPS
    fs = []
    for sig, ts, cxx, has, out in OPS:
        if not has or not cxx:
            continue
        name, op = sig[1], cxx
        args = sig[2:]
        for t, o in ts:
            if o or t not in types:
                continue
            if t == 'f16' and name in ('orb', 'andb', 'andnotb', 'xorb',
                                       'notb'):
                continue
            S = scalar_spec(name, t, o)
            if name in ('shl', 'shr', 'shra'):
                def sp(s, t=t):
                    return [E.ult(s['s'], const(bits(t), 32))]
                fs.append(Tet('inf_%s_%s' % (name, t), '%s = %s %s *s;' % (
                    OUT(t), IN('a'), op), [('a', t)], t,
                    lambda d, s, old, S=S: S(d['a'], s['s']),
                    [('s', 'int', 32)], spre=sp))
                continue
            if args == ['v', 'v'] or args == ['l', 'l']:
                for form in ('vv', 'vs', 'sv'):
                    if args[0] == 'l' and form != 'vv':
                        continue
                    ar = [IN('a') if form[0] == 'v' else '*s',
                          IN('b') if form[1] == 'v' else '*s']
                    ins = [('a', t)] if form[0] == 'v' else []
                    if form[1] == 'v':
                        ins.append(('b', t))
                    scal = [] if form == 'vv' else [('s', t, bits(t))]

                    def xs(d, s, form=form):
                        return [d['a'] if form[0] == 'v' else s['s'],
                                d['b'] if form[1] == 'v' else s['s']]
                    nm = 'inf_%s_%s_%s' % (name, form, t)
                    if args[0] == 'l':
                        # operands are themselves expressions
                        body = '%s((%s < %s) %s (%s != %s)) = %s;' % (
                            OUT(t), IN('a'), IN('b'), op, IN('b'), IN('c'),
                            IN('c'))

                        def elem(d, s, old, name=name, t=t):
                            p = spec.compare('lt', t, up(t, d['a']),
                                             up(t, d['b']))
                            q = spec.compare('ne', t, up(t, d['b']),
                                             up(t, d['c']))
                            c = and_(p, q) if name == 'andl' else or_(p, q)
                            return masked(c, same(t)(d['c']), old, t)
                        fs.append(Tet(nm, body, ins + [('c', t)], t, elem))
                    elif sig[0] == 'l':
                        body = '%s(%s %s %s) = %s;' % (OUT(t), ar[0], op,
                                                       ar[1], IN('d'))

                        def elem(d, s, old, name=name, t=t, xs=xs):
                            x = xs(d, s)
                            c = spec.compare(name, t, up(t, x[0]),
                                             up(t, x[1]))
                            return masked(c, same(t)(d['d']), old, t)
                        fs.append(Tet(nm, body, ins + [('d', t)], t, elem,
                                      scal))
                    else:
                        body = '%s = %s %s %s;' % (OUT(t), ar[0], op, ar[1])
                        fs.append(Tet(nm, body, ins, t,
                                      lambda d, s, old, S=S, xs=xs:
                                      S(*xs(d, s)), scal))
            elif args == ['v']:
                fs.append(Tet('inf_%s_%s' % (name, t), '%s = %s%s;' % (
                    OUT(t), op, IN('a')), [('a', t)], t,
                    lambda d, s, old, S=S: S(d['a'])))
            elif args == ['l']:
                fs.append(Tet(
                    'inf_%s_%s' % (name, t), '%s(%s(%s < %s)) = %s;' % (
                        OUT(t), op, IN('a'), IN('b'), IN('b')),
                    [('a', t), ('b', t)], t,
                    lambda d, s, old, t=t: masked(
                        not_(spec.compare('lt', t, up(t, d['a']),
                                          up(t, d['b']))),
                        same(t)(d['b']), old, t)))
    return fs


def form_fns(types):
    """in place, slices, masked assignment of a scalar, nested expressions"""
    fs = []
    for t in types:
        add = scalar_spec('add', t, None)
        ft = t if t != 'f16' else 'f32'

        def fadd(x, y, t=t, ft=ft):
            return down(t, spec.lane2('add', ft, up(t, x), up(t, y))[1])
        fs.append(Tet('inplace_' + t, '%s = %s + %s;' % (
            OUT(t), IN('(const %s *)dst' % t), IN('a')), [('a', t)], t,
            lambda d, s, old, add=add: add(old, d['a']), inplace=True))
        fs.append(Tet('inplace_mask_' + t, '%s(%s < %s) = %s + %s;' % (
            OUT(t), IN('a'), IN('(const %s *)dst' % t),
            IN('(const %s *)dst' % t), IN('a')), [('a', t)], t,
            lambda d, s, old, add=add, t=t: masked(
                spec.compare('lt', t, up(t, d['a']), up(t, old)),
                add(old, d['a']), old, t), inplace=True))
        fs.append(Tet('slice_' + t, '%s = tet1d::in(a, na)(i0, i1) + %s;' % (
            OUT(t), IN('b')), [('a', t), ('b', t)], t,
            lambda d, s, old, add=add: add(d['a'], d['b']), slice_=True))
        fs.append(Tet('mask_scalar_' + t, '%s(%s > %s) = *s;' % (
            OUT(t), IN('a'), IN('b')), [('a', t), ('b', t)], t,
            lambda d, s, old, t=t: masked(
                spec.compare('gt', t, up(t, d['a']), up(t, d['b'])),
                ([], lambda r, s=s, t=t: [('value', veq(t, r, s['s']))]),
                old, t), [('s', t, bits(t))]))
        # (no intermediate rounding is promised for emulated f16 packs)
        if t != 'f16':
            fs.append(Tet('nested_' + t, '%s = (%s + %s) + (*s + %s);' % (
                OUT(t), IN('a'), IN('b'), IN('c')),
                [('a', t), ('b', t), ('c', t)], t,
                lambda d, s, old, t=t, fadd=fadd: ([], lambda r: [
                    ('value', veq(t, r, fadd(fadd(d['a'], d['b']),
                                             fadd(s['s'], d['c']))))]),
                [('s', t, bits(t))]))
        fs.append(Tet('copy_' + t, '%s = %s;' % (OUT(t), IN('a')),
                      [('a', t)], t,
                      lambda d, s, old, t=t: same(t)(d['a'])))
    return fs


def unit(key, x, fs, std=None, canary=None):
    text = HEAD + '\nextern "C" {\n' + '\n'.join(f.text for f in fs) + '\n'
    cans = []
    for f in fs:
        if canary == f.name:
            text += f.canary() + '\n'
            cans = [('k_' + f.name, lambda f=f: f.prob('k_' + f.name))]
    text += '}\n'
    return Unit(key, x, text, spec.FLAGS[x], [(f.name, f.prob) for f in fs],
                std=std, canaries=cans,
                passes='always-inline,cgscc(inline),function(sroa,simplifycfg)')


TYPES = ('i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64', 'f16', 'f32',
         'f64')


def tet_units(tier):
    us = []
    th = tier == 'thorough'
    fs = op_fns()
    for x in ('sse42', 'avx2', 'cpu') if not th else \
            ('sse42', 'avx2', 'cpu', 'sse2', 'avx', 'avx512_skylake'):
        us.append(unit('tet-%s-form' % x, x, form_fns(
            TYPES if th or x == 'sse42' else ('i16', 'f32', 'u8')),
            canary='copy_u8'))
        if x != 'sse42' and not th:
            continue
        for t in TYPES:
            l = [f for f in fs if f.name.endswith('_' + t) and not (
                x == 'sse2' and f.name == 'round_to_even_f64')]
            us.append(unit('tet-%s-%s' % (x, t), x, l))
            us.append(unit('tet-%s-infix-%s' % (x, t), x, infix_fns((t,))))
    # explicit pack type: unroll factor
    us.append(unit('tet-unroll', 'sse2', [
        f for f in op_fns('2, nsimd::sse2', 'x2_')
        if f.name.split('_')[1] in ('add', 'lt', 'cvt', 'fma', 'to')
        and f.ins[0][1] in ('i32', 'f32', 'u8')]))
    us.append(unit('tet-cxx98', 'sse2', form_fns(('i8', 'f32')), 'c++98'))
    return us
