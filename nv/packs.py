"""Contracts of the C++ advanced API (pack<T, N>), of the C++ base API and of
the generic C API.

Every function is specified relative to the C operators, which are under
contract in P01-P12: register i of the result is the C operator applied to
register i of the operands (memory operands: at element i * len).  The wrapper
calls both; the postcondition equates what they produced, lane by lane."""
from . import expr as E
from . import spec
from .build import cty
from .driver import Unit
from .expr import const, ext, cat, and_, or_
from .spec import Prob, bits, isf, eqf, lw, nlanes, vlay, llay, lenc

SKIP = ('div', 'shift-range', 'signed-overflow', 'fp-range')


def ch(v, i):
    return v + '.cdr' * i + '.car'


class W(object):
    """builds one wrapper and its contract"""

    def __init__(self, name, t, x, N):
        self.name, self.t, self.x, self.N = name, t, x, N
        self.fn = 'w_' + name
        self.ps, self.pre, self.body, self.ref = [], [], [], []
        self.mk = []              # functions P -> None that add parameters
        self.posts = []           # functions (P, o) -> list
        self.skip = SKIP
        self.pres = []            # functions P -> list of preconditions

    # operands -----------------------------------------------------------
    def vec(self, nm, t=None, kind='v'):
        """N registers of type t; returns the pack variable name"""
        t = t or self.t
        x, N = self.x, self.N
        c = cty(kind, t, x)
        self.ps.append('const %s *%s' % (c, nm))
        pk = 'nsimd::pack%s<%s, %d>' % ('l' if kind == 'l' else '', t, N)
        self.pre.append('%s x%s; %s' % (pk, nm, ' '.join(
            '%s = %s[%d];' % (ch('x' + nm, i), nm, i) for i in range(N))))

        def mk(P):
            n = nlanes(x, t)
            w = 1 if kind == 'l' else lw(t)
            ls = [E.var('%s_%d' % (nm, k), w) for k in range(n * N)]
            P.lanes[nm] = ls
            regs = []
            for i in range(N):
                r = ls[i * n:(i + 1) * n]
                regs.append(cat([lenc(x, t, b) for b in r])
                            if kind == 'l' else cat(r))
            P.inp(nm, cat(regs))
        self.mk.append(mk)
        return 'x' + nm

    def scalar(self, nm, t):
        if t == 'int':
            self.ps.append('int ' + nm)
            self.mk.append(lambda P: P.lanes.__setitem__(nm, P.val(nm, 32)))
            return nm
        self.ps.append('const %s *%s' % (t, nm))
        self.mk.append(lambda P: P.lanes.__setitem__(
            nm, P.inp(nm, E.var(nm, bits(t)))))
        return '*' + nm

    def mem(self, nm, elems, align, writable, twin=False):
        """memory of `elems` elements; twin: a second copy for the reference
        with the same contents"""
        t = self.t
        sz = bits(t) // 8
        c = '%s%s *' % ('' if writable else 'const ', t)
        self.ps.append(c + nm)
        if twin:
            self.ps.append('%s%s_' % (c, nm))

        def mk(P):
            b = P.mem(nm, elems * sz, align, writable)
            if twin:
                P.mem(nm + '_', elems * sz, align, True, init=b)
        self.mk.append(mk)
        if twin:
            def post(P, o):
                g, e = o[nm], o[nm + '_']
                return [('element %d' % k, cmpf(t == 'f16', ext(g, 8 * sz * k, 8 * sz),
                                                ext(e, 8 * sz * k, 8 * sz)))
                        for k in range(elems)]
            self.posts.append(post)
        return nm

    # results ------------------------------------------------------------
    def out(self, t=None, kind='v', regs=None, nm='r', enm='e'):
        """result r and reference e, `regs` registers of type t each"""
        t = t or self.t
        x = self.x
        regs = regs or self.N
        c = cty(kind, t, x) if kind != 'c' else t
        self.ps.append('%s *%s' % (c, nm))
        self.ps.append('%s *%s' % (c, enm))
        if kind == 'c':
            size, lanes, fl = 4, [(0, 32)], False
        else:
            L = llay(x, t) if kind == 'l' else vlay(x, t)
            size = L.size * regs
            lanes = [(i * L.size * 8 + o, w) for i in range(regs)
                     for o, w in L.lanes]
            fl = isf(t) and kind == 'v'

        def mk(P):
            P.out(nm, size)
            P.out(enm, size)
        self.mk.append(mk)

        def post(P, o):
            return [('lane %d' % k, cmpf(fl, ext(o[nm], q, w),
                                         ext(o[enm], q, w)))
                    for k, (q, w) in enumerate(lanes)]
        self.posts.append(post)

    def text(self):
        return 'void %s(%s) {\n%s\n}' % (
            self.fn, ', '.join(self.ps),
            '\n'.join(self.pre + self.body + self.ref))

    def prob(self, fn=None):
        P = Prob(fn or self.fn)
        P.op, P.t, P.o, P.ext = self.name, self.t, None, self.x
        P.lanes = {}
        for m in self.mk:
            m(P)
        for f in self.pres:
            P.pre += f(P)
        P.skip_safety = self.skip
        P.post = lambda o: [c for f in self.posts for c in f(P, o)]
        return P


def cmpf(fl, a, b):
    return eqf(a, b) if fl else E.eq(a, b)


def cname(name, x, t, o=None):
    return 'nsimd_%s_%s_%s%s' % (name, x, o + '_' if o else '', t)


def div_pre(nm='a1', na='a0'):
    def f(P):
        r = []
        for a, b in zip(P.lanes[na], P.lanes[nm]):
            p = spec.lane2('div', P.t, a, b)[0]
            if p is not E.T():
                r.append(p)
        return r
    return f


def shift_pre(nm):
    return lambda P: [E.ult(P.lanes[nm], const(bits(P.t), 32))]


BIN_AS = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'div', '|': 'orb',
          '&': 'andb', '^': 'xorb'}


def lanewise(sig, t, o, x, N, form):
    """form: 'fn' (nsimd::op(a, b)) or 'op' (a + b)"""
    name = sig[1]
    to = o or t
    w = W('%s%s_%s%s_%d' % (form + '_' if form != 'fn' else '', name,
                            o + '_' if o else '', t, N), t, x, N)
    xs, rs = [], []
    hasv = False
    for i, c in enumerate(sig[2:]):
        nm = 'a%d' % i
        if c in ('v', 'l'):
            hasv = True
            xs.append(w.vec(nm, t, c))
            rs.append(nm + '[%d]')
        elif c == 'p':
            xs.append(w.scalar(nm, 'int'))
            rs.append(nm)
        elif c == 's':
            xs.append(w.scalar(nm, t))
            rs.append('*' + nm)
    if name in ('shl', 'shr', 'shra'):
        w.pres.append(shift_pre('a1'))
    if name == 'div' and not isf(t):
        w.pres.append(div_pre())
    ro = sig[0]
    PK = {'v': 'pack', 'l': 'packl', 'vx2': 'packx2'}.get(ro)
    ret = 'nsimd::%s<%s, %d>' % (PK, to, N)
    if form == 'op':
        cop = form_op[name]
        call = ('%s%s' % (cop, xs[0])) if len(xs) == 1 else \
            '%s %s %s' % (xs[0], cop, xs[1])
    elif o or not hasv:
        call = 'nsimd::%s<%s >(%s)' % (name, ret, ', '.join(xs))
    else:
        call = 'nsimd::%s(%s)' % (name, ', '.join(xs))
    if ro in ('v', 'l'):
        w.out(to, ro)
        w.body.append('%s y = %s;' % (ret, call))
        for i in range(N):
            w.body.append('r[%d] = %s;' % (i, ch('y', i)))
            ra = ', '.join(q % i if '%d' in q else q for q in rs)
            if name == 'mask_for_loop_tail':
                ra = 'a0 + %d, a1' % (i * nlanes(x, t))
            w.ref.append('e[%d] = %s(%s);' % (i, cname(name, x, t, o), ra))
        if name == 'iota':
            w.posts[:] = [lambda P, ob: iota_post(P, ob, t, x, N)]
        if name == 'mask_for_loop_tail':
            w.pres.append(lambda P: [
                E.sle(const(0, 32), P.lanes['a0']),
                E.sle(const(0, 32), P.lanes['a1']),
                E.sle(P.lanes['a0'], const(0x7fffffff -
                                           N * nlanes(x, t), 32))])
    elif ro == 'vx2':
        w.out(to, 'v', 2 * N)
        w.body.append('%s y = %s;' % (ret, call))
        for i in range(N):
            ra = ', '.join(q % i if '%d' in q else q for q in rs)
            w.ref.append('{ %s z = %s(%s);' % (
                cty('vx2', to, x), cname(name, x, t, o), ra))
            for m in range(2):
                w.body.append('r[%d] = %s;' % (m * N + i,
                                               ch('y.v%d' % m, i)))
                w.ref.append('e[%d] = z.v%d;' % (m * N + i, m))
            w.ref.append('}')
    elif name in ('all', 'any', 'nbtrue'):
        w.out('int', 'c')
        w.body.append('*r = %s%s;' % ('' if name == 'nbtrue' else '!!', call))
        op = {'all': '&', 'any': '|', 'nbtrue': '+'}[name]
        b = '' if name == 'nbtrue' else '!!'
        w.ref.append('*e = %s;' % (' %s ' % op).join(
            '%s%s(a0[%d])' % (b, cname(name, x, t), i) for i in range(N)))
    elif name == 'addv':
        if t == 'f16':
            return None if N > 1 else scal_out(w, t, call, x)
        return scal_out(w, t, call, x)
    else:
        return None
    return w


def scal_out(w, t, call, x):
    """addv: a sum of all the lanes"""
    w.ps.append('%s *r' % t)
    w.mk.append(lambda P: P.out('r', bits(t) // 8))
    w.body.append('*r = %s;' % call)

    def post(P, o):
        ls = P.lanes['a0']
        if isf(t):
            return [('sum', spec.sum_ok(t, o['r'], ls))]
        s = const(0, bits(t))
        for l in ls:
            s = E.add(s, l)
        return [('sum', E.eq(o['r'], s))]
    w.posts.append(post)
    return w


def iota_post(P, o, t, x, N):
    L = vlay(x, t)
    n = nlanes(x, t)
    r = []
    for k in range(n * N):
        q, wd = L.lanes[k % n]
        e = const(k, bits(t)) if not isf(t) else spec.fconst(k, lw(t))
        r.append(('lane %d' % k,
                  E.eq(ext(o['r'], (k // n) * L.size * 8 + q, wd), e)))
    return r


form_op = {}


def memory(t, x, N):
    """loads and stores, by name and templated on the alignment"""
    ws = []
    n = nlanes(x, t)
    sz = bits(t) // 8
    P_ = 'nsimd::pack<%s, %d>' % (t, N)
    L_ = 'nsimd::packl<%s, %d>' % (t, N)

    def mk(nm):
        w = W('%s_%s_%d' % (nm, t, N), t, x, N)
        ws.append(w)
        return w

    def al(a):
        return 64 if a == 'a' else sz
    for a in 'ua':
        tag = 'nsimd::aligned' if a == 'a' else 'nsimd::unaligned'
        for tm in (0, 1):
            sfx = '_t' if tm else ''
            # load / loadl
            for base, kind, ret in (('load', 'v', P_), ('loadl', 'l', L_)):
                w = mk(base + a + sfx)
                w.mem('p', n * N, al(a), False)
                w.out(t, kind)
                w.body.append('%s y = nsimd::%s;' % (
                    ret, '%s<%s, %s>(p)' % (base, ret, tag) if tm else
                    '%s%s<%s >(p)' % (base, a, ret)))
                for i in range(N):
                    w.body.append('r[%d] = %s;' % (i, ch('y', i)))
                    w.ref.append('e[%d] = %s(p + %d);' % (
                        i, cname(base + a, x, t), i * n))
            # store / storel
            for base, kind in (('store', 'v'), ('storel', 'l')):
                w = mk(base + a + sfx)
                v = w.vec('a1', t, kind)
                w.mem('p', n * N, al(a), True, twin=True)
                w.body.append('nsimd::%s;' % (
                    '%s<%s>(p, %s)' % (base, tag, v) if tm else
                    '%s%s(p, %s)' % (base, a, v)))
                for i in range(N):
                    w.ref.append('%s(p_ + %d, a1[%d]);' % (
                        cname(base + a, x, t), i * n, i))
            # masked
            for base in ('maskz_load', 'masko_load', 'mask_store'):
                w = mk(base + a + sfx)
                m = w.vec('a0', t, 'l')
                st = base == 'mask_store'
                w.mem('p', n * N, al(a), st, twin=st)
                ex = []
                if base != 'maskz_load':
                    ex = [w.vec('a2', t, 'v')]
                f = 'nsimd::%s%s(%s)' % (
                    base, '<%s>' % tag if tm else a,
                    ', '.join([m, 'p'] + ex))
                if st:
                    w.body.append(f + ';')
                else:
                    w.out(t, 'v')
                    w.body.append('%s y = %s;' % (P_, f))
                for i in range(N):
                    args = ['a0[%d]' % i, '%s + %d' % ('p_' if st else 'p',
                                                       i * n)]
                    if ex:
                        args.append('a2[%d]' % i)
                    c = '%s(%s);' % (cname(base + a + '1', x, t),
                                     ', '.join(args))
                    if not st:
                        w.body.append('r[%d] = %s;' % (i, ch('y', i)))
                        c = 'e[%d] = %s' % (i, c)
                    w.ref.append(c)
            for k in (2, 3, 4):
                X_ = 'nsimd::packx%d<%s, %d>' % (k, t, N)
                w = mk('load%d%s%s' % (k, a, sfx))
                w.mem('p', n * N * k, al(a), False)
                w.out(t, 'v', k * N)
                w.body.append('%s y = nsimd::%s;' % (
                    X_, 'load%d<%s, %s>(p)' % (k, X_, tag) if tm else
                    'load%d%s<%s >(p)' % (k, a, X_)))
                for i in range(N):
                    w.ref.append('{ %s z = %s(p + %d);' % (
                        cty('vx%d' % k, t, x),
                        cname('load%d%s' % (k, a), x, t), i * n * k))
                    for m in range(k):
                        w.body.append('r[%d] = %s;' % (
                            m * N + i, ch('y.v%d' % m, i)))
                        w.ref.append('e[%d] = z.v%d;' % (m * N + i, m))
                    w.ref.append('}')
                w = mk('store%d%s%s' % (k, a, sfx))
                vs = [w.vec('a%d' % m, t) for m in range(k)]
                w.mem('p', n * N * k, al(a), True, twin=True)
                w.body.append('nsimd::%s;' % (
                    'store%d<%s>(p, %s)' % (k, tag, ', '.join(vs)) if tm else
                    'store%d%s(p, %s)' % (k, a, ', '.join(vs))))
                for i in range(N):
                    w.ref.append('%s(p_ + %d, %s);' % (
                        cname('store%d%s' % (k, a), x, t), i * n * k,
                        ', '.join('a%d[%d]' % (m, i) for m in range(k))))
    return ws


def misc(t, x, N):
    ws = []
    P_ = 'nsimd::pack<%s, %d>' % (t, N)
    n = nlanes(x, t)

    def mk(nm):
        w = W('%s_%s_%d' % (nm, t, N), t, x, N)
        ws.append(w)
        return w
    # assignment operators
    for op, nm in BIN_AS.items():
        w = mk('assign_' + nm)
        a, b = w.vec('a0'), w.vec('a1')
        w.out()
        if nm == 'div' and not isf(t):
            w.pres.append(div_pre())
        w.body.append('%s &y = (%s %s= %s);' % (P_, a, op, b))
        for i in range(N):
            # through the reference returned, and in place
            w.body.append('r[%d] = %s;' % (i, ch('y' if i % 2 else a, i)))
            w.ref.append('e[%d] = %s(a0[%d], a1[%d]);' % (
                i, cname(nm, x, t), i, i))
    if not isf(t):
        for op, nm in (('<<', 'shl'), ('>>', 'shr')):
            w = mk('assign_' + nm)
            a, s = w.vec('a0'), w.scalar('s', 'int')
            w.pres.append(shift_pre('s'))
            w.out()
            w.body.append('%s &y = (%s %s= %s);' % (P_, a, op, s))
            for i in range(N):
                w.body.append('r[%d] = %s;' % (i, ch('y' if i % 2 else a, i)))
                w.ref.append('e[%d] = %s(a0[%d], s);' % (
                    i, cname(nm, x, t), i))
    # splatting constructor
    w = mk('ctor')
    s = w.scalar('s', t)
    w.out()
    w.body.append('%s y(%s);' % (P_, s))
    for i in range(N):
        w.body.append('r[%d] = %s;' % (i, ch('y', i)))
        w.ref.append('e[%d] = %s(*s);' % (i, cname('set1', x, t)))
    w = mk('ctorl')
    s = w.scalar('s', 'int')
    w.out(t, 'l')
    w.body.append('nsimd::packl<%s, %d> y(%s);' % (t, N, s))
    for i in range(N):
        w.body.append('r[%d] = %s;' % (i, ch('y', i)))
        w.ref.append('e[%d] = %s(s);' % (i, cname('set1l', x, t)))
    # if_else on logicals of the same width
    for lt in {'8': ('i8', 'u8'), '16': ('i16', 'f16', 'u16'),
               '32': ('i32', 'f32', 'u32'),
               '64': ('i64', 'f64', 'u64')}[t[1:]]:
        w = mk('if_else_%s' % lt)
        m, a, b = w.vec('a0', lt, 'l'), w.vec('a1'), w.vec('a2')
        w.out()
        w.body.append('%s y = nsimd::if_else(%s, %s, %s);' % (P_, m, a, b))
        for i in range(N):
            w.body.append('r[%d] = %s;' % (i, ch('y', i)))
            q = 'a0[%d]' % i
            if lt != t:
                q = '%s(%s)' % (cname('reinterpretl', x, lt, t), q)
            w.ref.append('e[%d] = %s(%s, a1[%d], a2[%d]);' % (
                i, cname('if_else1', x, t), q, i, i))
    # len
    for nm, e, k in (('len', 'nsimd::len(y)', 1),
                     ('lent', 'nsimd::len<%s >()' % P_, 1),
                     ('lenl', 'nsimd::len(nsimd::packl<%s, %d>())' % (t, N),
                      1)) + tuple(
            ('lenx%d' % k, 'nsimd::len(nsimd::packx%d<%s, %d>())' % (k, t, N),
             k) for k in (1, 2, 3, 4)):
        w = mk(nm)
        w.out('int', 'c')
        w.body.append('%s y; *r = %s;' % (P_, e))
        w.ref.append('*e = %d;' % (n * N * k))
    # packxK -> pack
    for k in (2, 3, 4):
        for nm in ('to_pack', 'to_pack_interleave'):
            w = mk('%s%d' % (nm, k))
            vs = ['a%d' % m for m in range(k)]
            w.out(t, 'v', k * N)
            xv = [w.vec(v) for v in vs]
            w.body.append('nsimd::packx%d<%s, %d> z; %s' % (
                k, t, N, ' '.join('z.v%d = %s;' % (m, xv[m])
                                  for m in range(k))))
            w.body.append('nsimd::pack<%s, %d> y = nsimd::%s(z);' % (
                t, k * N, nm))
            for j in range(k * N):
                w.body.append('r[%d] = %s;' % (j, ch('y', j)))
                m, i = (j // N, j % N) if nm == 'to_pack' else (j % k, j // k)
                w.ref.append('e[%d] = a%d[%d];' % (j, m, i))
        for m in range(k):
            w = mk('get_pack%d_%d' % (k, m))
            vs = ['a%d' % q for q in range(k)]
            w.out(t, 'v', N)
            xv = [w.vec(v) for v in vs]
            w.body.append('nsimd::packx%d<%s, %d> z; %s' % (
                k, t, N, ' '.join('z.v%d = %s;' % (q, xv[q])
                                  for q in range(k))))
            w.body.append('%s y = nsimd::get_pack<%d>(z);' % (P_, m))
            for j in range(N):
                w.body.append('r[%d] = %s;' % (j, ch('y', j)))
                w.ref.append('e[%d] = a%d[%d];' % (j, m, j))
    return ws


class G(object):
    """gather/scatter on packs: stated on all the N * len lanes at once"""

    def __init__(self, name, t, x, N):
        self.name, self.t, self.x, self.N = name, t, x, N
        it = 'i' + t[1:]
        self.fn = 'w_%s_%s_%d' % (name, t, N)
        P_ = 'nsimd::pack<%s, %d>' % (t, N)
        V, VI = cty('v', t, x), cty('v', it, x)
        I = 'nsimd::pack<%s, %d> xi; %s' % (it, N, ' '.join(
            '%s = i[%d];' % (ch('xi', k), k) for k in range(N)))
        rd = ' '.join('r[%d] = %s;' % (k, ch('y', k)) for k in range(N))
        ld = '%s y; %s' % (P_, ' '.join('%s = v[%d];' % (ch('y', k), k)
                                        for k in range(N)))
        if name == 'gather':
            self.t_ = 'void %s(const %s *p, const %s *i, %s *r) { %s %s y = ' \
                'nsimd::gather(p, xi); %s }' % (self.fn, t, VI, V, I, P_, rd)
        elif name == 'gather_linear':
            self.t_ = 'void %s(const %s *p, int i, %s *r) { %s y = nsimd::' \
                'gather_linear<%s >(p, i); %s }' % (self.fn, t, V, P_, P_, rd)
        elif name == 'scatter':
            self.t_ = 'void %s(%s *p, const %s *i, const %s *v) { %s %s ' \
                'nsimd::scatter(p, xi, y); }' % (self.fn, t, VI, V, I, ld)
        else:
            self.t_ = 'void %s(%s *p, int i, const %s *v) { %s ' \
                'nsimd::scatter_linear(p, i, y); }' % (self.fn, t, V, ld)

    def text(self):
        return self.t_

    def prob(self, fn=None):
        t, x, N = self.t, self.x, self.N
        P = Prob(fn or self.fn)
        P.op, P.t, P.o, P.ext = self.name, t, None, x
        n = nlanes(x, t) * N
        sz = bits(t) // 8
        lin = self.name.endswith('linear')
        sc = self.name.startswith('scatter')
        P.umem('p', sc)
        if lin:
            idx = P.val('i', 32)
            offs = [E.mul(E.mul(spec.sx(idx, 64), const(k, 64)),
                          const(sz, 64)) for k in range(n)]
            lim = 0x7fffffff // n
            P.pre = [E.sle(const(-lim, 32), idx), E.sle(idx, const(lim, 32))]
            P.replay_pre = [E.sle(const(-1000, 32), idx),
                            E.sle(idx, const(1000, 32))]
            if sc:
                P.pre.append(E.ne(idx, const(0, 32)))
        else:
            idx = [E.var('i_%d' % k, bits(t)) for k in range(n)]
            P.inp('i', cat(idx))
            offs = [E.mul(spec.sx(a, 64), const(sz, 64)) for a in idx]
            if bits(t) > 16:
                for a in idx:
                    P.replay_pre += [E.sle(const(-30000, a.w), a),
                                     E.sle(a, const(30000, a.w))]
            if bits(t) == 64:
                lim = 1 << (27 if x == 'neon128' else 59)
                P.pre += [c for a in idx for c in
                          (E.sle(const(-lim, 64), a),
                           E.sle(a, const(lim, 64)))]
            if sc:
                P.pre += [E.ne(idx[a], idx[b]) for a in range(n)
                          for b in range(a)]
        P.params[0]['access'] = (offs, sz)
        L = vlay(x, t)
        nl = nlanes(x, t)
        lanes = [(i * L.size * 8 + o, w) for i in range(N)
                 for o, w in L.lanes]
        if sc:
            v = [E.var('v_%d' % k, lw(t)) for k in range(n)]
            P.inp('v', cat(v))

            def post(o):
                f = o['final:p']
                return [('element of lane %d' % k, cmpf(
                    t == 'f16', f(offs[k], sz), spec.enc_mem(t, v[k])))
                    for k in range(n)]
        else:
            P.out('r', L.size * N)

            def post(o):
                rd = o['init:p']
                return [('lane %d' % k, cmpf(
                    t == 'f16', ext(o['r'], q, w),
                    spec.dec_mem(t, rd(offs[k], sz))))
                    for k, (q, w) in enumerate(lanes)]
        P.post = post
        return P


def pack_fns(t, x, N):
    from .props import OPS
    ws = []
    for sig, types, cop, has, out in OPS:
        fam = spec.FAMILY[sig[1]]
        if fam in ('mem', 'mask', 'aos', 'gather') or sig[1] == 'len':
            continue
        for tt, o in types:
            if tt != t:
                continue
            w = lanewise(sig, t, o, x, N, 'fn')
            if w:
                ws.append(w)
            if cop and o is None:
                form_op[sig[1]] = cop
                w = lanewise(sig, t, o, x, N, 'op')
                if w:
                    ws.append(w)
    ws += memory(t, x, N)
    ws += misc(t, x, N)
    return ws


def friendly(t, x, N):
    """operators between a pack and a scalar (friendly_but_not_optimized.hpp):
    the scalar is broadcast"""
    from .props import OPS
    ws = []
    for sig, types, cop, has, out in OPS:
        if not cop or len(sig) != 4 or sig[1] in ('shl', 'shr') or \
                not any(list(q) == [t, None] for q in types):
            continue
        name, ro = sig[1], sig[0]
        isl = sig[2] == 'l'
        for side in 'rl':
            w = W('friendly_%s_%s_%s_%d' % (side, name, t, N), t, x, N)
            a = w.vec('a0', t, 'l' if isl else 'v')
            s = w.scalar('s', 'int' if isl else t)
            if name == 'div' and not isf(t):
                w.pres.append(fdiv_pre(side))
            w.out(t, ro)
            ret = 'nsimd::pack%s<%s, %d>' % ('l' if ro == 'l' else '', t, N)
            sc = '(bool)%s' % s if isl else '(%s)' % s
            w.body.append('%s y = %s;' % (ret, '%s %s %s' % (
                (a, cop, sc) if side == 'r' else (sc, cop, a))))
            b = '%s(%s)' % (cname('set1l' if isl else 'set1', x, t),
                            s + ' != 0' if isl else s)
            for i in range(N):
                w.body.append('r[%d] = %s;' % (i, ch('y', i)))
                q = ('a0[%d]' % i, b)
                w.ref.append('e[%d] = %s(%s, %s);' % (
                    (i, cname(name, x, t)) + (q if side == 'r' else q[::-1])))
            ws.append(w)
        if isl:
            for lt in LSAME[t[1:]]:
                if lt == t:
                    continue
                w = W('friendly_%s_%s_%s_%d' % (name, lt, t, N), t, x, N)
                a, b = w.vec('a0', t, 'l'), w.vec('a1', lt, 'l')
                w.out(t, 'l')
                w.body.append('nsimd::packl<%s, %d> y = %s %s %s;' % (
                    t, N, a, cop, b))
                for i in range(N):
                    w.body.append('r[%d] = %s;' % (i, ch('y', i)))
                    w.ref.append('e[%d] = %s(a0[%d], %s(a1[%d]));' % (
                        i, cname(name, x, t), i,
                        cname('reinterpretl', x, lt, t), i))
                ws.append(w)
    return ws


LSAME = {'8': ('i8', 'u8'), '16': ('i16', 'f16', 'u16'),
         '32': ('i32', 'f32', 'u32'), '64': ('i64', 'f64', 'u64')}


def fdiv_pre(side):
    def f(P):
        t = P.lanes['s']
        if side == 'r':
            P.lanes['d'] = [t] * len(P.lanes['a0'])
            return div_pre('d', 'a0')(P)
        P.lanes['d'] = [t] * len(P.lanes['a0'])
        return div_pre('a0', 'd')(P)
    return f


def pack_units(tier):
    us = []
    conf = [('avx2', 1, None), ('avx2', 2, None), ('avx2', 3, None),
            ('sse2', 2, 'c++98'), ('cpu', 2, None),
            ('avx512_skylake', 2, None), ('aarch64', 2, None)]
    if tier == 'thorough':
        conf += [('avx2', 4, None), ('avx', 2, None), ('sse42', 3, None),
                 ('avx512_knl', 2, None), ('cpu', 3, 'c++98'),
                 ('neon128', 2, None), ('vsx', 2, None), ('vmx', 3, None)]
    for x, N, std in conf:
        for t in spec.TYPES:
            fs = pack_fns(t, x, N)
            us.append(unit('pack-%s-%s-%d' % (x, t, N), x, fs, std))
            if (x, N) in (('avx2', 1), ('sse2', 2), ('cpu', 2)) or \
                    tier == 'thorough':
                us.append(unit('packf-%s-%s-%d' % (x, t, N), x,
                               friendly(t, x, N), std,
                               '#include <nsimd/friendly_but_not_optimized.'
                               'hpp>\n'))
        if N > 1:
            for t in ('u16', 'f16', 'i32', 'f32', 'i64', 'f64'):
                if nlanes(x, t) * N > 16 and not (x == 'sse2') and \
                        tier == 'quick':
                    continue
                fs = [G(g, t, x, N) for g in ('gather', 'gather_linear',
                                              'scatter', 'scatter_linear')]
                us.append(unit('packg-%s-%s-%d' % (x, t, N), x, fs, std))
    return us


def canary(fs):
    """a deliberately wrong wrapper (one bit of its result is flipped): the
    obligation it fails shows that the contract is not vacuous"""
    for f in fs:
        if isinstance(f, W) and ('add' in f.name or 'loadu' in f.name or
                                 'sin_u10' in f.name) and \
                any(p.endswith('*r') for p in f.ps):
            kn = 'k' + f.fn[1:]
            t = f.text().replace(f.fn + '(', kn + '(', 1).rstrip()
            return (t[:-1] + '((unsigned char *)r)[0] ^= 1;\n}',
                    [(kn, lambda: f.prob(kn))])
    return '', []


def unit(key, x, fs, std, head=''):
    ct, cans = canary(fs)
    text = '#include <nsimd/nsimd-all.hpp>\n' + head + 'extern "C" {\n' + \
        '\n'.join([f.text() for f in fs] + [ct]) + '\n}\n'
    return Unit(key, x, text, spec.FLAGS[x],
                [(f.fn[2:], f.prob) for f in fs], std=std, canaries=cans)
