"""Contracts (pre/postconditions and frames) of the nsimd operators.

For every operator of egg/operators.py that is not an external (Sleef)
function, `contract(op, t, out, ext)` builds the requires/ensures clauses of
nsimd_<op>_<ext>_[<out>_]<t>.  The contracts are stated over lanes and do not
look at how the function is written."""
import re
import os
from fractions import Fraction
from . import expr as E
from .expr import const, ext, cat, zx, sx, ite, and_, or_, not_, fop, mkbin

EXTS = ['cpu', 'sse2', 'sse42', 'avx', 'avx2', 'avx512_knl', 'avx512_skylake']
FLAGS = {
    'cpu': '-DCPU',
    'sse2': '-DSSE2 -msse2',
    'sse42': '-DSSE42 -msse4.2',
    'avx': '-DAVX -mavx',
    'avx2': '-DAVX2 -mavx2 -mfma -DFP16 -mf16c -DFMA',
    'avx512_knl': '-DAVX512_KNL -mavx512f -mavx512pf -mavx512er -mavx512cd '
                  '-mfma -DFP16 -mf16c',
    'avx512_skylake': '-DAVX512_SKYLAKE -mavx512f -mavx512dq -mavx512cd '
                      '-mavx512bw -mavx512vl -mfma -DFP16 -mf16c',
}
# targets this machine cannot run: proofs only, no native replay
_SYS = '-I%s -isystem /usr/include/x86_64-linux-gnu -isystem ' \
    '/usr/include/x86_64-linux-gnu/c++/13 -isystem /usr/include/c++/13' % \
    os.path.join(os.path.dirname(os.path.abspath(__file__)), 'sysroot')
CROSS = ('aarch64', 'neon128', 'vsx', 'vmx')
FLAGS['aarch64'] = '--target=aarch64-linux-gnu -DAARCH64 ' + _SYS
FLAGS['neon128'] = '--target=armv7-linux-gnueabihf -mfpu=neon-vfpv4 ' \
    '-DNEON128 ' + _SYS
FLAGS['vsx'] = '--target=powerpc64le-linux-gnu -mcpu=power8 -maltivec -mvsx ' \
    '-DVSX ' + _SYS
FLAGS['vmx'] = '--target=powerpc64le-linux-gnu -mcpu=power7 -maltivec -mvsx ' \
    '-DVMX ' + _SYS
VW = {'aarch64': 128, 'neon128': 128, 'vsx': 128, 'vmx': 128, 'cpu': 128, 'sse2': 128, 'sse42': 128, 'avx': 256, 'avx2': 256,
      'avx512_knl': 512, 'avx512_skylake': 512}
TYPES = ['i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64', 'f16', 'f32',
         'f64']
MAXALIGN = 64


def bits(t):
    return int(t[1:])


def isf(t):
    return t[0] == 'f'


def issigned(t):
    return t[0] == 'i'


def lw(t):
    """width of a lane of a vector of t as the functions see it: f16 lanes are
    held as f32 on all the targets compiled here"""
    return 32 if t == 'f16' else bits(t)


def nlanes(x, t):
    return VW[x] // bits(t)


class Lay(object):
    """memory image of a type: fields [(offset_bits, width)], size in bytes"""

    def __init__(self, size, lanes):
        self.size = size
        self.lanes = lanes


def vlay(x, t):
    n, w = nlanes(x, t), lw(t)
    return Lay(n * w // 8, [(i * w, w) for i in range(n)])


def vxlay(x, t, k):
    l = vlay(x, t)
    out = []
    for j in range(k):
        out += [(j * l.size * 8 + o, w) for o, w in l.lanes]
    return Lay(l.size * k, out)


def llay(x, t):
    n = nlanes(x, t)
    if x == 'cpu':
        return Lay(4 * n, [(32 * i, 32) for i in range(n)])
    if x.startswith('avx512'):
        return Lay(n // 8, [(i, 1) for i in range(n)])
    return vlay(x, t)


def lenc(x, t, b):
    """image lane of a logical with truth value b"""
    l = llay(x, t).lanes[0][1]
    return b if l == 1 else sx(b, l)


# ------------------------------------------------------------ problems

class Prob(object):
    """One function under contract.

    params: list of dicts
       kind 'in'   : pointer to a read-only object holding `node`
       kind 'val'  : integer passed by value (node)
       kind 'out'  : pointer to a write-only object of `size` bytes, name
       kind 'mem'  : pointer to memory described by name,size,align,
                     init node or None (symbolic bytes), writable, valid
       kind 'umem' : pointer into an unbounded memory region
    pre: list of 1-bit nodes
    post: function(dict name -> node / UMem view) -> list of (label, cond)
    """

    def __init__(self, fn):
        self.fn = fn
        self.params = []
        self.pre = []
        self.post = None
        self.note = ''
        self.replay_pre = []
        self.skip_safety = ()
        self.float_only = False
        self.koff = None          # ghost offset: array contract (loops.py)
        self.instances = None     # array contract: fixed-size problems

    def inp(self, name, node, align=64):
        self.params.append(dict(kind='in', name=name, node=node, align=align,
                                size=node.w // 8))
        return node

    def val(self, name, w, cty='int'):
        n = E.var(name, w)
        self.params.append(dict(kind='val', name=name, node=n, cty=cty))
        return n

    def out(self, name, size):
        self.params.append(dict(kind='out', name=name, size=size))

    def mem(self, name, size, align, writable, valid=None, init=None):
        if init is None:
            init = cat([E.var('%s[%d]' % (name, i), 8) for i in range(size)])
        self.params.append(dict(kind='mem', name=name, size=size, align=align,
                                writable=writable, valid=valid, node=init))
        return init

    def umem(self, name, writable, access=None):
        self.params.append(dict(kind='umem', name=name, writable=writable,
                                access=access))


def eqf(a, b):
    """equal as floating-point data: same bits, or both NaN"""
    if a is b:
        return E.T()
    return or_(E.eq(a, b), and_(E.f_isnan(a), E.f_isnan(b)))


def veq(t, a, b):
    return eqf(a, b) if isf(t) else E.eq(a, b)


# ------------------------------------------------------------ lane functions

def smin(t, a, b, mx):
    lt = E.slt if issigned(t) else E.ult
    return ite(lt(a, b), b if mx else a, a if mx else b)


def sat(t, op, a, b):
    from .intr import sat as s
    return s('s' if issigned(t) else 'u', op, a, b)


def fin_range(t, x):
    """x (fp bits) truncates into the range of integer type t"""
    from .intr import in_range
    return in_range(x, bits(t), issigned(t), 'trunc')


def conv(to, t, x):
    """-> (precondition, expected lane) of the C conversion of lane x:t to
    type `to`; lanes as held in vectors"""
    if to == t:
        return E.T(), x
    wt = lw(to)
    if not isf(t) and not isf(to):
        return E.T(), (sx if issigned(t) else zx)(x, wt) if wt >= x.w else \
            ext(x, 0, wt)
    if not isf(t):
        if to == 'f16':
            # f16 lanes hold binary32 values
            return E.T(), fop('sitofp' if issigned(t) else 'uitofp', [x], 32)
        return E.T(), fop('sitofp' if issigned(t) else 'uitofp', [x], wt)
    if isf(to):
        if x.w == wt:
            return E.T(), x
        return E.T(), fop('fpext' if wt > x.w else 'fptrunc', [x], wt)
    return fin_range(to, x), fop('fptosi' if issigned(to) else 'fptoui', [x],
                                 bits(to), 'trunc')


def f16_to_f32(x):
    return fop('fpext', [x], 32)


def f32_to_f16(x):
    return fop('fptrunc', [x], 16)


def enc_mem(t, x):
    """memory encoding of a lane"""
    return f32_to_f16(x) if t == 'f16' else x


def dec_mem(t, x):
    return f16_to_f32(x) if t == 'f16' else x


# ------------------------------------------------------------ contracts

def lanes_of(node, lay):
    return [ext(node, o, w) for o, w in lay.lanes]


class Ctx(object):
    pass


FAMILY = {}
for fam, ops in {
    'arith': 'add sub mul div neg min max abs fma fnma fms fnms addv',
    'satur': 'adds subs',
    'bits': 'orb andb andnotb notb xorb shl shr shra',
    'cmp': 'eq ne gt ge lt le',
    'logic': 'orl andl andnotl xorl notl all any nbtrue to_mask to_logical '
             'if_else1 set1l mask_for_loop_tail reinterpretl',
    'round': 'ceil floor trunc round_to_even sqrt rec',
    'approx': 'rec11 rec8 rsqrt11 rsqrt8',
    'conv': 'cvt upcvt downcvt reinterpret',
    'mem': 'loadu loada storeu storea loadlu loadla storelu storela',
    'mask': 'masko_loadu1 maskz_loadu1 masko_loada1 maskz_loada1 '
            'mask_storeu1 mask_storea1',
    'aos': 'load2u load3u load4u load2a load3a load4a store2u store3u store4u '
           'store2a store3a store4a',
    'gather': 'gather gather_linear scatter scatter_linear',
    'shuf': 'ziplo ziphi unziplo unziphi zip unzip iota len set1',
}.items():
    for o in ops.split():
        FAMILY[o] = fam

NINT_FLOAT_ONLY = set()


def lane1(op, t, a):
    """unary lane-wise ops -> (pre, [acceptable] or predicate)"""
    w = a.w
    if op == 'neg':
        return E.T(), (E.f_neg(a) if isf(t) else E.neg(a))
    if op == 'abs':
        if isf(t):
            return E.T(), E.f_abs(a)
        return E.T(), ite(ext(a, w - 1, 1), E.neg(a), a) if issigned(t) else a
    if op == 'notb':
        return E.T(), not_(a)
    if op in ('ceil', 'floor', 'trunc', 'round_to_even'):
        if not isf(t):
            return E.T(), a
        return E.T(), fop('frint', [a], w,
                          'rne' if op == 'round_to_even' else op)
    if op == 'sqrt':
        return E.T(), fop('fsqrt', [a], w)
    if op == 'rec':
        return E.T(), fop('fdiv', [fconst(1, w), a], w)
    raise KeyError(op)


def fconst(v, w):
    from . import softfp
    return const(softfp.pack(Fraction(v), w), w)


def lane2(op, t, a, b):
    w = a.w
    if op in ('add', 'sub', 'mul'):
        if isf(t):
            return E.T(), fop('f' + op, [a, b], w)
        return E.T(), mkbin(op, a, b)
    if op == 'div':
        if isf(t):
            return E.T(), fop('fdiv', [a, b], w)
        nz = E.ne(b, const(0, w))
        if issigned(t):
            nz = and_(nz, not_(and_(E.eq(a, const(1 << (w - 1), w)),
                                    E.eq(b, const(-1, w)))))
            return nz, mkbin('sdiv', a, b)
        return nz, mkbin('udiv', a, b)
    if op in ('adds', 'subs'):
        if isf(t):
            return E.T(), fop('f' + op[:-1], [a, b], w)
        return E.T(), sat(t, op[:-1], a, b)
    if op == 'orb':
        return E.T(), E.bor(a, b)
    if op == 'andb':
        return E.T(), E.band(a, b)
    if op == 'xorb':
        return E.T(), E.bxor(a, b)
    if op == 'andnotb':
        return E.T(), E.band(a, not_(b))
    raise KeyError(op)


def minmax_post(op, t, a, b, r):
    if not isf(t):
        return E.eq(r, smin(t, a, b, op == 'max'))
    lt = E.fcmp('olt', a, b)
    best = ite(lt, b, a) if op == 'max' else ite(lt, a, b)
    nan = or_(E.f_isnan(a), E.f_isnan(b))
    return ite(nan, or_(eqf(r, a), eqf(r, b)),
               and_(E.fcmp('oeq', r, best), or_(E.eq(r, a), E.eq(r, b))))


def compare(op, t, a, b):
    if isf(t):
        return E.fcmp({'eq': 'oeq', 'ne': 'une', 'lt': 'olt', 'le': 'ole',
                       'gt': 'ogt', 'ge': 'oge'}[op], a, b)
    if op == 'eq':
        return E.eq(a, b)
    if op == 'ne':
        return E.ne(a, b)
    s = 's' if issigned(t) else 'u'
    if op == 'lt':
        return E.cmp(s + 'lt', a, b)
    if op == 'le':
        return E.cmp(s + 'le', a, b)
    if op == 'gt':
        return E.cmp(s + 'lt', b, a)
    return E.cmp(s + 'le', b, a)


def fma_lane(op, t, a, b, c, tgt=None):
    """-> list of acceptable results (fused or not, as the target has it)"""
    w = a.w
    na = op in ('fnma', 'fnms')
    nc = op in ('fms', 'fnms')
    if not isf(t):
        p = E.mul(a, b)
        p = E.neg(p) if na else p
        return [E.sub(p, c) if nc else E.add(p, c)]
    x = E.f_neg(a) if na else a
    y = E.f_neg(b) if na else b
    z = E.f_neg(c) if nc else c
    outs = [fop('ffma', [x, b, z], w), fop('ffma', [a, y, z], w)]
    p = fop('fmul', [a, b], w)
    outs.append(fop('fadd', [E.f_neg(p) if na else p, z], w))
    outs.append(fop('fadd', [fop('fmul', [x, b], w), z], w))
    outs.append(fop('fadd', [fop('fmul', [a, y], w), z], w))
    if not na:
        outs.append(fop('fsub', [p, c], w) if nc else fop('fadd', [p, c], w))
    if na and not nc:
        outs.append(fop('fsub', [c, p], w))
    if na and nc:
        outs.append(fop('fsub', [E.f_neg(p), c], w))
        outs.append(fop('fsub', [fop('fmul', [x, b], w), c], w))
        outs.append(fop('fsub', [fop('fmul', [a, y], w), c], w))
        s = fop('fadd', [p, c], w)
        outs.append(E.f_neg(s))
    if op == 'fms':
        outs.append(fop('fsub', [p, c], w))
    if na and tgt in ('vsx', 'vmx'):
        # POWER rounds, then negates
        outs.append(E.f_neg(fop('ffma', [a, b, c if nc else E.f_neg(c)], w)))
    return outs


def contract(op, t, out, x, fn=None):
    """op: signature list like ['v','add','v','v']"""
    name = op[1]
    fn = fn or ('w_%s_%s%s' % (name, out + '_' if out else '', t))
    P = Prob(fn)
    P.op, P.t, P.o, P.ext = name, t, out, x
    n = nlanes(x, t)
    vl, ll = vlay(x, t), llay(x, t)
    sz = bits(t) // 8
    args = []
    ro = op[0]
    to = out or t
    alig = MAXALIGN if name.endswith(('a', 'a1')) and FAMILY[name] in \
        ('mem', 'mask', 'aos') else sz
    k_aos = int(name[-2]) if FAMILY[name] == 'aos' else 1
    masked = FAMILY[name] == 'mask'
    mask = None
    ptrname = None
    for i, c in enumerate(op[2:]):
        nm = 'a%d' % i
        if c == 'v':
            ls = [E.var('%s_%d' % (nm, k), lw(t)) for k in range(n)]
            if t == 'f16' and name == 'to_logical':
                # lanes holding binary16 values
                hs = [E.var('%s_%d' % (nm, k), 16) for k in range(n)]
                ls = [f16_to_f32(h) for h in hs]
            P.inp(nm, cat(ls))
            args.append(ls)
        elif c == 'vi':
            ti = 'i' + t[1:]
            ls = [E.var('%s_%d' % (nm, k), lw(ti)) for k in range(n)]
            P.inp(nm, cat(ls))
            args.append(ls)
        elif c == 'l':
            ls = [E.var('%s_%d' % (nm, k), 1) for k in range(n)]
            P.inp(nm, cat([lenc(x, t, b) for b in ls]))
            args.append(ls)
            mask = ls
        elif c == 's':
            args.append(P.inp(nm, E.var(nm, bits(t))))
        elif c == 'p':
            args.append(P.val(nm, 32))
        elif c in ('*', 'c*'):
            ptrname = nm
            if FAMILY[name] == 'gather':
                P.umem(nm, c == '*')
                args.append(None)
            else:
                valid = None
                if masked:
                    valid = []
                    for k in range(n):
                        valid += [mask[k]] * sz
                init = None
                if c == '*':
                    init = None
                b = P.mem(nm, n * sz * k_aos, alig, c == '*', valid)
                args.append([ext(b, 8 * sz * k, 8 * sz)
                             for k in range(n * k_aos)])
        else:
            raise KeyError(c)
    # result
    if ro == 'v':
        rl = vlay(x, to)
    elif ro == 'l':
        rl = llay(x, to)
    elif ro.startswith('vx'):
        rl = vxlay(x, to, int(ro[2]))
    elif ro == 's':
        rl = Lay(bits(to) // 8, [(0, bits(to))])
    elif ro == 'p':
        rl = Lay(4, [(0, 32)])
    else:
        rl = None
    if rl is not None:
        P.out('r', rl.size)

    def lanes_eq(exp, typ=to):
        """postcondition: result lane k == exp[k]"""
        def post(o):
            got = lanes_of(o['r'], rl)
            return [('lane %d' % k, veq(typ, g, e))
                    for k, (g, e) in enumerate(zip(got, exp))]
        P.post = post

    def logic_eq(exp, typ=to):
        def post(o):
            got = lanes_of(o['r'], rl)
            return [('lane %d' % k, E.eq(g, lenc(x, typ, e)))
                    for k, (g, e) in enumerate(zip(got, exp))]
        P.post = post

    def mem_eq(exp_cells, typ=t, fl=None):
        """final contents of the pointed-to memory, element by element"""
        def post(o):
            m = o[ptrname]
            r = []
            for k, e in enumerate(exp_cells):
                g = ext(m, 8 * sz * k, 8 * sz)
                r.append(('element %d' % k,
                          eqf(g, e) if fl else E.eq(g, e)))
            return r
        P.post = post

    fam = FAMILY[name]
    if name in ('add', 'sub', 'mul', 'div', 'adds', 'subs', 'orb', 'andb',
                'xorb', 'andnotb'):
        rs = [lane2(name, t, a, b) for a, b in zip(*args)]
        P.pre = [r[0] for r in rs if r[0] is not E.T()]
        if fam == 'bits':
            def post(o, exp=[r[1] for r in rs]):
                return [('lane %d' % k, E.eq(g, e)) for k, (g, e) in
                        enumerate(zip(lanes_of(o['r'], rl), exp))]
            P.post = post
        else:
            lanes_eq([r[1] for r in rs])
    elif name in ('neg', 'abs', 'notb', 'ceil', 'floor', 'trunc',
                  'round_to_even', 'sqrt', 'rec'):
        exp = [lane1(name, t, a)[1] for a in args[0]]
        if name in ('notb',):
            def post(o, exp=exp):
                return [('lane %d' % k, E.eq(g, e)) for k, (g, e) in
                        enumerate(zip(lanes_of(o['r'], rl), exp))]
            P.post = post
        else:
            lanes_eq(exp)
    elif fam == 'elem':
        from . import elem
        lanes_eq([elem.lane(name, x, t, a) for a in zip(*args)])
    elif name in ('min', 'max'):
        def post(o):
            return [('lane %d' % k, minmax_post(name, t, a, b, g))
                    for k, (a, b, g) in enumerate(
                        zip(args[0], args[1], lanes_of(o['r'], rl)))]
        P.post = post
    elif name in ('fma', 'fnma', 'fms', 'fnms'):
        def post(o):
            res = []
            for k, (a, b, c, g) in enumerate(zip(args[0], args[1], args[2],
                                                 lanes_of(o['r'], rl))):
                acc = fma_lane(name, t, a, b, c, x)
                if not isf(t):
                    res.append(('lane %d' % k, E.eq(g, acc[0])))
                    continue
                if any(g is y for y in acc):
                    res.append(('lane %d' % k, E.T()))
                else:
                    res.append(('lane %d' % k,
                                or_(*[eqf(g, y) for y in acc])))
            return res
        P.post = post
    elif name == 'addv':
        def post(o):
            g = lanes_of(o['r'], rl)[0]
            return [('sum', sum_ok(t, g, args[0]))]
        P.post = post
        P.sumof = True
    elif name in ('shl', 'shr', 'shra'):
        w = bits(t)
        s = args[1]
        P.pre = [E.ult(s, const(w, 32))]
        sw = zx(s, w) if w >= 32 else ext(s, 0, w)
        if name == 'shl':
            o_ = 'shl'
        elif name == 'shr' or not issigned(t):
            o_ = 'lshr'
        else:
            o_ = 'ashr'
        lanes_eq([mkbin(o_, a, sw) for a in args[0]])
    elif fam == 'cmp':
        logic_eq([compare(name, t, a, b) for a, b in zip(*args)])
    elif name in ('orl', 'andl', 'xorl', 'andnotl'):
        f = {'orl': lambda a, b: or_(a, b), 'andl': lambda a, b: and_(a, b),
             'xorl': lambda a, b: mkbin('xor', a, b),
             'andnotl': lambda a, b: and_(a, not_(b))}[name]
        logic_eq([f(a, b) for a, b in zip(*args)])
    elif name == 'notl':
        logic_eq([not_(a) for a in args[0]])
    elif name == 'reinterpretl':
        logic_eq(args[0])
    elif name in ('all', 'any'):
        e = and_(*args[0]) if name == 'all' else or_(*args[0])

        def post(o):
            return [('truth', E.eq(E.ne(o['r'], const(0, 32)), e))]
        P.post = post
    elif name == 'nbtrue':
        acc = const(0, 32)
        for b in args[0]:
            acc = E.add(acc, zx(b, 32))

        def post(o):
            return [('count', E.eq(o['r'], acc))]
        P.post = post
    elif name == 'to_mask':
        def post(o):
            return [('lane %d' % k, E.eq(g, sx(b, g.w))) for k, (g, b) in
                    enumerate(zip(lanes_of(o['r'], rl), args[0]))]
        P.post = post
    elif name == 'to_logical':
        if t == 'f16':
            logic_eq([E.ne(h, const(0, 16)) for h in hs])
        else:
            logic_eq([E.ne(a, const(0, a.w)) for a in args[0]])
    elif name == 'if_else1':
        def post(o):
            return [('lane %d' % k, E.eq(g, ite(c, a, b)))
                    for k, (g, c, a, b) in enumerate(
                        zip(lanes_of(o['r'], rl), *args))]
        P.post = post
    elif name == 'set1l':
        logic_eq([E.ne(args[0], const(0, 32))] * n)
    elif name == 'mask_for_loop_tail':
        a, m = args
        # index and bound: nonnegative ints, index + lanes representable
        P.pre = [E.sle(const(0, 32), a), E.sle(const(0, 32), m),
                 E.sle(a, const(0x7fffffff - n, 32))]
        logic_eq([E.slt(E.add(a, const(k, 32)), m) for k in range(n)])
    elif name in ('rec11', 'rec8', 'rsqrt11', 'rsqrt8'):
        def post(o):
            return [('lane %d' % k, approx_ok(name, t, a, g))
                    for k, (a, g) in enumerate(
                        zip(args[0], lanes_of(o['r'], rl)))]
        P.post = post
        for a in args[0]:
            P.pre.append(normal_pos(a, name.startswith('rsqrt')))
    elif name == 'reinterpret':
        exp = []
        for a in args[0]:
            # f16 lanes hold binary32 values: bits are those of the binary16
            if t == 'f16' and to != 'f16':
                exp.append(f32_to_f16(a))
            elif to == 'f16' and t != 'f16':
                exp.append(f16_to_f32(a))
            else:
                exp.append(a)
        if t == 'f16' and to != 'f16':
            # only lanes that hold a binary16 NaN-free value are exact; NaN
            # encodings are compared as NaN
            lanes_eq(exp, 'f16')
        elif to == 'f16':
            lanes_eq(exp, 'f16')
        else:
            def post(o):
                return [('lane %d' % k, E.eq(g, e)) for k, (g, e) in
                        enumerate(zip(lanes_of(o['r'], rl), exp))]
            P.post = post
    elif name in ('cvt', 'upcvt', 'downcvt'):
        src = args[0] if name != 'downcvt' else args[0] + args[1]
        rs = [conv(to, t, a) for a in src]
        P.pre = [r[0] for r in rs if r[0] is not E.T()]
        lanes_eq([r[1] for r in rs])
    elif name in ('loadu', 'loada'):
        lanes_eq([dec_mem(t, m) for m in args[0]], 'f16' if t == 'f16' else
                 'u64')
    elif name in ('storeu', 'storea'):
        mem_eq([enc_mem(t, a) for a in args[1]], fl=t == 'f16')
    elif name in ('loadlu', 'loadla'):
        logic_eq([E.fcmp('une', dec_mem(t, m), const(0, lw(t))) if isf(t) else
                  E.ne(m, const(0, m.w)) for m in args[0]])
    elif name in ('storelu', 'storela'):
        one = const(1, bits(t)) if not isf(t) else fconst(1, bits(t))
        mem_eq([ite(b, one, const(0, bits(t))) for b in args[1]])
    elif name in ('masko_loadu1', 'masko_loada1'):
        lanes_eq([ite(b, dec_mem(t, m), o_) for b, m, o_ in zip(*args)],
                 'f16' if t == 'f16' else 'u64')
    elif name in ('maskz_loadu1', 'maskz_loada1'):
        lanes_eq([ite(b, dec_mem(t, m), const(0, lw(t)))
                  for b, m in zip(*args)], 'f16' if t == 'f16' else 'u64')
    elif name in ('mask_storeu1', 'mask_storea1'):
        mem_eq([ite(b, enc_mem(t, v), m) for b, m, v in zip(*args)],
               fl=t == 'f16')
    elif fam == 'aos' and name.startswith('load'):
        m = args[0]

        def post(o):
            got = lanes_of(o['r'], rl)
            return aos_post(P, t, k_aos, n, [dec_mem(t, y) for y in m], got,
                            'lane')
        P.post = post
    elif fam == 'aos':
        vs = args[1:]
        el = [enc_mem(t, y) for v in vs for y in v]

        def post(o):
            mm = o[ptrname]
            got = [ext(mm, 8 * sz * k, 8 * sz) for k in range(n * k_aos)]
            return aos_post(P, t, k_aos, n, got, el, 'element')
        P.post = post
    elif fam == 'gather':
        lin = name.endswith('linear')
        offs = []
        idx = args[1]
        for k in range(n):
            if lin:
                i64 = sx(idx, 64)
                offs.append(E.mul(E.mul(i64, const(k, 64)), const(sz, 64)))
            else:
                offs.append(E.mul(sx(idx[k], 64), const(sz, 64)))
        if lin:
            # the address computation of every lane is representable in int
            P.pre = [E.sle(const(-(0x7fffffff // n), 32), idx),
                     E.sle(idx, const(0x7fffffff // n, 32))]
            P.replay_pre = [E.sle(const(-4000, 32), idx),
                            E.sle(idx, const(4000, 32))]
        else:
            P.replay_pre = []
            for a in idx:
                if a.w > 16:
                    P.replay_pre += [E.sle(const(-30000, a.w), a),
                                     E.sle(a, const(30000, a.w))]
            if not lin and bits(t) == 64:
                # the byte offset of every lane is representable
                lim = 1 << (27 if x == 'neon128' else 59)
                P.pre += [c for a in idx for c in
                          (E.sle(const(-lim, 64), a),
                           E.sle(a, const(lim, 64)))]
        um = [p for p in P.params if p['kind'] == 'umem'][0]
        um['access'] = (offs, sz)
        if name.startswith('gather'):
            def post(o):
                rd = o['init:' + ptrname]
                return [('lane %d' % k,
                         veq('f16' if t == 'f16' else 'u64', g,
                             dec_mem(t, rd(offs[k], sz))))
                        for k, g in enumerate(lanes_of(o['r'], rl))]
            P.post = post
        else:
            v = args[2]
            # lanes address distinct elements
            if lin:
                P.pre.append(E.ne(idx, const(0, 32)))
            else:
                P.pre += [E.ne(idx[i], idx[j]) for i in range(n)
                          for j in range(i)]

            def post(o):
                # an arbitrary (symbolic) element of the memory
                fin = o['final:' + ptrname]
                r = []
                for k in range(n):
                    g = fin(offs[k], sz)
                    r.append(('element of lane %d' % k,
                              veq('f16' if t == 'f16' else 'u64', g,
                                  enc_mem(t, v[k]))))
                return r
            P.post = post
    elif name in ('ziplo', 'ziphi', 'zip'):
        a, b = args
        il = [z for p in zip(a, b) for z in p]
        exp = il[:n] if name == 'ziplo' else il[n:] if name == 'ziphi' else il
        bits_eq(P, rl, exp)
    elif name in ('unziplo', 'unziphi', 'unzip'):
        il = args[0] + args[1]
        lo, hi = il[0::2], il[1::2]
        exp = lo if name == 'unziplo' else hi if name == 'unziphi' else lo + hi
        bits_eq(P, rl, exp)
    elif name == 'iota':
        bits_eq(P, rl, [const(k, bits(t)) if not isf(t) else fconst(k, lw(t))
                        for k in range(n)])
    elif name == 'len':
        bits_eq(P, rl, [const(n, 32)])
    elif name == 'set1':
        a = args[0]
        lanes_eq([dec_mem(t, a)] * n, 'f16' if t == 'f16' else 'u64')
    else:
        raise KeyError(name)
    return P


def aos_post(P, t, k, n, mem, vec, lab):
    """structures in mem (k members each) against the k vectors in vec:
    member j of structure s is lane i of vector j, with s = sigma(i) for one
    permutation sigma shared by all the members"""
    if all(y.op == 'c' for y in mem + vec):
        def key(y):
            return ('nan' if isf(t) and E.f_isnan(y).v else y.v)
        a = sorted(str([key(mem[k * s + j]) for j in range(k)])
                   for s in range(n))
        b = sorted(str([key(vec[j * n + i]) for j in range(k)])
                   for i in range(n))
        return [('structures', const(int(a == b), 1))]
    where = {}
    for s_ in range(n):
        where.setdefault(mem[k * s_].id, s_)
    sigma = [where.get(vec[i].id) for i in range(n)]
    if None in sigma or len(set(sigma)) != n:
        sigma = list(range(n))
    P.sigma = sigma
    return [('%s %d of vector %d' % (lab, i, j),
             veq('f16' if t == 'f16' else 'u64', vec[j * n + i],
                 mem[k * sigma[i] + j]))
            for j in range(k) for i in range(n)]


def aos_roundtrip(k, t, x, al, as_):
    """store_k(q, load_k(p)) copies the k*len elements at p to q"""
    P = Prob('rt_load%d%s_store%d%s_%s' % (k, al, k, as_, t))
    P.op, P.t, P.o, P.ext = 'roundtrip%d' % k, t, None, x
    sz = bits(t) // 8
    n = nlanes(x, t) * k
    a = P.mem('p', n * sz, MAXALIGN if al == 'a' else sz, False)
    P.mem('q', n * sz, MAXALIGN if as_ == 'a' else sz, True)

    def post(o):
        return [('element %d' % i,
                 veq('f16' if t == 'f16' else 'u64',
                     ext(o['q'], 8 * sz * i, 8 * sz),
                     ext(a, 8 * sz * i, 8 * sz))) for i in range(n)]
    P.post = post
    vt = 'nsimd_%s_v%sx%d' % (x, t, k)
    P.c = 'void %s(const %s *p, %s *q) { %s v = nsimd_load%d%s_%s_%s(p); ' \
        'nsimd_store%d%s_%s_%s(q, %s); }' % (
            P.fn, t, t, vt, k, al, x, t, k, as_, x, t,
            ', '.join('v.v%d' % i for i in range(k)))
    return P


def bits_eq(P, rl, exp):
    def post(o):
        return [('lane %d' % k, E.eq(g, e)) for k, (g, e) in
                enumerate(zip(lanes_of(o['r'], rl), exp))]
    P.post = post


def normal_pos(a, pos):
    e, p = E.FMT[a.w]
    bias = (1 << (e - 1)) - 1
    ex_ = ext(a, p - 1, e)
    c = and_(E.ule(const(bias - 100 if a.w == 32 else bias - 1000, e), ex_),
             E.ule(ex_, const(bias + 100 if a.w == 32 else bias + 1000, e)))
    if pos:
        c = and_(c, not_(ext(a, a.w - 1, 1)))
    return c


def rel_err(g, a, rs):
    """bound on the relative error of g against 1/a or 1/sqrt(a): documented
    for the hardware approximations, half an ulp for correctly rounded ones"""
    u = Fraction(1, 1 << 24)
    if g.op == 'uf':
        # Arm: below 0.84 * 2^-8, by enumeration of the estimate tables;
        # POWER: one part in 2^12 (AltiVec), 2^14 (VSX)
        m = re.match(r'(?:arm|ppc)\.(rec|rsqrt)\d+$', str(g.v))
        if m and (m.group(1) == 'rsqrt') == rs:
            x = g.args[0]
            if x is a:
                return Fraction(1, 1 << (12 if 'ppc' in g.v else 8))
        m = re.match(r'x86\.(rcp|rsqrt)(14|28)?(ps|pd)$', str(g.v))
        if m and (m.group(1) == 'rsqrt') == rs:
            b = {'14': Fraction(1, 1 << 14), '28': Fraction(1, 1 << 28),
                 None: Fraction(3, 1 << 13)}[m.group(2)]
            x = g.args[0]
            if x is a:
                return b
            if x.op == 'fop' and x.v[0] == 'fptrunc' and x.args[0] is a:
                return b + 2 * u
        return None
    if g.op != 'fop':
        return None
    k = g.v[0]
    if k == 'fpext':
        return rel_err(g.args[0], a, rs)
    if k == 'fptrunc':
        e = rel_err(g.args[0], a, rs)
        return None if e is None or g.w < 32 else e + 2 * u

    def one(n):
        return n is fconst(1, n.w)

    def base(n):
        return n is a or (n.op == 'fop' and n.v[0] in ('fpext',) and
                          n.args[0] is a)
    if k == 'fdiv' and one(g.args[0]):
        d = g.args[1]
        if not rs and base(d):
            return 2 * u
        if rs and d.op == 'fop' and d.v[0] == 'fsqrt' and base(d.args[0]):
            return 4 * u
    if rs and k == 'fsqrt':
        d = g.args[0]
        if d.op == 'fop' and d.v[0] == 'fdiv' and one(d.args[0]) and \
                base(d.args[1]):
            return 4 * u
    return None


def approx_ok(name, t, a, g):
    """|g * a - 1| <= 2^-k (rec) or the like.  Symbolically: g is one of the
    hardware approximations whose documented error is within the bound, or the
    exact quotient; concretely (replay): the error itself."""
    w = a.w
    e = rel_err(g, a, name.startswith('rsqrt'))
    if e is not None and e <= Fraction(1, 1 << (
            11 if name.endswith('11') else 8)):
        return E.T()
    from .solve import mkpred
    return mkpred('approx', (name, w), [g, a])


def simp_pred(v, a):
    if v[0] != 'approx':
        return None
    name, w = v[1]
    g, x = a
    if w == 16:
        if not (g.op == 'fop' and g.v[0] == 'fptrunc'):
            return None
        g, x, w = g.args[0], fop('fpext', [x], 32), 32
    e = rel_err(g, x, name.startswith('rsqrt'))
    if e is not None and e <= Fraction(1, 1 << (
            11 if name.endswith('11') else 8)):
        return E.T()
    return None


E.PRED_SIMP.append(simp_pred)


def sum_leaves(n, w, out):
    if n.op == 'fop' and n.v[0] == 'fadd' and n.w == w:
        for a in n.args:
            sum_leaves(a, w, out)
    else:
        out.append(n)


def sum_ok(t, g, lanes):
    """g is a sum of all lanes, each exactly once, in some association"""
    w = lw(t)
    x = g
    if t == 'f16':
        if x.op == 'fop' and x.v[0] == 'fptrunc':
            x = x.args[0]
    lv = []
    sum_leaves(x, w, lv)
    lv = [y for y in lv if not (y.op == 'c' and y.v in (0, 1 << (w - 1)))]
    if sorted(y.id for y in lv) == sorted(y.id for y in lanes):
        return E.T()
    from .solve import mkpred
    return mkpred('sum', t, [g] + list(lanes))
