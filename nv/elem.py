"""P23: the elementary functions apply Sleef's routine of that name, accuracy
and element type to every lane, whatever the spelling.

Sleef itself is taken by contract (an assumption): its routine for a target
and a type works lane by lane, the value of a lane depending on the arguments
of that lane only.  The value is an uninterpreted function of name, target
and type, so the proof is for whatever Sleef computes.  In native replays the
routine is a function of the same shape (`stubs`), computed in the same way by
solve.hashuf."""
import re
from . import api
from . import expr as E
from . import mods
from . import packs
from . import props
from . import spec
from .expr import ext, cat
from .spec import bits, nlanes

ONE = '''sin_u35 cos_u35 tan_u35 asin_u35 acos_u35 atan_u35 log_u35 cbrt_u35
sin_u10 cos_u10 tan_u10 asin_u10 acos_u10 atan_u10 log_u10 cbrt_u10 exp_u10
sinh_u10 cosh_u10 tanh_u10 sinh_u35 cosh_u35 tanh_u35 asinh_u10 acosh_u10
atanh_u10 exp2_u10 exp2_u35 exp10_u10 exp10_u35 expm1_u10 log10_u10 log2_u10
log2_u35 log1p_u10 sinpi_u05 cospi_u05 lgamma_u10 tgamma_u10 erf_u10
erfc_u15'''.split()
TWO = '''atan2_u35 atan2_u10 pow_u10 hypot_u05 hypot_u35 remainder
fmod'''.split()
NAMES = ONE + TWO
TY = ('f64', 'f32', 'f16')
OPS = [(['v', n] + ['v'] * (2 if n in TWO else 1), [[t, None] for t in TY],
        None, True, 0) for n in NAMES]
for n_ in NAMES:
    spec.FAMILY[n_] = 'elem'

SYM = re.compile(r'@?nsimd_sleef_(\w+)_(%s|scalar)_f(32|64)$' %
                 '|'.join(sorted(list(spec.EXTS) + list(spec.CROSS), key=len, reverse=True)))


def value(name, tgt, args):
    """the lane Sleef computes from the lanes args (of 32 or 64 bits)"""
    return E.uf('sleef:%s:%s:%d' % (name, tgt, args[0].w), args, args[0].w)


def sleef_hook(ex, name, rt, types, vals, attrs, st):
    m = SYM.match(name)
    if m:
        w = int(m.group(3))
        # (emulated f64 vectors are passed as a struct or array of lanes)
        bs = [cat(list(v)) if t[0] in 'sa' else ex.bits_of(t, v)
              for t, v in zip(types, vals)]
        n = bs[0].w // w
        r = [value(m.group(1), m.group(2), [ext(b, k * w, w) for b in bs])
             for k in range(n)]
        if rt[0] in 'sa':
            return r
        return ex.from_bits(rt, cat(r))
    from . import core
    return core.f16_hook(ex, name, rt, types, vals, attrs, st)


def lane(name, x, t, args):
    tgt = 'scalar' if x == 'cpu' else x
    return value(name, tgt, args)


def scalar(name, t):
    def f(*a):
        r = mods.down(t, value(name, 'scalar', [mods.up(t, y) for y in a]))
        return [], mods.one_of(t, [r])
    return f


def fnv(s):
    h = 1469598103934665603
    for c in s:
        h = ((h ^ ord(c)) * 1099511628211) & ((1 << 64) - 1)
    return h


STUB = '''
static void nv_lanes(unsigned long seed, int n, int w, const void *a,
                     const void *b, void *r) {
  int k, i, j;
  for (k = 0; k < n; k++) {
    unsigned long h = seed, x;
    unsigned long e = w == 4 ? 0x7f800000ul : 0x7ff0000000000000ul;
    for (j = 0; j < (b ? 2 : 1); j++) {
      x = 0;
      __builtin_memcpy(&x, (const char *)(j ? b : a) + k * w, w);
      if ((x & e) == e && (x & (w == 4 ? 0x7ffffful : 0xffffffffffffful)))
        x = e | (w == 4 ? 0x400000ul : 0x8000000000000ul);
      for (i = 0; i < 8; i++) { h = (h ^ (x & 0xff)) * 1099511628211ul;
                                x >>= 8; }
    }
    h ^= h >> 29;
    h &= ~(w == 4 ? 1ul << 30 : 1ul << 62);
    __builtin_memcpy((char *)r + k * w, &h, w);
  }
}
'''


def stubs(x):
    tgt = 'scalar' if x == 'cpu' else x
    out = [STUB]
    for tg in {tgt, 'scalar'}:
        for n in NAMES:
            for w in (32, 64):
                T = 'f%d' % w if tg == 'scalar' else 'nsimd_%s_vf%d' % (tg, w)
                two = n in TWO
                out.append('__attribute__((noinline)) %s nsimd_sleef_%s_%s_f%d'
                           '(%s a%s) { %s r; nv_lanes(%dul, sizeof(r) / %d, '
                           '%d, &a, %s, &r); return r; }' % (
                               T, n, tg, w, T, ', %s b' % T if two else '', T,
                               fnv('sleef:%s:%s:%d' % (n, tg, w)), w // 8,
                               w // 8, '&b' if two else '0'))
    return '\n'.join(out) + '\n'


def finish(u, x, c=False):
    u.hook = sleef_hook
    s = stubs(x)
    if not c:
        s = 'extern "C" {\n%s}\n' % s
    k = [m.end() for m in re.finditer(r'^#include.*\n', u.text, re.M)][-1]
    u.text = u.text[:k] + s + u.text[k:]
    return u


def direct(name, x, flags, std):
    u0 = props.op_units(['elem'], [(name, x, flags, std)], 1000, src=OPS)
    return [finish(u, x) for u in u0]


def spelled(x, forms, std):
    fs = [api.op(s, t, None, x, f) for s, _, _, _, _ in OPS for t in TY
          for f in forms]
    c = std in ('c89', 'c11')
    return finish(api.unit('elem-%s-%s' % (x, forms), x, fs, std), x, c)


def packed(x, N, std=None):
    fs = [packs.lanewise(s, t, None, x, N, 'fn') for s, _, _, _, _ in OPS
          for t in TY]
    return finish(packs.unit('elem-pack-%s-%d' % (x, N), x, fs, std), x)


def scalars(x, std=None):
    fs = []
    for n in NAMES:
        al = ', '.join('{%d}' % i for i in range(2 if n in TWO else 1))
        for t in TY:
            a = [t] * (2 if n in TWO else 1)
            fs.append(mods.Fn('%s_%s' % (n, t), 'nsimd_scalar_%s_%s(%s)' % (
                n, t, al), a, t, scalar(n, t)))
            fs.append(mods.Fn('cxx_%s_%s' % (n, t), 'nsimd::scalar_%s(%s)' % (
                n, al), a, t, scalar(n, t)))
    return finish(mods.fn_unit('elem-scalar-' + x + (std or ''), x,
                               '#include <nsimd/nsimd.h>\n', fs,
                               spec.FLAGS[x], std), x)


def elem_units(tier):
    us = []
    for name, x, flags, std in props.CONFIGS + props.VARIANTS + props.CROSS:
        us += direct(name, x, flags, std)
    us += [spelled('avx2', 'xym', None), spelled('avx2', 'g', 'c11'),
           spelled('sse2', 'me', 'c89'), spelled('cpu', 'xy', 'c++98'),
           spelled('sse42', 'x', None), spelled('avx', 'x', None),
           spelled('avx512_knl', 'xm', None),
           spelled('avx512_skylake', 'xye', None),
           packed('avx2', 1), packed('avx2', 3), packed('sse2', 2, 'c++98'),
           packed('cpu', 2), packed('avx512_skylake', 2),
           scalars('cpu'), scalars('avx2'), scalars('sse2', 'c++98')]
    return us
