"""The properties and the translation units that decide them."""
import json
import os
from . import build
from . import mods
from . import api
from . import fixed
from . import packs
from . import spec
from .driver import Unit

HERE = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(HERE, 'ops.json')) as f:
    OPS = json.load(f)

# target, compiler flags, language standard
CONFIGS = [(x, x, spec.FLAGS[x], None) for x in spec.EXTS]
VARIANTS = [
    ('cpu-c++98', 'cpu', '-DCPU', 'c++98'),
    ('sse2-c++98', 'sse2', spec.FLAGS['sse2'], 'c++98'),
    ('avx2-nofma', 'avx2', '-DAVX2 -mavx2', None),
]
# targets this machine cannot run: proved, never replayed
CROSS = [(x, x, spec.FLAGS[x], None) for x in ('aarch64', 'neon128',
                                                 'vsx', 'vmx')]


def items_of(fams, ops=None, src=None):
    return [(s, t, o) for s, l, _, _, _ in src or OPS for t, o in l
            if spec.FAMILY[s[1]] in fams and (ops is None or s[1] in ops)]


def canary_text(s, t, o, x):
    """a deliberately wrong wrapper: flips one bit of what the function
    produced"""
    ps, cs = [], []
    for i, c in enumerate(s[2:]):
        a = build.cty(c, t, x)
        if c in ('*', 'c*', 'p'):
            ps.append('%s a%d' % (a, i))
        else:
            ps.append('const %s *a%d' % (a, i))
        cs.append('a%d' % i)
    w = 'w_%s_%s%s' % (s[1], o + '_' if o else '', t)
    if s[0] != '_':
        ps.append('%s *r' % build.cty(s[0], o or t, x))
        cs.append('r')
        tgt = 'r'
    else:
        tgt = 'a0'
    return 'void k_%s(%s) { %s(%s); ((unsigned char *)%s)[0] ^= 1; }' % (
        w[2:], ', '.join(ps), w, ', '.join(cs), tgt)


def op_units(fams, configs, chunk=400, ops=None, src=None):
    us = []
    for name, x, flags, std in configs:
        its = items_of(fams, ops, src)
        can = next(((s, t, o) for s, t, o in its
                    if s[0] in ('v', 'l', 'vx2', 'vx3', 'vx4') and
                    t in ('i32', 'f32')), None) or its[0]
        for k in range(0, len(its), chunk):
            part = its[k:k + chunk]
            text = build.wrappers(x, part + ([can] if can not in part and
                                             k == 0 else []))
            cans = []
            if k == 0:
                text = text.rstrip()[:-1] + canary_text(*can, x) + '\n}\n'
                s, t, o = can
                kn = 'k_%s_%s%s' % (s[1], o + '_' if o else '', t)
                cans = [(kn, lambda s=s, t=t, o=o, x=x, kn=kn:
                         spec.contract(s, t, o, x, fn=kn))]
            probs = [('%s_%s%s' % (s[1], o + '_' if o else '', t),
                      lambda s=s, t=t, o=o, x=x: spec.contract(s, t, o, x))
                     for s, t, o in part]
            us.append(Unit('%s-%s-%d' % (name, fams[0], k), x, text, flags,
                           probs, std=std, canaries=cans))
    return us


def aos_units(configs):
    us = op_units(['aos'], configs, 40)
    for name, x, flags, std in configs:
        probs, txt = [], []
        for k in (2, 3, 4):
            for t in spec.TYPES:
                for al in 'ua':
                    for as_ in 'ua':
                        if al != as_ and k != 3:
                            continue
                        f = (lambda k=k, t=t, x=x, al=al, as_=as_:
                             spec.aos_roundtrip(k, t, x, al, as_))
                        P = f()
                        txt.append(P.c)
                        probs.append((P.fn, f))
        us.append(Unit('%s-aosrt' % name, x,
                       '#include <nsimd/nsimd.h>\nextern "C" {\n' +
                       '\n'.join(txt) + '\n}\n', flags, probs, std=std))
    return us


def fam(*fams, **kw):
    def f(tier):
        conf = CONFIGS + VARIANTS + CROSS
        return op_units(list(fams), conf, kw.get('chunk', 400))
    return f


def _mod(name):
    # (these modules use OPS of this one)
    import importlib
    return importlib.import_module('nv.' + name)


PROPS = {
    'P01': dict(units=fam('arith')),
    'P02': dict(units=fam('satur')),
    'P03': dict(units=fam('bits')),
    'P04': dict(units=fam('cmp')),
    'P05': dict(units=fam('logic', chunk=60)),
    'P06': dict(units=fam('round', 'approx', chunk=20)),
    'P07': dict(units=fam('conv', chunk=60)),
    'P08': dict(units=fam('mem', chunk=44)),
    'P09': dict(units=fam('mask', chunk=33)),
    'P10': dict(units=lambda tier: aos_units(CONFIGS + VARIANTS[2:] + CROSS)),
    'P11': dict(units=fam('gather', chunk=12)),
    'P12': dict(units=fam('shuf', chunk=50)),
    'P13': dict(units=mods.fp16_units),
    'P14': dict(units=mods.scalar_units),
    'P15': dict(units=mods.class_units),
    'P16': dict(units=packs.pack_units),
    'P17': dict(units=api.api_units),
    'P18': dict(units=fixed.fixed_units),
    'P19': dict(units=lambda tier: _mod('tet').tet_units(tier)),
    'P20': dict(units=lambda tier: _mod('rng').rng_units(tier)),
    'P21': dict(units=lambda tier: _mod('spmd').spmd_units(tier)),
    'P23': dict(units=lambda tier: _mod('elem').elem_units(tier)),
    'P22': dict(units=lambda tier: _mod('alloc').alloc_units(tier)),
}
