"""Contracts of the SPMD module: launching a kernel over n elements gives, for
every element k < n, what the kernel read as a plain sequential C++ function
(if, while, break, continue, return, assignments) gives for element k, for
every n and all the data; nothing outside the n elements is touched.

The kernels are written once, as syntax trees: text() prints them in the
DSL of spmd.hpp, run() gives their sequential meaning."""
import random
import struct

from . import expr as E
from . import spec
from . import tet
from .expr import const, and_, or_, not_
from .driver import Unit
from .mods import feas, scalar_spec, truth, up
from .spec import bits, isf, veq
from .tet import Tet, masked, same, spec_logical, TYPES

HEAD = '#include <nsimd/modules/spmd.hpp>'
K = {'i': 'k_int', 'u': 'k_uint', 'f': 'k_float'}


# ---------------------------------------------------------------------------
# one kernel per operator

class Op(Tet):
    """a kernel and the function which launches it"""

    def __init__(self, name, kbits, unroll, code, ins, out, elem, scal=(),
                 spre=None, inplace=False, pre_text='', tmpl=None):
        ps = ['%s *dst' % out] + ['%s *%s' % (t, n) for n, t in ins] + \
            ['%s %s' % (t, n) for n, t, w in scal]
        self.kernel = pre_text + \
            'spmd_kernel_1d(kern_%s, %s)\n%s\nspmd_kernel_end\n' % (
                name, ', '.join(ps), code)
        args = ['dst'] + ['(%s *)%s' % (t, n) for n, t in ins] + \
            ['*' + n for n, t, w in scal]
        body = 'spmd_launch_kernel_1d(kern_%s, %d, %d, n, %s);' % (
            name, kbits, unroll, ', '.join(args))
        if tmpl:
            self.kernel = self.kernel.replace(
                'spmd_kernel_1d(kern_%s,' % name,
                'spmd_tmpl_kernel_1d(kern_%s, A_,' % name)
            body = body.replace('spmd_launch_kernel_1d(kern_%s,' % name,
                                'spmd_launch_tmpl_kernel_1d(kern_%s, %s,' % (
                                    name, tmpl))
        Tet.__init__(self, name, body, ins, out, elem, scal, spre=spre,
                     inplace=inplace)

    def prob(self, fn=None):
        P = Tet.prob(self, fn)
        P.data_loops = True
        return P


def op_fns(unroll=1, pfx=''):
    from .props import OPS
    fs = []
    for sig, types, cxx, has, out in OPS:
        if not has:
            continue
        name, args = sig[1], sig[2:]
        for t, o in types:
            nm = '%s%s_%s%s' % (pfx, name, o + '_' if o else '', t)
            S = scalar_spec(name, t, o)
            if 'f16' in (t, o) and name in ('orb', 'andb', 'andnotb', 'xorb',
                                            'notb'):
                continue          # bits of the emulated representation
            if name == 'reinterpret' and 'f16' in (t, o):
                def S(a):
                    return [], lambda r: [('bits', veq('f16', r, a))]

            def mk(code, ins, elem, scal=(), sp=None, outt=None):
                fs.append(Op(nm, bits(t), unroll, code, ins, outt or t, elem,
                             scal, sp))
            ld = lambda x: 'k_load(%s)' % x
            if name in ('orl', 'andl', 'andnotl', 'xorl', 'notl'):
                k = 1 if name == 'notl' else 2
                es = ['k_lt(k_load(a), k_load(b))',
                      'k_ne(k_load(b), k_load(c))'][:k]

                def elem(d, s, old, name=name, t=t, k=k):
                    x = [spec.compare('lt', t, up(t, d['a']), up(t, d['b'])),
                         spec.compare('ne', t, up(t, d['b']), up(t, d['c']))]
                    c = {'orl': lambda p, q: or_(p, q),
                         'andl': lambda p, q: and_(p, q),
                         'andnotl': lambda p, q: and_(p, not_(q)),
                         'xorl': lambda p, q: E.bxor(p, q),
                         'notl': lambda p: not_(p)}[name](*x[:k])
                    return masked(c, same(t)(d['c']), old, t)
                mk('k_if (k_%s(%s)) k_store(dst, k_load(c)); k_endif' % (
                    name, ', '.join(es)), [('a', t), ('b', t), ('c', t)],
                    elem)
                continue
            if name == 'to_mask':
                def elem(d, s, old, t=t):
                    c = spec.compare('lt', t, up(t, d['a']), up(t, d['b']))
                    return [], lambda r: [('mask', veq(t, r, E.sx(
                        c, bits(t))))]
                mk('k_store(dst, k_to_mask(%s, k_lt(k_load(a), '
                   'k_load(b))));' % K[t[0]], [('a', t), ('b', t)], elem)
                continue
            ins, ar, scal = [], [], []
            for i, c in enumerate(args):
                if c == 'p':
                    scal.append(('s', 'int', 32))
                    ar.append('s')
                else:
                    ins.append(('abc'[len(ins)], t))
                    ar.append(ld(ins[-1][0]))
            if o:
                ar.insert(0, K[o[0]])
            call = 'k_%s(%s)' % (name, ', '.join(ar))
            if sig[0] == 'l':
                ins.append(('d', t))

                def elem(d, s, old, name=name, t=t, k=len(ins) - 1):
                    x = [d['abc'[i]] for i in range(k)]
                    if name == 'to_logical':
                        c = truth(x[0]) if not isf(t) else \
                            spec_logical(t, x[0])
                    else:
                        c = spec.compare(name, t, up(t, x[0]), up(t, x[1]))
                    return masked(c, same(t)(d['d']), old, t)
                mk('k_if (%s) k_store(dst, k_load(d)); k_endif' % call, ins,
                   elem)
                continue

            def elem(d, s, old, S=S, k=len(ins), sh=bool(scal)):
                x = [d['abc'[i]] for i in range(k)] + \
                    ([s['s']] if sh else [])
                return S(*x)
            sp = None
            if scal:
                def sp(s, t=t):
                    return [E.ult(s['s'], const(bits(t), 32))]
            mk('k_store(dst, %s);' % call, ins, elem, scal, sp, o)
    return fs


# ---------------------------------------------------------------------------
# control flow
#
# expressions: name, int, (op, e, e); conditions: (cmp, e, e), 'and', 'or',
# 'not', ('var', boolean variable)
# statements: ('set', v, e) ('bset', b, cond) ('store', e) ('if', [(cond,
# block) ...], else block or None) ('while', cond, block, bound) ('break',)
# ('continue',) ('return',) ('call', v, function, [e ...])

CXX = {'add': '+', 'sub': '-', 'mul': '*', 'and': '&', 'or': '|', 'xor': '^',
       'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>=', 'eq': '==', 'ne': '!='}
ARR = 'abc'


def etext(e, T):
    if isinstance(e, int):
        return '(%s)%d' % (T, e)
    if isinstance(e, str):
        return 'k_load(%s)' % e if e in ARR else e
    return '(%s %s %s)' % (etext(e[1], T), CXX[e[0]], etext(e[2], T))


def ctext(c, T):
    if c[0] == 'var':
        return c[1]
    if c[0] == 'const':
        return 'true' if c[1] else 'false'
    if c[0] == 'not':
        return '(!%s)' % ctext(c[1], T)
    if c[0] in ('andl', 'orl'):
        return '(%s %s %s)' % (ctext(c[1], T), '&&' if c[0] == 'andl'
                               else '||', ctext(c[2], T))
    if T == 'f16':
        return 'k_%s(%s, %s)' % (c[0], etext(c[1], T), etext(c[2], T))
    return etext(c, T)


def text(b, T):
    r = []
    for s in b:
        if s[0] == 'set':
            r.append('k_set(%s, %s);' % (s[1], etext(s[2], T)))
        elif s[0] == 'bset':
            r.append('k_set(%s, %s);' % (s[1], ctext(s[2], T)))
        elif s[0] == 'store':
            r.append('k_store(dst, %s);' % etext(s[1], T))
        elif s[0] == 'call':
            r.append('k_set(%s, spmd_call_dev_func(%s, %s));' % (
                s[1], s[2], ', '.join(etext(e, T) for e in s[3])))
        elif s[0] == 'if':
            for i, (c, bl) in enumerate(s[1]):
                r.append('%s (%s)' % ('k_elseif' if i else 'k_if',
                                      ctext(c, T)))
                r.append(text(bl, T))
            if s[2] is not None:
                r.append('k_else')
                r.append(text(s[2], T))
            r.append('k_endif')
        elif s[0] == 'while':
            r.append('k_while (%s)' % ctext(s[1], T))
            r.append(text(s[2], T))
            r.append('k_endwhile')
        else:
            r.append('k_%s;' % s[0])
    return '\n'.join(r)


class Seq(object):
    """sequential meaning for one element"""

    def __init__(self, t, env, funcs):
        self.t, self.env, self.funcs = t, dict(env), funcs
        self.ret = self.brk = self.cont = const(0, 1)
        self.bound = const(1, 1)

    def ev(self, e):
        if isinstance(e, int):
            if isf(self.t):
                return const(struct.unpack('<Q' if self.t == 'f64' else '<I',
                                           struct.pack('<d' if self.t == 'f64'
                                                       else '<f', e))[0],
                             bits(self.t))
            return const(e, bits(self.t))
        if isinstance(e, str):
            return self.env[e]
        return E.mkbin(e[0], self.ev(e[1]), self.ev(e[2]))

    def cond(self, c):
        if c[0] == 'var':
            return self.env[c[1]]
        if c[0] == 'const':
            return const(c[1], 1)
        if c[0] == 'not':
            return not_(self.cond(c[1]))
        if c[0] in ('andl', 'orl'):
            return (and_ if c[0] == 'andl' else or_)(self.cond(c[1]),
                                                     self.cond(c[2]))
        return spec.compare(c[0], self.t, up(self.t, self.ev(c[1])),
                            up(self.t, self.ev(c[2])))

    def put(self, v, x, live):
        self.env[v] = E.ite(live, x, self.env[v])

    def run(self, b, act):
        for s in b:
            live = and_(act, not_(self.ret), not_(self.brk), not_(self.cont))
            if s[0] == 'set':
                self.put(s[1], self.ev(s[2]), live)
            elif s[0] == 'bset':
                self.put(s[1], self.cond(s[2]), live)
            elif s[0] == 'store':
                self.put('dst', self.ev(s[1]), live)
            elif s[0] == 'call':
                ps, body, res, loc = self.funcs[s[2]]
                q = Seq(self.t, dict(zip(ps, [self.ev(e) for e in s[3]]),
                                     **{v: const(0, bits(self.t))
                                        for v in loc}), self.funcs)
                q.run(body, const(1, 1))
                self.put(s[1], q.ev(res), live)
            elif s[0] == 'if':
                rest = live
                for c, bl in s[1]:
                    v = self.cond(c)
                    self.run(bl, and_(rest, v))
                    rest = and_(rest, not_(v))
                if s[2] is not None:
                    self.run(s[2], rest)
            elif s[0] == 'while':
                ob, oc = self.brk, self.cont
                self.brk = self.cont = const(0, 1)
                a = live
                for _ in range(s[3] + 1):
                    a = and_(a, self.cond(s[1]), not_(self.brk),
                             not_(self.ret))
                    if _ == s[3]:
                        self.bound = and_(self.bound, not_(a))
                        break
                    self.cont = const(0, 1)
                    self.run(s[2], a)
                self.brk, self.cont = ob, oc
            elif s[0] == 'break':
                self.brk = or_(self.brk, live)
            elif s[0] == 'continue':
                self.cont = or_(self.cont, live)
            elif s[0] == 'return':
                self.ret = or_(self.ret, live)


def kernel(name, t, body, vs='xyz', bs='', funcs=None, unroll=1):
    """a kernel over arrays a, b, c and dst of type t"""
    funcs = funcs or {}
    pre = ''
    kt = K[t[0]]
    for f, (ps, fb, res, loc) in funcs.items():
        pre += 'spmd_dev_func(%s %s_%s, %s)\n%s%s\nreturn %s;\n' \
            'spmd_dev_func_end\n' % (
                kt, f, name, ', '.join('%s %s' % (kt, p) for p in ps),
                ''.join('%s %s((%s)0);\n' % (kt, v, t) for v in loc),
                text(fb, t), etext(res, t))
    zero = '(%s)0' % t if t != 'f16' else 'k_load(a)'
    code = ''.join('%s %s(%s);\n' % (kt, v, zero) for v in vs) + \
        ''.join('k_bool %s(false);\n' % v for v in bs) + text(body, t)
    for f in funcs:
        code = code.replace('spmd_call_dev_func(%s,' % f,
                            'spmd_call_dev_func(%s_%s,' % (f, name))

    def elem(d, s, old):
        env = dict(d, dst=old)
        for v in vs:
            env[v] = const(0, bits(t)) if t != 'f16' else d['a']
        for v in bs:
            env[v] = const(0, 1)
        q = Seq(t, env, funcs)
        q.run(body, const(1, 1))
        # (the bound is a fact about the written kernel, not about nsimd)
        return [], lambda r: [('value', veq(t, r, q.env['dst'])),
                              ('bound of the loops', q.bound)]
    return Op(name, bits(t), unroll, code, [(x, t) for x in ARR], t, elem,
              pre_text=pre, inplace=True)


S, B, ST = (lambda v, e: ('set', v, e)), (lambda v, c: ('bset', v, c)), \
    (lambda e: ('store', e))
IF = lambda c, th, el=None: ('if', [(c, th)], el)
W = lambda c, b, n: ('while', c, b, n)
BRK, CNT, RET = ('break',), ('continue',), ('return',)


def control(t, unroll=1, pfx=''):
    """hand-written kernels"""
    L = [S('x', 'a'), S('y', 'b')]
    ks = {
        'ifelse': L + [IF(('lt', 'x', 'y'), [S('z', 'x')], [S('z', 'c')]),
                       ST('z')],
        'ifstore': L + [IF(('lt', 'x', 'y'), [ST('x')])],
        'elseif': L + [('if', [(('gt', 'x', 'y'), [S('z', 1)]),
                               (('gt', 'x', 'c'), [S('z', 2)]),
                               (('eq', 'y', 'c'), [S('z', 3)])],
                        [S('z', 4)]), ST('z')],
        # the condition of elseif reads what the first branch has written
        'elsewrite': L + [('if', [(('gt', 'x', 'y'), [S('x', 0)]),
                                  (('lt', 'x', 3), [S('y', 5)])], None),
                          ST(('add', 'x', 'y'))],
        'nested': L + [IF(('lt', 'x', 'y'), [
            IF(('lt', 'x', 'c'), [S('z', 'x')], [S('z', 'c')]),
            S('y', ('add', 'y', 1))],
            [IF(('eq', 'y', 'c'), [S('z', 7)])]), ST(('xor', 'z', 'y'))],
        'ret': L + [ST('y'), IF(('lt', 'x', 'y'), [ST(9), RET]), ST('c')],
        'retelse': L + [IF(('lt', 'x', 'y'), [RET], [S('z', 'c')]),
                        ST(('add', 'z', 1))],
        'retelseif': L + [('if', [(('gt', 'x', 'y'), [ST(1), RET]),
                                  (('gt', 'x', 'c'), [ST(2)])],
                           [ST(3), RET]), ST(('add', 'x', 'y'))],
        'retdeep': L + [IF(('lt', 'x', 'y'), [
            IF(('lt', 'y', 'c'), [ST(5), RET]), ST(6)]), ST(('add', 'x',
                                                           'c'))],
        'while': L + [S('x', ('and', 'x', 3)),
                      W(('gt', 'x', 0), [S('z', ('add', 'z', 'y')),
                                         S('x', ('sub', 'x', 1))], 3),
                      ST('z')],
        'whileif': L + [S('x', ('and', 'x', 3)), IF(('lt', 'y', 'c'), [
            W(('gt', 'x', 0), [S('z', ('add', 'z', 'y')),
                               S('x', ('sub', 'x', 1))], 3)]),
            ST(('add', 'z', 'x'))],
        'whileret': L + [S('x', ('and', 'x', 3)), W(('gt', 'x', 0), [
            IF(('eq', 'z', 'y'), [ST(8), RET]),
            S('z', ('add', 'z', 1)), S('x', ('sub', 'x', 1))], 3), ST('z')],
        'break': L + [S('x', ('and', 'x', 3)), W(('gt', 'x', 0), [
            IF(('eq', 'x', 'y'), [BRK]), S('z', ('add', 'z', 'c')),
            S('x', ('sub', 'x', 1))], 3), ST(('add', 'z', 'x'))],
        'continue': L + [S('x', ('and', 'x', 3)), W(('gt', 'x', 0), [
            S('x', ('sub', 'x', 1)), IF(('eq', 'x', 'y'), [CNT]),
            S('z', ('add', 'z', 'c'))], 3), ST('z')],
        'contif': L + [S('x', ('and', 'x', 3)), W(('gt', 'x', 0), [
            S('x', ('sub', 'x', 1)),
            IF(('eq', 'x', 'y'), [CNT]),
            IF(('lt', 'x', 'c'), [S('z', ('add', 'z', 1))],
               [S('z', ('add', 'z', 16))]),
            S('z', ('add', 'z', 'c'))], 3), ST('z')],
        'nest2': L + [S('x', ('and', 'x', 1)), W(('gt', 'x', 0), [
            S('y', ('and', 'b', 1)), W(('gt', 'y', 0), [
                IF(('lt', 'c', 'z'), [BRK]), S('z', ('add', 'z', 'c')),
                S('y', ('sub', 'y', 1))], 1),
            S('x', ('sub', 'x', 1))], 1), ST(('add', 'z', 'y'))],
        'retelsewhile': L + [S('x', ('and', 'x', 1)), ('if', [(
            ('lt', 'y', 'c'), [W(('gt', 'x', 0), [
                IF(('eq', 'y', 1), [RET]), S('x', ('sub', 'x', 1))], 1)])],
            [S('z', 3)]), ST(('add', 'z', 'x'))],
    }
    r = [kernel('%s%s_%s' % (pfx, n, t), t, b, unroll=unroll)
         for n, b in ks.items()]
    r.append(kernel(pfx + 'bool_' + t, t, L + [
        B('p', ('lt', 'x', 'y')), B('q', ('eq', 'x', 'c')),
        IF(('orl', ('var', 'p'), ('var', 'q')), [S('z', 1)]),
        IF(('andl', ('not', ('var', 'p')), ('ne', 'y', 'c')),
           [S('z', ('add', 'z', 2))]), ST('z')], bs='pq', unroll=unroll))
    r.append(kernel(pfx + 'boolif_' + t, t, L + [
        B('p', ('lt', 'x', 'y')),
        IF(('lt', 'x', 'c'), [B('p', ('eq', 'y', 'c'))]),
        IF(('lt', 'x', 5), [B('p', ('const', 1))]),
        IF(('eq', 'y', 'x'), [B('p', ('const', 0))]),
        IF(('var', 'p'), [S('z', 1)], [S('z', 2)]), ST('z')], bs='p',
        unroll=unroll))
    r.append(kernel(pfx + 'dev_' + t, t, L + [
        IF(('lt', 'x', 'c'), [('call', 'z', 'f', ['x', 'y'])]),
        ST(('add', 'z', 'x'))], funcs={'f': (
            ['u', 'v'], [IF(('lt', 'u', 'v'), [S('w', 'u'), RET]),
                         S('w', ('sub', 'u', 'v'))], 'w', 'w')},
        unroll=unroll))
    return r


def fcontrol(t):
    """kernels whose conditions and values are floating point"""
    L = [S('x', 'a'), S('y', 'b')]
    lit = (lambda k: k) if t != 'f16' else (lambda k: 'c')
    ks = {
        'fifelse': L + [IF(('lt', 'x', 'y'), [S('z', 'x')], [S('z', 'c')]),
                        ST('z')],
        'fifstore': L + [IF(('le', 'x', 'y'), [ST('x')])],
        'felseif': L + [('if', [(('gt', 'x', 'y'), [S('z', lit(1))]),
                                (('gt', 'x', 'c'), [S('z', 'x')]),
                                (('eq', 'y', 'c'), [S('z', 'y')])],
                         [S('z', lit(4))]), ST('z')],
        'fret': L + [ST('y'), IF(('lt', 'x', 'y'), [ST(lit(9)), RET]),
                     ST('c')],
        'fwhile': L + [W(('lt', 'x', 'y'), [S('z', 'x'), S('x', 'y')], 1),
                       ST('z')],
        'fbreak': L + [W(('ne', 'x', 'y'), [
            IF(('lt', 'x', 'c'), [S('z', 'x'), BRK]), S('x', 'y')], 1),
            ST('z')],
    }
    if t != 'f16':
        ks['fbreak'] = L + [IF(('eq', 'y', 'y'), ks['fbreak'][2:])]
    else:
        del ks['fbreak'], ks['fwhile']
    r = [kernel('%s_%s' % (n, t), t, b) for n, b in ks.items()]
    r.append(kernel('fboolif_' + t, t, L + [
        B('p', ('lt', 'x', 'y')),
        IF(('lt', 'x', 'c'), [B('p', ('eq', 'y', 'c'))]),
        IF(('var', 'p'), [S('z', 'x')], [S('z', 'y')]), ST('z')], bs='p'))
    return r


def generic(t):
    """templated kernels and device functions; unmasked loads, stores and
    assignments where every element is active"""
    k = K[t[0]]
    nm = 'tmpl_' + t
    pre = """struct op_%s { static bool low() { return true; } };
spmd_tmpl_dev_func(%s tr_%s, Q_, %s u, %s v)
if (Q_::low()) { return k_min(u, v); } else { return k_max(u, v); }
spmd_dev_func_end
""" % (nm, k, nm, k, k)

    def elem(d, s, old):
        S_ = scalar_spec('min', t, None)
        return S_(d['a'], d['b'])
    r = [Op(nm, bits(t), 1, 'k_store(dst, spmd_call_tmpl_dev_func(tr_%s, A_, '
            'k_load(a), k_load(b)));' % nm, [('a', t), ('b', t)], t, elem,
            pre_text=pre, tmpl='op_' + nm)]

    def move(d, s, old):
        return same(t)(d['b'])

    def cond(d, s, old):
        c = spec.compare('lt', t, up(t, d['a']), up(t, d['b']))
        x, y = d['a'], d['b']
        return [], lambda r: [('value', veq(t, r, E.ite(c, x, y)))]
    r.append(Op('unmasked_' + t, bits(t), 1,
                '%s x = k_unmasked_load(a); k_unmasked_set(x, k_unmasked_load'
                '(b)); k_unmasked_store(dst, x);' % k,
                [('a', t), ('b', t)], t, move))
    r.append(Op('unmaskset_' + t, bits(t), 1,
                '%s x = k_load(b); k_if (k_lt(k_load(a), k_load(b))) '
                'k_set(x, k_load(a)); k_endif k_unmasked_store(dst, x);' % k,
                [('a', t), ('b', t)], t, cond))
    return r


def unit(key, x, fs, std=None, canary=None, opts=None):
    text = HEAD + '\n' + '\n'.join(f.kernel for f in fs) + \
        '\nextern "C" {\n' + '\n'.join(f.text for f in fs) + '\n'
    cans = []
    for f in fs:
        if canary == f.name:
            text += f.canary() + '\n'
            cans = [('k_' + f.name, lambda f=f: f.prob('k_' + f.name))]
    text += '}\n'
    return Unit(key, x, text, spec.FLAGS[x], [(f.name, f.prob) for f in fs],
                std=std, canaries=cans, opts=opts,
                passes='always-inline,cgscc(inline),function(sroa,simplifycfg)')


def spmd_units(tier):
    us = []
    th = tier == 'thorough'
    fs = op_fns()
    few = ('ifelse', 'retelseif', 'continue', 'boolif', 'dev')
    for x in ('sse42', 'avx2', 'cpu'):
        for t in ('i8', 'u16', 'i32', 'u64'):
            full = th or t == {'sse42': 'i32', 'avx2': 'u64',
                               'cpu': 'i32'}[x]
            if not full and x != 'sse42':
                continue
            us.append(unit('spmd-%s-control-%s' % (x, t), x, [
                f for f in control(t)
                if full or f.name.split('_')[0] in few],
                canary='ifelse_' + t, opts={'feasible': feas}))
        if x != 'sse42' and not th:
            continue
        for t in TYPES:
            us.append(unit('spmd-%s-%s' % (x, t), x, [
                f for f in fs if f.name.endswith('_' + t) and not (
                    x == 'sse2' and f.name == 'round_to_even_f64')]))
        us.append(unit('spmd-%s-generic' % x, x,
                       [f for t in TYPES for f in generic(t)]))
        us.append(unit('spmd-%s-fcontrol' % x, x, [
            f for t in ('f16', 'f32', 'f64') for f in fcontrol(t)],
            opts={'feasible': feas}))
    us.append(unit('spmd-unroll', 'sse2', [
        f for f in control('i32', 2, 'x2_')
        if th or f.name.split('_')[1] in few],
        opts={'feasible': feas}))
    return us
