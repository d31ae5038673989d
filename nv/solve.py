"""Discharging obligations: syntactic normalisation, then z3 with
floating-point operations uninterpreted (sound for proofs), then z3 with the
IEEE-754 theory (exact)."""
import hashlib
import json
import os
import random
import subprocess
import time
import z3
from . import expr as E
from . import softfp

RNE = z3.RNE()
SORT = {16: z3.FPSort(5, 11), 32: z3.FPSort(8, 24), 64: z3.FPSort(11, 53)}
MODE = {'rne': z3.RNE(), 'trunc': z3.RTZ(), 'floor': z3.RTN(),
        'ceil': z3.RTP(), 'rna': z3.RNA()}


class Conv(object):
    def __init__(self, exact):
        self.exact = exact
        self.mv = {}
        self.mb = {}
        self.vars = {}
        self.funs = {}
        self.side = []
        self.has_uf = False
        self.has_pred = False
        self.opaque = False
        self.comm = []

    def commute(self):
        """facts about uninterpreted operations: swapping the operands of a
        sum or product changes at most the payload of a NaN; widening and
        narrowing keep NaNs and only them, and narrowing undoes widening"""
        out = []
        if len(self.comm) > 40:
            return out

        def nan(x):
            e, p = E.FMT[x.size()]
            return z3.UGT(z3.Extract(x.size() - 2, 0, x),
                          ((1 << e) - 1) << (p - 1))

        def same(x, y):
            return z3.Or(x == y, z3.And(nan(x), nan(y)))
        for i, (n, a, r) in enumerate(self.comm):
            if n in ('fpext', 'fptrunc'):
                out.append(nan(a[0]) == nan(r))
            for m, b, q in self.comm[:i]:
                if n == m and n not in ('fpext', 'fptrunc') and \
                        r.size() == q.size():
                    out.append(z3.Implies(
                        z3.And(a[0] == b[1], a[1] == b[0],
                               *[x == y for x, y in zip(a[2:], b[2:])]),
                        same(r, q)))
                for (n1, a1, r1), (n2, a2, r2) in (
                        ((n, a, r), (m, b, q)), ((m, b, q), (n, a, r))):
                    if n1 == 'fptrunc' and n2 == 'fpext' and \
                            r2.size() == a1[0].size() and \
                            r1.size() == a2[0].size():
                        out.append(z3.Implies(a1[0] == r2, same(r1, a2[0])))
        return out

    def post(self, root):
        """iterative post-order to avoid deep python recursion"""
        st = [(root, 0)]
        mv = self.mv
        while st:
            n, k = st.pop()
            if n.id in mv:
                continue
            if k == 0:
                st.append((n, 1))
                for a in n.args:
                    if a.id not in mv:
                        st.append((a, 0))
            else:
                mv[n.id] = self.conv(n)
        return mv[root.id]

    def bv(self, n):
        r = self.post(n)
        if z3.is_bool(r):
            return z3.If(r, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        return r

    def bl(self, n):
        r = self.post(n)
        return r if z3.is_bool(r) else r == z3.BitVecVal(1, 1)

    def av(self, n):
        r = self.mv[n.id]
        if z3.is_bool(r):
            return z3.If(r, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        return r

    def ab(self, n):
        r = self.mv[n.id]
        return r if z3.is_bool(r) else r == z3.BitVecVal(1, 1)

    def conv(self, n):
        op = n.op
        a = n.args
        if op == 'c':
            if n.w == 1:
                return z3.BoolVal(bool(n.v))
            return z3.BitVecVal(n.v, n.w)
        if op == 'v':
            v = z3.BitVec(n.v, n.w)
            self.vars[n.v] = v
            return v
        if op == 'pred':
            self.has_uf = True
            self.has_pred = True
            return z3.Bool('pred!%d' % n.id)
        if n.w == 1:
            if op == 'not':
                return z3.Not(self.ab(a[0]))
            if op == 'and':
                return z3.And(self.ab(a[0]), self.ab(a[1]))
            if op == 'or':
                return z3.Or(self.ab(a[0]), self.ab(a[1]))
            if op == 'xor':
                return z3.Xor(self.ab(a[0]), self.ab(a[1]))
            if op == 'eq':
                return self.av(a[0]) == self.av(a[1])
            if op == 'ult':
                return z3.ULT(self.av(a[0]), self.av(a[1]))
            if op == 'slt':
                return self.av(a[0]) < self.av(a[1])
            if op == 'ite':
                return z3.If(self.ab(a[0]), self.ab(a[1]), self.ab(a[2]))
            if op in ('feq', 'flt', 'fle'):
                return self.fcmp(op, self.av(a[0]), self.av(a[1]), a[0].w)
        if op == 'ext':
            return z3.Extract(n.v + n.w - 1, n.v, self.av(a[0]))
        if op == 'cat':
            return z3.Concat(*[self.av(x) for x in reversed(a)])
        if op == 'zx':
            return z3.ZeroExt(n.w - a[0].w, self.av(a[0]))
        if op == 'sx':
            if a[0].w == 1:
                return z3.If(self.ab(a[0]), z3.BitVecVal(-1, n.w),
                             z3.BitVecVal(0, n.w))
            return z3.SignExt(n.w - a[0].w, self.av(a[0]))
        if op == 'not':
            return ~self.av(a[0])
        if op == 'ite':
            return z3.If(self.ab(a[0]), self.av(a[1]), self.av(a[2]))
        if op in ('and', 'or', 'xor', 'add', 'sub', 'mul', 'udiv', 'sdiv',
                  'urem', 'srem', 'shl', 'lshr', 'ashr'):
            x, y = self.av(a[0]), self.av(a[1])
            if op == 'and':
                return x & y
            if op == 'or':
                return x | y
            if op == 'xor':
                return x ^ y
            if op == 'add':
                return x + y
            if op == 'sub':
                return x - y
            if op == 'mul':
                return x * y
            if op == 'udiv':
                return z3.UDiv(x, y)
            if op == 'sdiv':
                return x / y
            if op == 'urem':
                return z3.URem(x, y)
            if op == 'srem':
                return z3.SRem(x, y)
            if op == 'shl':
                return x << y
            if op == 'lshr':
                return z3.LShR(x, y)
            return x >> y
        if op == 'uf':
            self.has_uf = True
            if not str(n.v).startswith(('mem', 'sleef:')):
                self.opaque = True
            return self.fun('uf:' + str(n.v), a, n.w)
        if op == 'fop':
            return self.fop(n)
        raise Exception('conv ' + op)

    def fun(self, name, a, w):
        key = (name,) + tuple(x.w for x in a) + (w,)
        f = self.funs.get(key)
        if f is None:
            f = z3.Function('_'.join(str(k) for k in key),
                            *([z3.BitVecSort(x.w) for x in a] +
                              [z3.BitVecSort(w)]))
            self.funs[key] = f
        return f(*[self.av(x) for x in a])

    def fcmp(self, op, x, y, w):
        e, p = E.FMT[w]
        mag = w - 1
        inf = z3.BitVecVal(((1 << e) - 1) << (p - 1), mag)
        mx, my = z3.Extract(w - 2, 0, x), z3.Extract(w - 2, 0, y)
        sx_ = z3.Extract(w - 1, w - 1, x) == 1
        sy = z3.Extract(w - 1, w - 1, y) == 1
        nan = z3.Or(z3.UGT(mx, inf), z3.UGT(my, inf))
        zz = z3.And(mx == 0, my == 0)
        if op == 'feq':
            return z3.And(z3.Not(nan), z3.Or(x == y, zz))
        lt = z3.If(sx_, z3.If(sy, z3.ULT(my, mx), z3.BoolVal(True)),
                   z3.If(sy, z3.BoolVal(False), z3.ULT(mx, my)))
        if op == 'flt':
            return z3.And(z3.Not(nan), z3.Not(zz), lt)
        return z3.And(z3.Not(nan), z3.Or(zz, x == y, lt))

    def fop(self, n):
        name, extra = n.v
        a = n.args
        if not self.exact:
            self.has_uf = True
            r = self.fun('%s:%s' % (name, extra), a, n.w)
            if name in ('fadd', 'fmul', 'ffma', 'fpext', 'fptrunc'):
                self.comm.append((name, [self.av(x) for x in a], r))
            return r
        if name in ('sitofp', 'uitofp'):
            x = self.av(a[0])
            f = z3.fpSignedToFP(RNE, x, SORT[n.w]) if name == 'sitofp' else \
                z3.fpUnsignedToFP(RNE, x, SORT[n.w])
            return self.tobv(f, n)
        fs = [z3.fpBVToFP(self.av(x), SORT[x.w]) for x in a]
        if name in ('fptosi', 'fptoui'):
            m = MODE[extra or 'trunc']
            return z3.fpToSBV(m, fs[0], z3.BitVecSort(n.w)) \
                if name == 'fptosi' else \
                z3.fpToUBV(m, fs[0], z3.BitVecSort(n.w))
        if name == 'fadd':
            f = z3.fpAdd(RNE, *fs)
        elif name == 'fsub':
            f = z3.fpSub(RNE, *fs)
        elif name == 'fmul':
            f = z3.fpMul(RNE, *fs)
        elif name == 'fdiv':
            f = z3.fpDiv(RNE, *fs)
        elif name == 'ffma':
            f = z3.fpFMA(RNE, *fs)
        elif name == 'fsqrt':
            f = z3.fpSqrt(RNE, *fs)
        elif name == 'frint':
            f = z3.fpRoundToIntegral(MODE[extra], fs[0])
        elif name in ('fpext', 'fptrunc'):
            f = z3.fpFPToFP(RNE, fs[0], SORT[n.w])
        else:
            raise Exception('fop ' + name)
        return self.tobv(f, n)

    def tobv(self, f, n):
        r = z3.BitVec('fp!%d' % n.id, n.w)
        # NaN results: payload left unconstrained (any NaN)
        self.side.append(z3.fpBVToFP(r, SORT[n.w]) == f)
        return r


def mkpred(name, par, args):
    """a predicate decided only by concrete evaluation (never assumed true)"""
    return E.mk('pred', 1, tuple(args), (name, par))


def ev_pred(v, a, ws):
    name, par = v
    if name == 'sum':
        t = par
        w = ws[1]
        fr = []
        for y in a[1:]:
            q = softfp.value(y, w)
            if q is None or q.denominator != 1 or abs(q) > 32:
                return 1
            fr.append(q)
        tot = sum(fr)
        g = softfp.value(a[0], ws[0])
        if t == 'f16' and abs(tot) > 2048:
            return 1
        return int(g is not None and g == tot)
    if name == 'approx':
        nm, w = par
        g, x = softfp.value(a[0], w), softfp.value(a[1], w)
        if g is None or x is None or x == 0:
            return int(g is None or x is None)
        k = 11 if nm.endswith('11') else 8
        eps = softfp.Fraction(1, 1 << k)
        if w == 16:
            eps += softfp.Fraction(1, 1 << 11)   # rounding of the result
        if nm.startswith('rec'):
            return int(abs(g * x - 1) <= eps)
        # rsqrt: |g*sqrt(x) - 1| <= eps  <=>  (1-eps)^2 <= g^2 x <= (1+eps)^2
        q = g * g * x
        return int(g > 0 and (1 - eps) ** 2 <= q <= (1 + eps) ** 2)
    raise Exception(name)


# ------------------------------------------------------------ concrete eval

def evaluate(nodes, asg, ufs=None):
    """exact evaluation of nodes under asg (name -> int)"""
    memo = {}
    for root in nodes:
        st = [(root, 0)]
        while st:
            n, k = st.pop()
            if n.id in memo:
                continue
            if k == 0:
                st.append((n, 1))
                for a in n.args:
                    if a.id not in memo:
                        st.append((a, 0))
            else:
                memo[n.id] = ev1(n, [memo[a.id] for a in n.args], asg, ufs)
    return [memo[r.id] for r in nodes]


def hashuf(name, a, w):
    name = str(name)
    slf = name.startswith('sleef:')
    if slf:
        # as the stubs of elem.py: any NaN is the same, finite results
        e, q = (0x7f800000, 0x400000) if w == 32 else (0x7ff << 52, 1 << 51)
        a = [e | q if x & e == e and x & (2 * q - 1) else x for x in a]
    h = 1469598103934665603
    for c in name:
        h = ((h ^ ord(c)) * 1099511628211) & ((1 << 64) - 1)
    for x in a:
        for _ in range(8):
            h = ((h ^ (x & 0xff)) * 1099511628211) & ((1 << 64) - 1)
            x >>= 8
    h ^= h >> 29
    if slf:
        h &= ~(1 << (w - 2))
    return h & ((1 << w) - 1)


def ev1(n, a, asg, ufs):
    op = n.op
    w = n.w
    if op == 'c':
        return n.v
    if op == 'v':
        return asg.get(n.v, 0) & ((1 << w) - 1)
    if op == 'ext':
        return (a[0] >> n.v) & ((1 << w) - 1)
    if op == 'cat':
        r = 0
        p = 0
        for x, nd in zip(a, n.args):
            r |= x << p
            p += nd.w
        return r
    if op == 'zx':
        return a[0]
    if op == 'sx':
        return E.sgn(a[0], n.args[0].w) & ((1 << w) - 1)
    if op == 'not':
        return ~a[0] & ((1 << w) - 1)
    if op == 'ite':
        return a[1] if a[0] else a[2]
    if op == 'eq':
        return int(a[0] == a[1])
    if op == 'ult':
        return int(a[0] < a[1])
    if op == 'slt':
        iw = n.args[0].w
        return int(E.sgn(a[0], iw) < E.sgn(a[1], iw))
    if op in ('feq', 'flt', 'fle'):
        return softfp.cmp(op, a[0], a[1], n.args[0].w)
    if op == 'fop':
        r = softfp.fop(n.v[0], a, [x.w for x in n.args], w, n.v[1])
        if r is None:
            r = 1 << (w - 1)
        return r
    if op == 'pred':
        return ev_pred(n.v, a, [x.w for x in n.args])
    if op == 'uf':
        if ufs is not None:
            r = ufs(n.v, a, w)
            if r is not None:
                return r
        return hashuf(n.v, a, w)
    return E.fold(op, a[0], a[1], w)


# ------------------------------------------------------------ canonical keys

def canon(nodes):
    """structure key of a list of nodes modulo variable names"""
    num = {}
    out = []
    vs = []

    def visit(root):
        st = [(root, 0)]
        while st:
            n, k = st.pop()
            if n.id in num:
                continue
            if k == 0:
                st.append((n, 1))
                for a in reversed(n.args):
                    if a.id not in num:
                        st.append((a, 0))
            else:
                num[n.id] = len(num)
                if n.op == 'v':
                    vs.append(n.v)
                    out.append(('v', n.w))
                else:
                    out.append((n.op, n.w, n.v if n.op != 'uf' or True else '')
                               + tuple(num[a.id] for a in n.args))
    for r in nodes:
        visit(r)
        out.append(('root', num[r.id]))
    return tuple(out), vs


SPECIAL_F = {
    16: [0, 0x8000, 0x3c00, 0xbc00, 0x7c00, 0xfc00, 0x7e00, 1, 0x3ff, 0x400,
         0x7bff],
    32: [0, 0x80000000, 0x3f800000, 0xbf800000, 0x7f800000, 0xff800000,
         0x7fc00000, 0xffc00001, 1, 0x80000001, 0x7fffff, 0x800000,
         0x7f7fffff, 0x3f000000, 0xbf000000, 0x3fc00000, 0x40200000,
         0x4b000000, 0x4b000001, 0xcb000001, 0x4effffff, 0x4f000000,
         0xcf000000, 0x3effffff, 0x477fe000, 0x477ff000, 0x33800000,
         0x38800000, 0x387fc000, 0x33000000],
    64: [0, 1 << 63, 0x3ff0000000000000, 0xbff0000000000000,
         0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000000, 1,
         0x3fe0000000000000, 0xbfe0000000000000, 0x3ff8000000000000,
         0x4004000000000000, 0x4330000000000000, 0x4330000000000001,
         0x4340000000000000, 0x43dfffffffffffff, 0x43e0000000000000,
         0xc3e0000000000000, 0x3fdfffffffffffff, 0x000fffffffffffff,
         0x0010000000000000, 0x7fefffffffffffff, 0x41dfffffffc00000,
         0x41e0000000000000, 0xc1e0000000000000],
}


def samples(w, rng):
    k = rng.random()
    M = (1 << w) - 1
    if w in SPECIAL_F and k < 0.35:
        return rng.choice(SPECIAL_F[w]) & M
    if k < 0.55:
        return rng.choice([0, 1, M, 1 << (w - 1), (1 << (w - 1)) - 1, 2, M - 1,
                           (1 << (w - 1)) + 1]) & M
    if k < 0.7:
        return rng.randrange(-20, 20) & M
    if k < 0.8 and w in (32, 64):
        return softfp.pack(softfp.Fraction(rng.randrange(-40, 40), 4), w)
    return rng.getrandbits(w)


def relevant(cond, assume):
    """the part of a disjunction with the floating-point operations, and the
    assumptions about the same variables (stronger than the whole)"""
    ds, st = [], [cond]
    while st:
        n = st.pop()
        if n.op == 'or' and n.w == 1:
            st.extend(n.args)
        else:
            ds.append(n)
    if len(ds) < 2:
        return cond, assume
    fl = [d for d in ds if any(n.op in ('fop', 'fcmp', 'flt', 'feq') or
                               n.op.startswith('f') and n.args
                               for n in E.subterms(d))]
    if not fl:
        return cond, assume
    vs = set()
    for d in fl:
        vs.update(E.variables([d]))
    keep = [d for d in ds if set(E.variables([d])) <= vs]
    if len(keep) == len(ds):
        return cond, assume
    return E.or_(*keep), [x for x in assume if set(E.variables([x])) <= vs]


class Prover(object):
    def __init__(self, timeout_ms=20000, exact_timeout_ms=60000, seed=1):
        self.tmo = timeout_ms
        self.xtmo = exact_timeout_ms
        self.cache = {}
        self.stats = {'syntactic': 0, 'z3-uf': 0, 'z3-bv': 0, 'z3-fp': 0,
                      'cache': 0}
        self.solver_s = 0.0
        self.split_s = 300
        self.nsample = 400
        self.deadline = None
        self.stop = None
        self.undecided = 0      # loop invariant candidates not decided
        self.rng = random.Random(seed)

    def prove(self, cond, assume=()):
        """valid? -> (status, model, how); status valid/invalid/unknown"""
        if cond.op == 'c' and cond.v == 1:
            self.stats['syntactic'] += 1
            return ('valid', None, 'syntactic')
        assume = [a for a in assume if not (a.op == 'c' and a.v == 1)]
        key, vs = canon([cond] + list(assume))
        r = self.cache.get(key)
        if r is not None:
            st, model, how = r
            self.stats['cache'] += 1
            if model is not None:
                names, mv = model
                model = {vs[names.index(k)]: v for k, v in mv.items()
                         if k in names}
            return (st, model, how)
        if self.deadline and time.time() > self.deadline or \
                self.stop and self.stop():
            return ('unknown', None, 'deadline')
        from . import lin
        if lin.valid(cond, assume):
            r = ('valid', None, 'linear')
        else:
            r = self._prove(cond, assume)
        model = r[1]
        self.cache[key] = (r[0], None if model is None else (vs, model), r[2])
        self.stats[r[2]] = self.stats.get(r[2], 0) + 1
        return r

    def integer(self, cond, assume):
        """obligations about indices: linear integer arithmetic first"""
        from . import lia
        t0 = time.time()
        assume = [a for a in assume if not (a.op == 'c' and a.v == 1)]
        ok = lia.valid(cond, assume)
        self.solver_s += time.time() - t0
        if ok:
            self.stats['z3-lia'] = self.stats.get('z3-lia', 0) + 1
            return ('valid', None, 'z3-lia')
        return self.prove(cond, assume)

    def cvc5(self, ass, goal):
        """second bit-vector back end; only unsat is believed"""
        s = z3.Solver()
        s.add(*ass)
        s.add(z3.Not(goal))
        txt = '(set-logic QF_BV)\n' + s.to_smt2().split('\n', 2)[2]
        try:
            r = subprocess.run(['cvc5', '--lang=smt2', '-',
                                '--tlimit=%d' % max(self.tmo, 10000)],
                               input=txt, capture_output=True, text=True,
                               timeout=max(self.tmo, 10000) / 1000. + 5)
        except (OSError, subprocess.TimeoutExpired):
            return False
        return r.stdout.strip() == 'unsat'

    def narrow(self, q):
        vs = E.variables([q[0]] + list(q[1]))
        return len(vs) == 1 and list(vs.values())[0].w in (32, 64)

    def violates(self, cond, assume, asg):
        r = evaluate([cond] + assume, asg)
        return r[0] == 0 and all(r[1:])

    def _prove(self, cond, assume):
        t0 = time.time()
        try:
            c = Conv(False)
            goal = c.bl(cond)
            ass = [c.bl(a) for a in assume]
            s = z3.SolverFor('QF_UFBV') if c.has_uf else z3.SolverFor('QF_BV')
            s.set('timeout', self.tmo)
            s.add(*ass)
            s.add(*c.commute())
            s.add(z3.Not(goal))
            r = s.check()
            how = 'z3-uf' if c.has_uf else 'z3-bv'
            if r == z3.unsat:
                return ('valid', None, how)
            model = None
            if r == z3.sat:
                m = s.model()
                model = {k: m.eval(v, True).as_long()
                         for k, v in c.vars.items()}
                if not c.has_uf:
                    return ('invalid', model, how)
                if not c.opaque and self.violates(cond, assume, model):
                    return ('invalid', model, how)
            elif not c.has_uf:
                x = self.sample(cond, assume)
                if x is not None:
                    return ('invalid', x, 'sampling')
                if self.cvc5(ass, goal):
                    return ('valid', None, 'cvc5-bv')
                return ('unknown', None, how)
            # floating point: concrete search, then the exact theory
            if c.opaque:
                # functions with no concrete semantics here: nothing refuted
                x = model or self.sample(cond, assume)
                return ('unknown', x, how)
            x = self.sample(cond, assume)
            if x is not None:
                return ('invalid', x, 'sampling')
            if self.xtmo == 0 or c.has_pred:
                return ('unknown', None, 'z3-uf')
            part = relevant(cond, assume)
            if part[0] is not cond and self.narrow(part) and \
                    self.sample(*part) is None and \
                    self.exp_split(*part)[0] == 'valid':
                return ('valid', None, 'z3-fp')
            one = self.narrow((cond, assume))
            for tmo in ([3000, 0, self.xtmo] if one else [self.xtmo]):
                if tmo == 0:
                    r = self.exp_split(cond, assume)
                    if r[0] != 'unknown':
                        return r
                    continue
                c = Conv(True)
                goal = c.bl(cond)
                ass = [c.bl(a) for a in assume]
                s = z3.Solver()
                s.set('timeout', tmo)
                s.add(*ass)
                s.add(*c.side)
                s.add(z3.Not(goal))
                r = s.check()
                if r == z3.unsat:
                    return ('valid', None, 'z3-fp')
                if r == z3.sat:
                    m = s.model()
                    model = {k: m.eval(v, True).as_long()
                             for k, v in c.vars.items()}
                    if not self.violates(cond, assume, model):
                        return ('unknown', None, 'z3-fp')
                    return ('invalid', model, 'z3-fp')
            return ('unknown', None, 'z3-fp')
        finally:
            self.solver_s += time.time() - t0

    def exp_split(self, cond, assume):
        """one floating-point variable: case analysis on its exponent; the
        cases cover all its values.  The same obligation coming from several
        configurations is decided once per run."""
        from . import build
        key, vs = canon([cond] + list(assume))
        h = hashlib.sha256(repr(key).encode()).hexdigest()
        base = os.path.join(build.scratch(), 'ob-' + h)
        try:
            os.close(os.open(base + '.lock', os.O_CREAT | os.O_EXCL))
            mine = True
        except FileExistsError:
            mine = False
        if not mine:
            t0 = time.time()
            while time.time() - t0 < self.split_s + 60:
                try:
                    with open(base) as f:
                        st, val = json.load(f)
                    return (st, None if val is None else {vs[0]: val},
                            'z3-fp')
                except (OSError, ValueError):
                    time.sleep(0.2)
            return ('unknown', None, 'z3-fp')
        r = ('unknown', None, 'z3-fp')
        try:
            r = self.exp_split1(cond, assume)
        finally:
            with open(base + '.tmp', 'w') as f:
                json.dump([r[0], None if not r[1] else
                           list(r[1].values())[0]], f)
            os.rename(base + '.tmp', base)
        return r

    def exp_split1(self, cond, assume):
        vs = E.variables([cond] + list(assume))
        if len(vs) != 1:
            return ('unknown', None, 'z3-fp')
        name, v = list(vs.items())[0]
        if v.w not in (32, 64):
            return ('unknown', None, 'z3-fp')
        e, p = E.FMT[v.w]
        bias = (1 << (e - 1)) - 1
        lo, hi = bias - 3, bias + p + 2
        cases = list(range(lo, hi + 1)) + ['lo', 'hi']
        t0 = time.time()
        jobs = []
        nj = 6
        for j in range(nj):
            rd, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                out = ['unknown', None]
                try:
                    os.close(rd)
                    out = self.exp_cases(cond, assume, name, v, cases[j::nj],
                                         lo, hi, t0)
                finally:
                    os.write(wr, json.dumps(out).encode())
                    os._exit(0)
            os.close(wr)
            jobs.append((pid, rd))
        res = []
        for pid, rd in jobs:
            with os.fdopen(rd) as f:
                txt = f.read()
            os.waitpid(pid, 0)
            res.append(json.loads(txt) if txt else ['unknown', None])
        for st, val in res:
            if st == 'invalid':
                return ('invalid', {name: val}, 'z3-fp')
        if all(st == 'valid' for st, _ in res):
            return ('valid', None, 'z3-fp')
        return ('unknown', None, 'z3-fp')

    def exp_cases(self, cond, assume, name, v, cases, lo, hi, t0):
        e, p = E.FMT[v.w]
        fr, s = E.var('fr!', p - 1), E.var('sg!', 1)
        ev = E.var('ex!', e)
        for q in cases:
            k, g = {'lo': (ev, E.ult(ev, E.const(lo, e))),
                    'hi': (ev, E.ult(E.const(hi, e), ev))}.get(q) or \
                (E.const(q, e), E.T())
            m = {name: E.cat([fr, k, s])}
            memo = {}
            c = Conv(True)
            goal = c.bl(E.subst(cond, m, memo))
            ass = [c.bl(E.subst(a, m, memo)) for a in assume] + [c.bl(g)]
            z = z3.Solver()
            z.set('timeout', self.xtmo)
            z.add(*ass)
            z.add(*c.side)
            z.add(z3.Not(goal))
            r = z.check()
            if r == z3.sat:
                mm = z.model()
                asg = {q: mm.eval(x, True).as_long()
                       for q, x in c.vars.items()}
                kv = k.v if k.op == 'c' else asg.get('ex!', 0)
                return ['invalid', asg.get('fr!', 0) | kv << (p - 1) |
                        asg.get('sg!', 0) << (v.w - 1)]
            if r != z3.unsat or time.time() - t0 > self.split_s:
                return ['unknown', None]
        return ['valid', None]

    def model_of(self, conds, tmo=None):
        """a satisfying assignment of conds, or None"""
        for exact in (False, True):
            c = Conv(exact)
            cs = [c.bl(x) for x in conds]
            s = z3.Solver()
            s.set('timeout', tmo or self.tmo)
            s.add(*cs)
            s.add(*c.side)
            if s.check() == z3.sat:
                m = s.model()
                r = {k: m.eval(v, True).as_long() for k, v in c.vars.items()}
                if all(evaluate(conds, r)):
                    return r
            if not c.has_uf:
                return None
        return None

    def sample(self, cond, assume, n=None):
        n = self.nsample if n is None else n
        vs = E.variables([cond] + list(assume))
        for _ in range(n):
            asg = {k: samples(v.w, self.rng) for k, v in vs.items()}
            if self.violates(cond, assume, asg):
                return asg
        return None
