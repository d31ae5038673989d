"""Index arithmetic as integers: terms whose exact value fits their width (by
interval analysis from the hypotheses) are translated to linear integer
arithmetic, all others become unknowns; only `valid` is ever concluded."""
import z3
from . import expr as E


class Lia(object):
    def __init__(self, assume):
        self.iv = {}                    # node id -> (lo, hi) from hypotheses
        self.assume = assume
        for _ in range(4):
            self.memo = {}
            old = dict(self.iv)
            for a in assume:
                self.learn(a, True)
            if old == self.iv:
                break
        self.memo = {}
        self.bmemo = {}
        self.vars = {}
        self.side = []

    def full(self, w):
        return (-(1 << (w - 1)), (1 << (w - 1)) - 1)

    # ------------------------------------------------------------- intervals
    def upd(self, n, lo, hi):
        l, h = self.iv.get(n.id, self.full(n.w))
        if lo is not None:
            l = max(l, lo)
        if hi is not None:
            h = min(h, hi)
        if l <= h:
            self.iv[n.id] = (l, h)

    def learn(self, a, pos):
        if a.op == 'not':
            return self.learn(a.args[0], not pos)
        if a.op == ('and' if pos else 'or') and a.w == 1:
            for x in a.args:
                self.learn(x, pos)
        elif a.op == 'slt':
            p, q = a.args
            lp, hp = self.rng(p)
            lq, hq = self.rng(q)
            if pos:
                self.upd(p, None, hq - 1)
                self.upd(q, lp + 1, None)
            else:
                self.upd(p, lq, None)
                self.upd(q, None, hp)
        elif a.op == 'ext' and a.w == 1 and a.v == a.args[0].w - 1:
            self.upd(a.args[0], None if pos else 0, -1 if pos else None)
        elif a.op == 'eq' and pos and a.args[0].w > 1:
            p, q = a.args
            self.upd(p, *self.rng(q))
            self.upd(q, *self.rng(p))

    def rng(self, n):
        r = self.memo.get(n.id)
        if r is None:
            r = self.rng1(n)
            f = self.full(n.w)
            r = (max(r[0], f[0]), min(r[1], f[1])) if self.exact(n, r) else f
            q = self.iv.get(n.id)
            if q:
                r = (max(r[0], q[0]), min(r[1], q[1]))
            self.memo[n.id] = r
        return r

    def exact(self, n, r):
        lo, hi = self.full(n.w)
        return lo <= r[0] and r[1] <= hi

    def rng1(self, n):
        op, w = n.op, n.w
        if op == 'c':
            c = E.sgn(n.v, w)
            return (c, c)
        if op == 'ite':
            a, b = self.rng(n.args[1]), self.rng(n.args[2])
            return (min(a[0], b[0]), max(a[1], b[1]))
        if op == 'add':
            a, b = self.rng(n.args[0]), self.rng(n.args[1])
            return (a[0] + b[0], a[1] + b[1])
        if op == 'sub':
            a, b = self.rng(n.args[0]), self.rng(n.args[1])
            return (a[0] - b[1], a[1] - b[0])
        if op == 'mul':
            for a, b in (n.args, n.args[::-1]):
                if a.op == 'c':
                    c = E.sgn(a.v, w)
                    r = self.rng(b)
                    return tuple(sorted((c * r[0], c * r[1])))
        if op == 'shl' and n.args[1].op == 'c' and n.args[1].v < w:
            r = self.rng(n.args[0])
            return (r[0] << n.args[1].v, r[1] << n.args[1].v)
        if op == 'sx' and n.args[0].w > 1:
            return self.rng(n.args[0])
        if op == 'zx' and n.args[0].w > 1:
            r = self.rng(n.args[0])
            if r[0] >= 0:
                return r
        if op == 'cat' and n.args[0].op == 'c' and n.args[0].v == 0 and \
                len(n.args) == 2 and n.args[1].w > 1:
            r = self.rng(n.args[1])
            return (r[0] << n.args[0].w, r[1] << n.args[0].w)
        if op == 'ext' and n.v == 0 and w > 1:
            return self.rng(n.args[0])
        return self.full(w)

    # ----------------------------------------------------------- translation
    def unknown(self, n):
        v = z3.Int('x!%d' % n.id)
        lo, hi = self.rng(n)
        self.side += [v >= lo, v <= hi]
        return v

    def int(self, n):
        k = ('i', n.id)
        r = self.bmemo.get(k)
        if r is None:
            r = self.int1(n)
            if r is None:
                r = self.unknown(n)
            self.bmemo[k] = r
        return r

    def int1(self, n):
        op, w = n.op, n.w
        if op == 'c':
            return z3.IntVal(E.sgn(n.v, w))
        if op not in ('ite', 'add', 'sub', 'mul', 'shl', 'sx', 'zx', 'cat',
                      'ext') or not self.exact(n, self.rng1(n)):
            return None
        a = n.args
        if op == 'ite':
            return z3.If(self.bool(a[0]), self.int(a[1]), self.int(a[2]))
        if op == 'add':
            return self.int(a[0]) + self.int(a[1])
        if op == 'sub':
            return self.int(a[0]) - self.int(a[1])
        if op == 'mul':
            if a[0].op != 'c' and a[1].op != 'c':
                return None
            return self.int(a[0]) * self.int(a[1])
        if op == 'shl':
            if a[1].op != 'c' or a[1].v >= w:
                return None
            return self.int(a[0]) * (1 << a[1].v)
        if op == 'sx':
            return self.int(a[0]) if a[0].w > 1 else None
        if op == 'zx':
            if a[0].w > 1 and self.rng(a[0])[0] >= 0:
                return self.int(a[0])
            return None
        if op == 'cat':
            if len(a) == 2 and a[0].op == 'c' and a[0].v == 0 and a[1].w > 1:
                return self.int(a[1]) * (1 << a[0].w)
            return None
        if op == 'ext' and n.v == 0 and w > 1 and \
                self.exact(n, self.rng(a[0])):
            return self.int(a[0])
        return None

    def bool(self, n):
        k = ('b', n.id)
        r = self.bmemo.get(k)
        if r is None:
            r = self.bool1(n)
            if r is None:
                r = z3.Bool('b!%d' % n.id)
            self.bmemo[k] = r
        return r

    def bool1(self, n):
        op, a = n.op, n.args
        if op == 'c':
            return z3.BoolVal(bool(n.v))
        if op == 'not':
            return z3.Not(self.bool(a[0]))
        if op == 'and':
            return z3.And(*[self.bool(x) for x in a])
        if op == 'or':
            return z3.Or(*[self.bool(x) for x in a])
        if op == 'xor':
            return z3.Xor(self.bool(a[0]), self.bool(a[1]))
        if op == 'ite':
            return z3.If(self.bool(a[0]), self.bool(a[1]), self.bool(a[2]))
        if op == 'slt':
            return self.int(a[0]) < self.int(a[1])
        if op == 'ult':
            x, y = self.rng(a[0]), self.rng(a[1])
            i, j = self.int(a[0]), self.int(a[1])
            if x[0] >= 0 and y[0] >= 0:
                return i < j
            if x[0] >= 0:
                return z3.Or(j < 0, i < j)
            if y[0] >= 0:
                return z3.And(i >= 0, i < j)
            return z3.If(z3.And(i < 0, j >= 0), False,
                         z3.If(z3.And(i >= 0, j < 0), True, i < j))
        if op == 'eq':
            if a[0].w == 1:
                return self.bool(a[0]) == self.bool(a[1])
            if a[1].op == 'c' and a[1].v == 0 and a[0].op == 'ext' and \
                    a[0].v == 0 and self.rng(a[0].args[0])[0] > -(1 << 62):
                # divisibility
                return self.int(a[0].args[0]) % (1 << a[0].w) == 0
            return self.int(a[0]) == self.int(a[1])
        if op == 'ext' and n.v == a[0].w - 1 and a[0].w > 1:
            return self.int(a[0]) < 0
        return None


def useful(n):
    st, seen = [n], set()
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op in ('slt', 'ult') and x.args[0].w >= 32:
            return True
        if x.w == 1:
            st.extend(x.args)
    return False


def valid(goal, assume, tmo=2000):
    if not useful(goal):
        return False
    t = Lia(assume)
    s = z3.SolverFor('QF_LIA')
    s.set('timeout', tmo)
    hs = [t.bool(a) for a in assume]
    g = t.bool(goal)
    s.add(*hs)
    s.add(*t.side)
    s.add(z3.Not(g))
    return s.check() == z3.unsat
