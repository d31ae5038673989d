"""Exact (non-modular) linear forms of bit-vector terms, by interval analysis
from the preconditions: a sound shortcut for address arithmetic."""
from . import expr as E


def bounds(assume):
    """signed bounds of variables implied by simple hypotheses"""
    b = {}

    def upd(v, lo, hi):
        l, h = b.get(v, (-(1 << (v.w - 1)), (1 << (v.w - 1)) - 1))
        if lo is not None:
            l = max(l, lo)
        if hi is not None:
            h = min(h, hi)
        b[v] = (l, h)
    st = list(assume)
    while st:
        a = st.pop()
        if a.op == 'and':
            st.extend(a.args)
            continue
        neg = a.op == 'not'
        x = a.args[0] if neg else a
        if x.op == 'or' and neg:
            st.extend([E.not_(y) for y in x.args])
            continue
        if x.op == 'slt':
            p, q = x.args
            if p.op == 'c':
                c = E.sgn(p.v, p.w)
                upd(q, None if neg else c + 1, c if neg else None)
            elif q.op == 'c':
                c = E.sgn(q.v, q.w)
                upd(p, c if neg else None, None if neg else c - 1)
        elif x.op == 'ext' and x.w == 1 and x.v == x.args[0].w - 1:
            v = x.args[0]
            if neg:
                upd(v, 0, None)
            else:
                upd(v, None, -1)
        elif x.op == 'ult' and not neg:
            p, q = x.args
            if q.op == 'c' and q.v <= (1 << (q.w - 1)):
                upd(p, 0, q.v - 1)
        elif x.op == 'eq' and not neg:
            p, q = x.args
            if q.op == 'c':
                c = E.sgn(q.v, q.w)
                upd(p, c, c)
    return b


class Lin(object):
    def __init__(self, bnd):
        self.b = bnd
        self.memo = {}

    def form(self, n):
        """-> (dict node->coef, const, lo, hi) or None"""
        if n.id in self.memo:
            return self.memo[n.id]
        r = self._form(n)
        if r is None:
            lo, hi = self.b.get(n, (-(1 << (n.w - 1)), (1 << (n.w - 1)) - 1))
            r = ({n: 1}, 0, lo, hi)
        elif n in self.b:
            lo, hi = self.b[n]
            r = (r[0], r[1], max(lo, r[2]), min(hi, r[3]))
        self.memo[n.id] = r
        return r

    def fit(self, r, w):
        if r is None:
            return None
        if r[2] < -(1 << (w - 1)) or r[3] >= 1 << (w - 1):
            return None
        return r

    def _form(self, n):
        op = n.op
        w = n.w
        if op == 'c':
            c = E.sgn(n.v, w)
            return ({}, c, c, c)
        if op == 'sx':
            if n.args[0].w == 1:
                return None
            return self.form(n.args[0])
        if op == 'zx':
            if n.args[0].w == 1:
                return None
            r = self.form(n.args[0])
            return r if r[2] >= 0 else None
        if op in ('add', 'sub'):
            a, b = self.form(n.args[0]), self.form(n.args[1])
            return self.fit(comb(a, b, 1 if op == 'add' else -1), w)
        if op == 'mul':
            a, b = self.form(n.args[0]), self.form(n.args[1])
            if not a[0]:
                a, b = b, a
            if b[0]:
                return None
            return self.fit(scale(a, b[1]), w)
        if op == 'shl' and n.args[1].op == 'c':
            return self.fit(scale(self.form(n.args[0]), 1 << n.args[1].v), w)
        if op == 'cat' and len(n.args) == 2 and n.args[0].op == 'c' and \
                n.args[0].v == 0:
            return self.fit(scale(self.form(n.args[1]), 1 << n.args[0].w), w)
        if op == 'ext' and n.v == 0 and w > 1:
            return self.fit(self.form(n.args[0]), w)
        return None

    def equal(self, a, b):
        x, y = self.form(a), self.form(b)
        d = comb(x, y, -1)
        return not d[0] and d[1] == 0


def scale(a, k):
    lo, hi = a[2] * k, a[3] * k
    if k < 0:
        lo, hi = hi, lo
    return ({n: c * k for n, c in a[0].items() if c * k}, a[1] * k, lo, hi)


def comb(a, b, s):
    d = dict(a[0])
    for n, c in b[0].items():
        d[n] = d.get(n, 0) + s * c
        if d[n] == 0:
            del d[n]
    if s > 0:
        lo, hi = a[2] + b[2], a[3] + b[3]
    else:
        lo, hi = a[2] - b[3], a[3] - b[2]
    if not d:
        lo = hi = a[1] + s * b[1]
    return (d, a[1] + s * b[1], lo, hi)


class Ctx(object):
    def __init__(self, assume):
        self.L = Lin(bounds(assume))
        self.neq = set()
        for a in assume:
            if a.op == 'not' and a.args[0].op == 'eq':
                p, q = a.args[0].args
                self.neq.add((p, q))
                self.neq.add((q, p))

    def differ(self, a, b):
        d = comb(self.L.form(a), self.L.form(b), -1)
        if d[2] > 0 or d[3] < 0:
            return True
        if d[1] == 0 and len(d[0]) == 1:
            x = list(d[0])[0]
            return any(p is x and q.op == 'c' and q.v == 0
                       for p, q in self.neq)
        if d[1] == 0 and len(d[0]) == 2:
            (x, c), (y, e) = list(d[0].items())
            return c == -e and (x, y) in self.neq
        return False

    def decide_eq(self, a, b):
        if a is b or self.L.equal(a, b):
            return True
        if self.differ(a, b):
            return False
        return None


def valid(cond, assume):
    ctx = Ctx(assume)
    L = ctx.L

    def ok(c, neg=False):
        if c.op == 'c':
            return (c.v == 1) != neg
        if c.op == 'not':
            return ok(c.args[0], not neg)
        if c.op in ('or', 'and') and c.w == 1:
            if (c.op == 'or') != neg:
                return any(ok(x, neg) for x in c.args)
            return all(ok(x, neg) for x in c.args)
        if c.op == 'eq' and c.args[0].w > 1 and not neg:
            return L.equal(c.args[0], c.args[1])
        if c.op == 'eq' and neg and c.args[0].w > 1:
            return ctx.differ(c.args[0], c.args[1])
        if c.op == 'slt':
            d = comb(L.form(c.args[0]), L.form(c.args[1]), -1)
            return d[2] >= 0 if neg else d[3] < 0
        if c.op == 'ult':
            x, y = L.form(c.args[0]), L.form(c.args[1])
            if x[2] >= 0 and y[2] >= 0:
                d = comb(x, y, -1)
                return d[2] >= 0 if neg else d[3] < 0
        return False
    return ok(cond)
