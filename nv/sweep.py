"""Equality of long chains of arithmetic (random number generators): the
intermediate values of the specification are matched with those of the code
by simulation, each match is proved over the matches below it, and proved
ones are shared, until the results coincide.  Local equalities go to the
bit-vector solver or, for wide products, to linear integer arithmetic with
explicit carries."""
import random
import time
import z3
from . import expr as E
from . import solve


class Mod(object):
    """unsigned integer encoding; every wrap-around is an explicit quotient"""

    def __init__(self):
        self.memo = {}
        self.side = []
        self.vars = {}
        self.abstract = False
        self.k = 0

    def fresh(self, lo, hi):
        self.k += 1
        v = z3.Int('q!%d' % self.k)
        self.side += [v >= lo, v <= hi]
        return v

    def div(self, e, lo, hi, k):
        """-> (quotient, remainder, bounds of the quotient) by 2**k"""
        ql, qh = lo >> k, hi >> k
        if ql == qh:
            return z3.IntVal(ql), e - (ql << k), ql, qh
        key = ('div', e.get_id(), k)
        if key not in self.memo:
            q = self.fresh(ql, qh)
            r = self.fresh(0, (1 << k) - 1)
            self.side.append(e == q * (1 << k) + r)
            self.memo[key] = q, r, ql, qh, e
        return self.memo[key][:4]

    def wrap(self, e, lo, hi, w):
        """(expr, lo, hi) modulo 2**w"""
        if lo >= 0 and hi < 1 << w:
            return e, lo, hi
        q, r, ql, qh = self.div(e, lo, hi, w)
        if ql == qh:
            return r, lo - (ql << w), hi - (ql << w)
        return r, 0, (1 << w) - 1

    def opaque(self, n):
        self.abstract = True
        return self.fresh(0, (1 << n.w) - 1), 0, (1 << n.w) - 1

    def num(self, n):
        r = self.memo.get(n.id)
        if r is None:
            r = self.memo[n.id] = self.num1(n)
        return r

    def num1(self, n):
        op, w, a = n.op, n.w, n.args
        if op == 'c':
            return z3.IntVal(n.v), n.v, n.v
        if op == 'v':
            x = z3.Int('v!' + n.v)
            self.side += [x >= 0, x < (1 << w)]
            self.vars[n.v] = x
            return x, 0, (1 << w) - 1
        if w == 1 and op in ('ult', 'eq', 'and', 'or', 'not', 'slt'):
            return z3.If(self.bool(n), 1, 0), 0, 1
        if op == 'ite':
            x, y = self.num(a[1]), self.num(a[2])
            return (z3.If(self.bool(a[0]), x[0], y[0]), min(x[1], y[1]),
                    max(x[2], y[2]))
        if op == 'add':
            x, y = self.num(a[0]), self.num(a[1])
            return self.wrap(x[0] + y[0], x[1] + y[1], x[2] + y[2], w)
        if op == 'sub':
            x, y = self.num(a[0]), self.num(a[1])
            return self.wrap(x[0] - y[0], x[1] - y[2], x[2] - y[1], w)
        if op == 'mul' and (a[0].op == 'c' or a[1].op == 'c'):
            c, x = (a[0], a[1]) if a[0].op == 'c' else (a[1], a[0])
            x = self.num(x)
            return self.wrap(x[0] * c.v, x[1] * c.v, x[2] * c.v, w)
        if op == 'shl' and a[1].op == 'c' and a[1].v < w:
            x = self.num(a[0])
            k = 1 << a[1].v
            return self.wrap(x[0] * k, x[1] * k, x[2] * k, w)
        if op == 'lshr' and a[1].op == 'c' and a[1].v < w:
            x = self.num(a[0])
            q, r, lo, hi = self.div(x[0], x[1], x[2], a[1].v)
            return q, lo, hi
        if op == 'ext':
            x = self.num(a[0])
            q, lo, hi = x
            if n.v:
                q, _, lo, hi = self.split(a[0], n.v)
            if n.v + w == a[0].w:
                return q, lo, hi
            return self.wrap(q, lo, hi, w)
        if op == 'zx':
            return self.num(a[0])
        if op == 'cat':
            e, lo, hi, s = z3.IntVal(0), 0, 0, 0
            for y in a:
                x = self.num(y)
                e = e + x[0] * (1 << s)
                lo += x[1] << s
                hi += x[2] << s
                s += y.w
            return e, lo, hi
        return self.opaque(n)

    def split(self, n, k):
        key = ('split', n.id, k)
        r = self.memo.get(key)
        if r is None:
            x = self.num(n)
            r = self.memo[key] = self.div(x[0], x[1], x[2], k)
        return r

    def unflip(self, n, h):
        """x when n is x with its sign bit flipped"""
        if n.op == 'c':
            return E.const(n.v ^ h, n.w)
        if n.op in ('add', 'xor'):
            for x, y in (n.args, n.args[::-1]):
                if x.op == 'c' and x.v == h:
                    return y
        return None

    def bool(self, n):
        key = ('b', n.id)
        r = self.memo.get(key)
        if r is None:
            r = self.memo[key] = self.bool1(n)
        return r

    def bool1(self, n):
        op, a = n.op, n.args
        if op == 'c':
            return z3.BoolVal(bool(n.v))
        if op == 'not':
            return z3.Not(self.bool(a[0]))
        if op == 'and':
            return z3.And(*[self.bool(x) for x in a])
        if op == 'or':
            return z3.Or(*[self.bool(x) for x in a])
        if op == 'ite':
            return z3.If(self.bool(a[0]), self.bool(a[1]), self.bool(a[2]))
        if op == 'xor':
            return z3.Xor(self.bool(a[0]), self.bool(a[1]))
        if op == 'ult':
            return self.num(a[0])[0] < self.num(a[1])[0]
        if op == 'slt':
            h = 1 << (a[0].w - 1)
            u = [self.unflip(z, h) for z in a]
            if all(z is not None for z in u):
                return self.num(u[0])[0] < self.num(u[1])[0]
            x, y = self.num(a[0])[0], self.num(a[1])[0]
            return z3.If(z3.And(x >= h, y < h), True,
                         z3.If(z3.And(x < h, y >= h), False, x < y))
        if op == 'eq':
            if a[0].w == 1:
                return self.bool(a[0]) == self.bool(a[1])
            return self.num(a[0])[0] == self.num(a[1])[0]
        return self.num(n)[0] == 1


def linear(n, k, memo):
    """n modulo 2**k as {atom id: coefficient}, constant"""
    key = (n.id, k)
    r = memo.get(key)
    if r is None:
        d, c = linear1(n, k, memo)
        M = (1 << k) - 1
        r = memo[key] = ({i: v & M for i, v in d.items() if v & M}, c & M)
    return r


def linear1(n, k, memo):
    op, a = n.op, n.args
    if op == 'c':
        return {}, n.v
    if op in ('add', 'sub') and k <= n.w:
        x, y = linear(a[0], k, memo), linear(a[1], k, memo)
        s = 1 if op == 'add' else -1
        d = dict(x[0])
        for i, v in y[0].items():
            d[i] = d.get(i, 0) + s * v
        return d, x[1] + s * y[1]
    if op == 'mul' and k <= n.w and 'c' in (a[0].op, a[1].op):
        c, x = (a[0], a[1]) if a[0].op == 'c' else (a[1], a[0])
        d, e = linear(x, k, memo)
        return {i: v * c.v for i, v in d.items()}, e * c.v
    if op == 'shl' and k <= n.w and a[1].op == 'c':
        s = a[1].v
        if s >= k:
            return {}, 0
        d, e = linear(a[0], k - s, memo)
        return {i: v << s for i, v in d.items()}, e << s
    if op == 'ext' and n.v == 0 and k <= n.w:
        return linear(a[0], k, memo)
    if op == 'zx':
        if k <= a[0].w or a[0].op in ('v', 'ext', 'cat', 'zx'):
            return linear(a[0], k, memo)
    if op == 'cat':
        d, e, s = {}, 0, 0
        for y in a:
            if s < k:
                f, g = linear(y, k - s, memo)
                if k - s > y.w and y.op not in ('c', 'v', 'ext', 'cat', 'zx'):
                    f, g = {y.id: 1}, 0
                for i, v in f.items():
                    d[i] = d.get(i, 0) + (v << s)
                e += g << s
            s += y.w
        return d, e
    if n.w == 64:
        l, h = E.ext(n, 0, 32), E.ext(n, 32, 32)
        return {l.id: 1, h.id: 1 << 32}, 0
    return {n.id: 1}, 0


def linear_eq(a, b):
    memo = {}
    return linear(a, a.w, memo) == linear(b, b.w, memo)


def integer_eq(a, b, tmo, known=()):
    """-> (status, model): only exact encodings are refuted"""
    m = Mod()
    x, y = m.num(a)[0], m.num(b)[0]
    for p, q in known:
        m.side.append(m.num(p)[0] == m.num(q)[0])
    s = z3.SolverFor('QF_LIA')
    s.set('timeout', tmo)
    s.add(*m.side)
    s.add(x != y)
    r = s.check()
    if r == z3.unsat:
        return 'valid', None
    if r == z3.sat and not m.abstract:
        md = s.model()
        return 'invalid', {k: md.eval(v, True).as_long()
                           for k, v in m.vars.items()}
    return 'unknown', None


LEMMAS = {}


class Sweep(object):
    def __init__(self, prover, tmo=10000):
        self.prover, self.tmo = prover, tmo
        self.merged = set()
        self.models = []
        self.pair = {}
        self.local = 0

    def cut(self, a, b, more=()):
        """a, b with what is already shared (and their variables) renamed;
        more: shared nodes that keep their definition"""
        memo, back = {}, {}
        st = [a, b] + [y for x in more for y in self.pair[x]]
        seen = set()
        while st:
            x = st.pop()
            if x.id in seen:
                continue
            seen.add(x.id)
            if (x.id in self.merged and x is not a and x is not b and
                    x.id not in more) or x.op == 'v':
                v = E.var('cut%d' % len(back), x.w)
                back[v.v] = x
                memo[x.id] = v
                continue
            st.extend(x.args)
        known = [(E.subst(self.pair[x][0], {}, memo),
                  E.subst(self.pair[x][1], {}, memo)) for x in more]
        return E.subst(a, {}, memo), E.subst(b, {}, memo), back, known

    def derived(self, back):
        """shared nodes computed from other shared nodes of the same cut"""
        ids = {x.id for x in back.values()}
        out = []
        for x in back.values():
            if x.id not in self.pair:
                continue
            st, seen = list(x.args), set()
            hit = bad = False
            while st:
                y = st.pop()
                if y.id in seen:
                    continue
                seen.add(y.id)
                if y.id in ids:
                    hit = True
                elif y.op == 'v' or y.id in self.merged:
                    bad = True
                else:
                    st.extend(y.args)
            if hit and not bad:
                out.append(x.id)
        return out

    def equal(self, a, b):
        x, y, back, known = self.cut(a, b)
        if x is y or linear_eq(x, y):
            return True
        more = self.derived(back)
        if more:
            x, y, back, known = self.cut(a, b, more)
        key, _ = solve.canon([x, y] + [z for p in known for z in p])
        r = LEMMAS.get(key)
        if r is None:
            self.local += 1
            t0 = time.time()
            wide = any(n.op == 'mul' and n.w > 32
                       for z in (x, y) for n in E.subterms(z))
            r = ('unknown', None)
            if wide:
                r = integer_eq(x, y, self.tmo, known)
            if r[0] == 'unknown' and not wide:
                q = type(self.prover)(3000, 0)
                q.nsample = 0
                s = q.prove(E.eq(x, y), [E.eq(c, d) for c, d in known])
                r = (s[0], s[1])
            self.prover.solver_s += time.time() - t0
            LEMMAS[key] = r
        if r[0] == 'invalid' and r[1] is not None and \
                all(n.op == 'v' for n in back.values()):
            vs = sorted(back)
            self.models.append({back[k].v: r[1].get(k, 0) for k in vs})
        return r[0] == 'valid'

    def run(self, pairs):
        """pairs (code, specification) -> list of bool"""
        order, seen = [], set()
        code, spec = set(), set()
        for i, s in ((0, code), (1, spec)):
            for p in pairs:
                s.update(n.id for n in E.subterms(p[i]))
        roots = [p[0] for p in pairs] + [p[1] for p in pairs]
        for r in roots:
            st = [(r, 0)]
            while st:
                n, k = st.pop()
                if k:
                    order.append(n)
                    continue
                if n.id in seen:
                    continue
                seen.add(n.id)
                st.append((n, 1))
                st.extend((y, 0) for y in n.args)
        depth = {}
        for n in order:
            depth[n.id] = 1 + max([depth[y.id] for y in n.args] or [0])
        order.sort(key=lambda n: (depth[n.id],
                                  n.v if n.op == 'ext' else 0))
        vs = E.variables(roots)
        rng = random.Random(7)
        vals = []
        for _ in range(3):
            asg = {k: rng.getrandbits(v.w) for k, v in vs.items()}
            vals.append(solve.evaluate(order, asg))
        memo, cls = {}, {}
        for i, n in enumerate(order):
            x = E.subst(n, {}, memo)
            if n.w < 8 or x.op in ('c', 'v'):
                continue
            kind = (n.id in code) | 2 * (n.id in spec)
            key = (n.w,) + tuple(v[i] for v in vals)
            c = cls.setdefault(key, [])
            hit = None
            for y, k in c:
                if y is x:
                    if k | kind == 3:
                        self.merged.add(x.id)
                    hit = y
                    break
            if hit is None:
                for y, k in c:
                    if (k | kind) == 3 and self.equal(x, y):
                        hit = y
                        self.merged.add(y.id)
                        self.pair[y.id] = (y, x)
                        break
            if hit is not None:
                memo[n.id] = hit
            c.append((memo[n.id], kind))
        return [memo[a.id] is memo[b.id] for a, b in pairs]


def prove_all(prover, pairs):
    """-> list of (status, model, how)"""
    s = Sweep(prover)
    ok = s.run(pairs)
    bad = [p for p, k in zip(pairs, ok) if not k]
    out = []
    for (a, b), k in zip(pairs, ok):
        if k:
            how = 'syntactic' if s.local == 0 else 'sweep'
            out.append(('valid', None, how))
            prover.stats[how] = prover.stats.get(how, 0) + 1
            continue
        r = ('unknown', None, 'sweep')
        vs = E.variables([a, b])
        rng = random.Random(11)
        asgs = [{k: m.get(k, rng.getrandbits(v.w)) for k, v in vs.items()}
                for m in s.models] + \
            [{k: rng.getrandbits(v.w) for k, v in vs.items()}
             for _ in range(50)]
        for asg in asgs:
            x, y = solve.evaluate([a, b], asg)
            if x != y:
                r = ('invalid', asg, 'sweep')
                break
        out.append(r)
    return out
