"""Contracts of the random module: Philox and Threefry of Salmon, Moraes, Dror
and Shaw (SC 2011), for every counter and every key, lane by lane."""
from . import expr as E
from . import spec
from .expr import const, ext, cat
from .spec import Prob
from .driver import Unit


def xor(a, b):
    return E.mkbin('xor', a, b)


PHILOX = {32: {2: [10], 4: [7, 10]}, 64: {2: [6, 10], 4: [7, 10]}}
THREEFRY = {32: {2: [12, 20, 32], 4: [12, 20, 72]},
            64: {2: [13, 20, 32], 4: [12, 20, 72]}}
MUL = {(2, 32): [0xD256D193], (2, 64): [0xD2B74407B1CE6E93],
       (4, 32): [0xD2511F53, 0xCD9E8D57],
       (4, 64): [0xD2E7470EE14C6C93, 0xCA5A826395121157]}
WEYL = {32: [0x9E3779B9, 0xBB67AE85],
        64: [0x9E3779B97F4A7C15, 0xBB67AE8584CAA73B]}
PARITY = {32: 0x1BD11BDA, 64: 0x1BD11BDAA9FC1A22}
ROT = {(32, 2): [13, 15, 26, 6, 17, 29, 16, 24],
       (64, 2): [16, 42, 12, 31, 16, 32, 24, 21],
       (32, 4): [(10, 26), (11, 21), (13, 27), (23, 5), (6, 20), (17, 11),
                 (25, 10), (18, 20)],
       (64, 4): [(14, 16), (52, 57), (23, 40), (5, 37), (25, 33), (46, 12),
                 (58, 22), (32, 32)]}


def philox(w, n, rounds, ctr, key):
    x, k = list(ctr), list(key)

    def mulhilo(c, v):
        p = E.mul(const(c, 2 * w), E.zx(v, 2 * w))
        return ext(p, w, w), ext(p, 0, w)
    for r in range(rounds):
        if r:
            k = [E.add(y, const(c, w)) for y, c in zip(k, WEYL[w])]
        if n == 2:
            hi, lo = mulhilo(MUL[2, w][0], x[0])
            x = [xor(xor(hi, k[0]), x[1]), lo]
        else:
            h0, l0 = mulhilo(MUL[4, w][0], x[0])
            h1, l1 = mulhilo(MUL[4, w][1], x[2])
            x = [xor(xor(h1, k[0]), x[1]), l1,
                 xor(xor(h0, k[1]), x[3]), l0]
    return x


def rotl(x, k):
    return cat([ext(x, x.w - k, k), ext(x, 0, x.w - k)])


def threefry(w, n, rounds, ctr, key):
    ks = list(key)
    p = const(PARITY[w], w)
    for k in key:
        p = xor(p, k)
    ks.append(p)
    x = [E.add(a, b) for a, b in zip(ctr, key)]
    for r in range(rounds):
        R = ROT[w, n][r % 8]
        if n == 2:
            x[0] = E.add(x[0], x[1])
            x[1] = xor(rotl(x[1], R), x[0])
        else:
            i, j = (1, 3) if r % 2 == 0 else (3, 1)
            x[0] = E.add(x[0], x[i])
            x[i] = xor(rotl(x[i], R[0]), x[0])
            x[2] = E.add(x[2], x[j])
            x[j] = xor(rotl(x[j], R[1]), x[2])
        if r % 4 == 3:
            d = r // 4 + 1
            x = [E.add(v, ks[(d + q) % (n + 1)]) for q, v in enumerate(x)]
            x[-1] = E.add(x[-1], const(d, w))
    return x


class Rng(object):
    def __init__(self, alg, w, n, rounds, x):
        self.alg, self.w, self.n, self.rounds, self.x = alg, w, n, rounds, x
        self.nk = n // 2 if alg == 'philox' else n
        self.name = '%s_%dx%d_%d' % (alg, n, w, rounds)
        t = 'u%d' % w
        self.len = spec.nlanes(x, t)
        pk = lambda m: ('nsimd::pack<%s>' if m == 1 else 'nsimd::packx%d<%%s>'
                        % m) % t
        kt = 'nsimd::packx%d<%s>' % (self.nk, t)
        b = '%s i_; %s k_;' % (pk(n), kt)
        for j in range(n):
            b += ' i_.v%d = nsimd::loadu<nsimd::pack<%s> >(c + %d);' % (
                j, t, j * self.len)
        for j in range(self.nk):
            b += ' k_.v%d = nsimd::loadu<nsimd::pack<%s> >(k + %d);' % (
                j, t, j * self.len)
        b += ' %s r_ = nsimd::random::%s(i_, k_);' % (pk(n), self.name)
        for j in range(n):
            b += ' nsimd::storeu(r + %d, r_.v%d);' % (j * self.len, j)
        self.text = 'void w_%s(const %s *c, const %s *k, %s *r) { %s }' % (
            self.name, t, t, t, b)

    def canary(self):
        t = 'u%d' % self.w
        return 'void k_%s(const %s *c, const %s *k, %s *r) { w_%s(c, k, r); ' \
            'r[1] ^= 1; }' % (self.name, t, t, t, self.name)

    def prob(self, fn=None):
        P = Prob(fn or 'w_' + self.name)
        P.op, P.t, P.o, P.ext = self.name, None, None, self.x
        w, L = self.w, self.len
        c = [[E.var('c%d_%d' % (j, l), w) for l in range(L)]
             for j in range(self.n)]
        k = [[E.var('k%d_%d' % (j, l), w) for l in range(L)]
             for j in range(self.nk)]
        P.inp('c', cat([v for r in c for v in r]), align=w // 8)
        P.inp('k', cat([v for r in k for v in r]), align=w // 8)
        P.out('r', L * w // 8 * self.n)
        f = philox if self.alg == 'philox' else threefry
        E.LANE[0] = w
        try:
            exp = [f(w, self.n, self.rounds, [r[l] for r in c],
                     [r[l] for r in k]) for l in range(L)]
        finally:
            E.LANE[0] = 0

        def pairs(o):
            return [('word %d lane %d' % (j, l),
                     ext(o['r'], (j * L + l) * w, w), exp[l][j])
                    for j in range(self.n) for l in range(L)]
        P.pairs = pairs
        P.lane = w
        P.post = lambda o: [(lab, E.eq(a, b)) for lab, a, b in pairs(o)]
        return P


def rng_units(tier):
    us = []
    th = tier == 'thorough'
    exts = ('cpu', 'sse2', 'sse42', 'avx', 'avx2', 'avx512_knl',
            'avx512_skylake') if th else ('cpu', 'sse42', 'avx2',
                                          'avx512_skylake')
    for x in exts:
        for alg, tab in (('philox', PHILOX), ('threefry', THREEFRY)):
            for w in (32, 64):
                fs = [Rng(alg, w, n, r, x) for n in tab[w]
                      for r in tab[w][n]]
                text = '#include <nsimd/nsimd-all.hpp>\n' \
                    '#include <nsimd/modules/random/functions.hpp>\n' \
                    'extern "C" {\n' + '\n'.join(f.text for f in fs) + \
                    '\n' + fs[0].canary() + '\n}\n'
                us.append(Unit(
                    'rng-%s-%s%d' % (x, alg, w), x, text, spec.FLAGS[x],
                    [(f.name, f.prob) for f in fs], canaries=[
                        ('k_' + fs[0].name,
                         lambda f=fs[0]: f.prob('k_' + f.name))]))
    return us
