"""Contracts of the memory functions: nsimd_aligned_alloc/free (src/memory.cpp),
the C++ wrappers, the allocator and modules/memory_management.hpp.

The functions of the C library they call are taken by contract: they are
replaced (by macros, in the translation unit that includes the real sources)
by functions that record their arguments and return either a given pointer or
a failure, arbitrarily.  `throw E` becomes "record it and leave the function"
(only functions returning a pointer throw)."""
from . import expr as E
from . import spec
from .driver import Unit
from .expr import const, and_, or_, not_
from .spec import Prob, bits
from .tet import TYPES

HEAD = r'''
#include <cstdlib>
#include <stdlib.h>
#include <malloc.h>
#include <cstring>
#include <string.h>
#include <cmath>
#include <cstdio>
#include <new>
#include <limits>
#include <vector>
#include <memory>
#include <iostream>
#include <stdexcept>
#include <algorithm>
#include <immintrin.h>
#include <cerrno>
#include <cassert>
#include <fenv.h>
#include <iomanip>
#include <string>
struct nv_state { long fail, calls, align, size, frees, copies, thrown, csize;
                  char *pool, *pool2; const void *freed, *dst, *src; };
static nv_state nv;
static int nv_memalign(void **p, size_t a, size_t n) {
  nv.calls++; nv.align = (long)a; nv.size = (long)n;
  if (nv.fail) return 12;
  *p = nv.pool; return 0; }
static void *nv_malloc(size_t n) {
  nv.calls++; nv.size = (long)n; return nv.fail ? 0 : nv.pool; }
static void *nv_calloc(size_t a, size_t b) {
  size_t n = a * b; if (b && n / b != a) return 0;
  nv.copies = 64; return nv_malloc(n); }
static void nv_free(void *p) { nv.frees++; nv.freed = p; }
static void *nv_memcpy(void *d, const void *s, size_t n) {
  nv.copies++; nv.dst = d; nv.src = s; nv.csize = (long)n;
#ifdef NV_NATIVE
  __builtin_memmove(d, s, n);
#endif
  return d; }
static void *nv_memset(void *d, int c, size_t n) {
  if (c == 0 && d == nv.pool && n == (size_t)nv.size) nv.copies = 64;
  return d; }
/* called natively, a copy is judged by what it did */
#ifdef NV_NATIVE
#define NV_SAVE char nv_old[64]; __builtin_memcpy(nv_old, pool, 64);
#define NV_COPIED(b) r[8] = r[9] = r[10] = 1; r[11] = (b) <= 64 && \
  !__builtin_memcmp(pool, pool2, (b)) && \
  !__builtin_memcmp(pool + (b), nv_old + (b), 64 - (b)) ? (long)(b) : -1;
#else
#define NV_SAVE
#define NV_COPIED(b)
#endif
namespace std { using ::nv_malloc; using ::nv_calloc; using ::nv_free;
  using ::nv_memcpy; using ::nv_memset; }
struct nv_thrower { template <typename T> operator T *() const { return 0; }
  template <typename T> nv_thrower &operator=(T const &) {
    nv.thrown++; return *this; } };
static nv_thrower nv_thrown;
#define posix_memalign nv_memalign
#define malloc nv_malloc
#define calloc nv_calloc
#define free nv_free
#define memcpy nv_memcpy
#define memmove nv_memcpy
#define memset nv_memset
#define throw return nv_thrown = (int)sizeof
#include <../src/memory.cpp>
#include <nsimd/nsimd-all.hpp>
#include <nsimd/modules/memory_management.hpp>
static void nv_set(char *pool, char *pool2, long fail) {
  nv.fail = fail; nv.pool = pool; nv.pool2 = pool2; nv.calls = 0;
  nv.align = 0; nv.size = 0; nv.frees = 0; nv.copies = 0; nv.thrown = 0;
  nv.csize = 0; nv.freed = 0; nv.dst = 0; nv.src = 0; }
static void nv_log(long *r, const void *p) {
  r[0] = nv.calls; r[1] = nv.align; r[2] = nv.size; r[3] = p == nv.pool;
  r[4] = p == 0; r[5] = nv.thrown; r[6] = nv.frees;
  r[7] = nv.freed == nv.pool; r[8] = nv.copies; r[9] = nv.dst == nv.pool;
  r[10] = nv.src == nv.pool2; r[11] = nv.csize; r[12] = nv.dst == nv.pool2;
  r[13] = nv.src == nv.pool; }
'''
F = ('calls', 'align', 'size', 'isres', 'null', 'thrown', 'frees', 'freed',
     'copies', 'dstp', 'csize_src', 'csize', 'dstq', 'srcp')


class Mem(object):
    def __init__(self, name, body, pre, post, native=None):
        self.name, self.pre, self.post = name, pre, post
        self.native = native
        self.ps = 'char *pool, char *pool2, unsigned long n, long fail, ' \
            'long *r'
        self.text = 'void w_%s(%s) { nv_set(pool, pool2, fail); %s }' % (
            name, self.ps, body)

    def canary(self):
        return 'void k_%s(%s) { w_%s(pool, pool2, n, fail, r); r[2]--; }' % (
            self.name, self.ps, self.name)

    def prob(self, fn=None):
        P = Prob(fn or 'w_' + self.name)
        P.op, P.t, P.o, P.ext = self.name, None, None, 'cpu'
        P.mem('pool', 64, 64, True)
        P.mem('pool2', 64, 64, True)
        n = P.val('n', 64, 'long')
        fail = P.val('fail', 64, 'long')
        P.out('r', 8 * len(F))
        P.pre = self.pre(n)
        P.max_blocks = 60
        if self.native is not None:
            P.replay_pre = [E.ule(n, const(self.native, 64))]

        def post(o):
            g = {f: E.ext(o['r'], 64 * i, 64) for i, f in enumerate(F)}
            return self.post(n, E.ne(fail, const(0, 64)), g)
        P.post = post
        return P


def is0(x):
    return E.eq(x, const(0, x.w))


def is1(x):
    return E.eq(x, const(1, x.w))


def upto(sz):
    return lambda n: [E.ule(n, const((1 << 62) // sz, 64))]


def result(fail, g):
    return [('one allocation', is1(g['calls'])),
            ('the pointer obtained is returned',
             or_(fail, is1(g['isres']))),
            ('null when there is no memory', or_(not_(fail), is1(g['null']))),
            ('nothing freed', is0(g['frees']))]


def aligned(g, al):
    a = g['align']
    return [('alignment', and_(is0(E.ext(a, 0, al.bit_length() - 1)),
                               not_(is0(a)),
                               is0(E.band(a, E.sub(a, const(1, 64))))))]


def enough(g, n, sz):
    return [('large enough', E.ule(E.mul(n, const(sz, 64)), g['size']))]


def fns(al, std):
    S = {t: bits(t) // 8 for t in TYPES}
    r = []

    def A(sz):
        return lambda n, fail, g: aligned(g, al) + enough(g, n, sz) + \
            result(fail, g) + [('nothing thrown', is0(g['thrown']))]
    L = 'nv_log(r, p);'
    r.append(Mem('alloc', 'void *p = nsimd_aligned_alloc((nsimd_nat)n); ' + L,
                 upto(1), A(1)))
    r.append(Mem('cxx_alloc', 'void *p = nsimd::aligned_alloc((nsimd_nat)n); '
                 + L, upto(1), A(1)))

    def freed(n, fail, g):
        return [('freed once', is1(g['frees'])),
                ('the pointer given', is1(g['freed'])),
                ('nothing allocated', is0(g['calls']))]
    for nm, c in (('free', 'nsimd_aligned_free(pool);'),
                  ('cxx_free', 'nsimd::aligned_free(pool);')):
        r.append(Mem(nm, c + ' nv_log(r, 0);', upto(1), freed))
    for t in TYPES:
        sz = S[t]
        r.append(Mem('alloc_for_' + t, '%s *p = nsimd::aligned_alloc_for<%s>('
                     '(nsimd_nat)n); ' % (t, t) + L, upto(sz), A(sz)))
        r.append(Mem('free_for_' + t, 'nsimd::aligned_free_for<%s>(pool); '
                     'nv_log(r, 0);' % t, upto(1), freed))

        def allocate(n, fail, g, sz=sz):
            # any n: an exception or the room for n elements
            big = E.ult(const(((1 << 64) - 1) // sz, 64), n)
            bad = or_(fail, big)
            return [('too many elements', or_(not_(big), is1(g['thrown']))),
                    ('no memory', or_(not_(bad), is1(g['thrown']))),
                    ('no exception otherwise',
                     or_(bad, is0(g['thrown']))),
                    ('large enough', or_(bad, *[c for _, c in
                                                enough(g, n, sz)])),
                    ('alignment', or_(bad, *[c for _, c in aligned(g, al)])),
                    ('the pointer obtained is returned',
                     or_(bad, is1(g['isres']))),
                    ('nothing freed', is0(g['frees']))]
        r.append(Mem('allocate_' + t, 'nsimd::allocator<%s> a; %s *p = '
                     'a.allocate((size_t)n); ' % (t, t) + L,
                     lambda n: [], allocate))
        r.append(Mem('deallocate_' + t, 'nsimd::allocator<%s> a; '
                     'a.deallocate((%s *)pool, (size_t)n); nv_log(r, 0);' % (
                         t, t), upto(1), freed))
        for f in ('malloc', 'calloc'):
            zero = f == 'calloc'

            def dev(n, fail, g, sz=sz, zero=zero):
                return enough(g, n, sz) + result(fail, g) + \
                    [('zeroed', E.eq(g['copies'],
                                     const(64 if zero else 0, 64)))]
            r.append(Mem('device_%s_%s' % (f, t), '%s *p = nsimd::device_%s<'
                         '%s>((size_t)n); ' % (t, f, t) + L, upto(sz), dev))

            def pair(n, fail, g, sz=sz, dev=dev):
                return dev(n, fail, g) + [
                    ('size', E.eq(g['csize'], n)),
                    ('both pointers', is1(g['dstq']))]
            r.append(Mem('pair_%s_%s' % (f, t), 'nsimd::paired_pointers_t<%s> '
                         'q = nsimd::pair_%s<%s>((size_t)n); %s *p = '
                         'q.device_ptr; %s r[11] = (long)q.sz; r[12] = '
                         'q.host_ptr == p;' % (t, f, t, t, L), upto(sz),
                         pair))
        r.append(Mem('device_free_' + t, 'nsimd::device_free<%s>((%s *)pool); '
                     'nv_log(r, 0);' % (t, t), upto(1), freed))
        r.append(Mem('pair_free_' + t, 'nsimd::paired_pointers_t<%s> q; '
                     'q.device_ptr = q.host_ptr = (%s *)pool; q.sz = n; '
                     'nsimd::pair_free(q); nv_log(r, 0);' % (t, t), upto(1),
                     freed))

        def copy(n, fail, g, sz=sz):
            return [('one copy', is1(g['copies'])),
                    ('destination', is1(g['dstp'])),
                    ('source', is1(g['csize_src'])),
                    ('bytes', E.eq(g['csize'], E.mul(n, const(sz, 64))))]
        for f in ('device', 'host'):
            r.append(Mem('copy_to_%s_%s' % (f, t), 'NV_SAVE nsimd::copy_to_%s<'
                         '%s>((%s *)pool, (%s *)pool2, (size_t)n); '
                         'nv_log(r, 0); NV_COPIED(n * %d)' % (f, t, t, t, sz),
                         upto(sz), copy, 64 // sz))
    if std == 'c++98':
        r = [f for f in r if 'allocate_' in f.name or f.name == 'alloc']
    return r


def unit(key, x, al, std=None):
    fs = fns(al, std)
    text = HEAD + '\nextern "C" {\n' + '\n'.join(f.text for f in fs) + '\n' + \
        fs[0].canary() + '\n}\n'
    return Unit(key, x, text, spec.FLAGS[x], [(f.name, f.prob) for f in fs],
                std=std, canaries=[('k_alloc', lambda: fs[0].prob('k_alloc'))],
                extra_src=('fp16.cpp',))


def alloc_units(tier):
    us = [unit('alloc-%s' % x, x, 64 if x != 'cpu' else 16)
          for x in ('sse2', 'avx2', 'avx512_skylake', 'cpu')]
    us.append(unit('alloc98', 'sse2', 64, 'c++98'))
    return us
