"""Replay on the real code: the same wrapper is compiled natively and called
with concrete inputs; the contract is then evaluated on what it did."""
import ctypes
import mmap
import os
import pickle
import random
import re
import select
import signal
import subprocess
import time
from . import build
from . import expr as E
from . import spec
from .solve import evaluate, samples

PAGE = 4096
libc = ctypes.CDLL(None, use_errno=True)
libc.mprotect.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]
ARENA = 1 << 20          # bytes each side of an unbounded region


def cpu_flags():
    try:
        with open('/proc/cpuinfo') as f:
            for l in f:
                if l.startswith('flags'):
                    return set(l.split(':')[1].split())
    except OSError:
        pass
    return set()


NEED = {'avx': ['avx'], 'avx2': ['avx2', 'fma', 'f16c'],
        'avx512_knl': ['avx512f'],
        'avx512_skylake': ['avx512f', 'avx512dq', 'avx512bw', 'avx512vl'],
        'sse42': ['sse4_2']}


def runnable(x):
    if x in spec.CROSS:
        return False
    f = cpu_flags()
    return all(k in f for k in NEED.get(x, []))


def compile_so(name, text, flags, std=None, incs=(),
               extra_src=('fp16.cpp',), cxx='g++', opt='-O2'):
    d = build.generate()
    cpp = os.path.join(build.scratch(), name + '.n.cpp')
    so = os.path.join(build.scratch(), name + '.so')
    with open(cpp, 'w') as f:
        f.write(text)
    c = bool(std) and not std.startswith('c++')
    if c:
        # the wrappers are C: compile them apart, link with the C++ sources
        o = os.path.join(build.scratch(), name + '.n.o')
        build.run(['gcc', '-w', '-x', 'c', '-std=' + std, opt, '-fPIC', '-c',
                   '-ffp-contract=off', '-DNDEBUG',
                   '-DNV_NATIVE'] + flags.split() +
                  list(incs) + ['-I' + os.path.join(d, 'include'), cpp, '-o',
                                o])
        cpp, std = o, None
    build.run([cxx, '-w', '-std=' + (std or 'c++11'), opt, '-fPIC',
               '-shared', '-ffp-contract=off', '-DNDEBUG',
                   '-DNV_NATIVE'] + flags.split() +
              list(incs) + ['-I' + os.path.join(d, 'include'), cpp] +
              [os.path.join(build.src_dir(), s) for s in
               extra_src] + ['-o', so])
    return so


class Buf(object):
    """bytes placed against unmapped pages"""

    def __init__(self, size, align, mode, valid=None):
        n = max(1, (size + PAGE - 1) // PAGE)
        if mode == 'mis':
            n = max(1, (size + 64 + PAGE - 1) // PAGE)
        tot = (n + 2) * PAGE
        self.m = mmap.mmap(-1, tot)
        base = ctypes.addressof(ctypes.c_char.from_buffer(self.m))
        libc.mprotect(base, PAGE, 0)
        libc.mprotect(base + (n + 1) * PAGE, PAGE, 0)
        self.size = size
        eff = size
        self.off = 0
        # a masked access: inaccessible tail goes beyond the mapping
        if valid is not None and mode == 'end':
            k = size
            while k and not valid[k - 1]:
                k -= 1
            eff = k
        elif valid is not None:
            k = 0
            while k < size and not valid[k]:
                k += 1
            self.off = k
        if mode == 'mis':
            # no better aligned than required
            a = base + PAGE + (align if align < 64 else 0)
            self.off = 0
        elif mode == 'end':
            a = base + (n + 1) * PAGE - eff
            a -= a % align
            if a < base + PAGE:
                a = base + PAGE
        else:
            a = base + PAGE - self.off
            r = (-a) % align
            if r:
                a += r
        self.addr = a
        self.lo = max(a, base + PAGE)
        self.hi = min(a + size, base + (n + 1) * PAGE)

    def write(self, data):
        ctypes.memmove(self.lo, data[self.lo - self.addr:
                                     self.hi - self.addr], self.hi - self.lo)

    def read(self):
        b = ctypes.string_at(self.lo, self.hi - self.lo)
        return b'\0' * (self.lo - self.addr) + b + \
            b'\0' * (self.addr + self.size - self.hi)


def natural(size):
    a = 1
    while a < 64 and size % (a * 2) == 0:
        a *= 2
    return a


def child(so, fn, trials, wr):
    lib = ctypes.CDLL(so)
    f = getattr(lib, fn)
    for i, (mode, params) in enumerate(trials):
        args, bufs = [], {}
        types = []
        for p in params:
            k = p[0]
            if k == 'val':
                v = p[2]
                types.append({8: ctypes.c_uint8, 16: ctypes.c_uint16,
                              32: ctypes.c_uint32,
                              64: ctypes.c_uint64}[p[3]])
                args.append(v)
                continue
            if k == 'umem':
                b = Buf(2 * ARENA, 64, 'start')
                b.write(p[2])
                bufs[p[1]] = b
                types.append(ctypes.c_void_p)
                args.append(b.addr + ARENA)
                continue
            _, name, data, align, valid = p
            b = Buf(len(data), min(align, natural(len(data)))
                    if k != 'mem' else align,
                    mode if k == 'mem' or mode != 'mis' else 'start', valid)
            b.write(data)
            bufs[name] = b
            types.append(ctypes.c_void_p)
            args.append(b.addr)
        f.argtypes = types
        f.restype = None
        os.write(wr, b'S')
        f(*args)
        out = pickle.dumps({n: b.read() for n, b in bufs.items()})
        os.write(wr, b'R' + len(out).to_bytes(4, 'little'))
        pos = 0
        while pos < len(out):
            pos += os.write(wr, out[pos:])


def run_trials(so, fn, trials, tmo=60):
    """-> list of (dict of final bytes) or ('signal', n) for the one that
    stopped the run"""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            dn = os.open('/dev/null', os.O_WRONLY)
            os.dup2(dn, 2)
            child(so, fn, trials, wr)
            os._exit(0)
        except BaseException:
            os._exit(77)
    os.close(wr)
    buf = bytearray()
    end = time.time() + tmo
    while True:
        r, _, _ = select.select([rd], [], [], max(0, end - time.time()))
        if not r:
            os.kill(pid, signal.SIGKILL)
            break
        d = os.read(rd, 1 << 16)
        if not d:
            break
        buf += d
    os.close(rd)
    _, st = os.waitpid(pid, 0)
    out = []
    pos = 0
    pend = False
    while pos < len(buf):
        if buf[pos:pos + 1] == b'S':
            pend = True
            pos += 1
            continue
        n = int.from_bytes(buf[pos + 1:pos + 5], 'little')
        if pos + 5 + n > len(buf):
            break
        out.append(pickle.loads(bytes(buf[pos + 5:pos + 5 + n])))
        pend = False
        pos += 5 + n
    if pend and len(out) < len(trials):
        if os.WIFSIGNALED(st):
            out.append(('signal', os.WTERMSIG(st)))
        else:
            out.append(('exit', os.WEXITSTATUS(st)))
    return out


def arena(seed):
    return random.Random(seed).randbytes(2 * ARENA)


def images(P, asg, seed=1):
    """concrete parameters of one call"""
    ps = []
    for p in P.params:
        k = p['kind']
        if k == 'val':
            v = evaluate([p['node']], asg)[0]
            ps.append(('val', p['name'], v, max(8, p['node'].w)))
        elif k == 'umem':
            ps.append(('umem', p['name'], arena(seed)))
        elif k == 'out':
            ps.append(('out', p['name'], b'\xa5' * p['size'],
                       natural(p['size']), None))
        else:
            v = evaluate([p['node']], asg)[0]
            data = v.to_bytes(p['size'], 'little')
            valid = None
            if p.get('valid'):
                valid = evaluate(list(p['valid']), asg)
                data = bytes(b if g else 0x5a for b, g in zip(data, valid))
            ps.append((k, p['name'], data, p.get('align', 64), valid))
    return ps


def fill(P, asg):
    """values of every variable of the contract (missing ones: 0)"""
    return asg


def judge(P, asg, params, res):
    """evaluate the contract on the observed outcome -> list of failed labels"""
    if isinstance(res, tuple):
        return ['%s %d' % res]
    o = {}
    for p in P.params:
        n = p['name']
        if p['kind'] in ('out', 'mem'):
            o[n] = E.const(int.from_bytes(res[n], 'little'), 8 * p['size'])
        elif p['kind'] == 'umem':
            ini = [q for q in params if q[1] == n][0][2]
            fin = res[n]

            def rd(data):
                def f(off, sz):
                    v = E.sgn(evaluate([off], asg)[0], 64) + ARENA
                    return E.const(int.from_bytes(data[v:v + sz], 'little'),
                                   8 * sz)
                return f
            o['init:' + n] = rd(ini)
            o['final:' + n] = rd(fin)
    posts = P.post(o)
    vals = evaluate([c for _, c in posts], asg)
    bad = ['ensures ' + l for (l, _), v in zip(posts, vals) if not v]
    # frame: read-only parameters unchanged, inactive bytes unchanged
    for p, q in zip(P.params, params):
        if p['kind'] in ('in',) and res[p['name']] != q[2]:
            bad.append('frame: input %s modified' % p['name'])
        if p['kind'] == 'mem' and q[4] is not None and p['writable']:
            for i, (g, b) in enumerate(zip(q[4], q[2])):
                r = res[p['name']][i]
                if not g and r != b and r != 0:
                    bad.append('frame: byte %d of %s written' % (i, p['name']))
                    break
    if getattr(P, 'frame', None):
        bad += P.frame(asg, params, res)
    um = [p for p in P.params if p['kind'] == 'umem' and p['writable']]
    for p in um:
        if p.get('access'):
            offs, sz = p['access']
            ini = [q for q in params if q[1] == p['name']][0][2]
            fin = bytearray(res[p['name']])
            for f in evaluate(offs, asg):
                v = E.sgn(f, 64) + ARENA
                fin[v:v + sz] = ini[v:v + sz]
            if bytes(fin) != ini:
                bad.append('frame: memory outside the addressed elements '
                           'written')
    return bad


def pre_ok(P, asg):
    return all(evaluate(list(P.pre) + list(P.replay_pre), asg))


def all_vars(P):
    nodes = list(P.pre)
    for p in P.params:
        if p.get('node') is not None:
            nodes.append(p['node'])
        for v in p.get('valid') or ():
            nodes.append(v)
    return E.variables(nodes)


def random_asg(P, vs, rng, special=None):
    for _ in range(60):
        uni = rng.random() < 0.15
        asg = {}
        one = {}
        for k, v in vs.items():
            if uni:
                asg[k] = one.setdefault(v.w, samples(v.w, rng))
            else:
                asg[k] = samples(v.w, rng)
        if special:
            special(asg, rng)
        if pre_ok(P, asg):
            return asg
    return repair(P, vs, asg)


_prover = []


def repair(P, vs, asg):
    """adjust lanes until the precondition holds, conjunct by conjunct"""
    rng = random.Random(7)
    for _ in range(40):
        pre = list(P.pre) + list(P.replay_pre)
        vals = evaluate(pre, asg)
        bad = [c for c, v in zip(pre, vals) if not v]
        if not bad:
            return asg
        for c in bad:
            cv = E.variables([c])
            for _ in range(30):
                for k, v in cv.items():
                    asg[k] = samples(v.w, rng)
                if evaluate([c], asg)[0]:
                    break
    if not _prover:
        from .solve import Prover
        _prover.append(Prover(5000, 5000))
    m = _prover[0].model_of(list(P.pre) + list(P.replay_pre))
    if m is not None:
        out = dict(asg)
        out.update(m)
        return out
    return None


def mask_special(P):
    """for masked accesses: prefixes and suffixes so that inactive lanes can
    be put on unmapped pages"""
    ms = []
    for p in P.params:
        if p.get('valid'):
            seen = []
            for v in p['valid']:
                if v.op == 'v' and v.v not in seen:
                    seen.append(v.v)
            ms = seen
    if not ms:
        return None

    def f(asg, rng):
        k = rng.randrange(len(ms) + 1)
        r = rng.random()
        for i, n in enumerate(ms):
            if r < 0.4:
                asg[n] = int(i < k)
            elif r < 0.8:
                asg[n] = int(i >= k)
    return f


def attempt(P, so, asgs, seed=1, tmo=60):
    """run each assignment with both placements
    -> (index, asg, params, labels, observed) of the first failure, or None;
    second result: number of calls made"""
    trials, meta = [], []
    for i, a in enumerate(asgs):
        ps = images(P, a, seed)
        for mode in ('end', 'start', 'mis'):
            trials.append((mode, ps))
            meta.append((i, a, ps, mode))
    n = 0
    pos = 0
    while pos < len(trials):
        res = run_trials(so, P.fn, trials[pos:pos + 64], tmo)
        if not res:
            return None, n
        for r, (i, a, ps, mode) in zip(res, meta[pos:]):
            n += 1
            if isinstance(r, tuple) and (r == ('signal', signal.SIGILL) or
                                         r[0] == 'exit'):
                return None, n - 1      # cannot run here
            bad = judge(P, a, ps, r)
            if bad:
                return (i, a, ps, bad, r, mode), n
        if len(res) < len(trials[pos:pos + 64]):
            return None, n
        pos += 64
    return None, n


def campaign(P, so, count, seed, budget=60.0):
    """bounded check: boundary-biased random calls
    -> (failure or None, calls)"""
    rng = random.Random(seed)
    vs = all_vars(P)
    sp = mask_special(P)
    t0 = time.time()
    tot = 0
    done = 0
    while done < count and time.time() - t0 < budget:
        asgs = []
        for _ in range(min(32, count - done)):
            a = random_asg(P, vs, rng, sp)
            if a is not None:
                asgs.append(a)
        if not asgs:
            break
        f, n = attempt(P, so, asgs, seed)
        tot += n
        done += len(asgs)
        if f is not None:
            return f, tot
        if n == 0:
            break
    return None, tot
