"""Runs the functions under contract of one property and reports."""
import fcntl
import hashlib
import json
import multiprocessing as mp
import os
import re
import sys
import time
import traceback
from . import build
from . import core
from . import expr as E
from . import native
from . import solve
from . import spec

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Unit(object):
    """one translation unit with functions under contract"""

    def __init__(self, key, ext, text, flags, probs, std=None, incs=(),
                 canaries=(), extra_src=('fp16.cpp',), hook=None, passes=None,
                 pre_check=None, opts=None):
        self.key = key
        self.ext = ext
        self.text = text
        self.flags = flags
        self.probs = probs            # [(name, factory)]
        self.std = std
        self.incs = list(incs)
        self.canaries = list(canaries)   # [(name, factory)] must be refuted
        self.extra_src = extra_src
        self.hook = hook
        self.passes = passes
        self.pre_check = pre_check
        self.opts = opts
        self.weight = len(probs)


class Opts(object):
    def __init__(self, tier):
        self.tier = tier
        th = tier == 'thorough'
        self.tmo = 60000 if th else 10000
        self.xtmo = 120000 if th else 20000
        self.campaign = 1500 if th else 250
        self.cross = 40 if th else 0      # native cross-check calls per fn
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.split_s = 900 if th else 240
        # time budget: past `soft` functions are only called natively, past
        # `hard` not at all (reported); one function gets fn_s
        self.t0 = time.time()
        self.soft = self.t0 + (1e6 if th else 480)
        self.hard = self.t0 + (1e6 if th else 640)
        self.fn_s = 3600 if th else 200
        self.pid = None


class CheckError(Exception):
    pass


def so_for(u, cache, opt='-O2'):
    k = 'so' + opt
    if k not in cache:
        try:
            cache[k] = native.compile_so(
                'n_' + re.sub(r'\W', '_', u.key + opt), u.text, u.flags,
                u.std, u.incs, u.extra_src, opt=opt)
        except build.BuildError as e:
            cache[k] = None
            cache['err'] = str(e)
    return cache[k]


def describe(P, asg, fail):
    i, a, ps, bad, obs, mode = fail
    ins = {}
    for p in ps:
        if p[0] == 'val':
            ins[p[1]] = {'value': p[2], 'bits': p[3]}
        elif p[0] == 'umem':
            ins[p[1]] = 'arena (seeded bytes)'
        elif p[0] != 'out':
            ins[p[1]] = {'bytes': p[2].hex()}
    out = {}
    if isinstance(obs, tuple):
        out['crash'] = '%s %d' % obs
    else:
        for p in P.params:
            if p['kind'] == 'out' or (p['kind'] == 'mem' and p['writable']):
                out[p['name']] = obs[p['name']].hex()
    return {'inputs': ins, 'observed': out, 'placement': mode,
            'violated': bad[:8], 'assignment': {k: hex(v) for k, v in
                                                sorted(a.items())[:600]}}


def instances(P, so, n, seed):
    """native calls on arrays of fixed sizes; (fail, instance), calls"""
    tot = 0
    ps = P.instances()
    for Q in ps:
        f, k = native.campaign(Q, so, max(4, n // len(ps)), seed, 10.0)
        tot += k
        if f is not None:
            return tuple(f) + (Q,), tot
    return None, tot


def run_one(u, mod, name, fac, prover, opts, cache, canary=False):
    E.reset()
    P = fac()
    d = {'fn': name, 'ext': u.ext, 'unit': u.key, 'symbol': P.fn}
    if P.instances:
        Q = P.instances()[3]
        a = native.random_asg(Q, native.all_vars(Q), native.random.Random(5))
        d['pre_sat'] = a is not None and native.pre_ok(Q, a)
    elif not canary and (P.pre or P.replay_pre):
        rng = native.random.Random(5)
        a = native.random_asg(P, native.all_vars(P), rng)
        d['pre_sat'] = a is not None and native.pre_ok(P, a)
        if not d['pre_sat']:
            m = prover.model_of(list(P.pre))
            d['pre_sat'] = m is not None
    now = time.time()
    prover.deadline = min(now + opts.fn_s, opts.soft)
    if canary:
        prover.deadline = now + 60
    if now > opts.soft and not canary:
        R = core.Result(P)
        R.status, R.detail = 'unknown', 'time budget'
    else:
        R = core.check(mod, P, prover, hook=u.hook, opts=u.opts)
    late = time.time() > opts.soft
    d.update(status=R.status, obls=R.obls, discharged=R.discharged,
             detail=R.detail[:300], callees=len(R.inlined), t=R.t,
             applied=R.applied,
             failed=[f[0] for f in R.failed[:8]],
             unknown=[list(q) for q in R.unknown[:8]])
    if canary:
        if R.status == 'violated' and native.runnable(u.ext):
            so = so_for(u, cache)
            if so and P.instances:
                d['replayed'] = instances(P, so, opts.campaign,
                                          opts.seed)[0] is not None
            elif so:
                for lab, model, how in R.failed[:4]:
                    if model is None or not native.pre_ok(P, model):
                        continue
                    f, n = native.attempt(P, so, [model], opts.seed)
                    if f is not None:
                        d['replayed'] = True
                        break
        return d
    if R.status == 'violated':
        d['solver'] = R.failed[0][2]
        d['model'] = {k: hex(v) for k, v in
                      sorted((R.failed[0][1] or {}).items())[:200]}
    if R.status in ('violated', 'unknown', 'unsupported'):
        fail, n = None, 0
        d['calls'] = 0
        if time.time() > opts.hard or halted():
            d['skipped'] = True
        elif native.runnable(u.ext):
            so = so_for(u, cache)
            if so:
                ms = []
                if P.instances:
                    fail, n = instances(P, so, opts.campaign, opts.seed)
                    d['calls'] += n
                for lab, model, how in R.failed[:6]:
                    if model is not None:
                        try:
                            if native.pre_ok(P, model):
                                ms.append(model)
                        except Exception:
                            pass
                if ms:
                    fail, n = native.attempt(P, so, ms, opts.seed)
                    d['calls'] += n
                if fail is None and not P.instances:
                    fail, n = native.campaign(
                        P, so, 32 if late else opts.campaign, opts.seed,
                        8.0 if late else 60.0)
                    d['calls'] += n
                if fail is None and ms:
                    # optimisations may hide e.g. an aligned access
                    so = so_for(u, cache, '-O0')
                    if so:
                        fail, n = native.attempt(P, so, ms, opts.seed)
                        d['calls'] += n
            else:
                d['detail'] += ' native build failed: ' + \
                    cache.get('err', '')[-300:]
        if fail is not None:
            d['status'] = 'violated'
            d['confirmed'] = True
            d['replay'] = describe(fail[6] if len(fail) > 6 else P, None,
                                   fail[:6])
        elif R.status == 'violated':
            d['confirmed'] = False
        else:
            d['bounded_calls'] = d['calls']
    elif opts.cross and native.runnable(u.ext):
        so = so_for(u, cache)
        if so:
            fail, n = instances(P, so, opts.cross, opts.seed) \
                if P.instances else \
                native.campaign(P, so, opts.cross, opts.seed, 20.0)
            d['calls'] = n
            if fail is not None:
                d['status'] = 'violated'
                d['confirmed'] = True
                d['cross'] = True
                d['failed'] = fail[3]
                d['replay'] = describe(fail[6] if len(fail) > 6 else P, None,
                                       fail[:6])
    return d


def run_unit(u, opts):
    t0 = time.time()
    res = {'unit': u.key, 'ext': u.ext, 'fns': [], 'canaries': [],
           'error': None}
    cache = {}
    try:
        if u.pre_check:
            u.pre_check()
        mod = build.compile_ir('u_' + re.sub(r'\W', '_', u.key), u.text,
                               u.flags, u.std, u.incs, u.passes)
        prover = solve.Prover(opts.tmo, opts.xtmo, opts.seed)
        prover.split_s = opts.split_s
        prover.stop = halted
        for name, fac in u.probs:
            if halted():
                break
            f = run_one(u, mod, name, fac, prover, opts, cache)
            res['fns'].append(f)
            if f['status'] == 'violated' and f.get('confirmed') and \
                    known_hit(opts.pid, f) is None:
                with _halt.get_lock():
                    _halt[0] += 1
                    if not _halt[1]:
                        _halt[1] = time.time()
        for name, fac in u.canaries:
            if halted():
                break
            res['canaries'].append(run_one(u, mod, name, fac, prover, opts,
                                           cache, canary=True))
        res['stats'] = prover.stats
        res['solver_s'] = prover.solver_s
    except build.BuildError as e:
        res['error'] = 'build: ' + str(e)[-1500:]
    except Exception:
        res['error'] = traceback.format_exc()[-3000:]
    res['t'] = time.time() - t0
    return res


_units = []
_opts = [None]
_halt = mp.Array('d', 2)    # confirmed violations, time of the first


def halted():
    """the verdict is known: three violations reproduced, or one and a
    minute spent on others"""
    return _halt[0] >= 3 or _halt[0] and time.time() - _halt[1] > 60


def known_hit(pid, f):
    for k in known_findings().get('findings', []):
        if k['property'] == pid and k['ext'] in ('*', f['ext']) and \
                re.fullmatch(k['fn'], f['fn']) and \
                all(any(re.search(q, l) for q in k['obligations'])
                    for l in f['failed']):
            return k
    return None


def _work(i):
    return run_unit(_units[i], _opts[0])


def run_units(units, opts, jobs=8):
    build.generate()
    _units[:] = units
    _opts[0] = opts
    order = sorted(range(len(units)), key=lambda i: -units[i].weight)
    if jobs == 1 or len(units) == 1:
        out = [_work(i) for i in order]
    else:
        with mp.get_context('fork').Pool(min(jobs, len(units)),
                                         maxtasksperchild=1) as pool:
            out = pool.map(_work, order, chunksize=1)
    return out


def known_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    try:
        with open(p) as f:
            return json.load(f)
    except OSError:
        return {'findings': [], 'fixed': []}


TRUSTED = [
    'clang 18 front end (the code is verified as the LLVM IR clang emits for '
    'it at -O0-equivalent, after always-inline, sroa and simplifycfg)',
    'the verifier in /verif/nv (IR semantics, symbolic execution, rewriting)',
    'semantics of the x86 vector intrinsics as written in nv/intr.py',
    'semantics of the Arm and POWER vector intrinsics as written in nv/arm.py '
    'and nv/ppc.py (from the manuals, not validated by execution)',
    'z3 4.x (QF_UFBV, QF_BV and QF_FP), cvc5 for bit-vector obligations z3 '
    'leaves undecided',
]
ASSUMED = [
    'binary32/binary64 arithmetic is IEEE-754 with round-to-nearest-even; NaN '
    'payloads are not distinguished',
    'signed integer overflow wraps (the suite is compiled without '
    'optimisation-dependent behaviour in the verified IR)',
    'generated headers are those produced by egg/hatch.py from the current '
    'tree, run in a scratch copy',
]


def report(pid, level, units, opts, extra_assume=(), extra_cov=None,
           t0=None, jobs=8):
    t0 = t0 or time.time()
    opts.pid = pid
    results = run_units(units, opts, jobs)
    fns = [f for r in results for f in r['fns']]
    errs = [(r['unit'], r['error']) for r in results if r['error']]
    cans = [c for r in results for c in r['canaries']]
    stats = {}
    for r in results:
        for k, v in (r.get('stats') or {}).items():
            stats[k] = stats.get(k, 0) + v
    lines, viol, known = [], [], []
    for f in fns:
        if f['status'] != 'violated':
            continue
        hit = known_hit(pid, f)
        if hit:
            known.append((hit, f))
        else:
            viol.append(f)
    rdir = os.path.join(VERIF, 'replay')
    printed = 0
    for f in sorted(viol, key=lambda f: not f.get('confirmed')):
        if printed >= 12:
            break
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s-%s-%s.json' % (
            pid, f['ext'], re.sub(r'\W', '_', f['fn'])))
        u = [x for x in units if x.key == f['unit']][0]
        with open(path, 'w') as o:
            json.dump({'property': pid, 'function': f['fn'], 'ext': f['ext'],
                       'wrapper': f['symbol'], 'flags': u.flags,
                       'failed_obligations': f['failed'],
                       'solver': f.get('solver'), 'model': f.get('model'),
                       'confirmed_on_real_code': bool(f.get('confirmed')),
                       'replay': f.get('replay'), 'detail': f['detail'],
                       'wrapper_source': [l for l in u.text.split('\n')
                                          if f['symbol'] + '(' in l][:3],
                       'how_to_rerun': 'python3-vt /verif/check.py %s '
                                       '--only %s:%s' % (pid, f['ext'],
                                                         f['fn'])},
                      o, indent=1)
        print('%s %s: obligation failed: %s%s' % (
            f['ext'], f['fn'], '; '.join(f['failed'][:3]) or
            '; '.join(f['replay']['violated'][:3]),
            ' (reproduced on the compiled code)' if f.get('confirmed')
            else ''))
        print('VIOLATION property=%s replay=%s%s' % (
            pid, path, '' if f.get('confirmed') else
            ' no-failing-input-found'))
        printed += 1
    for k, f in known:
        print('KNOWN-FINDING: property=%s %s:%s %s' % (pid, f['ext'], f['fn'],
                                                      k['what']))
    # vacuity guards
    guard = []
    if not errs:
        for c in cans:
            if c['status'] != 'violated':
                guard.append('canary %s:%s was not refuted (%s %s)' % (
                    c['ext'], c['fn'], c['status'], c['detail']))
        for f in fns:
            if f.get('pre_sat') is False:
                guard.append('unsatisfiable precondition: %s:%s' % (
                    f['ext'], f['fn']))
            if f['status'] == 'proved' and f['obls'] == 0:
                guard.append('no obligations: %s:%s' % (f['ext'], f['fn']))
        if not fns:
            guard.append('no functions under contract')
    und = [f for f in fns if f['status'] in ('unknown', 'unsupported')]
    late = [f for f in und if f.get('skipped')]
    uncov = [f for f in und if not f.get('bounded_calls') and
             not f.get('skipped')]
    # on a target this machine cannot run there is no bounded stand-in for a
    # few functions out of reach: they are reported, and not part of what held
    away = [f for f in uncov if f['ext'] in spec.CROSS]
    if len(away) * 4 <= sum(f['ext'] in spec.CROSS for f in fns):
        uncov = [f for f in uncov if f not in away]
    else:
        away = []
    if len(late) * 2 > len(fns):
        uncov = uncov + late
    obl = sum(f['obls'] for f in fns if f['status'] != 'unsupported')
    dis = sum(f['discharged'] for f in fns)
    samp = [{'function': '%s:%s' % (f['ext'], f['fn']),
             'obligations': f['obls'], 'seconds': round(f['t'], 2)}
            for f in fns[:3] + fns[len(fns) // 2:len(fns) // 2 + 2]]
    ev = {
        'property': pid, 'tier': opts.tier, 'seed': opts.seed,
        'level': level,
        'coverage': {
            'obligations': obl, 'discharged': dis,
            'functions_under_contract': len(fns),
            'functions_proved': sum(f['status'] == 'proved' for f in fns),
            'targets': sorted(set(f['ext'] for f in fns)),
            'by_back_end': stats,
            'solver_seconds': round(sum(r.get('solver_s', 0)
                                        for r in results), 2),
            'verified_callee_bodies': sum(f['callees'] for f in fns),
            'bounded_only': [{'function': '%s:%s' % (f['ext'], f['fn']),
                              'why': (f['detail'] or str(f['unknown']))[:160],
                              'native_calls': f.get('bounded_calls', 0)}
                             for f in und][:200],
            'undecided_no_stand_in': ['%s:%s' % (f['ext'], f['fn'])
                                      for f in away][:200],
            'canaries_refuted': sum(c['status'] == 'violated' for c in cans),
            'canaries': len(cans),
            'native_calls': sum(f.get('calls', 0) for f in fns),
            'known_findings': len(known),
            'checker_cmd': 'python3-vt /verif/check.py %s --tier %s' % (
                pid, opts.tier),
            'trusted_base': TRUSTED, 'samples': samp,
        },
        'assumptions': ASSUMED + list(extra_assume),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(viol),
    }
    if extra_cov:
        ev['coverage'].update(extra_cov)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as o:
        json.dump(ev, o, indent=1)
    print('%s: %d functions under contract, %d proved, %d bounded only, '
          '%d/%d obligations discharged, %d violations, %d known, %.0f s' % (
              pid, len(fns), ev['coverage']['functions_proved'], len(und),
              dis, obl, len(viol), len(known), ev['wall_s']))
    if os.environ.get('NV_SLOW'):
        for f in sorted(fns, key=lambda f: -f['t'])[:int(
                os.environ['NV_SLOW'])]:
            print('SLOW %6.1f s %s %s' % (f['t'], f['unit'], f['fn']))
    for f in away[:20]:
        print('UNDECIDED: %s:%s %s %s' % (f['ext'], f['fn'], f['detail'],
                                          f['unknown'][:2]))
    if late and not viol:
        print('NOT-REACHED: %d functions in the time budget' % len(late))
    if viol:
        return 1
    if errs or guard:
        for e in errs[:5]:
            print('ERROR in unit %s: %s' % e)
        for g in guard[:10]:
            print('GUARD: ' + g)
        return 3
    if uncov:
        for f in uncov[:10]:
            print('UNDECIDED: %s:%s %s %s' % (f['ext'], f['fn'], f['detail'],
                                              f['unknown'][:2]))
        return 3
    return 0
