"""Runs one function under contract: symbolic execution of its compiled code,
then discharge of every postcondition, frame and safety obligation."""
import time
from . import expr as E
from . import intr
from . import lin
from . import loops
from .expr import const, and_, or_
from .sym import Exec, State, Obj, Unsupported, mkptr
from .ir import IRError

STD_HOOKS = []
from . import arm, ppc  # (register their intrinsics)


def f16_hook(ex, name, rt, types, vals, attrs, st):
    """contracts of the out-of-line f16<->f32 conversions (proved separately,
    see the f16 property)"""
    if 'nsimd_' in name:
        # (32-bit Arm passes the struct as an array of one word)
        vals = [v[0] if isinstance(v, list) and len(v) == 1 else v
                for v in vals]
        if 'nsimd_u16_to_f32' in name:
            return E.fop('fpext', [E.ext(vals[0], 0, 16)], 32)
        if 'nsimd_f32_to_u16' in name:
            return E.fop('fptrunc', [vals[0]], 16)
        if 'nsimd_f16_to_f32' in name:
            return E.fop('fpext', [E.ext(vals[0], 0, 16)], 32)
        if 'nsimd_f32_to_f16' in name:
            r = E.fop('fptrunc', [vals[0]], 16)
            return E.zx(r, rt[1]) if rt[0] == 'i' else r
    return NotImplemented


def setup(ex, st, P):
    args = []
    objs = {}
    for p in P.params:
        k = p['kind']
        if k == 'val':
            args.append(p['node'])
            continue
        if k == 'arr':
            o = loops.arr_obj(ex, st, p)
            objs[p['name']] = o
            args.append(mkptr(o))
            continue
        if k == 'umem':
            o = Obj(p['name'], None, align=p.get('align', 64), writable=p['writable'],
                    unbounded=True)
            st.log[o.id] = ()
            if p.get('access'):
                offs, sz = p['access']

                def hook(ex_, st_, g, o_, off, n, store, where, offs=offs,
                         sz=sz):
                    if n == sz and any(off is x for x in offs):
                        return
                    c = E.F()
                    cand = offs
                    if n == sz:
                        # the lane this access belongs to, guessed on sample
                        # values; proving equality with it is sufficient
                        cand = guess(off, offs, st_.pc, P.pre)
                    for x in cand:
                        if n == sz:
                            c = or_(c, E.eq(off, x))
                            continue
                        d = E.sub(off, x)
                        c = or_(c, E.ule(d, const(sz - n, 64))
                                if n <= sz else E.F())
                    ex_.oblige('store-frame' if store else 'load-frame', st_,
                               E.implies(g, c), where)
                o.access_hook = hook

                def canon(off, offs=offs, ctx=lin.Ctx(P.pre)):
                    if off.op == 'c':
                        return off
                    for x in offs:
                        if off is x:
                            return x
                    for x in offs:
                        if ctx.L.equal(off, x):
                            return x
                    return off
                o.canon = canon
            objs[p['name']] = o
            args.append(mkptr(o))
            continue
        o = Obj(p['name'], p['size'], align=p.get('align', 64),
                writable=k == 'out' or (k == 'mem' and p['writable']),
                valid=p.get('valid'))
        st.mem[o.id] = [None] * p['size']
        st.owned.add(o.id)
        if k == 'out':
            for i in range(p['size']):
                ex.set_bytes(st, o, i, E.var('r0[%s,%d]' % (p['name'], i), 8))
        else:
            n = p['node']
            if n.op == 'cat' and all(a.w % 8 == 0 for a in n.args):
                pos = 0
                for a in n.args:
                    ex.set_bytes(st, o, pos, a)
                    pos += a.w // 8
            else:
                ex.set_bytes(st, o, 0, n)
        objs[p['name']] = o
        args.append(mkptr(o))
    return args, objs


def guess(off, offs, pc, pre):
    from .solve import evaluate
    vs = E.variables([off] + offs)
    for seed in (3, 7, 1, 5, 11, 100):
        asg = {}
        for i, (k, v) in enumerate(sorted(vs.items())):
            asg[k] = (seed + 13 * i) & ((1 << v.w) - 1)
        r = evaluate([off] + offs, asg)
        hit = [x for x, y in zip(offs, r[1:]) if y == r[0]]
        if len(hit) == 1:
            return hit
    return offs


class Result(object):
    def __init__(self, P):
        self.fn = P.fn
        self.P = P
        self.status = None
        self.obls = 0
        self.discharged = 0
        self.failed = []          # (label, model, how)
        self.unknown = []
        self.detail = ''
        self.inlined = []
        self.applied = []
        self.t = 0.0


def outputs(ex, st, P, objs):
    o = {}
    for p in P.params:
        if p['kind'] in ('out', 'mem'):
            ob = objs[p['name']]
            cells = st.mem[ob.id]
            parts = []
            for i in range(p['size']):
                nd, k = cells[i]
                parts.append(E.ext(nd, 8 * k, 8))
            # rebuild with wide extracts where possible
            o[p['name']] = ex._read(st, ob, 0, p['size'])
        elif p['kind'] == 'arr':
            o[p['name']] = loops.elem(ex, st, objs[p['name']], P.koff)
        elif p['kind'] == 'umem':
            ob = objs[p['name']]

            def init(off, sz, ob=ob):
                return E.cat([ex.log_byte((), ob, E.add(off, const(j, 64)))
                              for j in range(sz)])

            def final(off, sz, ob=ob):
                return read_final(ex, st, ob, off, sz, P)
            o['init:' + p['name']] = init
            o['final:' + p['name']] = final
    return o


def read_final(ex, st, ob, off, sz, P):
    log = st.log[ob.id]
    ctx = lin.Ctx(P.pre)
    # newest entry with identical offset and size and no guard: direct value
    v = E.cat([ex.log_byte((), ob, E.add(off, const(j, 64)))
               for j in range(sz)])
    for (g, eoff, m, nd) in log:
        if m == sz:
            # element-granular accesses: same-size entries either coincide or
            # are disjoint when both are multiples of sz; that is checked by
            # the frame obligation (each access is one of the lane addresses)
            q = ctx.decide_eq(off, eoff)
            if q is False:
                continue
            c = E.T() if q else E.eq(off, eoff)
            v = E.ite(and_(g, c), nd, v)
        else:
            return E.cat([ex.log_byte(log, ob, E.add(off, const(j, 64)))
                          for j in range(sz)])
    return v


def execute(mod, P, hook=None, opts=None, prover=None, level=0):
    ex = Exec(mod, intr, hook or f16_hook)
    ex.max_blocks = getattr(P, 'max_blocks', ex.max_blocks)
    if opts:
        for k, v in opts.items():
            setattr(ex, k, v)
    st = State()
    args, objs = setup(ex, st, P)
    if P.koff is not None:
        ex.loop_hook = loops.Cutter(P, prover, level)
        ex.loop_hook.objs = {k: o for k, o in objs.items() if o.arr}
    r = ex.call('@' + P.fn, args, st)
    if r is None:
        raise Unsupported('function never returns')
    rv, st = r
    return ex, st, objs, rv


def check(mod, P, prover, hook=None, opts=None, deadline=None):
    if P.koff is None:
        return check_at(mod, P, prover, hook, opts, deadline)
    t = 0
    last = getattr(prover, 'loop_level', 0)
    for level in (-1 - last, 0, 1, 2):
        # invariant of an earlier function / inferred / from more candidates
        R = check_at(mod, P, prover, hook, opts, deadline, level)
        t += R.t
        if R.status == 'proved' and level >= 0:
            prover.loop_level = level
        if R.status == 'proved' or \
                prover.deadline and time.time() > prover.deadline:
            break
    R.t = t
    return R


def check_at(mod, P, prover, hook=None, opts=None, deadline=None, level=0):
    E.LANE[0] = getattr(P, 'lane', 0)
    try:
        return check_at1(mod, P, prover, hook, opts, deadline, level)
    finally:
        E.LANE[0] = 0


def check_at1(mod, P, prover, hook=None, opts=None, deadline=None, level=0):
    R = Result(P)
    t0 = time.time()
    prover.undecided = 0
    try:
        ex, st, objs, rv = execute(mod, P, hook, opts, prover, level)
    except (Unsupported, IRError, RecursionError, KeyError) as e:
        R.status = 'unsupported'
        R.detail = '%s: %s' % (type(e).__name__, e)
        R.t = time.time() - t0
        return R
    R.inlined = sorted(ex.inlined)
    R.applied = sorted(getattr(ex, 'applied', ()))
    obls = []
    try:
        outs = outputs(ex, st, P, objs)
        # after a cut loop the facts about its final state are in the path
        # condition
        fin = st.pc if P.koff is not None else E.T()
        for lab, c in P.post(outs):
            obls.append(('ensures ' + lab, c, fin))
    except Unsupported as e:
        R.status = 'unsupported'
        R.detail = 'post: %s' % e
        R.t = time.time() - t0
        return R
    seen = set()
    for o in ex.obl:
        key = (o.kind, o.pc.id, o.cond.id)
        if key in seen or o.kind in P.skip_safety:
            continue
        seen.add(key)
        obls.append(('safety %s at %s' % (o.kind, o.where.strip()[:90]),
                     o.cond, o.pc))
    R.obls = len(obls)
    swept = {}
    if getattr(P, 'pairs', None):
        from . import sweep
        ps = P.pairs(outs)
        for (lab, a, b), r in zip(ps, sweep.prove_all(
                prover, [(a, b) for _, a, b in ps])):
            swept['ensures ' + lab] = r
    for lab, c, pc in obls:
        if deadline and time.time() > deadline:
            R.unknown.append((lab, 'deadline'))
            continue
        if lab in swept:
            st_, model, how = swept[lab]
        elif P.koff is not None:
            st_, model, how = loops.split_prove(prover, P, c, pc)
            c = E.T()
            if st_ == 'invalid':
                model = None      # a state of the cut loop, not an input
        else:
            c = E.implies(pc, c) if not (pc.op == 'c') else c
            st_, model, how = prover.prove(c, relevant(P.pre, c))
        if st_ == 'valid':
            R.discharged += 1
        elif st_ == 'invalid':
            if model is not None and \
                    len(relevant(P.pre, c)) != len(P.pre):
                model = complete(prover, model, P.pre)
            R.failed.append((lab, model, how))
        else:
            R.unknown.append((lab, how))
    if R.failed and prover.undecided and \
            all(m is None for _, m, _ in R.failed):
        # refuted only in a state of a cut loop whose invariant lost a
        # candidate the solver could not decide
        R.unknown = [(l, h) for l, _, h in R.failed] + R.unknown
        R.failed = []
    R.status = 'violated' if R.failed else 'unknown' if R.unknown else 'proved'
    R.t = time.time() - t0
    return R


def relevant(pre, c):
    """preconditions sharing variables (transitively) with c; dropping the
    others is sound for proofs (fewer hypotheses)"""
    vs = set(E.variables([c]))
    rest = [(p, set(E.variables([p]))) for p in pre]
    out = []
    ch = True
    while ch:
        ch = False
        nxt = []
        for p, pv in rest:
            if pv & vs or not pv:
                out.append(p)
                if pv - vs:
                    vs |= pv
                ch = True
            else:
                nxt.append((p, pv))
        rest = nxt
    return out


def complete(prover, model, pre):
    """extend a model to satisfy the preconditions on the other variables"""
    if model is None:
        return None
    fixed = []
    for p in pre:
        for k, v in E.variables([p]).items():
            if k in model:
                fixed.append(E.eq(v, const(model[k], v.w)))
    m = prover.model_of(list(pre) + fixed)
    if m is None:
        return model
    out = dict(m)
    out.update(model)
    return out
