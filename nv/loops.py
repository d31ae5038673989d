"""Loops with a symbolic number of iterations.

A loop is cut at its header: an invariant is shown to hold on entry, the
variables and the memory the loop modifies are given arbitrary values that
satisfy it, the body is executed once and the invariant is shown again on
every back edge.  The conjuncts of the invariant are not tied to the text of
the loop: they are taken from a pool of candidates over whatever integers and
pointers the header carries (bounds, divisibility, and, for the element at an
arbitrary ghost index, "already final" below / "still the old value" above a
progress offset) and those that do not hold inductively are removed (Houdini).
The surviving ones are proved as named obligations in the final pass."""
from . import expr as E
from .expr import const, ext, cat, ite, and_, or_, not_
from .sym import Unsupported, Ptr, Obj, State, trailing_zeros, conjuncts


# ------------------------------------------------------------- array objects

def arr_obj(ex, st, p):
    """array of elements of p['sz'] bytes, p['bytes'] (a node) bytes long,
    contents unknown"""
    o = Obj(p['name'], None, align=p.get('align', p['sz']),
            writable=p['writable'], unbounded=True)
    o.arr = p['sz']
    st.log[o.id] = ()
    st.log[('gen', o.id)] = ('base', p['name'],
                                 tuple(p.get('facts', ())))
    lim = p['bytes']

    def hook(ex_, st_, g, o_, off, n, store, where):
        c = and_(E.sle(const(0, 64), off),
                 E.sle(E.add(off, const(n, 64)), lim))
        ex_.oblige(('store' if store else 'load') + '-bounds', st_,
                   E.implies(g, c), where)
    o.access_hook = hook
    return o


def elem0(gen, a, sz):
    return E.uf('arr:' + gen, [a], 8 * sz)


def elem(ex, st, o, a, assume=True):
    """element at byte offset a (a multiple of the size)"""
    facts = []
    v = elem_in(st.log[('gen', o.id)], st.log[o.id], o.arr, a, E.T(), facts)
    if facts and assume:
        st.pc = and_(st.pc, *facts)
    return v


def elem_in(gen, log, sz, a, c, facts):
    if gen[0] == 'ite':
        (g1, l1), (g2, l2) = gen[2:]
        x = elem_in(g1, l1, sz, a, and_(c, gen[1]), facts)
        y = elem_in(g2, l2, sz, a, and_(c, not_(gen[1])), facts)
        v = ite(gen[1], x, y)
    else:
        v = elem0(gen[1], a, sz)
        facts += [E.implies(c, f(a)) for f in gen[2]]
    for (g, eoff, m, nd) in log:
        for j in range(m // sz):
            h = E.eq(a, E.add(eoff, const(j * sz, 64)))
            v = ite(and_(g, h), ext(nd, 8 * sz * j, 8 * sz), v)
    return v


def bare(gen):
    """without the facts"""
    if gen[0] == 'ite':
        return gen[:2] + tuple((bare(g), l) for g, l in gen[2:])
    return (gen[0], gen[1], ())


def read_arr(ex, st, o, off, n):
    sz = o.arr
    if n % sz or (1 << trailing_zeros(off)) % sz:
        raise Unsupported('access of part of an element')
    return cat([elem(ex, st, o, E.add(off, const(j * sz, 64)))
                for j in range(n // sz)])


# ---------------------------------------------------------------- loop shape

def loops_of(fn):
    """header -> set of blocks"""
    r = getattr(fn, '_loops', None)
    if r is not None:
        return r
    succ = {b: fn.succs(b) for b in fn.blocks}
    # dominators
    order, seen = [], set()
    stack = [(fn.entry, iter(succ[fn.entry]))]
    seen.add(fn.entry)
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter(succ[s])))
                break
        else:
            order.append(b)
            stack.pop()
    order.reverse()
    preds = {b: [] for b in order}
    for b in order:
        for s in succ[b]:
            preds[s].append(b)
    dom = {b: set(order) for b in order}
    dom[fn.entry] = {fn.entry}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            d = set.intersection(*[dom[p] for p in preds[b]]) | {b}
            if d != dom[b]:
                dom[b] = d
                ch = True
    r = {}
    for b in order:
        for h in succ[b]:
            if h in dom[b]:
                body = r.setdefault(h, {h})
                w = [b]
                while w:
                    x = w.pop()
                    if x not in body:
                        body.add(x)
                        w += preds[x]
    fn._loops = r
    return r


def controlled(n):
    """does a condition depend on a number of elements or a loop counter,
    other than through the contents of arrays"""
    seen, work = set(), [n]
    while work:
        x = work.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'v' and (x.v == 'n' or x.v.startswith('loop')):
            return True
        if x.op != 'uf':
            work.extend(x.args)
    return False


def light(prover):
    p = getattr(prover, 'light', None)
    if p is None:
        p = prover.light = type(prover)(5000, 0)
        p.nsample = 0
    return p


class Cand(object):
    """one candidate conjunct: f(env, rd) -> node, where rd(o) reads the
    element of an array object at the ghost offset"""

    def __init__(self, label, f, mem=None, at=None):
        self.label, self.f, self.mem, self.at = label, f, mem, at


HINTS = {}


class Cutter(object):
    """P gives: P.koff (ghost byte offset), P.koff_pre(a) -> node, P.counts
    (numbers of elements), P.final[name] = f(a, value) -> node, the relation
    the final element at offset a must satisfy"""

    def __init__(self, P, prover, level=0):
        # level -1 - l: with the invariants found for an earlier function at
        # level l.  0: few candidates, no exact floating-point reasoning; 1:
        # more; 2: also from the guards and stores of the body
        self.P, self.level = P, level if level >= 0 else -1 - level
        self.fresh = level >= 0
        self.prover = prover if self.level > 0 else light(prover)
        self.trial = None
        self.gens = 0
        self.objs = {}
        self.passes = 0
        self.invs = {}

    # ------------------------------------------------------------- plumbing
    def __call__(self, ex, fn, blk, prev, env, st, skip_phi):
        for k in [k for k in env if isinstance(k, tuple) and
                  k[0] == 'loop' and blk not in env[k][0]]:
            del env[k]
        t = self.trial
        if t is not None and t['fn'] is fn and t['depth'] == len(ex.stack) \
                and blk not in t['body']:
            return (None, None, env, st, False)
        L = loops_of(fn)
        if blk not in L:
            return None
        key = ('loop', blk)
        if env.pop(('entered', blk), None):
            return None
        if key in env:
            return self.back(ex, fn, blk, prev, env, st, skip_phi, env[key])
        if not self.symbolic(ex, fn, blk, prev, env, st, skip_phi):
            return None
        return self.enter(ex, fn, blk, prev, env, st, skip_phi, L[blk])

    def scratch(self, ex, f):
        """run f with the obligations thrown away"""
        n, a = len(ex.obl), len(ex.terms)
        v = ex.visits
        try:
            return f()
        finally:
            del ex.obl[n:]
            del ex.terms[a:]
            ex.visits = v

    def symbolic(self, ex, fn, blk, prev, env, st, skip_phi):
        e, s = dict(env), st.fork(E.T())

        def f():
            b, p, sk = blk, prev, skip_phi
            for _ in range(8):
                if not sk:
                    ex.phis(fn, b, p, e, s)
                sk = False
                B = fn.blocks[b]
                for ins in B.ins:
                    if ex.step(fn, ins, e, s) is False:
                        return False
                if B.term.op != 'br':
                    return True
                c, x, y = B.term.a
                if c is not None:
                    cv = ex.val(e, ('i', 1), c, s)
                    # loops whose exit depends on data only are unrolled
                    return cv.op != 'c' and (
                        not getattr(self.P, 'data_loops', False) or
                        controlled(cv))
                p, b = b, x
                if b == blk:
                    return False
            return True
        return self.scratch(ex, f)

    # -------------------------------------------------------------- entering
    def enter(self, ex, fn, blk, prev, env, st, skip_phi, body):
        env = dict(env)
        if not skip_phi:
            ex.phis(fn, blk, prev, env, st)
        names = [i.res for i in fn.blocks[blk].phis]
        vars_, henv0 = {}, {}
        for nm in names:
            v = env[nm]
            if isinstance(v, Ptr):
                if len(v.alts) != 1 or v.alts[0][1] is None:
                    raise Unsupported('loop over a pointer with alternatives')
                _, o, off = v.alts[0]
                x = E.fresh('loopp', 64)
                henv0[nm] = Ptr([(E.T(), o, x)])
                vars_[nm] = ('p', o)
            elif isinstance(v, list):
                henv0[nm] = [E.fresh('loopv', y.w) for y in v]
            else:
                henv0[nm] = E.fresh('loopi', v.w)
                vars_[nm] = ('i', v.w)
        arrs = [o for o in self.objs.values() if o.writable]
        # memory that the loop modifies besides the arrays, found by trial
        mods = {}
        marker = (body, None)

        def val(e, nm):
            v = e[nm]
            return v.alts[0][2] if isinstance(v, Ptr) else v

        def hold(c, e, s):
            """node: candidate c in state (e, s)"""
            if c.mem is None:
                return c.f(lambda nm: val(e, nm))
            return c.f(lambda nm: val(e, nm), elem(ex, s, c.mem, self.P.koff,
                                                   False), self.P.koff)

        def prove(c, s):
            self.passes += 1
            st_, _, _ = split_prove(self.prover, self.P, c, s.pc)
            if st_ == 'unknown':
                self.prover.undecided += 1
            return st_ == 'valid'
        def havoc(live):
            e = dict(env)
            e.update(henv0)
            s = st.fork(E.T())
            for (oid, i), f in mods.items():
                cells = list(s.mem[oid]) if oid not in s.owned else s.mem[oid]
                s.mem[oid] = cells
                s.owned.add(oid)
                cells[i] = (f, 0) if f is not None else None
            for o in arrs:
                self.gens += 1
                gen = '%s#%d' % (o.name, self.gens)
                ml = [c for c in live if c.mem is o]

                def inst(a, ml=ml, gen=gen, o=o):
                    v = elem0(gen, a, o.arr)
                    return E.implies(self.P.koff_pre(a), and_(*[
                        c.f(lambda nm: val(e, nm), v, a) for c in ml]))
                s.log[o.id] = ()
                s.log[('gen', o.id)] = ('base', gen, (inst,) if ml else ())
                s.pc = and_(s.pc, inst(self.P.koff))
            s.pc = and_(s.pc, *[hold(c, e, s) for c in live if c.mem is None])
            e[('loop', blk)] = (body, fn)
            e[('entered', blk)] = True
            return e, s

        def trial(live):
            """-> back edge states"""
            e, s = havoc(live)
            t = {'fn': fn, 'depth': len(ex.stack), 'body': body, 'back': [],
                 'blk': blk}
            old, self.trial = self.trial, t
            try:
                self.scratch(ex, lambda: ex.region(fn, blk, None, None, e, s,
                                                   skip_phi=True))
            finally:
                self.trial = old
            return t['back'], s
        cands = self.candidates(vars_, arrs, st)
        if self.level > 1:
            cands += self.from_body(ex, st, henv0, arrs, *trial([]))
        # base case; what survived for an earlier function with the same
        # candidates is taken over (the obligations below are proved anyway)
        hk = (self.level, len(self.invs), tuple(c.label for c in cands))
        hint = HINTS.get(hk) if not self.fresh else None
        if self.trial is not None:
            hint = None
        if hint is not None:
            live = [c for c in cands if c.label in hint]
        else:
            live = [c for c in cands if prove(hold(c, env, st), st)]
        for _ in range(40):
            back, s0 = trial(live)
            grew = False
            for e2, s2 in back:
                for oid, cells in s0.mem.items():
                    c2 = s2.mem.get(oid)
                    if c2 is None or c2 is cells:
                        continue
                    for i, (p, q) in enumerate(zip(cells, c2)):
                        if p is q or p == q or p is None or \
                                (oid, i) in mods:
                            continue
                        if not isinstance(p[0], E.N):
                            raise Unsupported('pointer modified in a loop')
                        mods[(oid, i)] = E.fresh('loopm', 8)
                        grew = True
            if grew:
                continue
            if hint is not None:
                break
            drop = []
            # bounds first: the others are useless without them
            for mem in (False, True):
                for c in live:
                    if (c.mem is not None) != mem:
                        continue
                    if not all(prove(hold(c, e2, s2), s2)
                               for e2, s2 in back):
                        drop.append(c)
                if drop:
                    break
            if not drop:
                break
            live = [c for c in live if c not in drop]
        else:
            raise Unsupported('no fixed point of the loop invariant')
        if self.trial is None:
            self.invs[(fn.name, blk)] = [c.label for c in live]
            HINTS[hk] = set(c.label for c in live)
        for c in live:
            ex.oblige('loop-entry ' + c.label, st, hold(c, env, st))
        e, s = havoc(live)
        e[('loop', blk)] = (body, (live, hold))
        return (blk, None, e, s, True)

    def back(self, ex, fn, blk, prev, env, st, skip_phi, mark):
        env = dict(env)
        if not skip_phi:
            ex.phis(fn, blk, prev, env, st)
        t = self.trial
        if t is not None and t['fn'] is fn and t['blk'] == blk and \
                t['depth'] == len(ex.stack):
            t['back'].append((env, st))
        else:
            live, hold = mark[1]
            for c in live:
                ex.oblige('loop-invariant ' + c.label, st, hold(c, env, st))
        return (None, None, env, st, False)

    # ------------------------------------------------------------ candidates
    def candidates(self, vars_, arrs, st):
        P = self.P
        Z = const(0, 64)
        out = []

        def w64(v):
            return v if v.w == 64 else E.sx(v, 64)
        prog = []                   # byte offsets that may measure progress
        for nm, (k, x) in vars_.items():
            if k == 'i' and x in (32, 64):
                out.append(Cand('counter >= 0', lambda g, nm=nm:
                                E.sle(Z, w64(g(nm)))))
                for j, n in enumerate(P.counts):
                    out.append(Cand('counter <= n%d' % j, lambda g, nm=nm, n=n:
                                    E.sle(w64(g(nm)), n)))
                    if self.level > 1:
                        out.append(Cand('counter < n%d' % j,
                                        lambda g, nm=nm, n=n:
                                        E.slt(w64(g(nm)), n)))
                for b in range(1, 7 if self.level else 1):
                    out.append(Cand('counter %% %d == 0' % (1 << b),
                                    lambda g, nm=nm, b=b: E.eq(
                                        ext(g(nm), 0, b), const(0, b))))
                prog.append(('counter', lambda g, nm=nm: E.mul(
                    w64(g(nm)), const(P.esz, 64))))
                for j, n in enumerate(P.counts if self.level else ()):
                    prog.append(('n%d - counter' % j, lambda g, nm=nm, n=n:
                                 E.mul(E.sub(n, w64(g(nm))),
                                       const(P.esz, 64))))
                    for b in range(1, 7):
                        out.append(Cand(
                            '(n%d - counter) %% %d == 0' % (j, 1 << b),
                            lambda g, nm=nm, b=b, n=n: E.eq(
                                ext(E.sub(n, w64(g(nm))), 0, b),
                                const(0, b))))
            elif k == 'p' and getattr(x, 'arr', None):
                out.append(Cand('pointer >= start', lambda g, nm=nm:
                                E.sle(Z, g(nm))))
                for j, n in enumerate(P.counts):
                    out.append(Cand('pointer <= end%d' % j,
                                    lambda g, nm=nm, n=n: E.sle(
                                        g(nm), E.mul(n, const(P.esz, 64)))))
                for b in range(1, 9 if self.level else 4):
                    out.append(Cand('pointer %% %d == 0' % (1 << b),
                                    lambda g, nm=nm, b=b: E.eq(
                                        ext(g(nm), 0, b), const(0, b))))
                prog.append(('pointer', lambda g, nm=nm: g(nm)))
        return out + self.progress(arrs, prog, 1 + self.level)

    def progress(self, arrs, prog, nside, entry=None):
        out = []
        for i, (la, a) in enumerate(prog):
            for lb, b in prog[i + 1:]:
                out.append(Cand('%s == %s' % (la, lb), lambda g, a=a, b=b:
                                E.eq(a(g), b(g))))
        for o in arrs:
            fin = self.P.final.get(o.name)
            gen0 = o.name
            sz = o.arr
            if fin is None:
                continue
            for lab, B in prog:
                for side in (0, 1)[:nside]:
                    def lo(g, v, a, B=B, fin=fin, side=side):
                        c = E.slt(a, B(g))
                        return E.implies(not_(c) if side else c, fin(a, v))

                    def hi(g, v, a, B=B, gen0=gen0, sz=sz, side=side, o=o):
                        c = E.slt(a, B(g))
                        w = elem0(gen0, a, sz) if entry is None else \
                            entry(o, a)
                        return E.implies(c if side else not_(c), E.eq(v, w))
                    w = ('below', 'from')[side]
                    out.append(Cand('%s final %s %s' % (o.name, w, lab), lo,
                                    o))
                    w = ('from', 'below')[side]
                    out.append(Cand('%s unchanged %s %s%s' % (
                        o.name, w, lab, ' since entry' if entry else ''),
                        hi, o))
        return out

    def from_body(self, ex, st, henv, arrs, back, s0):
        """candidates from one arbitrary iteration: what its guards compare
        and where it stores"""
        names = {}
        for nm, v in henv.items():
            if isinstance(v, Ptr):
                v = v.alts[0][2]
            if isinstance(v, E.N):
                names[v.v] = nm

        def at(t):
            return lambda g: E.subst(t, dict((k, g(nm)) for k, nm in
                                             names.items()), {})

        def ours(t):
            return any(k in names for k in E.variables([t]))
        out, seen, prog = [], set(), []

        def bound(a, b):
            if (a.id, b.id) in seen or len(seen) > 24 or \
                    a.w not in (32, 64) or not (ours(a) or ours(b)):
                return
            seen.add((a.id, b.id))
            f, h = at(a), at(b)
            out.append(Cand('guard %d' % len(seen), lambda g: E.sle(f(g),
                                                                    h(g))))
        for e2, s2 in back:
            old = set(conjuncts(s0.pc))
            for c in sorted(conjuncts(s2.pc), key=lambda n: n.id):
                neg = c.op == 'not'
                if neg:
                    c = c.args[0]
                if c in old or c.op not in ('slt', 'eq') or \
                        not ours(c) or any(is_read(x)
                                           for x in E.subterms(c)):
                    continue
                a, b = c.args
                if c.op == 'slt' and not neg:
                    bound(a, b)
                elif c.op == 'slt':
                    bound(b, a)
                    bound(b, E.add(a, const(1, a.w)))
                elif neg:
                    bound(a, b)
                    bound(b, a)
            for o in arrs:
                for (g, off, m, nd) in s2.log[o.id]:
                    for lab, t in (('store', off),
                                   ('store end', E.add(off, const(m, 64)))):
                        if t.id not in seen and len(prog) < 6:
                            seen.add(t.id)
                            prog.append(('%s %d' % (lab, len(prog)), at(t)))
        out += self.progress(arrs, prog, 2)
        gen0 = dict((o.id, (bare(st.log[('gen', o.id)]), st.log[o.id]))
                    for o in arrs)

        def entry(o, a):
            return elem_in(gen0[o.id][0], gen0[o.id][1], o.arr, a, E.T(), [])
        return out + [c for c in self.progress(arrs, prog, 2, entry)
                      if 'since entry' in c.label]


def is_read(n):
    return n.op == 'uf' and n.v.startswith('arr:')


def split_prove(prover, P, goal, pc):
    """the ghost offset is compared with the offsets of the elements stored:
    one case per such element (the ghost offset replaced by it), and one
    where it is none of them"""
    k = P.koff
    offs, eqs = [], []
    hyps = list(P.pre) + sorted(conjuncts(pc), key=lambda n: n.id)
    for root in [goal] + hyps:
        for n in E.subterms(root):
            if n.op == 'eq' and n.args[0].w == 64:
                for a, b in (n.args, n.args[::-1]):
                    if a is k and b.op != 'c' and n not in eqs:
                        offs.append(b)
                        eqs.append(n)
    for x in offs:
        memo = {k.id: x}
        r = prove_arr(prover, E.subst(goal, {}, memo),
                      [E.subst(h, {}, memo) for h in hyps])
        if r[0] != 'valid':
            return r
    memo = {n.id: E.F() for n in eqs}
    return prove_arr(prover, E.subst(goal, {}, memo),
                     [E.subst(h, {}, memo) for h in hyps],
                     none_of(k, offs, P.esz))


def none_of(k, offs, sz):
    """k is none of the offsets; a run of adjacent elements is one range (k
    and the offsets are multiples of sz)"""
    out, runs = [], {}
    for x in offs:
        b, c = E.addend(x)
        runs.setdefault(b, set()).add(c)
    for b, cs in runs.items():
        cs = sorted(cs)
        while cs:
            j = 1
            while j < len(cs) and cs[j] == cs[0] + j * sz:
                j += 1
            lo = E.add(b, const(cs[0], 64))
            out.append(E.ule(const(j * sz, 64), E.sub(k, lo)))
            cs = cs[j:]
    return out


def prove_arr(prover, goal, hyps, extra=()):
    """array elements become variables, equal ones at equal offsets; facts
    about elements the goal does not mention are first left out"""
    if goal.op == 'c' and goal.v == 1:
        return prover.prove(goal, [])
    hyps = [h for h in hyps if not (h.op == 'c' and h.v == 1)]
    g = set(n for n in E.subterms(goal) if is_read(n))
    few = []
    for h in hyps:
        r = [n for n in E.subterms(h) if is_read(n)]
        if not r or any(n in g for n in r):
            few.append(h)
    r = ackermann(prover, goal, few + list(extra))
    if r[0] != 'valid' and len(few) != len(hyps):
        r = ackermann(prover, goal, hyps + list(extra))
    return r


def ackermann(prover, cond, pre):
    reads = {}
    for c in [cond] + pre:
        for n in E.subterms(c):
            if is_read(n):
                reads.setdefault(n.v, {})[n.id] = n
    m, side = {}, []
    for g, d in reads.items():
        ns = [d[i] for i in sorted(d)]
        for i, n in enumerate(ns):
            m[n] = E.var('%s@%d' % (g, i), n.w)
            for q in ns[:i]:
                c = E.eq(n.args[0], q.args[0])
                if not (c.op == 'c' and c.v == 0):
                    side.append((c, n, q))
    if not m:
        return prover.integer(cond, pre)
    memo = {n.id: v for n, v in m.items()}
    side = [E.implies(c, E.eq(m[x], m[y])) for c, x, y in side]
    cond = E.subst(cond, {}, memo)
    pre = [E.subst(p, {}, memo) for p in pre + side]
    return prover.integer(cond, pre)
