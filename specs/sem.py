"""C15: the recursive lock (src/sem_inc.c), thread-modularly.

Ghost state: d = acquisitions of the verifying thread that are outstanding, held = this thread owns the pthread mutex.
The lock invariant over the file's own variables is inferred (Houdini) from candidates about every static variable g:
  held:    g == d, g == d-1, g == self, g == its initial value, g == 1      (while this thread owns the mutex)
  free:    g == its initial value                                            (whenever the mutex is released)
  foreign: g != self when read without owning the mutex                      (needs: only self and the initial value are ever written)
  const:   g always has its initial value
Reads without owning the mutex yield arbitrary values within these facts: that covers every interleaving."""
import z3
from vc.ir import *
from vc.sym import *
from vc.world import World, new_state

HELD = ('d', 'd-1', 'self', 'init', 'one')


class SemWorld(World):
    def __init__(s, mod, ctx):
        super().__init__(mod, ctx)
        s.selfid = z3.BitVec('self', 64)
        ctx.assume((), s.selfid != bv(0))
        s.vars = {}
        for g, (init, const, ty) in mod.globals.items():
            if not const and init is not None and ty.k in ('int', 'ptr') and g != '@mutex':
                n = 64 if ty.k == 'ptr' else ty.n
                s.vars[g] = (n, init.v if init.k == 'int' else 0)
        s.kept = None       # set of (kind, g)
        s.checks = []       # (cand, guard, goal) gathered in a candidate pass
        s.nobody = False
        C = s.contracts
        for n, f in (('pthread_mutex_trylock', s.c_try), ('pthread_mutex_lock', s.c_lock), ('pthread_mutex_unlock', s.c_unlock),
                     ('pthread_mutex_init', s.c_init), ('pthread_self', lambda ex, st, a, i: V(s.selfid)),
                     ('pthread_equal', lambda ex, st, a, i: V(z3.If(a[0].t == a[1].t, bv(1, 32), bv(0, 32))))):
            C[n] = f

    def init(s, g):
        n, v = s.vars[g]
        return bv(v, n)

    def has(s, kind, g):
        return (kind, g) in s.kept

    def cell_load(s, ex, st, g, off, n):
        if g not in s.vars or off:
            return super().cell_load(ex, st, g, off, n)
        s.cell_check(g, off, n)
        cur = st.cells.get((g, 0, n))
        if cur is None:
            raise Unsupported('lock variable %s' % g)
        held = z3.simplify(st.gh['held'])
        if z3.is_true(held):
            return cur
        if s.nobody:
            return cur
        r = s.ctx.fresh('racy_' + g.strip('@'), n)
        f = []
        if s.has('const', g):
            f.append(r == s.init(g))
        if n == 64 and s.has('foreign', g) and s.has('free', g):
            f.append(r != s.selfid)
        s.ctx.assume(st.guard, z3.If(held, r == cur, conj(f)))
        return r

    def cell_store(s, ex, st, g, off, n, v):
        if g in s.vars and not off:
            i = s.init(g)
            s.checks.append((('const', g), st.guard, v == i))
            if n == 64:
                s.checks.append((('foreign', g), st.guard, z3.Or(v == s.selfid, v == i)))
            if not s.has('const', g):
                s.ver.oblige('%s is written only while the mutex is owned' % g, {'C15'}, st.guard, st.gh['held'], ex.line)
        super().cell_store(ex, st, g, off, n, v)

    def acquire(s, st, now):
        """the mutex becomes ours (where now): what the last owner left"""
        for g, (n, iv) in s.vars.items():
            k = (g, 0, n)
            if s.has('free', g) or s.has('const', g):
                f = s.init(g)
            else:
                f = s.ctx.fresh('left_' + g.strip('@'), n)
            st.cells[k] = ite(now, f, st.cells[k])

    def c_try(s, ex, st, a, i):
        r = s.ctx.fresh('trylock', 32)
        h = st.gh['held']
        s.ctx.assume(st.guard, imp(h, r != bv(0, 32)))
        if s.nobody:
            s.ctx.assume(st.guard, imp(z3.Not(h), r == bv(0, 32)))
        now = z3.And(z3.Not(h), r == bv(0, 32))
        s.acquire(st, z3.simplify(now))
        st.gh['held'] = z3.simplify(z3.Or(h, now))
        return V(r)

    def c_lock(s, ex, st, a, i):
        s.ver.oblige('an owner is never made to wait for itself', {'C15'}, st.guard, z3.Not(st.gh['held']), ex.line)
        s.acquire(st, TRUE)
        st.gh['held'] = TRUE
        return V(bv(0, 32))

    def c_unlock(s, ex, st, a, i):
        s.ver.oblige('the mutex is released by its owner only', {'C15'}, st.guard, st.gh['held'], ex.line)
        for g, (n, iv) in s.vars.items():
            s.checks.append((('free', g), st.guard, st.cells[(g, 0, n)] == s.init(g)))
        st.gh['held'] = FALSE
        return V(bv(0, 32))

    def c_init(s, ex, st, a, i):
        s.ver.oblige('a mutex in use is not initialised again', {'C15'}, st.guard, FALSE, ex.line)
        return V(bv(0, 32))


def pred(w, kind, g, d):
    n = w.vars[g][0]
    dd = d if n == 64 else z3.Extract(n - 1, 0, d) if n < 64 else d
    return {'d': lambda t: t == dd, 'd-1': lambda t: t == dd - bv(1, n), 'self': lambda t: t == w.selfid if n == 64 else FALSE,
            'init': lambda t: t == w.init(g), 'one': lambda t: t == bv(1, n)}[kind]


def start(v, mode, d):
    """entry state of a call with d acquisitions outstanding"""
    w = v.w
    st = new_state()
    for g, (n, iv) in w.vars.items():
        st.cells[(g, 0, n)] = w.ctx.fresh('g_' + g.strip('@'), n) if mode == 'held' else w.init(g)
    if mode == 'held':
        st.gh['held'] = TRUE
        for g, (n, iv) in w.vars.items():
            t = st.cells[(g, 0, n)]
            for k in HELD:
                if w.has(k, g):
                    v.assume(pred(w, k, g, d)(t))
            if w.has('const', g):
                v.assume(t == w.init(g))
    else:
        st.gh['held'] = FALSE
        if mode == 'unheld':
            for g, (n, iv) in w.vars.items():
                st.cells[(g, 0, n)] = w.ctx.fresh('g_' + g.strip('@'), n)
    w.nobody = mode == 'nobody'
    return st


CASES = [('DUMA_get_sem', 'unheld', 1), ('DUMA_get_sem', 'held', 1), ('DUMA_rel_sem', 'held', -1)]


def sem(v):
    w = v.w
    d = v.inp('depth')
    v.assume(z3.And(d != bv(0), z3.ULT(d, bv(0x7ffffff0))))
    kept = {(k, g) for g in w.vars for k in HELD} | {('free', g) for g in w.vars} | {('const', g) for g in w.vars} | {('foreign', g) for g in w.vars}
    ctx = w.ctx
    h0 = len(ctx.hyps)
    rounds = 0
    while True:
        rounds += 1
        drop = set()
        for fn, mode, dl in CASES:
            w.kept, w.checks = kept, []
            n0 = len(ctx.obs)
            st = start(v, mode, d)
            rets = v.execute(fn, st, [])
            nd = d + bv(1) if mode == 'held' and dl > 0 else bv(1) if mode == 'unheld' else d - bv(1)
            for s2, r in rets:
                for g, (n, iv) in w.vars.items():
                    for k in HELD:
                        w.checks.append(((k, g), s2.guard + (z3.simplify(nd != bv(0)),), pred(w, k, g, nd)(s2.cells[(g, 0, n)])))
            for c, g, goal in w.checks:
                if c in kept and c not in drop and not prove(ctx, g, goal):
                    drop.add(c)
            del ctx.obs[n0:]
            del ctx.hyps[h0:]
            w.aborts = []
        if not drop:
            break
        kept = kept - drop
        if rounds > 30:
            raise Unsupported('lock invariant')
    w.kept = kept
    ctx.loops = [('lock invariant', '', 0, len(kept), sorted('%s %s' % c for c in kept), True)]
    ctx.inv_obs = getattr(ctx, 'inv_obs', 0) + len(kept)
    T = {'C15'}
    # acquisition by a thread that does not own the lock
    st = start(v, 'unheld', d)
    rets = v.execute('DUMA_get_sem', st, [])
    v.post('a thread that returns from its first acquisition owns the mutex', T, rets, lambda s, r: s.gh['held'])
    for i, (s, r) in enumerate(rets):
        v.cover('first acquisition returns', s.guard)
    st = start(v, 'held', d)
    rets = v.execute('DUMA_get_sem', st, [])
    v.post('the owner still owns the mutex after acquiring again', T, rets, lambda s, r: s.gh['held'])
    for i, (s, r) in enumerate(rets):
        v.cover('repeated acquisition returns', s.guard)
    arg = v.inp('retval', 32)
    st = start(v, 'held', d)
    rets = v.execute('DUMA_rel_sem', st, [arg])
    v.post('the mutex is released exactly by the last release', T, rets, lambda s, r: s.gh['held'] == (d != bv(1)))
    v.post('the release returns its argument', T, rets, lambda s, r: r.t == arg)
    for i, (s, r) in enumerate(rets):
        v.cover('release returns', s.guard)
    v.cover('last release', rets[0][0].guard + (d == bv(1),)) if rets else None
    if not rets:
        v.oblige('release returns', T, (), FALSE)
    v.aborts_only_if(T, FALSE, 'an owner is never stopped')
    w.aborts = []
    st = start(v, 'nobody', d)
    rets = v.execute('DUMA_rel_sem', st, [arg])
    v.post('a release of a lock nobody holds is diagnosed', T, rets, lambda s, r: FALSE)
    for g, msg, args, line, fn in w.aborts:
        v.cover('diagnosis of a release of a free lock', g)
    w.aborts = []
    v.assumptions += ['pthread mutexes (default type) as specified by POSIX; pthread_self is never 0', 'fewer than 2^31 nested acquisitions']


PROPS = {'C15'}
SPECS = [('DUMA_get_sem/DUMA_rel_sem', sem, SemWorld, 'sem')]
