"""Contract of _duma_allocate."""
import z3
from vc.ir import *
from vc.sym import *
from vc.table import *
from vc.world import new_state

PROPS = set()
BIG = bv(1 << 44)


def family_tables(v):
    """the constant table that maps an entry point to its family and language"""
    return None


def entry_pool(pool, t):
    out = {}
    for nm in t.trig():
        out.update(pool.get(nm, {}))
    return list(out.values())


def some_entry(name, t, pred):
    return E(name, lambda pool: [pred(a) for a in entry_pool(pool, t)] or [FALSE])


def allocate(v, case, grow, granted=None):
    w = v.w
    w.pick = {'_duma_allocate/1': ['n<', 'S '], '_duma_allocate/2': ['(?!.*linear|.*unchanged|n<2.30|acc )']}
    w.contracts['reduceProtectedMemory'] = w.k_reduce
    w.contracts['allocateMoreSlots'] = w.k_grow
    w.contracts['_duma_init_slack'] = w.k_init_slack
    w.contracts['_duma_check_all_slacks'] = w.k_check_all_slacks
    st = new_state()
    w.unlocked, w.maps, w.full_checks = [], [], []
    w.map_lemma = True
    w.fresh_table(st)
    st.gh['depth'] = bv(0)
    st.gh['w'] = v.inp('watched_entry')
    w.own_ok = z3.Bool('byte_is_the_programs')
    w.assume_inv(st, False)
    w.assume_own(st)
    start = st.copy()
    align, n, below, fill = v.inp('alignment'), v.inp('userSize'), v.inp('protectBelow', 32), v.inp('fillByte', 32)
    alloc, fail = v.inp('allocator', 32), v.inp('fail', 32)
    fname, line = v.inp('filename'), v.inp('lineno', 32)
    c = lambda nm: w.c(start, nm)
    cpp = z3.And(z3.UGE(alloc, bv(10, 32)), z3.ULE(alloc, bv(17, 32)))
    v.assume(z3.And(z3.UGE(alloc, bv(2, 32)), z3.ULE(alloc, bv(17, 32)), z3.ULE(fail, bv(1, 32))))
    w.ctx.light.append(z3.And(z3.UGE(alloc, bv(2, 32)), z3.ULE(alloc, bv(17, 32))))
    strat = z3.If(cpp, c('NEW_0_STRATEGY'), c('MALLOC_0_STRATEGY'))
    if case == 'zero':
        n = bv(0)
    else:
        v.assume(n != bv(0))
        if case == 'above':
            below = bv(0, 32)
        else:
            v.assume(below != bv(0, 32))
    undamaged = z3.Bool('undamaged')
    w.ctx.prune_loops = bool(granted)
    if granted:
        v.assume(w.grant)
        v.assume(z3.And(z3.ULT(n, BIG), z3.ULT(align, BIG), z3.ULT(z3.SignExt(32, c('ALIGNMENT')), BIG)))
        w.ctx.light.append(w.grant)
    w.unlimited = z3.And(c('PROTECT_FREE') < 0, c('MAX_ALLOC') <= 0)

    def on_lock(ex, s):
        t = w.tv(s)
        w.ctx.assume(s.guard, U('undamaged', [('s', 64, t.trig()), ('x', 64, w.mtrig(s))], lambda a, x: imp(z3.And(undamaged, t.intab(a), t.state(a) == b16(INUSE)), t.intact(a)(x))))
        few = z3.ULT(w.c(s, 'unUsedSlots'), bv(7))
        s.guard = s.guard + (few if grow else z3.Not(few),)
        if not grow:
            # a count of at least two has two members (see DESIGN.md, trusted base)
            e1, e2 = w.ctx.fresh('empty_entry'), w.ctx.fresh('empty_entry')
            w.ctx.assume(s.guard, z3.And(e1 != e2, *[z3.And(t.intab(e), t.state(e) == b16(EMPTY)) for e in (e1, e2)]))
    w.on_lock = on_lock
    w.relation = w.alive
    rets = v.execute('_duma_allocate', st, [align, n, below, fill, bv(1, 32), alloc, fail, fname, line])
    pre = w.pre
    tp = w.tv(pre) if pre is not None else None
    dflt = z3.SignExt(32, c('ALIGNMENT'))
    big = z3.Or(z3.UGE(n, BIG), z3.UGE(align, BIG), z3.And(align == bv(0), z3.UGE(dflt, BIG)))
    eff = z3.If(align != bv(0), align, dflt)
    pow2 = lambda a: a & (a - bv(1)) == bv(0)
    for k, (s, r) in enumerate(rets):
        g0 = s.guard
        ok = r.t != bv(0)
        # which return is this: before the lock was taken or after
        locked = s.P is not start.P
        t = w.tv(s)
        P, M = s.P, s.M
        if case == 'zero' and not locked:
            v.oblige('zero size: strategy 1 gives NULL, strategy 2 the shared address', {'C11'}, g0, z3.Or(z3.And(strat == 1, r.t == bv(0)), z3.And(strat == 2, r.t == c('null_addr'))))
            v.oblige('the shared zero-size address is inaccessible', {'C11'}, g0 + (strat == 2,), P.read(r.t) == NONE)
            v.oblige('lock', {'C14'}, g0, s.gh['depth'] == bv(0))
            continue
        if not locked:
            v.oblige('a refusal without a try is for an impossible size', {'C12'}, g0, z3.And(r.t == bv(0), big))
            v.oblige('lock', {'C14'}, g0, s.gh['depth'] == bv(0))
            continue
        v.oblige('the lock is released', {'C14'}, g0, s.gh['depth'] == bv(0))
        g = g0 + (ok,)
        if case == 'zero':
            v.oblige('zero size: strategy 3', {'C11'}, g0, z3.Or(strat == 3, z3.And(strat != 1, strat != 2, strat != 0)))
            v.oblige('zero size: the address lies inside an inaccessible page', {'C11'}, g, U('page', [('x', 64, [])], lambda x: imp(z3.ULT(x - (r.t & bv(-PG)), bv(PG)), P.read(x) == NONE)))
            v.oblige('zero size: NULL only without memory', {'C11', 'C12'}, g0 + (z3.Not(ok),), z3.Not(w.grant))
        else:
            a = lambda s=s: None
            v.oblige('the block is accessible', {'C01', 'C02', 'C12'}, g, U('acc', [('x', 64, [])], lambda x: imp(z3.ULT(x - r.t, n), P.read(x) == RW)))
            v.oblige('the block does not wrap', {'C12', 'C01', 'C02'}, g, z3.And(z3.ULE(r.t, r.t + n), z3.ULE(r.t + n, A)))
            if case == 'above':
                e = rup(r.t + n)
                v.oblige('a whole inaccessible page follows the block', {'C01'}, g, U('guard', [('x', 64, [])], lambda x: imp(z3.ULT(x - e, bv(PG)), P.read(x) == NONE)))
                v.oblige('the padding is smaller than the alignment', {'C01'}, g, z3.Or(z3.ULT(e - (r.t + n), align), z3.And(align == bv(0), z3.ULT(e - (r.t + n), dflt))))
            else:
                v.oblige('the block starts at a page', {'C02'}, g, pg(r.t))
                v.oblige('a whole inaccessible page precedes the block', {'C02'}, g, U('guard', [('x', 64, [])], lambda x: imp(z3.ULT(x - (r.t - bv(PG)), bv(PG)), P.read(x) == NONE)))
            v.oblige('explicit alignment', {'C03'}, g, imp(align != bv(0), z3.And(pow2(align), r.t & (align - bv(1)) == bv(0))))
            v.oblige('default alignment', {'C03'}, g, imp(z3.And(align == bv(0), z3.ULE(dflt, n)), z3.And(pow2(dflt), r.t & (dflt - bv(1)) == bv(0))))
            v.oblige('alignment of blocks smaller than the default: a power of two above half the size', {'C03'}, g,
                     U('algn', [('x', 64, [])], lambda x: imp(z3.And(align == bv(0), z3.UGT(dflt, n), pow2(x), z3.ULE(x, n), x != bv(0)), r.t & (x - bv(1)) == bv(0))))
            v.oblige('NULL only without memory or for impossible sizes', {'C12'}, g0 + (z3.Not(ok),), z3.Or(z3.Not(w.grant), big))
            v.oblige('fill value', {'C09'}, g, U('fill', [('x', 64, [])], lambda x: imp(z3.And(fill != bv(-1, 32), z3.ULT(x - r.t, n)), M.read(x) == z3.Extract(7, 0, fill))))
        rec = lambda a: z3.And(t.intab(a), t.state(a) == b16(INUSE), t.ua(a) == r.t, t.us(a) == n, z3.ZeroExt(24, t.alloc(a)) == alloc, t.src(a) == bv(1, 8), t.f(FN, a) == fname, t.f(LN, a) == line)
        v.oblige('the block is recorded with its size, family and site', {'C24', 'C18', 'C17', 'C04', 'C06'}, g, some_entry('recorded', t, rec))
        ns = w.ctx.fresh('new_entry')
        w.ctx.assume(g, rec(ns))
        if case != 'zero':
            v.oblige('no-man\'s-land is filled', {'C08'}, g, U('filled', [('x', 64, [])], lambda x: imp(t.slack(ns, x), M.read(x) == t.fill())))
        # other blocks
        wa, wb = pre.gh['w'], s.gh['w']
        v.oblige('other entries are kept', {'C04', 'C05', 'C06', 'C24', 'C18'}, g0, w.watch_keep(pre, s))
        v.oblige('the new entry is not one of a live block', {'C04'}, g, imp(z3.And(tp.intab(wa), tp.user(wa)), wb != ns))
        x0 = w.x0
        v.oblige('memory of the program is unchanged', {'C04'}, g0, imp(w.own_ok, z3.And(P.read(x0) == pre.P.read(x0), M.read(x0) == pre.M.read(x0))))
        v.oblige('the new block is fresh memory', {'C04', 'C11'}, g, imp(w.own_ok, z3.UGE(x0 - t.ia(ns), t.isz(ns))))
        v.oblige('retained memory only shrinks', {'C16'}, g0, z3.ULE(s.gh['sum'], pre.gh['sum']))
    for s, ln in w.unlocked:
        v.ex.line = ln
        w.oblige_inv(set(), s, False, ' on return')
        for f in w.own(s, w.x0):
            v.oblige('memory of the program stays its own', {'inv', 'C04'}, s.guard, imp(w.own_ok, f) if not isinstance(f, U) else f.guarded(w.own_ok))
    for g, msg, args, ln, fn in w.aborts:
        why = [z3.Not(w.grant), z3.Not(undamaged)]
        if case == 'zero':
            why.append(strat == 0)
        else:
            why += [z3.Not(pow2(eff)), z3.And(big, fail == bv(1, 32), c('MALLOC_FAILEXIT') != 0)]
        v.oblige('terminates only for misuse or without memory [%s]' % msg[:50].strip(), {'C07', 'C11', 'C12', 'C03'}, g, z3.Or(*why), ln)
    v.cover('returns a block', rets[-1][0].guard + (rets[-1][1].t != bv(0),))


# one specification per layout, for the calls that find entries left in the table and memory granted by the system; the calls that
# enlarge the table and the refusals of the system are not decided here (bounded)
PROPS_OF = {'zero': {'C11'},
            'above': {'C01', 'C03', 'C08', 'C09', 'C12', 'C24'},
            'below': {'C02', 'C03', 'C08', 'C09', 'C12', 'C24'}}
SPECS = []
for _c in ('zero',):
    def _f(v, c=_c):
        allocate(v, c, False, True)
    _f.split = True
    SPECS.append(('allocate granted, %s' % _c, _f, TableWorld, 'duma', PROPS_OF[_c]))
# two to five minutes: thorough tier only
THOROUGH = ('allocate granted, zero',)
