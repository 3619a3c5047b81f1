"""Contracts of the allocator: block table, pages, slack, budget (src/duma.c, duma_hlp.h, paging.h)."""
import z3
from vc.ir import *
from vc.sym import *
from vc.table import *
from vc.world import new_state

PROPS = {'C24', 'C06', 'C13', 'C14', 'C07'}


def outside(v):
    """state of an API call: lock not held, table closed, anything else unknown"""
    w = v.w
    st = new_state()
    w.unlocked, w.maps = [], []
    w.fresh_table(st)
    st.gh['depth'] = bv(0)
    w.setc(st, 'allocList', v.inp('allocList_before'))
    v.assume(w.c(st, 'allocList') != bv(0))
    return st


def quiet(v, rets, tags=('C13', 'C14')):
    """on return: lock released, table closed"""
    w = v.w
    v.post('the lock is released', {'C14'}, rets, lambda st, r: st.gh['depth'] == bv(0))
    for st, line in w.unlocked:
        t = w.tv(st)
        P = st.P
        v.oblige('block table is inaccessible when the lock is released', {'C13'}, st.guard, U('ptab', [('x', 64, [])], lambda x: imp(z3.ULT(x - t.T, t.size), P.read(x) == NONE)), line)


def usable_size(v):
    w = v.w
    st = outside(v)
    p = v.inp('ptr')
    a0 = v.inp('entry_of_ptr')
    live = z3.Bool('ptr_is_live')
    v.inputs['ptr_is_live'] = live

    def on_lock(ex, s):
        t = w.tv(s)
        w.ctx.assume(s.guard, imp(live, z3.And(t.intab(a0), t.user(a0), t.ua(a0) == p)))
        w.ctx.assume(s.guard, U('not live', [('s', 64, t.trig())], lambda a: z3.Or(live, z3.Not(z3.And(t.intab(a), t.user(a), t.ua(a) == p)))))
    w.on_lock = on_lock
    rets = v.execute('_duma_malloc_usable_size', st, [p])
    null = z3.Or(p == bv(0), p == w.c(st, 'null_addr'))
    v.assume(z3.Not(z3.And(null, live)))
    pre = w.pre
    t = w.tv(pre)
    v.post('0 for NULL and the shared zero-size address', {'C24', 'C07'}, rets, lambda s, r: imp(null, r.t == bv(0)))
    v.post('the size recorded for the block', {'C24'}, rets, lambda s, r: z3.Or(null, r.t == t.us(a0)))
    v.post('only a live block is accepted', {'C06'}, rets, lambda s, r: z3.Or(null, live))
    v.aborts_only_if({'C07', 'C24'}, z3.Or(z3.Not(w.grant), z3.And(z3.Not(null), z3.Not(live))))
    v.post('size of block', {'C24'}, [], None)
    quiet(v, rets)
    v.cover('returns a size', rets[-1][0].guard)


# ------------------------------------------------------------------ searches
def slot_for(v):
    w = v.w
    st = held(v)
    p = v.inp('address')
    t = w.tv(st)
    st0 = st.copy()
    rets = v.execute('slotForUserAddress', st, [p])
    for s, r in rets:
        v.oblige('finds an entry with this address', {'C06', 'C18', 'C24', 'C10'}, s.guard, z3.Or(r.t == bv(0), z3.And(t.intab(r.t), t.ua(r.t) == p)))
        v.oblige('finds every entry with this address', {'C06', 'C07', 'C24', 'C10'}, s.guard, U('missed', [('s', 64, [])], lambda a: imp(z3.And(r.t == bv(0), t.intab(a)), t.ua(a) != p)))
    unchanged(v, {'C04', 'C08'}, rets, st0)
    v.aborts_only_if({'C07'}, FALSE)
    v.cover('returns', rets[-1][0].guard)


def nearest(v):
    w = v.w
    st = held(v)
    p = v.inp('address')
    t = w.tv(st)
    st0 = st.copy()
    rets = v.execute('nearestSlotForUserAddress', st, [p])
    for s, r in rets:
        v.oblige('names an entry of the table', {'C06', 'C07', 'C24'}, s.guard, z3.Or(r.t == bv(0), t.intab(r.t)))
    unchanged(v, {'C04', 'C08'}, rets, st0)
    v.aborts_only_if({'C07'}, FALSE)
    v.cover('returns', rets[-1][0].guard)


# ------------------------------------------------------------------ slack
def held(v, n=1):
    """a helper called with the lock held and the table accessible"""
    w = v.w
    st = start(v)
    t = w.tv(st)
    for nm, f in w.scal(st):
        if nm == 'table':
            v.assume(f)
    P = st.P
    v.assume(U('ptab', [('x', 64, t.ptrig())], lambda x: imp(z3.ULT(x - t.T, t.size), P.read(x) == RW)))
    return st


def unchanged(v, tags, rets, st0, maps='PMF'):
    w = v.w
    st0 = st0.copy()
    for st, r in rets:
        for o in OFFS:
            if st.F[o] is not st0.F[o]:
                v.oblige('block table entries are unchanged', tags, st.guard, U('same', [('x', 64, [])], lambda x, st=st, o=o: st.F[o].read(x) == st0.F[o].read(x)))
        for nm in 'PM':
            if getattr(st, nm) is not getattr(st0, nm):
                v.oblige('%s is unchanged' % dict(P='accessibility', M='memory')[nm], tags, st.guard, U('same', [('x', 64, [])], lambda x, st=st, nm=nm: getattr(st, nm).read(x) == getattr(st0, nm).read(x)))
        for k in st.cells:
            a = st0.cells.get(k)
            if a is None:
                a = w.cell_init(k)
            if not a.eq(st.cells[k]) and not k[0].startswith('%'):
                v.oblige('%s+%d is unchanged' % k[:2], tags, st.guard, st.cells[k] == a)


def check_slack(v):
    w = v.w
    st = held(v)
    a = v.inp('slot')
    t = w.tv(st)
    st0 = st.copy()
    v.assume(t.intab(a))
    v.assume(U('slack accessible', [('x', 64, t.ptrig() + w.mtrig(st0))], t.slackok(a, st0.P)))
    ok = z3.Bool('undamaged')
    v.assume(U('intact', [('x', 64, w.mtrig(st))], lambda x: imp(ok, t.intact(a)(x))))
    rets = v.execute('_duma_check_slack', st, [a])
    for s, r in rets:
        v.oblige('returns only when the no-man\'s-land is undamaged', {'C08'}, s.guard, U('intact', [('x', 64, [])], t.intact(a)))
    unchanged(v, {'C04', 'C08'}, rets, st0)
    v.aborts_only_if({'C07', 'C08'}, z3.Not(ok), 'reports damage only when there is some')
    v.cover('returns', rets[-1][0].guard)


def init_slack(v):
    w = v.w
    st = held(v)
    a = v.inp('slot')
    t = w.tv(st)
    st0 = st.copy()
    v.assume(t.intab(a))
    v.assume(U('slack accessible', [('x', 64, t.ptrig() + w.mtrig(st0))], t.slackok(a, st0.P, True)))
    v.assume(z3.Or(t.us(a) == bv(0), t.ia(a) != bv(0)))
    rets = v.execute('_duma_init_slack', st, [a])
    f = t.fill()
    for s, r in rets:
        v.oblige('no-man\'s-land gets the slack value, nothing else is written', {'C08', 'C04'}, s.guard,
                 U('filled', [('x', 64, [])], lambda x, m=s.M: m.read(x) == z3.If(z3.And(t.us(a) != bv(0), t.slack(a, x)), f, st0.M.read(x))))
        s.M = st0.M
    unchanged(v, {'C04', 'C08'}, rets, st0)
    v.aborts_only_if({'C07'}, FALSE)
    v.cover('returns', rets[-1][0].guard)


def check_all_slacks(v):
    w = v.w
    w.contracts['_duma_check_slack'] = w.k_check_slack
    st = held(v)
    t = w.tv(st)
    st0 = st.copy()
    used = lambda a: z3.And(t.intab(a), t.state(a) == b16(INUSE))
    v.assume(U('slack accessible', [('s', 64, t.trig()), ('x', 64, t.ptrig() + w.mtrig(st0))], lambda a, x: imp(used(a), t.slackok(a, st0.P)(x))))
    ok = z3.Bool('undamaged')
    v.assume(U('intact', [('s', 64, t.trig()), ('x', 64, w.mtrig(st))], lambda a, x: imp(z3.And(ok, used(a)), t.intact(a)(x))))

    def cands(ex, header, body, s0, init, hav, n):
        return [Cand('entries passed so far are undamaged', lambda vw: U('prefix', [('s', 64, t.trig()), ('x', 64, w.mtrig(st0))],
                     lambda a, x: imp(z3.And(used(a), z3.ULT(z3.LShR(a - t.T, 6), vw.n)), t.intact(a)(x))))]
    w.extra_cands.append(cands)
    rets = v.execute('_duma_check_all_slacks', st, [])
    for s, r in rets:
        v.oblige('returns only when every no-man\'s-land is undamaged', {'C08'}, s.guard, U('intact', [('s', 64, []), ('x', 64, [])], lambda a, x: imp(used(a), t.intact(a)(x))))
    unchanged(v, {'C04', 'C08'}, rets, st0)
    v.aborts_only_if({'C07', 'C08'}, z3.Not(ok), 'reports damage only when there is some')
    v.cover('returns', rets[-1][0].guard)


# ------------------------------------------------------------------ reclaiming
def reduce_(v):
    w = v.w
    st = start(v)
    st.gh['extra'] = bv(-1)
    k = v.inp('reductionSizekB')
    w.assume_inv(st, True)
    S0 = st.copy()
    w.relation = w.reclaim
    w.relation_base = S0
    w.ctx.taildup = True
    v.assume(U('own', [('s', 64, w.tv(st).trig())], lambda a: TRUE))
    w.assume_own(st)
    rets = v.execute('reduceProtectedMemory', st, [k])
    for s, r in rets:
        for nm, tg, f in w.reclaim(S0, s):
            v.oblige(nm, tg | {'C05'}, s.guard, f)
        v.oblige('accounting of protected memory is exact', {'C16'}, s.guard, w.c(s, 'sumProtectedMem') == s.gh['sum'])
        v.oblige('protected memory only shrinks', {'C16'}, s.guard, z3.ULE(s.gh['sum'], S0.gh['sum']))
        v.oblige('success means that as much as requested was reclaimed', {'C16', 'C12'}, s.guard, imp(r.t != bv(0, 32), z3.ULE(k, S0.gh['sum'] - s.gh['sum'])))
    unchanged(v, {'C04'}, [(x, None) for x in []], S0)
    for s, r in rets:
        if s.M is not S0.M:
            v.oblige('memory is unchanged', {'C04'}, s.guard, U('same', [('x', 64, [])], lambda x, m=s.M: m.read(x) == S0.M.read(x)))
    w.frame_cells(v, {'C16', 'C04', 'C07'}, rets, S0, ['sumProtectedMem', 'sumAllocatedMem'])
    v.post('the lock stays held', {'C14'}, rets, lambda s, r: s.gh['depth'] == S0.gh['depth'])
    v.aborts_only_if({'C07'}, z3.Not(w.grant))
    for k in (0, 1):
        v.cover('returns %d' % k, (z3.Or(*[conj(list(s.guard) + [r.t == bv(k, 32)]) for s, r in rets]),))


def reclaim_lemma(v):
    """the invariant survives every change that the contract of reduceProtectedMemory allows"""
    w = v.w
    st = start(v)
    w.assume_inv(st, True)
    w.assume_own(st)
    S0 = st.copy()
    for o, n in OFFS.items():
        st.F[o] = Map.base('F%d' % o, n)
    st.P = Map.base('P', 2)
    st.gh['sum'], st.gh['empty'] = w.ctx.fresh('sum'), w.ctx.fresh('empty')
    w.setc(st, 'sumProtectedMem', st.gh['sum'])
    for nm, tg, f in w.reclaim(S0, st):
        w.ctx.assume((), f)
    v.ex = type('L', (), {'line': 0})
    w.oblige_inv(set(), st, True)
    for i, f in enumerate(w.own(st, w.x0)):
        v.oblige('memory of the program stays its own', {'C04'}, (), imp(w.own_ok, f) if not isinstance(f, U) else f.guarded(w.own_ok))
    v.cover('satisfiable', ())


SPECS = [('malloc_usable_size', usable_size, TableWorld, 'duma', {'C24', 'C06', 'C13', 'C14', 'C07'}),
         ('slotForUserAddress', slot_for, TableWorld, 'duma', {'C04', 'C06', 'C07', 'C08', 'C10', 'C18', 'C24'}),
         ('nearestSlotForUserAddress', nearest, TableWorld, 'duma', {'C04', 'C06', 'C07', 'C08', 'C24'}),
         ('check_slack', check_slack, TableWorld, 'duma', {'C08', 'C07', 'C04'}),
         ('init_slack', init_slack, TableWorld, 'duma', {'C08', 'C07', 'C04'}),
         ('check_all_slacks', check_all_slacks, TableWorld, 'duma', {'C08', 'C07', 'C04'}),
         ('reduceProtectedMemory', reduce_, TableWorld, 'duma', {'C01', 'C02', 'C04', 'C05', 'C06', 'C07', 'C11', 'C12', 'C14', 'C16'}),
         ('reclaim_lemma', reclaim_lemma, TableWorld, 'duma', {'C04', 'C05', 'C16', 'C07', 'C14'})]
