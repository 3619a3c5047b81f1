"""Contract of _duma_deallocate (src/duma.c)."""
import z3
from vc.ir import *
from vc.sym import *
from vc.table import *
from vc.loops import Cand
from vc.world import new_state
from specs.api import desc, pick
from specs.alloc import outside

PROPS = {'C04', 'C05', 'C06', 'C07', 'C08', 'C13', 'C14', 'C16', 'C17', 'C18', 'C24'}


class FreeWorld(TableWorld):
    def __init__(s, mod, ctx):
        super().__init__(mod, ctx)
        s.desc = desc(mod)
        s.contracts['reduceProtectedMemory'] = s.k_reduce
        s.contracts['_duma_check_slack'] = s.k_check_slack
        s.contracts['_duma_check_all_slacks'] = s.k_check_all_slacks
        s.contracts['DUMA_Print'] = s.k_print
        s.contracts['slotForUserAddress'] = s.k_slot_for
        s.contracts['nearestSlotForUserAddress'] = s.k_nearest
        s.slack_checked = []
        s.prints = []

    def k_print(s, ex, st, args, ins):
        if s.ctx.record:
            s.prints.append((st.guard, list(args), ex.line))
        return None

    def k_check_slack(s, ex, st, args, ins):
        super().k_check_slack(ex, st, args, ins)
        if s.ctx.record:
            s.slack_checked.append((st.guard, args[0].t, st.copy()))


def deallocate(v, held, case=None):
    w = v.w
    if held:
        v.ctx.xtags = {'C10'}
    w.own_ok = z3.Bool('byte_is_the_programs')
    w.full_checks = []
    p, alloc = v.inp('address'), v.inp('allocator', 32)
    fname, line = v.inp('filename'), v.inp('lineno', 32)
    a0 = v.inp('entry_of_address')
    live = z3.Bool('address_is_live')
    undamaged = z3.Bool('undamaged')
    v.inputs['address_is_live'] = live
    v.assume(z3.And(z3.UGE(alloc, bv(2, 32)), z3.ULE(alloc, bv(17, 32))))

    def facts(ex, s):
        t = w.tv(s)
        w.ctx.assume(s.guard, imp(live, z3.And(t.intab(a0), t.user(a0), t.ua(a0) == p)))
        w.ctx.assume(s.guard, U('not live', [('s', 64, t.trig())], lambda a: z3.Or(live, z3.Not(z3.And(t.intab(a), t.user(a), t.ua(a) == p)))))
        w.ctx.assume(s.guard, U('undamaged', [('s', 64, t.trig()), ('x', 64, w.mtrig(s))], lambda a, x: imp(z3.And(undamaged, t.intab(a), t.state(a) == b16(INUSE)), t.intact(a)(x))))
        w.ctx.assume(s.guard, imp(w.own_ok, z3.UGE(w.x0 - t.ia(a0), t.isz(a0))))      # the byte lies outside the released block
    if held:
        st = start(v)
        st.gh['extra'] = bv(-1)
        w.assume_inv(st, True)
        w.assume_own(st)
        w.pre = st.copy()
        facts(None, st)
    else:
        st = outside(v)
        v.assume(w.options(st))
        w.on_lock = facts
    st0 = st.copy()
    pf = w.c(st, 'PROTECT_FREE')
    v.assume({'unlimited': pf < 0, 'none': pf == 0, 'budget': pf > 0}[case])
    null = z3.Or(p == bv(0), p == w.c(st, 'null_addr'))
    v.assume(z3.Not(z3.And(null, live)))

    def cands(ex, header, body, s0, init, hav, n):
        out = []
        if hav.M is not None and not hav.F:
            out.append(Cand('memory is as before', lambda vw: U('same', [('x', 64, sorted(vw.st.M.bases()))], lambda x: vw.st.M.read(x) == s0.M.read(x))))
            out[-1].restores = 'M'
        return out
    w.extra_cands.append(cands)
    rets = v.execute('_duma_deallocate', st, [p, bv(0 if held else 1, 32), alloc, fname, line])
    pre = w.pre
    t0 = w.tv(pre)
    c = lambda n: w.c(st0, n)
    kb = t0.kb(a0)
    budget = c('PROTECT_FREE')
    user = t0.alloc(a0) != bv(0, 8)
    fits = z3.Or(budget < 0, z3.And(budget > 0, z3.ULE(w.c(pre, 'sumProtectedMem') + kb, budget)))
    fam = pick(w.desc, z3.ZeroExt(24, t0.alloc(a0)), 1) == pick(w.desc, alloc, 1)
    for s, r in rets:
        v.oblige('the lock is released' if not held else 'the lock stays held', {'C14'}, s.guard, s.gh['depth'] == bv(0 if not held else 1))
        if not held:
            v.oblige('only releasing nothing does nothing', {'C05', 'C06', 'C07'}, s.guard, z3.Or(null, *[conj(list(u.guard)) for u, ln in w.unlocked]))
    # where the effect shows: at the release of the lock, or on return
    for s in [r[0] for r in rets] if held else [u for u, ln in w.unlocked]:
        g = s.guard + (z3.Not(null),)
        t = w.tv(s)
        P, M = s.P, s.M
        v.oblige('only a live block is released', {'C06'}, g, live)
        v.oblige('only by the family that allocated it', {'C18'}, g, fam)
        prot, gone = t.state(a0) == b16(ALLP), t.state(a0) == b16(EMPTY)
        v.oblige('the table keeps its place', {'C07'}, g, z3.And(t.T == t0.T, t.size == t0.size, t.count == t0.count))
        v.oblige('a released block is retained inaccessible, or given back', {'C05', 'C06', 'C24'}, g, z3.Or(prot, gone))
        v.oblige('retained when nothing limits it or it fits', {'C05', 'C16'}, g, imp(fits, prot))
        v.oblige('retained memory stays within the budget', {'C16'}, g, imp(z3.And(budget >= 0), z3.ULE(s.gh['sum'], budget)))
        v.oblige('given back when memory is not to be retained', {'C16'}, g, imp(budget == 0, gone))
        v.oblige('retained: what is known of the block is kept', {'C05', 'C06', 'C18', 'C24'}, g + (prot,), z3.And(t.ia(a0) == t0.ia(a0), t.ua(a0) == t0.ua(a0), t.isz(a0) == t0.isz(a0), t.us(a0) == t0.us(a0), t.alloc(a0) == t0.alloc(a0), t.pa(a0) == t0.pa(a0)))
        v.oblige('retained: the site of the release is recorded when known', {'C06', 'C17'}, g + (prot,), z3.If(line != bv(0, 32), z3.And(t.src(a0) == bv(2, 8), t.f(FN, a0) == fname, t.f(LN, a0) == line),
                 z3.And(t.src(a0) == t0.src(a0), t.f(FN, a0) == t0.f(FN, a0), t.f(LN, a0) == t0.f(LN, a0))))
        v.oblige('retained: every byte of the region is inaccessible', {'C05'}, g + (prot,), U('closed', [('x', 64, [])], lambda x: imp(t0.inreg(a0, x), P.read(x) == NONE)))
        v.oblige('given back: no byte of the region stays accessible', {'C05', 'C16'}, g + (gone,), U('unmapped', [('x', 64, [])], lambda x: imp(t0.inreg(a0, x), z3.And(P.read(x) != RW, imp(w.grant, P.read(x) == UNMAPPED)))))
        keep = lambda a: z3.And(t0.intab(a), a != a0, z3.Or(t0.isst(a, EMPTY, FREE, INUSE), z3.And(budget < 0, t0.isst(a, ALLP, BEGP))))
        v.oblige('other entries are kept', {'C04', 'C05', 'C06', 'C24', 'C18', 'C17'}, g, U('kept', [('s', 64, [])], lambda a: imp(keep(a), t.same(a, t0))))
        v.oblige('unlimited: other released blocks stay inaccessible', {'C05'}, g, U('kept', [('s', 64, []), ('x', 64, [])], lambda a, x: imp(z3.And(keep(a), t0.isst(a, ALLP, BEGP), t0.inreg(a, x)), P.read(x) == NONE)))
        v.oblige('a released block does not come back to life', {'C05', 'C06'}, g, U('kept', [('s', 64, [])], lambda a: imp(z3.And(t0.intab(a), t.user(a)), z3.And(a != a0, t0.user(a)))))
        x0 = w.x0
        v.oblige('memory of the program is unchanged', {'C04', 'C05'}, g, imp(w.own_ok, z3.And(P.read(x0) == pre.P.read(x0), M.read(x0) == pre.M.read(x0))))
        for n in ('allocList',):
            v.oblige('%s is unchanged' % n, {'C07'}, g, w.c(s, n) == w.c(pre, n))
        # no-man's-land of the block was looked at
        v.oblige('the no-man\'s-land of the block was checked', {'C08'}, g, z3.Or(*[z3.And(conj(list(cg)), a == a0) for cg, a, cs in w.slack_checked] or [FALSE]))
        v.oblige('the checked no-man\'s-land is undamaged', {'C08'}, g, U('intact', [('x', 64, [])], lambda x: t0.intact(a0)(x)))
        # periodic check of everything
        cf, cc = c('CHECK_FREQ'), w.c(pre, 'checkFreqCounter')
        due = z3.And(cf > 0, cc + 1 == cf)
        v.oblige('every CHECK_FREQ-th call checks all blocks', {'C08'}, g, imp(due, z3.Or(*[conj(list(cg)) for cg, cs in w.full_checks] or [FALSE])))
        v.oblige('the calls are counted', {'C08'}, g, imp(cf > 0, w.c(s, 'checkFreqCounter') == z3.If(due, bv(0, cc.size()), cc + 1)))
        if held:
            w.oblige_inv(set(), s, True, ' on return', skip=('permissions follow the table',))
            perms(v, s, a0, t0, null, True)
            for f in w.own(s, w.x0):
                v.oblige('memory of the program stays its own', {'inv', 'C04'}, g, imp(w.own_ok, f) if not isinstance(f, U) else f.guarded(w.own_ok))
    for s, ln in w.unlocked:
        v.ex.line = ln
        w.oblige_inv(set(), s, False, ' on return', skip=('permissions follow the table',))
        perms(v, s, a0, t0, null, False)
        for f in w.own(s, w.x0):
            v.oblige('memory of the program stays its own', {'inv', 'C04'}, s.guard, imp(w.own_ok, f) if not isinstance(f, U) else f.guarded(w.own_ok))
    misuse = z3.Or(z3.Not(live), z3.Not(fam), z3.Not(undamaged))
    early_init = w.c(st0, 'allocList') == bv(0)
    for g, msg, args, ln, fn in w.aborts:
        v.oblige('terminates only for misuse [%s]' % msg[:50].strip(), {'C07', 'C06', 'C18'}, g, z3.Or(z3.And(z3.Not(null), misuse), z3.Not(w.grant)), ln)
    v.cover('releases a block', rets[-1][0].guard)


def perms(v, s, a0, t0, null, open_):
    """the clause 'permissions follow the table' of the invariant, by cases: the released entry or another one, retained or given back"""
    w = v.w
    t = w.tv(s)
    nm, tg = 'invariant on return: permissions follow the table', INVTAGS['permissions follow the table']
    prot, gone = t.state(a0) == b16(ALLP), t.state(a0) == b16(EMPTY)
    P, p0, p1 = s.P, w.pre.P, s.P
    v.oblige(nm + ' (nothing released)', tg, s.guard + (null,), dict(w.inv(s, open_))['permissions follow the table'])
    g0 = s.guard + (z3.Not(null),)
    v.oblige(nm + ' (retained or given back)', tg, g0, z3.Or(prot, gone))
    for g, k in ((g0 + (prot,), 'retained'), (g0 + (gone,), 'given back')):
        v.oblige(nm + ' (%s, the released entry)' % k, tg, g, U('perm', [('x', 64, [])], lambda x: imp(z3.And(t.intab(a0), z3.Not(t.isst(a0, EMPTY)), t.inreg(a0, x)), w.perm(s, a0, x))))
        there = lambda a: z3.And(a != a0, t.intab(a), z3.Not(t.isst(a, EMPTY)))
        tr, pt = t.trig(), t.ptrig()
        v.lemma(nm + ' (%s, other entries lie apart)' % k, tg, g, U('apart', [('s', 64, tr), ('x', 64, pt)], lambda a, x: imp(z3.And(there(a), t.inreg(a, x)), z3.Not(t0.inreg(a0, x)))))
        intable = lambda x: z3.ULT(x - t.T, t.size)
        v.oblige(nm + ' (%s, the block table)' % k, tg, g, U('perm', [('s', 64, []), ('x', 64, [])], lambda a, x: imp(z3.And(there(a), t.inreg(a, x), intable(x)), w.perm(s, a, x))))
        v.oblige(nm + ' (%s, other entries)' % k, tg, g, U('perm', [('s', 64, []), ('x', 64, [])], lambda a, x: imp(z3.And(there(a), t.inreg(a, x), z3.Not(intable(x))), w.perm(s, a, x))))


SPECS = []
for _c in ('unlimited', 'none', 'budget'):
    for _h in (False, True):
        def _f(v, h=_h, c=_c):
            deallocate(v, h, c)
        SPECS.append(('deallocate, %s%s' % (_c, ', lock held' if _h else ''), _f, FreeWorld, 'duma', {'C10', 'C14'} if _h else PROPS))
