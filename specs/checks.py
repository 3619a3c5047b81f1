"""Contracts of duma_check, duma_checkAll and of the leak report (src/duma.c)."""
import z3
from vc.ir import *
from vc.sym import *
from vc.table import *
from vc.loops import Cand
from vc.world import new_state
from specs.api import desc, pick
from specs.alloc import outside, quiet, unchanged

PROPS = {'C06', 'C07', 'C08', 'C13', 'C14'}


class CheckWorld(TableWorld):
    def __init__(s, mod, ctx):
        super().__init__(mod, ctx)
        C = s.contracts
        C['slotForUserAddress'] = s.k_slot_for
        C['nearestSlotForUserAddress'] = s.k_nearest
        C['_duma_check_slack'] = s.k_check_slack
        C['_duma_check_all_slacks'] = s.k_check_all_slacks
        C['DUMA_Print'] = s.k_print
        s.full_checks = []
        s.slack_checked = []
        s.prints = []
        s.desc = desc(mod)

    def k_check_slack(s, ex, st, args, ins):
        super().k_check_slack(ex, st, args, ins)
        if s.ctx.record:
            s.slack_checked.append((st.guard, args[0].t))

    def k_print(s, ex, st, args, ins):
        if s.ctx.record:
            s.prints.append((st.guard, args, ex.line, z3.simplify(st.gh['depth'])))
        return None


def begin(v):
    w = v.w
    st = outside(v)
    v.assume(w.options(st))
    und = z3.Bool('undamaged')
    return st, und


def same_inside(v, rets, s1, tags):
    """between taking and releasing the lock nothing was changed but the accessibility of the table"""
    w = v.w
    pre = w.pre
    for s, ln in s1:
        t = w.tv(pre)
        for o in OFFS:
            if s.F[o] is not pre.F[o]:
                v.oblige('block table entries are unchanged', tags, s.guard, U('same', [('x', 64, [])], lambda x, s=s, o=o: s.F[o].read(x) == pre.F[o].read(x)))
        v.oblige('accessibility of all other memory is unchanged', tags | {'C05', 'C01', 'C02'}, s.guard, U('same', [('x', 64, [])], lambda x, s=s: z3.Or(z3.ULT(x - t.T, t.size), s.P.read(x) == pre.P.read(x))))
        if s.M is not pre.M:
            v.oblige('memory is unchanged', tags, s.guard, U('same', [('x', 64, [])], lambda x, s=s: s.M.read(x) == pre.M.read(x)))
        for k in s.cells:
            a = pre.cells.get(k)
            if a is None:
                a = w.cell_init(k)
            if not a.eq(s.cells[k]) and not k[0].startswith('%') and k[0] in (S_, G_):
                v.oblige('%s+%d is unchanged' % k[:2], tags, s.guard, s.cells[k] == a)


def check(v):
    w = v.w
    st, und = begin(v)
    p = v.inp('address')
    a0 = v.inp('entry_of_address')
    live = z3.Bool('address_is_live')
    v.inputs['address_is_live'] = live

    def on_lock(ex, s):
        t = w.tv(s)
        w.ctx.assume(s.guard, imp(live, z3.And(t.intab(a0), t.user(a0), t.ua(a0) == p)))
        w.ctx.assume(s.guard, U('not live', [('s', 64, t.trig())], lambda a: z3.Or(live, z3.Not(z3.And(t.intab(a), t.user(a), t.ua(a) == p)))))
        w.ctx.assume(s.guard, U('undamaged', [('s', 64, t.trig()), ('x', 64, w.mtrig(s))], lambda a, x: imp(z3.And(und, t.intab(a), t.state(a) == b16(INUSE)), t.intact(a)(x))))
    w.on_lock = on_lock
    null = z3.Or(p == bv(0), p == w.c(st, 'null_addr'))
    v.assume(z3.Not(z3.And(null, live)))
    rets = v.execute('duma_check', st, [p])
    pre = w.pre
    t = w.tv(pre)
    for s, ln in w.unlocked:
        g = s.guard + (z3.Not(null),)
        v.oblige('only a live block is accepted', {'C06', 'C08'}, g, live)
        v.oblige('returns only when the no-man\'s-land is undamaged', {'C08'}, g, U('intact', [('x', 64, [])], lambda x: t.intact(a0)(x)))
    for s, r in rets:
        v.oblige('every live block is checked', {'C08', 'C06'}, s.guard, z3.Or(null, *[conj(list(u.guard)) for u, ln in w.unlocked]))
    same_inside(v, rets, w.unlocked, {'C04', 'C08'})
    v.aborts_only_if({'C07', 'C08'}, z3.Or(z3.Not(w.grant), z3.And(z3.Not(null), z3.Or(z3.Not(live), z3.Not(und)))), 'terminates only for misuse')
    quiet(v, rets)
    v.cover('checks a block', w.unlocked[-1][0].guard + (z3.Not(null),))


def check_all(v):
    w = v.w
    st, und = begin(v)

    def on_lock(ex, s):
        t = w.tv(s)
        w.ctx.assume(s.guard, U('undamaged', [('s', 64, t.trig()), ('x', 64, w.mtrig(s))], lambda a, x: imp(z3.And(und, t.intab(a), t.state(a) == b16(INUSE)), t.intact(a)(x))))
    w.on_lock = on_lock
    rets = v.execute('duma_checkAll', st, [])
    t = w.tv(w.pre)
    for s, ln in w.unlocked:
        v.oblige('returns only when every no-man\'s-land is undamaged', {'C08'}, s.guard, U('intact', [('s', 64, []), ('x', 64, [])], lambda a, x: imp(z3.And(t.intab(a), t.user(a)), t.intact(a)(x))))
    same_inside(v, rets, w.unlocked, {'C04', 'C08'})
    v.aborts_only_if({'C07', 'C08'}, z3.Or(z3.Not(w.grant), z3.Not(und)), 'reports damage only when there is some')
    quiet(v, rets)
    v.cover('returns', rets[-1][0].guard)


# ------------------------------------------------------------------ leak report
def fmt_text(v, args):
    """the constant format string of a print"""
    g = args[0].glob if args else None
    if g is None or g[1] not in (0, None) and not (hasattr(g[1], 'as_long') and g[1].as_long() == 0):
        return None
    i = v.mod.globals.get(g[0])
    if not i or i[0] is None or i[0].k != 'cstr':
        return None
    return bytes(i[0].v).split(b'\0')[0].decode('latin1')


def leaks(so):
    def f(v):
        w = v.w
        st, und = begin(v)
        B = z3.BitVecSort(64)
        W = z3.BitVecSort(32)
        rep_f, all_f = z3.Function('reported_leaks', B, W), z3.Function('live_blocks', B, W)
        box = {}

        def on_lock(ex, s):
            t = w.tv(s)
            box['t'] = t
            one, z = bv(1, 32), bv(0, 32)
            box['live'] = live = lambda a: t.user(a)
            box['leak'] = leak = lambda a: z3.And(t.user(a), z3.Or(w.c(s, 'REPORT_ALL_LEAKS') != z, t.f(LN, a) > z))
            # definition: number of reported / live entries among the first k entries
            ent = lambda k: t.T + (k << 6)
            w.ctx.assume((), z3.And(rep_f(bv(0)) == z, all_f(bv(0)) == z))
            w.ctx.assume((), U('count of leaks', [('k', 64, ['reported_leaks', 'live_blocks'])], lambda k: z3.And(
                rep_f(k + bv(1)) == rep_f(k) + z3.If(leak(ent(k)), one, z), all_f(k + bv(1)) == all_f(k) + z3.If(live(ent(k)), one, z))))
            # fewer than 2^31 blocks (the counters are ints); a reported leak is a live block: facts about counting
            w.ctx.assume((), z3.ULT(t.count, bv(1 << 31)))
            w.ctx.assume((), U('count bounds', [('k', 64, ['reported_leaks', 'live_blocks'])], lambda k: imp(z3.ULE(k, t.count), z3.And(z3.ULE(rep_f(k), all_f(k)), z3.ULE(z3.ZeroExt(32, all_f(k)), k)))))
        w.on_lock = on_lock

        def cands(ex, header, body, s0, init, hav, n):
            out = []
            for r, p in init.items():
                if p.t is not None and z3.is_bv(p.t) and p.t.size() == 32:
                    for nm, q in (('reported', lambda k: rep_f(k)), ('live', lambda k: all_f(k)), ('extra', lambda k: all_f(k) - rep_f(k))):
                        out.append(Cand('L %s counts %s' % (r, nm), lambda vw, r=r, q=q: vw.phi[r] == q(vw.n)))
            return out
        w.extra_cands = [cands]

        def on_step(ex, lid, h, b, exits, init):
            if ex.fn.name.strip('@') != 'DUMA_delFrame':
                return
            t = box['t']
            a = t.T + (h.n << 6)
            g = b.st.guard
            lines = [(pg_, args, ln) for pg_, args, ln, d in w.prints]
            v.oblige('a line is printed for exactly the blocks to report', {'C17'}, g, box['leak'](a) == z3.Or(*[conj(list(p)) for p, _, _ in lines] or [FALSE]))
            for i, (p, args, ln) in enumerate(lines):
                for q, _, _ in lines[:i]:
                    v.oblige('one line per block', {'C17'}, p, z3.Not(conj(list(q))), ln)
                txt = fmt_text(v, args)
                want = "\nDUMA: ptr=0x%a size=%d type='%s' not freed\n" if so else "\nDUMA: ptr=0x%a size=%d type='%s' alloced from %s(%i) not freed\n"
                v.oblige('text of a leak line', {'C17'}, p, TRUE if txt == want else FALSE, ln)
                av = [x.t for x in args[1:]]
                if len(av) < (3 if so else 5):
                    v.oblige('arguments of a leak line', {'C17'}, p, FALSE, ln)
                    continue
                v.oblige('a leak line names the address and the size', {'C17', 'C24'}, p, z3.And(av[0] == t.ua(a), av[1] == t.us(a)), ln)
                v.oblige('a leak line names the allocating function', {'C17', 'C18'}, p, z3.Or(*[z3.And(t.alloc(a) == bv(k, 8), names(av[2], e[0])) for k, e in enumerate(w.desc)]), ln)
                if not so:
                    v.oblige('a leak line names the place of the allocation', {'C17'}, p, z3.And(av[3] == t.f(FN, a), av[4] == t.f(LN, a)), ln)
            box['loop'] = len(w.prints)
        w.on_step = on_step
        w.pick = {'DUMA_delFrame/0': ['n<', 'L ']}

        def names(p, s):
            cs = [w.gaddr(nm) for nm, (i, c, ty) in v.mod.globals.items() if c and i is not None and i.k == 'cstr' and bytes(i.v).split(b'\0')[0].decode('latin1') == s]
            return z3.Or(*[p == c for c in cs] or [FALSE])
        rets = v.execute('DUMA_delFrame', st, [])
        t = box['t']
        tot = [x for x in w.prints if x[2] and fmt_text(v, x[1]) and 'Reported %i leak(s)' in fmt_text(v, x[1])]
        n_rep, n_all = rep_f(t.count), all_f(t.count)
        for s, ln in w.unlocked:
            v.oblige('totals are printed when there is a leak', {'C17'}, s.guard, (n_all != bv(0, 32)) == z3.Or(*[conj(list(x[0])) for x in tot] or [FALSE]))
        for i, x in enumerate(tot):
            v.oblige('the totals are right', {'C17'}, x[0], z3.And(x[1][1].t == n_rep, x[1][2].t == n_all - n_rep), x[2])
            v.oblige('text of the totals', {'C17'}, x[0], TRUE if fmt_text(v, x[1]) == 'DUMA: Reported %i leak(s).\nDUMA: There are %i extra leak(s) without allocation information.\n' else FALSE, x[2])
            for y in tot[:i]:
                v.oblige('one line of totals', {'C17'}, x[0], z3.Not(conj(list(y[0]))), x[2])
        if 'loop' not in box:
            raise Unsupported('no loop over the block table in the leak report')
        same_inside(v, rets, w.unlocked, {'C04', 'C17'})
        v.aborts_only_if({'C07', 'C17'}, z3.Not(w.grant), 'terminates only without memory')
        quiet(v, rets)
        v.cover('returns', rets[-1][0].guard)
    return f


P = {'C04', 'C06', 'C07', 'C08', 'C13', 'C14'}
SPECS = [('duma_check', check, CheckWorld, 'duma', P), ('duma_checkAll', check_all, CheckWorld, 'duma', P - {'C06'}),
         ('leak report', leaks(False), CheckWorld, 'duma', {'C04', 'C07', 'C13', 'C14', 'C17'}),
         ('leak report, shared library', leaks(True), CheckWorld, 'duma_so', {'C17', 'C07'})]
