"""Contract of _duma_realloc (src/duma.c), against the contracts of _duma_allocate and _duma_deallocate with the lock held."""
import z3
from vc.ir import *
from vc.sym import *
from vc.table import *
from vc.loops import Cand
from specs.api import desc, pick
from specs.alloc import outside, quiet

PROPS = {'C10', 'C04', 'C05', 'C06', 'C07', 'C09', 'C12', 'C13', 'C14', 'C18', 'C24'}


class ReallocWorld(TableWorld):
    def __init__(s, mod, ctx):
        super().__init__(mod, ctx)
        s.desc = desc(mod)
        s.contracts['_duma_allocate'] = s.k_allocate
        s.contracts['_duma_deallocate'] = s.k_deallocate
        s.contracts['slotForUserAddress'] = s.k_slot_for
        s.contracts['_duma_init'] = s.k_init
        s.extra_cands = []
        s.track = []            # (condition, byte): bytes whose fate the caller follows

    def table_copy(s, ex, st, d, q, n):
        # what is copied here never becomes a block table
        s.not_the_table(ex, st, d, n)

    def k_init(s, ex, st, args, ins):
        """contract of _duma_init (specs/init.py): the table exists afterwards"""
        s.setc(st, 'allocList', s.ctx.fresh('allocList'))
        s.ctx.assume(st.guard, s.c(st, 'allocList') != bv(0))
        return None

    def requires(s, ex, st, what):
        s.require_inv(ex, st, what)
        s.ver.oblige0('the block table is used under the lock', {'C14', 'C10'}, st.guard, st.gh['depth'] != bv(0), ex)
        for i, (c, y) in enumerate(s.track):
            for f in s.own(st, y):
                s.ver.oblige0('%s: the bytes followed are the program\'s' % what, {'C10', 'C04'}, st.guard, f.guarded(c) if isinstance(f, U) else imp(c, f), ex)

    def kept(s, st, P0, M0, extra=None):
        """memory of the program is as before, and still its own"""
        for c, y in s.track:
            if extra is not None:
                c = z3.And(c, extra(y))
            s.ctx.assume(st.guard, imp(c, z3.And(st.M.read(y) == M0.read(y), st.P.read(y) == P0.read(y))))
            for f in s.own(st, y):
                s.ctx.assume(st.guard, f.guarded(c) if isinstance(f, U) else imp(c, f))

    def k_allocate(s, ex, st, args, ins):
        align, n, below, fill, prot, alloc, fail, fname, line = [a.t for a in args]
        ob = s.ver.oblige0
        ob('the allocation is made by an allocating function', {'C18', 'C10'}, st.guard, z3.And(z3.UGE(alloc, bv(2, 32)), z3.ULE(alloc, bv(17, 32))), ex)
        ob('the table stays open across the allocation', {'C10', 'C13'}, st.guard, prot == bv(0, 32), ex)
        s.requires(ex, st, 'before allocating')
        S0 = st.copy()
        t0 = s.tv(S0)
        s.havoc_table(st, SHARED + ['allocList', 'numAllocs'])
        st.gh['tslot'] = s.ctx.fresh('tslot')
        st.gh['w'] = s.ctx.fresh('w')
        r, e = s.ctx.fresh('block'), s.ctx.fresh('entry_of_block')
        A0 = lambda f: s.ctx.assume(st.guard, f)
        s.assume_inv(st, True)
        s.kept(st, S0.P, S0.M)
        A0(s.watch_keep(S0, st))
        A0(z3.ULE(st.gh['sum'], S0.gh['sum']))
        t = s.tv(st)
        zero = z3.And(n == bv(0), pick(s.desc, alloc, 2) == 0, z3.Or(s.c(S0, 'MALLOC_0_STRATEGY') == 1, s.c(S0, 'MALLOC_0_STRATEGY') == 2))
        A0(imp(z3.And(r != bv(0), z3.Not(zero)), z3.And(t.intab(e), t.user(e), t.ua(e) == r, t.us(e) == n, z3.ZeroExt(24, t.alloc(e)) == alloc, t.src(e) == bv(1, 8), t.f(FN, e) == fname, t.f(LN, e) == line)))
        A0(imp(z3.And(zero, r != bv(0)), r == s.c(st, 'null_addr')))
        A0(imp(z3.And(t0.intab(S0.gh['w']), t0.user(S0.gh['w'])), st.gh['w'] != e))
        M1 = st.M
        A0(U('fill value', [('x', 64, sorted(M1.bases()))], lambda x: imp(z3.And(r != bv(0), n != bv(0), fill != bv(-1, 32), z3.ULT(x - r, n)), M1.read(x) == z3.Extract(7, 0, fill))))
        for c, y in s.track:
            A0(imp(z3.And(c, r != bv(0), z3.Not(zero)), z3.UGE(y - t.ia(e), t.isz(e))))
        new = z3.And(r != bv(0), z3.Not(zero))
        P1 = st.P
        A0(imp(z3.And(new, n != bv(0)), z3.And(z3.ULE(r, r + n), z3.ULE(r + n, A))))
        A0(U('the block is accessible', [('x', 64, sorted(P1.bases()))], lambda x: imp(z3.And(new, z3.ULT(x - r, n)), P1.read(x) == RW)))
        # consequences
        w, p0 = st.gh['w'], t0.ua(S0.gh['w'])
        lem = lambda nm, f: s.ver.lemma(nm, {'C10'}, st.guard, f, ex.line)
        old = z3.And(t0.intab(S0.gh['w']), t0.user(S0.gh['w']))
        inside = lambda a: z3.And(z3.ULE(t.ia(a), t.ua(a)), z3.ULE(t.ua(a) - t.ia(a), t.isz(a)), z3.ULE(t.us(a), t.isz(a) - (t.ua(a) - t.ia(a))), z3.ULE(t.ia(a) + t.isz(a), A), z3.ULE(t.isz(a), A))
        lem('the new block lies in its region', imp(new, inside(e)))
        lem('the old block lies in its region', imp(old, inside(w)))
        lem('old and new block lie apart', imp(z3.And(new, old), z3.Or(z3.ULE(t.ia(e) + t.isz(e), t.ia(w)), z3.ULE(t.ia(w) + t.isz(w), t.ia(e)))))
        lem('the old block is accessible', U('old accessible', [('x', 64, sorted(P1.bases()))], lambda x: imp(z3.And(old, z3.ULT(x - t.ua(w), t.us(w))), P1.read(x) == RW)))
        lem('the new block is apart from the table', imp(new, z3.Or(z3.ULE(t.ia(e) + t.isz(e), t.T), z3.ULE(t.T + t.size, t.ia(e)))))
        lem('the old block is apart from the table', imp(old, z3.Or(z3.ULE(t.ia(w) + t.isz(w), t.T), z3.ULE(t.T + t.size, t.ia(w)))))
        s.inv_state = st.copy()
        s.track = s.track + [(z3.And(conj(list(st.guard)), r != bv(0), z3.Not(zero), z3.ULT(s.y0, n)), r + s.y0)] if s.ctx.record else s.track
        g = st.gh
        g['allocs'] = z3.simplify(g['allocs'] + bv(1))
        g['ptr'], g['entry'], g['size'], g['kind'], g['align'], g['below'], g['fill'], g['fail'], g['file'], g['line'] = r, e, n, alloc, align, below, fill, fail, fname, line
        if s.ctx.record:
            s.mid.append(st.copy())
        return V(r)

    def k_deallocate(s, ex, st, args, ins):
        p, prot, alloc, fname, line = [a.t for a in args]
        ob = s.ver.oblige0
        ob('the release is made by a releasing function', {'C18', 'C10'}, st.guard, z3.And(z3.UGE(alloc, bv(2, 32)), z3.ULE(alloc, bv(17, 32))), ex)
        ob('the table stays open across the release', {'C10', 'C13'}, st.guard, prot == bv(0, 32), ex)
        s.requires(ex, st, 'before releasing')
        S0 = st.copy()
        t0 = s.tv(S0)
        null = z3.Or(p == bv(0), p == s.c(S0, 'null_addr'))
        a = s.ctx.fresh('released_entry')
        ok = s.ctx.freshb('released')
        fam = pick(s.desc, z3.ZeroExt(24, t0.alloc(a)), 1) == pick(s.desc, alloc, 1)
        live = z3.And(t0.intab(a), t0.user(a), t0.ua(a) == p)
        A0 = lambda f: s.ctx.assume(st.guard, f)
        bad = s.ctx.freshb('no_such_block')
        A0(U('not live', [('s', 64, t0.trig())], lambda b: imp(bad, z3.Not(z3.And(t0.intab(b), t0.user(b), t0.ua(b) == p)))))
        dmg = s.ctx.fresh('damaged_entry')
        # it terminates only for misuse: not a live block, another family, damaged no-man's-land
        A0(imp(null, ok))
        A0(z3.Or(ok, bad, z3.And(live, z3.Not(fam)), z3.Not(s.undamaged), z3.Not(s.grant)))
        A0(imp(z3.And(ok, z3.Not(null)), z3.And(live, fam)))
        g = st.guard
        s.add_abort(ex, st, g + (z3.Not(ok),), 'release refused', args)
        st.guard = g + (ok,)
        s.havoc_table(st, ['checkFreqCounter', 'unUsedSlots', 'sumAllocatedMem', 'sumProtectedMem', 'numDeallocs'])
        M0, P0 = S0.M, S0.P
        s.assume_inv(st, True)
        s.kept(st, P0, M0, lambda y: z3.Or(null, z3.UGE(y - t0.ia(a), t0.isz(a))))
        t = s.tv(st)
        budget = s.c(S0, 'PROTECT_FREE')
        tr = sorted(set(t0.trig()) | set(t.trig()))
        keep = lambda b: z3.And(t0.intab(b), z3.Or(null, b != a), z3.Or(t0.isst(b, EMPTY, FREE, INUSE), z3.And(budget < 0, t0.isst(b, ALLP, BEGP))))
        A0 = lambda f: s.ctx.assume(st.guard, f)
        A0(U('kept', [('s', 64, tr)], lambda b: imp(keep(b), t.same(b, t0))))
        A0(U('no resurrection', [('s', 64, tr)], lambda b: imp(z3.And(t0.intab(b), t.user(b)), z3.And(z3.Or(null, b != a), t0.user(b)))))
        A0(imp(z3.Not(null), z3.Or(t.isst(a, ALLP), t.isst(a, EMPTY))))
        A0(imp(z3.And(z3.Not(null), budget < 0), t.isst(a, ALLP)))
        pt = sorted(st.P.bases())
        st_P = st.P
        e = gh_e = st.gh['entry']
        s.ver.lemma('the new block is another one than the released', {'C10'}, st.guard, imp(z3.And(z3.Not(null), st.gh['allocs'] == bv(1), st.gh['ptr'] != bv(0)), a != e), ex.line)
        s.ver.lemma('the entry of the new block is kept', {'C10'}, st.guard, imp(z3.And(st.gh['allocs'] == bv(1), st.gh['ptr'] != bv(0)), t.same(e, t0)), ex.line)
        A0(U('closed', [('x', 64, pt)], lambda x: imp(z3.And(z3.Not(null), t0.inreg(a, x)), st_P.read(x) != RW)))
        s.inv_state = st.copy()
        gh = st.gh
        gh['frees'] = z3.simplify(gh['frees'] + z3.If(null, bv(0), bv(1)))
        gh['fptr'], gh['fentry'], gh['fkind'], gh['ffile'], gh['fline'] = p, a, alloc, fname, line
        return None


def realloc(v, case):
    w = v.w
    st = outside(v)
    v.assume(w.options(st))
    w.own_ok = z3.Bool('byte_is_the_programs')
    w.undamaged = z3.Bool('undamaged')
    w.mid = []
    w.y0 = v.inp('byte_number')
    w.track = [(w.own_ok, w.x0)]
    p, n = v.inp('oldBuffer'), v.inp('newSize')
    fl = (v.inp('filename'), v.inp('lineno', 32))
    a0 = v.inp('entry_of_old')
    live = z3.Bool('old_is_live')
    v.inputs['old_is_live'] = live
    st.gh.update(allocs=bv(0), frees=bv(0), w=a0)
    for nm, b in (('ptr', 64), ('entry', 64), ('size', 64), ('kind', 32), ('align', 64), ('below', 32), ('fill', 32), ('fail', 32), ('file', 64), ('line', 32), ('fptr', 64), ('fentry', 64), ('fkind', 32), ('ffile', 64), ('fline', 32)):
        st.gh[nm] = w.ctx.fresh('gh_' + nm, b)
    st0 = st.copy()
    null = p == w.c(st, 'null_addr')

    def on_lock(ex, s):
        t = w.tv(s)
        w.ctx.assume(s.guard, imp(live, z3.And(t.intab(a0), t.user(a0), t.ua(a0) == p)))
        w.ctx.assume(s.guard, U('not live', [('s', 64, t.trig())], lambda a: z3.Or(live, z3.Not(z3.And(t.intab(a), t.user(a), t.ua(a) == p)))))
        s.gh['w'] = a0
        if 'grows' in full:
            w.ctx.assume(s.guard, z3.UGT(n, t.us(a0)))
        if 'does not grow' in full:
            w.ctx.assume(s.guard, z3.ULE(n, t.us(a0)))
        # the bytes of the old block are the program's
        c = z3.And(live, z3.ULT(w.y0, t.us(a0)))
        for f in w.own(s, p + w.y0):
            v.lemma('bytes of live blocks belong to the program', PROPS, s.guard, f.guarded(c) if isinstance(f, U) else imp(c, f))
        if w.ctx.record:
            w.track = w.track + [(c, p + w.y0)]
    w.on_lock = on_lock
    v.assume(z3.Not(z3.And(z3.Or(p == bv(0), null), live)))
    full = case
    if case.startswith('resize'):
        v.assume(z3.And(p != bv(0), n != bv(0)))
        f = {'resize, shared zero block': null, 'resize, not a live block': z3.And(z3.Not(null), z3.Not(live))}.get(case, z3.And(z3.Not(null), live))
        v.assume(f)
        w.ctx.light.append(f)
        case = 'resize'
    else:
        v.assume({'fresh': p == bv(0), 'release': z3.And(p != bv(0), n == bv(0))}[case])
    rets = v.execute('_duma_realloc', st, [p, n] + list(fl))
    pre = w.pre
    t0 = w.tv(pre)
    old = z3.If(live, t0.us(a0), bv(0))
    for s, r in rets:
        g, gh = s.guard, s.gh
        v.oblige('the lock is released', {'C14'}, g, gh['depth'] == bv(0))
        if case == 'fresh':
            v.oblige('realloc of NULL allocates', {'C10', 'C07'}, g, z3.And(gh['allocs'] == bv(1), gh['frees'] == bv(0), gh['size'] == n, r.t == gh['ptr'], gh['fill'] == w.c(st0, 'FILL')))
        elif case == 'release':
            v.oblige('realloc to nothing releases', {'C10', 'C07', 'C05'}, g, z3.And(gh['allocs'] == bv(0), r.t == bv(0), z3.If(null, gh['frees'] == bv(0), z3.And(gh['frees'] == bv(1), gh['fptr'] == p))))
        else:
            v.oblige('allocates once, the size asked for', {'C10', 'C12', 'C24'}, g, z3.And(gh['allocs'] == bv(1), gh['size'] == n, r.t == gh['ptr']))
            v.oblige('the old block is released exactly when there is a new one', {'C10', 'C12', 'C05'}, g, z3.If(z3.Or(null, r.t == bv(0)), gh['frees'] == bv(0), z3.And(gh['frees'] == bv(1), gh['fptr'] == p)))
        if case != 'release':
            done = g + (gh['allocs'] == bv(1),)
            v.oblige('the default alignment is in force', {'C03', 'C10'}, done, gh['align'] == bv(0))
            v.oblige('the side of the guard is the configured one', {'C01', 'C02', 'C10'}, done, (gh['below'] != bv(0, 32)) == (w.c(st0, 'PROTECT_BELOW') != bv(0, 32)))
            v.oblige('the family recorded is the malloc family', {'C18', 'C10'}, done, pick(w.desc, gh['kind'], 1) == bv(1, 32))
            v.oblige('failure follows exit-on-failure', {'C12', 'C10'}, done, gh['fail'] == bv(1, 32))
            v.oblige('the call site is recorded', {'C17', 'C10'}, done, z3.And(gh['file'] == fl[0], gh['line'] == fl[1]))
        else:
            v.oblige('the call site is recorded', {'C17', 'C10'}, g + (gh['frees'] == bv(1),), z3.And(gh['ffile'] == fl[0], gh['fline'] == fl[1]))
        v.oblige('the family of the release is the malloc family', {'C18', 'C10'}, g + (gh['frees'] == bv(1),), pick(w.desc, gh['fkind'], 1) == bv(1, 32))
    for s, ln in w.unlocked:
        g, gh = s.guard, s.gh
        t, P, M = w.tv(s), s.P, s.M
        r, e = gh['ptr'], gh['entry']
        if case == 'resize':
            k = w.y0
            small = z3.If(z3.ULT(old, n), old, n)
            ok = g + (r != bv(0),)
            v.oblige('the new block is live, with the size asked for', {'C10', 'C24', 'C12'}, ok, z3.And(t.intab(e), t.user(e), t.ua(e) == r, t.us(e) == n), ln)
            v.oblige('the new block is accessible', {'C10', 'C01', 'C02'}, ok, U('acc', [('x', 64, [])], lambda x: imp(z3.ULT(x - r, n), P.read(x) == RW)), ln)
            v.oblige('the common part is preserved', {'C10'}, ok, imp(z3.ULT(k, small), M.read(r + k) == pre.M.read(p + k)), ln)
            v.oblige('the grown part is zero', {'C10', 'C09'}, ok, imp(z3.And(z3.ULE(old, k), z3.ULT(k, n)), M.read(r + k) == bv(0, 8)), ln)
            v.oblige('the old block is no longer accessible', {'C10', 'C05'}, ok + (live,), U('gone', [('x', 64, [])], lambda x: imp(t0.inreg(a0, x), P.read(x) != RW)), ln)
            v.oblige('a failed realloc leaves the old block alone', {'C10', 'C12'}, g + (r == bv(0), live), z3.And(t.intab(gh['w']), t.same(gh['w'], t0, a0)), ln)
            x0 = w.x0
            v.oblige('a failed realloc leaves the content alone', {'C10', 'C12', 'C04'}, g + (r == bv(0),), imp(w.own_ok, z3.And(M.read(x0) == pre.M.read(x0), P.read(x0) == RW)), ln)
            v.oblige('other memory of the program is unchanged', {'C10', 'C04'}, ok, imp(z3.And(w.own_ok, z3.Or(z3.Not(live), z3.UGE(x0 - t0.ia(a0), t0.isz(a0)))), z3.And(M.read(x0) == pre.M.read(x0), P.read(x0) == RW)), ln)
        else:
            x0 = w.x0
            out = z3.Or(z3.Not(live), z3.UGE(x0 - t0.ia(a0), t0.isz(a0)))
            v.oblige('other memory of the program is unchanged', {'C10', 'C04'}, g, imp(z3.And(w.own_ok, out), z3.And(M.read(x0) == pre.M.read(x0), P.read(x0) == RW)), ln)
            if case == 'release':
                v.oblige('the old block is no longer accessible', {'C10', 'C05'}, g + (live,), U('gone', [('x', 64, [])], lambda x: imp(t0.inreg(a0, x), P.read(x) != RW)), ln)
        v.ex.line = ln
        w.oblige_inv({'C10'}, s, False, ' on return')
    fam = pick(w.desc, z3.ZeroExt(24, t0.alloc(a0)), 1) == bv(1, 32)
    misuse = z3.Or(z3.Not(w.grant), z3.Not(w.undamaged), z3.And(z3.Not(null), z3.Or(z3.Not(live), z3.Not(fam))))
    v.aborts_only_if({'C07', 'C10', 'C06', 'C18'}, misuse if case != 'fresh' else z3.Not(w.grant))
    quiet(v, rets)
    if 'not a live' not in full:
        v.cover('returns', rets[-1][0].guard)
    if 'grow' in full:
        for s, ln in w.unlocked[-1:]:
            v.cover('moves a block', s.guard + (live, s.gh['ptr'] != bv(0)))


SPECS = []
for _c in ('fresh', 'release', 'resize, grows', 'resize, does not grow', 'resize, not a live block'):
    SPECS.append(('realloc, ' + _c, lambda v, c=_c: realloc(v, c), ReallocWorld, 'duma', {'C10'}))
# these take minutes: thorough tier only
THOROUGH = ('realloc, resize, grows', 'realloc, resize, does not grow')
