"""The block table: typed memory, page permissions, lock, kernel contracts, representation invariant."""
import z3
from .ir import *
from .sym import *
from .loops import Cand
from .world import World, new_state, ADDRMAX, assign

OFFS = {0: 64, 8: 64, 16: 64, 24: 64, 32: 64, 40: 32, 48: 64, 56: 32}
IA, UA, PA, IS, US, BITS, FN, LN = 0, 8, 16, 24, 32, 40, 48, 56
EMPTY, FREE, INUSE, ALLP, BEGP = range(5)
UNMAPPED, NONE, RW = (bv(i, 2) for i in range(3))
A = bv(ADDRMAX)
PG = 4096
S_, G_ = '@_duma_s', '@_duma_g'
SHARED = ['allocListSize', 'slotCount', 'unUsedSlots', 'sumAllocatedMem', 'sumTotalAllocatedMem', 'sumProtectedMem', 'numDeallocs', 'checkFreqCounter']
OUT_INIT = 0x1611 + 4


def b16(v):
    return bv(v, 16)


def rup(x):
    return (x + bv(PG - 1)) & bv(~(PG - 1) & (1 << 64) - 1)


def pg(x):
    return x & bv(PG - 1) == bv(0)


def size_bounds(c, fmap, n):
    """loop-independent terms that a condition compares an entry's size with"""
    from .loops import consts_of, atoms
    names = fmap.bases()
    out, ats = [], []
    atoms(c, ats)
    for a in ats:
        if len(a.children()) != 2 or not z3.is_bv(a.arg(0)):
            continue
        for x, y in ((a.arg(0), a.arg(1)), (a.arg(1), a.arg(0))):
            if z3.is_app(x) and x.num_args() == 1 and x.decl().name() in names and y.size() == 64:
                if any(nm == n.decl().name() or nm.startswith('phi') for nm in consts_of(y)) or z3.is_app(y) and y.decl().name() in names:
                    continue
                out.append(y)
    return out


class TV:
    """the table in a state"""

    def __init__(s, w, st):
        s.w, s.st = w, st.copy()    # lambdas must not see later updates of a state under execution
        s.T, s.size, s.count = w.c(st, 'allocList'), w.c(st, 'allocListSize'), w.c(st, 'slotCount')

    def f(s, o, a):
        return s.st.F[o].read(a)

    def ia(s, a): return s.f(IA, a)
    def ua(s, a): return s.f(UA, a)
    def pa(s, a): return s.f(PA, a)
    def isz(s, a): return s.f(IS, a)
    def us(s, a): return s.f(US, a)
    def bits(s, a): return s.f(BITS, a)
    def state(s, a): return z3.simplify(z3.Extract(15, 0, s.f(BITS, a)))
    def alloc(s, a): return z3.simplify(z3.Extract(23, 16, s.f(BITS, a)))
    def src(s, a): return z3.simplify(z3.Extract(31, 24, s.f(BITS, a)))

    def intab(s, a):
        return z3.And(z3.ULT(a - s.T, s.size), (a - s.T) & bv(63) == bv(0))

    def isst(s, a, *sts):
        x = s.state(a)
        return z3.Or(*[x == b16(k) for k in sts]) if len(sts) > 1 else x == b16(sts[0])

    def user(s, a):
        """slot a holds a live user block"""
        return z3.And(s.state(a) == b16(INUSE), s.alloc(a) != bv(0, 8))

    def inreg(s, a, x):
        return z3.ULT(x - s.ia(a), s.isz(a))

    def kb(s, a):
        return z3.LShR(s.isz(a) + bv(1023), 10)

    def accbeg(s, a):
        return z3.If(z3.ULT(s.pa(a), s.ua(a)), s.ua(a), s.ia(a))

    def accend(s, a):
        return z3.If(z3.ULT(s.pa(a), s.ua(a)), s.ia(a) + s.isz(a), s.pa(a))

    def slack(s, a, x):
        """x belongs to the no-man's-land of slot a"""
        return z3.Or(z3.And(z3.ULE(s.accbeg(a), x), z3.ULT(x, s.ua(a))), z3.And(z3.ULE(s.ua(a) + s.us(a), x), z3.ULT(x, s.accend(a))))

    def shape(s, a):
        return z3.And(z3.ULE(s.accbeg(a), s.ua(a)), z3.ULE(s.ua(a), s.ua(a) + s.us(a)), z3.ULE(s.ua(a) + s.us(a), s.accend(a)), z3.ULE(s.accend(a), bv(2 * ADDRMAX)))

    def slackok(s, a, P, raw=None):
        """what the slack functions need to know about an entry"""
        return lambda x: imp(z3.And(s.us(a) != bv(0), s.ia(a) != bv(0)), z3.And(s.shape(a), imp(s.slack(a, x), z3.And(P.read(x) == RW, z3.UGE(x - s.T, s.size) if raw else TRUE))))

    def fill(s):
        return z3.Extract(7, 0, s.w.c(s.st, 'SLACKFILL'))

    def intact(s, a):
        return lambda x: imp(z3.And(s.us(a) != bv(0), s.ia(a) != bv(0), s.slack(a, x)), s.st.M.read(x) == s.fill())

    def same(s, a, o, b=None):
        """all fields of slot a here equal those of slot b there"""
        b = a if b is None else b
        return z3.And(*[s.f(k, a) == o.f(k, b) for k in OFFS])

    def trig(s):
        """instantiation triggers: any address at which a field is read"""
        n = set()
        for m in s.st.F.values():
            m.bases(n)
        return sorted(n)

    def ptrig(s):
        return sorted(s.st.P.bases())


class TableWorld(World):
    slot_ty = '%struct._DUMA_Slot'
    abstract_tables = True

    def __init__(s, mod, ctx):
        super().__init__(mod, ctx)
        f = mod.fields
        s.slots_ok = {n: o for n, (o, b) in f['_DUMA_Slot'].items()}
        want = {'internalAddress': 0, 'userAddress': 64, 'protAddress': 128, 'internalSize': 192, 'userSize': 256, 'state': 320, 'allocator': 336, 'fileSource': 344, 'filename': 384, 'lineno': 448}
        if s.slots_ok != want or mod.size(Ty_named(mod, '%struct._DUMA_Slot')) != 64:
            raise Unsupported('layout of the block table')
        s.grant = z3.Bool('system_grants_memory')
        s.x0 = z3.BitVec('some_user_byte', 64)
        s.pre = None
        s.locks = []
        s.rels = []
        s.changed_at_abort = []
        s.seen_access = {}
        C = s.contracts
        C['DUMA_get_sem'] = s.k_get_sem
        C['DUMA_rel_sem'] = s.k_rel_sem
        C['mmap'] = s.k_mmap
        C['munmap'] = s.k_munmap
        C['mprotect'] = s.k_mprotect
        for n in ('stringErrorReport', 'strerror', 'DUMA_strerror', '__errno_location'):
            C[n] = lambda ex, st, a, i: None
        C['memset'] = s.k_memset
        C['memcpy'] = s.k_memcpy
        C['llvm.memcpy.p0.p0.i64'] = s.k_slotcopy
        s.extra_cands.append(s.table_cands)
        s.extra_cands.append(s.search_cands)
        s.relation = None
        s.open_ok = True

    # ---- cells
    def key(s, name):
        f = s.mod.fields
        if name in f['_DUMA_GlobalStaticVars']:
            o, b = f['_DUMA_GlobalStaticVars'][name]
            return (S_, o // 8, b)
        if name in f['DUMA_GLOBALVARS_T']:
            o, b = f['DUMA_GLOBALVARS_T'][name]
            return (G_, o // 8, b)
        o, b = f['DUMA_TLSVARS_T'][name]
        return (G_, (f['DUMA_GLOBALVARS_T']['TLS'][0] + o) // 8, b)

    def c(s, st, name):
        k = s.key(name)
        v = st.cells.get(k)
        return v if v is not None else s.cell_init(k)

    def setc(s, st, name, v):
        st.cells[s.key(name)] = v

    def tv(s, st):
        return TV(s, st)

    def fresh_table(s, st, m=True):
        """unknown table, permissions and memory"""
        for o, n in OFFS.items():
            st.F[o] = Map.base('F%d' % o, n)
        st.P = Map.base('P', 2)
        if m:
            st.M = Map.base('M', 8)
        for n in SHARED + ['allocList']:
            s.setc(st, n, s.ctx.fresh(n, s.key(n)[2]))
        st.gh['sum'] = s.ctx.fresh('sum')
        st.gh['empty'] = s.ctx.fresh('empty')
        st.gh['tslot'] = s.ctx.fresh('tslot')
        st.gh.setdefault('extra', bv(-1))

    # ---- slot access
    def slot_access(s, ex, st, a, write):
        ob = s.ver.oblige0
        k = (a.get_id(), id(st.P), st.cells.get(s.key('allocList')) is not None and st.cells[s.key('allocList')].get_id(), write)
        g = s.seen_access.get(k)
        if g is not None and len(g[1]) <= len(st.guard) and all(p is q or p.eq(q) for p, q in zip(g[1], st.guard)) and s.ctx.record == g[2]:
            return
        if s.ctx.record:
            s.seen_access[k] = (a, st.guard, s.ctx.record)
        t = TV(s, st)
        d = st.gh.get('depth')
        if d is not None:
            ob('the block table is used under the lock', {'C14'}, st.guard, d != bv(0), ex)
        ob('an entry of the block table is accessed', {'C07', 'safety'}, st.guard, t.intab(a), ex)
        ob('the block table is accessible when used', {'C07'}, st.guard, st.P.read(a) == RW, ex)

    def slot_load(s, ex, st, a, off, n):
        if off not in OFFS or OFFS[off] != n:
            if off == BITS and n == 16:
                s.slot_access(ex, st, a, False)
                return z3.simplify(z3.Extract(15, 0, st.F[BITS].read(a)))
            if off in (42, 43) and n == 8:
                s.slot_access(ex, st, a, False)
                h = 8 * (off - 40) + 7
                return z3.simplify(z3.Extract(h, h - 7, st.F[BITS].read(a)))
            raise Unsupported('access inside a table entry at %d' % off)
        s.slot_access(ex, st, a, False)
        return st.F[off].read(a)

    def contrib(s, st, a):
        t = TV(s, st)
        stt = t.state(a)
        return z3.If(z3.Or(stt == b16(ALLP), stt == b16(BEGP)), t.kb(a), bv(0)), z3.If(stt == b16(EMPTY), bv(1), bv(0))

    def slot_store(s, ex, st, a, off, n, v):
        if off not in OFFS or OFFS[off] != n:
            if off == BITS and n == 16:
                old = st.F[BITS].read(a)
                off, n, v = BITS, 32, z3.Concat(z3.Extract(31, 16, old), v)
            elif off in (42, 43) and n == 8:
                old = st.F[BITS].read(a)
                v = z3.Concat(z3.Extract(31, 24, old), v, z3.Extract(15, 0, old)) if off == 42 else z3.Concat(v, z3.Extract(23, 0, old))
                off, n = BITS, 32
            else:
                raise Unsupported('store inside a table entry at %d' % off)
        s.slot_access(ex, st, a, True)
        if off in (IS, BITS):
            p0, e0 = s.contrib(st, a)
            if 'sum' in st.gh:
                # ghost sum and ghost count are exact: a member never exceeds the sum, a non-empty entry is not counted
                s.ctx.assume(st.guard, z3.And(z3.ULE(p0, st.gh['sum']), z3.ULE(e0, st.gh['empty']), z3.ULT(st.gh['empty'] - e0, TV(s, st).count)))
        st.F[off] = st.F[off].store(a, v)
        if off in (IS, BITS):
            p1, e1 = s.contrib(st, a)
            if 'sum' in st.gh:
                st.gh['sum'] = st.gh['sum'] + z3.simplify(p1 - p0) if not p1.eq(p0) else st.gh['sum']
                st.gh['empty'] = st.gh['empty'] + z3.simplify(e1 - e0) if not e1.eq(e0) else st.gh['empty']
        if s.ctx.stores is not None:
            s.ctx.stores.append((('F', off), a, n, v, st.guard))
        return True

    def k_slotcopy(s, ex, st, args, ins):
        n = z3.simplify(args[2].t)
        if not z3.is_bv_value(n) or n.as_long() != 64:
            raise Unsupported('structure copy')
        d, q = args[0].t, args[1].t
        for off in OFFS:
            s.slot_store(ex, st, d, off, OFFS[off], s.slot_load(ex, st, q, off, OFFS[off]))

    def access(s, ex, st, a, nb, write):
        ob = s.ver.oblige0
        t = TV(s, st)
        ok = conj([st.P.read(a + bv(k) if k else a) == RW for k in ([0] if nb == 1 else [0, nb - 1])])
        ob('memory is accessible where DUMA %s it' % ('writes' if write else 'reads'), {'C07'}, st.guard, ok, ex)
        s.ctx.assume(st.guard, ok)
        if write:
            ob('the block table is not overwritten', {'C04', 'safety'}, st.guard, conj([z3.UGE(a + bv(k) - t.T, t.size) for k in ([0] if nb == 1 else [0, nb - 1])]), ex)

    # ---- lock
    def k_get_sem(s, ex, st, args, ins):
        d = st.gh['depth']
        if z3.is_bv_value(z3.simplify(d)) and z3.simplify(d).as_long() == 0:
            # other threads have run: everything shared is unknown, the invariant holds
            M0, P0 = st.M, st.P
            s.fresh_table(st)
            x = s.x0
            s.ctx.assume(st.guard, imp(s.own_ok, z3.And(st.M.read(x) == M0.read(x), st.P.read(x) == P0.read(x))))
            st.gh['depth'] = bv(1)
            s.assume_inv(st, False)
            s.assume_own(st)
            if s.pre is None:
                s.pre = st.copy()
                s.pre_guard = st.guard
            s.on_lock(ex, st)
        else:
            st.gh['depth'] = z3.simplify(d + bv(1))

    own_ok = TRUE

    def on_lock(s, ex, st):
        pass

    def k_rel_sem(s, ex, st, args, ins):
        d = st.gh['depth']
        s.ver.oblige0('only a held lock is released', {'C14', 'C07'}, st.guard, d != bv(0), ex)
        st.gh['depth'] = z3.simplify(d - bv(1))
        if z3.is_true(z3.simplify(st.gh['depth'] == bv(0))):
            s.on_unlock(ex, st)
        return V(args[0].t) if args and args[0] is not None else None

    def on_unlock(s, ex, st):
        s.unlocked.append((st.copy(), ex.line))

    # ---- contracts of the slack functions
    def slack_requires(s, ex, st, a, raw=False):
        t = TV(s, st)
        P = st.P
        s.slot_access(ex, st, a, False)
        s.ver.oblige0('no-man\'s-land is accessible when it is used', {'C07', 'C08'}, st.guard, U('slack', [('x', 64, [])], t.slackok(a, P, raw)), ex)

    def mtrig(s, st):
        return sorted(st.M.bases())

    def k_check_slack(s, ex, st, args, ins):
        a = args[0].t
        s.slack_requires(ex, st, a)
        t = TV(s, st)
        x = s.ctx.fresh('damaged_at')
        ok = s.ctx.freshb('undamaged')
        bad = z3.Not(t.intact(a)(x))
        s.ctx.assume(st.guard, z3.Or(ok, bad))
        s.ctx.assume(st.guard, U('no-man\'s-land intact', [('x', 64, s.mtrig(st))], lambda x: imp(ok, t.intact(a)(x))))
        g = st.guard
        s.add_abort(ex, st, g + (z3.Not(ok),), 'no man\'s land', args)
        st.guard = g + (ok,)

    def k_check_all_slacks(s, ex, st, args, ins):
        t = TV(s, st)
        P = st.P
        s.ver.oblige0('no-man\'s-land is accessible when it is used', {'C07', 'C08'}, st.guard, U('slack', [('s', 64, []), ('x', 64, [])],
                      lambda a, x: imp(z3.And(t.intab(a), t.state(a) == b16(INUSE)), t.slackok(a, P)(x))), ex)
        s.ver.oblige0('the block table is accessible when used', {'C07'}, st.guard, U('ptab', [('x', 64, [])], lambda x: imp(z3.ULT(x - t.T, t.size), P.read(x) == RW)), ex)
        s.ver.oblige0('the block table is used under the lock', {'C14'}, st.guard, st.gh['depth'] != bv(0), ex)
        a, x = s.ctx.fresh('damaged_entry'), s.ctx.fresh('damaged_at')
        ok = s.ctx.freshb('undamaged')
        s.ctx.assume(st.guard, z3.Or(ok, z3.And(t.intab(a), t.state(a) == b16(INUSE), z3.Not(t.intact(a)(x)))))
        s.ctx.assume(st.guard, U('all no-man\'s-land intact', [('s', 64, t.trig()), ('x', 64, s.mtrig(st))], lambda a, x: imp(z3.And(ok, t.intab(a), t.state(a) == b16(INUSE)), t.intact(a)(x))))
        g = st.guard
        s.add_abort(ex, st, g + (z3.Not(ok),), 'no man\'s land', args)
        st.guard = g + (ok,)
        if s.ctx.record:
            s.full_checks.append((g, st.copy()))

    full_checks = ()

    # ---- contracts of the searches
    def search_requires(s, ex, st):
        t = TV(s, st)
        P = st.P
        s.ver.oblige0('the block table is accessible when used', {'C07'}, st.guard, U('ptab', [('x', 64, [])], lambda x: imp(z3.ULT(x - t.T, t.size), P.read(x) == RW)), ex)
        s.ver.oblige0('the block table is used under the lock', {'C14'}, st.guard, st.gh['depth'] != bv(0), ex)
        return t

    def k_slot_for(s, ex, st, args, ins):
        p = args[0].t
        t = s.search_requires(ex, st)
        r = s.ctx.fresh('entry')
        s.ctx.assume(st.guard, z3.Or(r == bv(0), z3.And(t.intab(r), t.ua(r) == p)))
        s.ctx.assume(st.guard, U('no such entry', [('s', 64, t.trig())], lambda a: imp(z3.And(r == bv(0), t.intab(a)), t.ua(a) != p)))
        return V(r)

    def k_nearest(s, ex, st, args, ins):
        t = s.search_requires(ex, st)
        r = s.ctx.fresh('nearest')
        s.ctx.assume(st.guard, z3.Or(r == bv(0), t.intab(r)))
        return V(r)

    def k_init_slack(s, ex, st, args, ins):
        a = args[0].t
        s.slack_requires(ex, st, a, True)
        t = TV(s, st)
        if s.ctx.stores is not None:
            s.ctx.stores.append(('M', a, 64, None, st.guard))
        f = t.fill()
        st.M = st.M.update(lambda x, prev: ite(z3.And(t.us(a) != bv(0), t.slack(a, x)), f, prev()))

    # ---- reclaiming and growth
    def alive(s, S0, S1):
        """what a loop of the allocator keeps (candidates)"""
        out = [(n, set(), f) for n, f in s.inv(S1, True)]
        if s.own_ok is not FALSE:
            for f in s.own(S1, s.x0):
                out.append(('own', set(), f.guarded(s.own_ok) if isinstance(f, U) else imp(s.own_ok, f)))
            x = s.x0
            out.append(('own memory', set(), imp(s.own_ok, z3.And(S1.P.read(x) == S0.P.read(x), S1.M.read(x) == S0.M.read(x)))))
        out.append(s.reclaim(S0, S1)[0])
        if 'w' in S1.gh:
            out.append(('watched entry', set(), s.watch_keep(S0, S1)))
        out.append(('sum', set(), z3.And(z3.ULE(S1.gh['sum'], S0.gh['sum']))))
        out.append(('sum bound', set(), z3.ULT(S1.gh['sum'], bv(1 << 38))))
        out.append(('options', set(), s.options(S1)))
        return out

    def known(s, st):
        # nothing has changed since the invariant was established
        k = s.inv_state
        return k is not None and k.P is st.P and k.F == st.F and all(k.gh.get(g) is st.gh.get(g) for g in st.gh) and all(
            k.cells[c] is st.cells[c] for c in set(k.cells) & set(st.cells)) and set(k.cells) == set(st.cells) and len(k.guard) <= len(st.guard) and all(p.eq(q) for p, q in zip(k.guard, st.guard))

    inv_state = None

    def require_inv(s, ex, st, what, unused=True):
        if s.known(st):
            return
        for n, f in s.inv(st, True, unused):
            s.ver.oblige0('%s: %s' % (what, n), {'inv'} | INVTAGS.get(n, {'C04'}), st.guard, f, ex)
        s.ver.oblige0('%s: options' % what, {'inv', 'C04'}, st.guard, s.options(st), ex)

    def require_own(s, ex, st, what):
        for f in s.own(st, s.x0):
            s.ver.oblige0('%s: memory of the program stays its own' % what, {'inv', 'C04'}, st.guard, imp(s.own_ok, f) if not isinstance(f, U) else f.guarded(s.own_ok), ex)

    def havoc_table(s, st, cells, keep_m=False):
        for o, n in OFFS.items():
            st.F[o] = Map.base('F%d' % o, n)
        st.P = Map.base('P', 2)
        if not keep_m:
            st.M = Map.base('M', 8)
        for n in cells:
            s.setc(st, n, s.ctx.fresh(n, s.key(n)[2]))
        st.gh['sum'], st.gh['empty'] = s.ctx.fresh('sum'), s.ctx.fresh('empty')
        if s.ctx.stores is not None:
            for o, n in OFFS.items():
                s.ctx.stores.append((('F', o), bv(0), n, None, st.guard))
            s.ctx.stores.append(('P', bv(0), 64, None, st.guard))

    def k_reduce(s, ex, st, args, ins):
        k = args[0].t
        s.require_inv(ex, st, 'before reclaiming')
        s.ver.oblige0('the block table is used under the lock', {'C14'}, st.guard, st.gh['depth'] != bv(0), ex)
        S0 = st.copy()
        s.havoc_table(st, ['sumAllocatedMem'], True)
        s.setc(st, 'sumProtectedMem', st.gh['sum'])
        r = s.ctx.fresh('reclaimed_enough', 32)
        for nm, tg, f in s.reclaim(S0, st):
            s.ctx.assume(st.guard, f)
        s.ctx.assume(st.guard, z3.And(z3.ULE(st.gh['sum'], S0.gh['sum']), z3.Or(r == bv(0, 32), r == bv(1, 32)), imp(r != bv(0, 32), z3.ULE(k, S0.gh['sum'] - st.gh['sum']))))
        s.assume_inv(st, True)
        s.assume_own(st)
        s.inv_state = st.copy()
        return V(r)

    unlimited = FALSE

    def watch_keep(s, S0, st, more=None):
        """the watched entry (an arbitrary one) is kept across an operation"""
        a, b = S0.gh['w'], st.gh['w']
        t0, t1 = TV(s, S0), TV(s, st)
        k = z3.And(t0.intab(a), z3.Or(t0.user(a), z3.And(s.unlimited, s.grant, t0.isst(a, ALLP, BEGP))))
        return imp(k, z3.And(t1.intab(b), t1.same(b, t0, a)))

    def k_grow(s, ex, st, args, ins):
        s.require_inv(ex, st, 'before enlarging the table')
        s.require_own(ex, st, 'before enlarging the table')
        s.ver.oblige0('the block table is used under the lock', {'C14'}, st.guard, st.gh['depth'] != bv(0), ex)
        S0 = st.copy()
        M0, P0 = st.M, st.P
        s.havoc_table(st, SHARED + ['allocList', 'numAllocs'])
        st.gh['tslot'] = s.ctx.fresh('tslot')
        for g in s.watches(st):
            st.gh[g] = s.ctx.fresh(g)
        x = s.x0
        s.ctx.assume(st.guard, imp(s.own_ok, z3.And(st.M.read(x) == M0.read(x), st.P.read(x) == P0.read(x))))
        s.ctx.assume(st.guard, z3.And(z3.ULE(st.gh['sum'], bv(1 << 38)), imp(s.grant, z3.UGE(s.c(st, 'unUsedSlots'), bv(60)))))
        s.assume_inv(st, True)
        s.assume_own(st)
        s.ctx.assume(st.guard, s.watch_keep(S0, st))
        s.inv_state = st.copy()
        return None

    def watches(s, st):
        return [g for g in st.gh if g == 'w']

    # ---- kernel
    def pages(s, st, n):
        """a length rounded up to whole pages, described by inequalities"""
        n = z3.simplify(n)
        if z3.is_bv_value(n):
            return z3.simplify(rup(n))
        L = s.ctx.fresh('pages')
        s.ctx.assume((), z3.If(z3.ULE(n, bv(-PG)), z3.And(z3.ULE(n, L), z3.ULT(L - n, bv(PG)), pg(L), imp(pg(n), L == n)), L == bv(0)))
        return L

    def rangeP(s, st, a, n, val):
        if s.ctx.stores is not None:
            s.ctx.stores.append(('P', a, 64, None, st.guard))
        return st.P.update(lambda x, prev, a=a, n=n, val=val: ite(z3.ULT(x - a, n), val(x) if callable(val) else val, prev()))

    def k_mmap(s, ex, st, args, ins):
        hint, size = args[0].t, args[1].t
        prot = z3.simplify(args[2].t)
        if not (z3.is_bv_value(prot) and prot.as_long() == 3):
            raise Unsupported('mmap protection')
        b = s.ctx.fresh('mapped')
        ok = s.ctx.freshb('mmap_ok')
        n = s.pages(st, size)
        g = st.guard
        P0 = st.P
        s.ctx.assume(g, imp(s.grant, z3.Or(ok, size == bv(0), z3.UGT(size, bv(1 << 46)))))
        s.ctx.assume(g, imp(ok, z3.And(size != bv(0), z3.ULE(size, A), pg(b), z3.UGE(b, bv(PG)), z3.ULE(b, A), z3.ULE(b + n, A))))
        s.ctx.assume(g, imp(z3.Not(ok), b == bv(-1)))
        s.ctx.assume(g, U('mapped region was unmapped', [('x', 64, sorted(P0.bases()))], lambda x: imp(z3.And(ok, z3.ULT(x - b, n)), P0.read(x) == UNMAPPED)))
        t = TV(s, st)
        # instances of the same fact at the points where regions of the table could meet the new one
        def meet(a):
            m = z3.If(z3.ULE(b, t.ia(a)), t.ia(a), b)
            return imp(z3.And(ok, z3.ULT(m - b, n)), P0.read(m) == UNMAPPED)
        s.ctx.assume(g, U('mapped region was unmapped (entries)', [('s', 64, t.trig())], meet))
        for q in (t.T, s.c(st, 'null_block')):
            m = z3.If(z3.ULE(b, q), q, b)
            s.ctx.assume(g, imp(z3.And(ok, z3.ULT(m - b, n)), P0.read(m) == UNMAPPED))
        if s.map_lemma:
            f = U('mapped memory is new', [('s', 64, t.trig())], lambda a: imp(z3.And(ok, t.intab(a), z3.Not(t.isst(a, EMPTY))), z3.Or(z3.ULE(b + n, t.ia(a)), z3.ULE(t.ia(a) + t.isz(a), b))))
            s.ver.oblige0('mapped memory lies apart from all regions of the table', {'C04', 'C05', 'C11', 'inv'}, g, f, ex)
            s.ctx.assume(g, f)
        okn = z3.If(ok, n, bv(0))
        st.P = s.rangeP(st, b, okn, RW)
        M0 = st.M
        st.M = M0.update(lambda x, prev: ite(z3.ULT(x - b, okn), bv(0, 8), prev()))
        if s.ctx.stores is not None:
            s.ctx.stores.append(('M', b, 64, None, st.guard))
        s.maps.append((g, b, n, ok))
        return V(b)

    maps = ()
    map_lemma = False

    def k_mprotect(s, ex, st, args, ins):
        a, n, prot = args[0].t, args[1].t, z3.simplify(args[2].t)
        if not z3.is_bv_value(prot) or prot.as_long() not in (0, 3):
            raise Unsupported('mprotect protection')
        val = NONE if prot.as_long() == 0 else RW
        ok = s.ctx.freshb('mprotect_ok')
        L = s.pages(st, n)
        P0 = st.P
        w = s.ctx.fresh('unmapped_at')
        # it fails only when misaligned, when part of the range is not mapped, or for want of resources
        s.ctx.assume(st.guard, z3.Or(ok, z3.Not(s.grant), z3.Not(pg(a)), z3.And(z3.ULT(w - a, L), P0.read(w) == UNMAPPED), z3.ULT(L, n), z3.ULT(a + L, a)))
        s.ctx.assume(st.guard, imp(ok, z3.And(pg(a), z3.UGE(L, n))))
        s.ctx.assume(st.guard, U('protected range is mapped', [('x', 64, sorted(P0.bases()))], lambda x: imp(z3.And(ok, z3.ULT(x - a, L)), P0.read(x) != UNMAPPED)))
        junk = Map.base('Pjunk', 2)
        st.P = s.rangeP(st, a, L, lambda x: ite(ok, val, junk.read(x)))
        return V(z3.If(ok, bv(0, 32), bv(-1, 32)))

    def k_munmap(s, ex, st, args, ins):
        a, n = args[0].t, args[1].t
        ok = s.ctx.freshb('munmap_ok')
        L = s.pages(st, n)
        s.ctx.assume(st.guard, imp(z3.And(s.grant, pg(a), n != bv(0), z3.ULE(a, A), z3.ULE(n, A), z3.ULE(a + L, A)), ok))
        s.ctx.assume(st.guard, imp(ok, z3.And(pg(a), n != bv(0), z3.UGE(L, n), z3.UGE(a + L, a))))
        st.P = s.rangeP(st, a, z3.If(ok, L, bv(0)), UNMAPPED)
        return V(z3.If(ok, bv(0, 32), bv(-1, 32)))

    # ---- bulk memory
    def not_the_table(s, ex, st, d, n):
        """the block table is kept in maps of its own: writing it through other addresses is outside the model, and an error"""
        t = TV(s, st)
        f = z3.Or(n == bv(0), z3.And(z3.ULE(n, A), z3.ULE(d, A), z3.Or(z3.ULE(d + n, t.T), z3.ULE(t.T + t.size, d))))
        s.ver.oblige0('the block table is not overwritten', {'C13', 'C07', 'C04'}, st.guard, f, ex)
        s.ctx.assume(st.guard, f)

    def bulk_access(s, ex, st, d, n, write):
        st_P = st.P
        s.ver.oblige0('memory is accessible where DUMA %s it' % ('writes' if write else 'reads'), {'C07'}, st.guard,
                      U('range', [('x', 64, [])], lambda x: imp(z3.ULT(x - d, n), st_P.read(x) == RW)), ex)

    def k_memset(s, ex, st, args, ins):
        d, c, n = args[0].t, z3.simplify(z3.Extract(7, 0, args[1].t)), args[2].t
        s.bulk_access(ex, st, d, n, True)
        if s.ctx.stores is not None:
            s.ctx.stores.append(('M', d, 64, None, st.guard))
        s.not_the_table(ex, st, d, n)
        st.M = st.M.update(lambda x, prev: ite(z3.ULT(x - d, n), c, prev()))
        return args[0]

    def k_memcpy(s, ex, st, args, ins):
        d, q, n = args[0].t, args[1].t, args[2].t
        s.bulk_access(ex, st, q, n, False)
        s.bulk_access(ex, st, d, n, True)
        s.ver.oblige0('memcpy is not called with overlapping ranges', {'C07', 'C10'}, st.guard, z3.Or(n == bv(0), d == q, z3.ULE(d + n, q), z3.ULE(q + n, d)), ex)
        if s.ctx.stores is not None:
            s.ctx.stores.append(('M', d, 64, None, st.guard))
        s.table_copy(ex, st, d, q, n)
        M0 = st.M
        st.M = M0.update(lambda x, prev: ite(z3.ULT(x - d, n), M0.read(q + (x - d)), prev()))
        return args[0]

    def table_copy(s, ex, st, d, q, n):
        s.not_the_table(ex, st, d, n)
        for o in OFFS:
            F0 = st.F[o]
            st.F[o] = F0.update(lambda x, prev, F0=F0: ite(z3.ULT(x - d, n), F0.read(q + (x - d)), prev()))

    # ---- representation invariant
    def scal(s, st, unused=True):
        t = TV(s, st)
        nb = s.c(st, 'null_block')
        cf, cc = s.c(st, 'CHECK_FREQ'), s.c(st, 'checkFreqCounter')
        o = [('table', z3.And(z3.UGE(t.T, bv(PG)), pg(t.T), pg(t.size), t.size != bv(0), z3.ULE(t.size, bv(1 << 40)), t.count == z3.LShR(t.size, 6), z3.ULE(t.T, A), z3.ULE(t.T + t.size, A))),
             ('shared zero block', z3.And(pg(nb), z3.UGE(nb, bv(PG)), z3.ULE(nb, A), z3.ULE(nb + bv(2 * PG), A), s.c(st, 'null_addr') == nb + bv(PG),
                                          z3.Or(z3.ULE(nb + bv(2 * PG), t.T), z3.ULE(t.T + t.size, nb)))),
             ('check counter', z3.And(cc >= 0, imp(cf > 0, cc < cf), imp(cf <= 0, TRUE))),
             ('accounting of protected memory', s.c(st, 'sumProtectedMem') == st.gh['sum']),
             ('budget of protected memory', imp(s.c(st, 'PROTECT_FREE') >= 0, z3.ULE(st.gh['sum'], s.c(st, 'PROTECT_FREE'))))]
        if unused:
            o.append(('count of unused entries', z3.And(z3.ULE(s.c(st, 'unUsedSlots'), st.gh['empty']), z3.ULE(st.gh['empty'], t.count))))
            o.append(('entries are left to enlarge the table', imp(s.grant, z3.UGE(s.c(st, 'unUsedSlots'), bv(5)))))
        return o

    def options(s, st):
        """option values after initialisation (C22, C25)"""
        c = lambda n: s.c(st, n)
        return z3.And(c('SLACKFILL') >= 0, c('SLACKFILL') <= 255, c('MALLOC_0_STRATEGY') >= 0, c('MALLOC_0_STRATEGY') <= 3, c('NEW_0_STRATEGY') >= 2, c('NEW_0_STRATEGY') <= 3,
                      c('ALIGNMENT') != 0, c('slotsPerPage') == bv(64), c('init_state') == bv(OUT_INIT, 32), c('CHECK_FREQ') >= 0)

    def slotinv(s, st, a):
        t = TV(s, st)
        ia, ua, pa, isz, us, al = t.ia(a), t.ua(a), t.pa(a), t.isz(a), t.us(a), t.alloc(a)
        e = ia + isz
        z = bv(0)
        nb = s.c(st, 'null_block')
        stt = t.state(a)
        extra = st.gh['extra']
        isT = z3.And(ia == t.T, ua == t.T, us == t.size, z3.ULE(t.size, isz), z3.If(z3.ULT(pa, ua), isz == us, pa == ua + us))
        return [('entry: kind', z3.And(z3.ULE(stt, b16(4)), z3.ULE(al, bv(17, 8)), z3.ULE(t.src(a), bv(2, 8)))),
                ('entry: empty', imp(stt == b16(EMPTY), z3.And(ia == z, ua == z, isz == z, us == z, al == bv(0, 8)))),
                ('entry: region', imp(stt != b16(EMPTY), z3.And(pg(ia), z3.UGE(ia, bv(PG)), pg(isz), isz != z, z3.ULE(isz, A), z3.ULE(ia, A), z3.ULE(e, A), z3.ULE(ia, ua), z3.ULT(ua, e),
                                                         z3.Or(z3.ULE(e, nb), z3.ULE(nb + bv(2 * PG), ia))))),
                ('entry: free', imp(stt == b16(FREE), z3.And(ua == ia, al == bv(0, 8)))),
                ('entry: in use', imp(z3.And(stt == b16(INUSE), al != bv(0, 8)), z3.If(us == z, z3.And(isz == bv(PG), ua == ia + bv(PG // 2)),
                    z3.If(z3.ULT(pa, ua), z3.And(pg(ua), pa == ua - bv(PG), z3.ULE(ia, pa), z3.ULE(us, e - ua)),
                          z3.And(pg(pa), z3.ULE(us, pa - ua), z3.ULT(pa - ua - us, bv(PG)), z3.ULE(pa, A), z3.ULE(pa + bv(PG), e)))))),
                ('entry: protected', imp(z3.Or(stt == b16(ALLP), stt == b16(BEGP)), al != bv(0, 8))),
                ('entry: internal', imp(z3.And(stt == b16(INUSE), al == bv(0, 8)), z3.Or(a == extra, isT)))]

    def tabent(s, st):
        """the table has an entry for itself"""
        t = TV(s, st)
        a = st.gh['tslot']
        return z3.And(t.intab(a), t.state(a) == b16(INUSE), t.alloc(a) == bv(0, 8), t.ia(a) == t.T, t.ua(a) == t.T, t.us(a) == t.size, z3.ULE(t.size, t.isz(a)))

    def perm(s, st, a, x):
        t = TV(s, st)
        p = st.P.read(x)
        stt, al = t.state(a), t.alloc(a)
        used = z3.And(stt == b16(INUSE), al != bv(0, 8))
        prot = z3.Or(stt == b16(ALLP), stt == b16(BEGP))
        below = z3.ULT(t.pa(a), t.ua(a))
        z = t.us(a) == bv(0)
        closed = z3.Or(z, z3.And(below, z3.ULT(x, t.ua(a))), z3.And(z3.Not(below), z3.ULE(t.pa(a), x)))
        return z3.And(imp(z3.And(used, closed), p == NONE), imp(z3.And(used, z3.Not(closed)), p == RW), imp(prot, p == NONE), imp(z3.Not(z3.Or(used, prot)), p != UNMAPPED))

    def inv(s, st, open_, unused=True):
        """list of (name, formula or U); every clause is part of the representation invariant"""
        st = st.copy()
        t = TV(s, st)
        tr, pt = t.trig(), t.ptrig()
        nb = s.c(st, 'null_block')
        out = s.scal(st, unused)
        n = len(s.slotinv(st, bv(0)))
        names = [x[0] for x in s.slotinv(st, bv(0))]
        for i in range(n):
            out.append((names[i], U(names[i], [('s', 64, tr)], lambda a, i=i: imp(t.intab(a), s.slotinv(st, a)[i][1]))))
        out.append(('the table describes itself', s.tabent(st)))
        out.append(('regions are disjoint', U('disjoint', [('s', 64, tr), ('t', 64, tr)], lambda a, b: TRUE if a.eq(b) else imp(
            z3.And(t.intab(a), t.intab(b), a != b, z3.Not(t.isst(a, EMPTY)), z3.Not(t.isst(b, EMPTY))), z3.Or(z3.ULE(t.ia(a) + t.isz(a), t.ia(b)), z3.ULE(t.ia(b) + t.isz(b), t.ia(a)))))))
        out.append(('table pages %s' % ('open' if open_ else 'closed'), U('ptab', [('x', 64, pt)], lambda x: imp(z3.ULT(x - t.T, t.size), st.P.read(x) == (RW if open_ else NONE)))))
        out.append(('shared zero block is inaccessible', U('pnull', [('x', 64, pt)], lambda x: imp(z3.ULT(x - nb, bv(2 * PG)), st.P.read(x) == NONE))))
        out.append(('permissions follow the table', U('perm', [('s', 64, tr), ('x', 64, pt)], lambda a, x: imp(z3.And(t.intab(a), z3.Not(t.isst(a, EMPTY)), t.inreg(a, x)), s.perm(st, a, x)))))
        return out

    def assume_inv(s, st, open_, unused=True):
        for n, f in s.inv(st, open_, unused):
            s.ctx.assume(st.guard, f)
        s.ctx.assume(st.guard, s.options(st))
        s.ctx.assume(st.guard, z3.ULT(st.gh['sum'], bv(1 << 38)))   # regions are disjoint parts of the address space

    def own(s, st, x):
        """x is a byte of the program: accessible, and not part of DUMA's bookkeeping, free or freed memory"""
        st = st.copy()
        t = TV(s, st)
        return [st.P.read(x) == RW, z3.UGE(x - t.T, t.size), U('own', [('s', 64, t.trig())], lambda a: imp(z3.And(t.intab(a), t.inreg(a, x), z3.Not(t.isst(a, EMPTY))), t.user(a)))]

    def assume_own(s, st):
        for f in s.own(st, s.x0):
            if isinstance(f, U):
                s.ctx.assume(st.guard, f.guarded(s.own_ok))
            else:
                s.ctx.assume(st.guard, imp(s.own_ok, f))

    def oblige_inv(s, tags, st, open_, what='', skip=(), unused=True):
        for n, f in s.inv(st, open_, unused):
            if n in skip:
                continue
            tg = set(tags) | INVTAGS.get(n, {'C04'})
            s.ver.oblige('invariant%s: %s' % (what, n), tg, st.guard, f, s.ver.ex.line)

    # ---- how reclaiming protected memory may change the table
    def reclaim(s, S0, S1):
        """list of (name, tags, formula) relating a state to a later one: only protected entries shrink or become empty"""
        S0, S1 = S0.copy(), S1.copy()
        t0, t1 = TV(s, S0), TV(s, S1)
        tr = sorted(set(t0.trig()) | set(t1.trig()))
        pt = sorted(set(t0.ptrig()) | set(t1.ptrig()))

        def r1(a):
            return imp(z3.And(t0.intab(a), z3.Not(t0.isst(a, ALLP, BEGP))), t1.same(a, t0))

        def r2(a):
            n = (t0.ua(a) - t0.ia(a) + bv(PG)) & bv(-PG)
            same = z3.And(t1.ia(a) == t0.ia(a), t1.ua(a) == t0.ua(a), t1.us(a) == t0.us(a), t1.alloc(a) == t0.alloc(a), t1.src(a) == t0.src(a), t1.f(FN, a) == t0.f(FN, a), t1.f(LN, a) == t0.f(LN, a), t1.pa(a) == t0.pa(a))
            gone = z3.And(t1.state(a) == b16(EMPTY), t1.ia(a) == 0, t1.ua(a) == 0, t1.isz(a) == 0, t1.us(a) == 0, t1.alloc(a) == 0, z3.ULE(t1.src(a), bv(2, 8)))
            stay = z3.And(same, t1.isz(a) == t0.isz(a), t1.state(a) == t0.state(a))
            shrunk = z3.And(same, t0.state(a) == b16(ALLP), t1.state(a) == b16(BEGP), z3.ULT(t1.ua(a) - t1.ia(a), t1.isz(a)), z3.ULE(t1.isz(a), t0.isz(a)), pg(t1.isz(a)))
            return imp(z3.And(t0.intab(a), t0.isst(a, ALLP, BEGP)), z3.Or(stay, shrunk, gone))

        def p1(a, x):
            return imp(z3.And(t0.intab(a), z3.Not(t0.isst(a, EMPTY, ALLP, BEGP)), t0.inreg(a, x)), S1.P.read(x) == S0.P.read(x))

        def p2(a, x):
            return imp(z3.And(t0.intab(a), t1.isst(a, ALLP, BEGP), t1.inreg(a, x)), S1.P.read(x) == NONE)
        nb = s.c(S0, 'null_block')
        return [('reclaiming keeps all other entries', {'C04', 'C05', 'C16'}, U('r1', [('s', 64, tr)], r1)),
                ('reclaiming shrinks or empties protected entries', {'C05', 'C16', 'C06'}, U('r2', [('s', 64, tr)], r2)),
                ('reclaiming keeps the accessibility of all other memory', {'C04', 'C01', 'C02'}, U('p1', [('s', 64, tr), ('x', 64, pt)], p1)),
                ('what stays protected stays inaccessible', {'C05'}, U('p2', [('s', 64, tr), ('x', 64, pt)], p2)),
                ('the shared zero block stays inaccessible', {'C11'}, U('p3', [('x', 64, pt)], lambda x: imp(z3.ULT(x - nb, bv(2 * PG)), S1.P.read(x) == S0.P.read(x)))),
                ('memory of the program stays accessible', {'C04'}, imp(s.own_ok, S1.P.read(s.x0) == S0.P.read(s.x0))),
                ('no entry gets lost', {'C07'}, z3.And(z3.ULE(S0.gh['empty'], S1.gh['empty']), z3.ULE(S1.gh['empty'], t1.count))),
                ('protected memory only shrinks', {'C16'}, z3.ULE(S1.gh['sum'], S0.gh['sum']))]

    def frame_cells(s, v, tags, rets, st0, allowed):
        """no global other than the named ones is changed"""
        ok = {s.key(n) for n in allowed}
        for st, r in rets:
            for k in st.cells:
                a = st0.cells.get(k)
                if a is None:
                    a = s.cell_init(k)
                if k not in ok and not a.eq(st.cells[k]) and not k[0].startswith('%') and k[0] in (S_, G_):
                    v.oblige('%s+%d is unchanged' % k[:2], tags, st.guard, st.cells[k] == a)

    def search_cands(s, ex, header, body, st0, init, hav, n):
        """loops that look for entries: what the pointers found so far designate"""
        out = []
        if hav.F:
            return out
        t = TV(s, st0)
        tr = t.trig()
        ptrs = [r for r, v in init.items() if v.t is not None and z3.is_bv(v.t) and v.t.size() == 64 and z3.is_bv_value(z3.simplify(v.t)) and z3.simplify(v.t).as_long() == 0]
        before = lambda a, n: z3.ULT(a - t.T, n << 6)
        # sizes that the loop compares the sizes of entries with
        szs = {}
        for c in ex.ctx.conds or ():
            for x in size_bounds(c, st0.F[IS], n):
                szs[x.get_id()] = x
        for r in ptrs:
            for i, x in enumerate(szs.values()):
                out.append(Cand('S %s designates an entry of at least the size compared with, %d' % (r, i), lambda v, r=r, x=x: z3.Or(v.phi[r] == bv(0), z3.ULE(x, t.isz(v.phi[r])))))
        for r in ptrs:
            out.append(Cand('S %s designates a passed entry' % r, lambda v, r=r: z3.Or(v.phi[r] == bv(0), z3.And(t.intab(v.phi[r]), before(v.phi[r], v.n)))))
            for k, kn in enumerate(('empty', 'free', 'in use', 'protected', 'begin protected')):
                if k > 1:
                    continue
                out.append(Cand('S %s designates an entry that is %s' % (r, kn), lambda v, r=r, k=k: z3.Or(v.phi[r] == bv(0), t.state(v.phi[r]) == b16(k))))
                out.append(Cand('S no %s entry passed while %s is unset' % (kn, r), lambda v, r=r, k=k: U('unset', [('s', 64, tr)],
                                lambda a: imp(z3.And(v.phi[r] == bv(0), t.intab(a), before(a, v.n)), t.state(a) != b16(k)))))
                for q in ptrs:
                    if q != r:
                        out.append(Cand('S no %s entry but %s passed while %s is unset' % (kn, q, r), lambda v, r=r, q=q, k=k: U('unset', [('s', 64, tr)],
                                        lambda a: imp(z3.And(v.phi[r] == bv(0), t.intab(a), before(a, v.n), a != v.phi[q]), t.state(a) != b16(k)))))
            for q in ptrs:
                if q > r:
                    out.append(Cand('S %s and %s differ' % (r, q), lambda v, r=r, q=q: z3.Or(v.phi[r] == bv(0), v.phi[r] != v.phi[q])))
                if q != r:
                    out.append(Cand('S %s is set before %s' % (q, r), lambda v, r=r, q=q: z3.Or(v.phi[r] == bv(0), v.phi[q] != bv(0))))
        return out

    def table_cands(s, ex, header, body, st0, init, hav, n):
        out = []
        if not hav.F and hav.P is None:
            return out
        if s.relation is None:
            return out
        base = s.relation_base or st0
        k = len(s.relation(base, st0))
        for i in range(k):
            nm = s.relation(base, st0)[i][0]
            out.append(Cand(nm, lambda v, i=i: s.relation(base, v.st)[i][2]))
        return out

    relation_base = None


INVTAGS = {'table pages closed': {'C13'}, 'shared zero block is inaccessible': {'C11'}, 'accounting of protected memory': {'C16'}, 'budget of protected memory': {'C16'}, 'regions are disjoint': {'C04', 'C05', 'C11'},
           'permissions follow the table': {'C01', 'C02', 'C05', 'C04'}, 'entry: in use': {'C01', 'C02', 'C12'}, 'check counter': {'C08'}, 'count of unused entries': {'C07'}, 'entries are left to enlarge the table': {'C07'}}


def Ty_named(mod, name):
    return Ty('named', name=name)


def start(v, open_=True, depth=1):
    """initial state of a function that is called with the lock held and the table accessible (or closed)"""
    w = v.w
    st = new_state()
    w.unlocked, w.maps = [], []
    w.fresh_table(st)
    st.gh['depth'] = z3.simplify(bv(depth)) if isinstance(depth, int) else depth
    st.gh['extra'] = v.inp('extra_internal_entry')
    return st
