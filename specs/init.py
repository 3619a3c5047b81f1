"""Contracts of _duma_init (the constructor) and duma_init."""
import z3
from vc.ir import *
from vc.sym import *
from vc.table import *
from vc.world import new_state

OPTIONS = ['CHECK_FREQ', 'REPORT_ALL_LEAKS', 'SLACKFILL', 'PROTECT_FREE', 'MAX_ALLOC', 'MALLOC_0_STRATEGY', 'NEW_0_STRATEGY', 'MALLOC_FAILEXIT', 'FREE_ACCESS', 'SHOW_ALLOC', 'MEMCPY_OVERLAP', 'ALIGNMENT', 'PROTECT_BELOW', 'FILL']

PROPS = {'C25', 'C11', 'C13', 'C14', 'C04', 'C07'}
UNINIT, INCON, OUTCON, ININIT, OUTINIT = (0x1611 + i for i in range(5))


class InitWorld(TableWorld):
    def __init__(s, mod, ctx):
        super().__init__(mod, ctx)
        s.extra_cands = []
        C = s.contracts
        C['reduceProtectedMemory'] = s.k_reduce
        C['sysconf'] = s.k_pagesize
        C['getpagesize'] = s.k_pagesize
        C['duma_init'] = s.k_duma_init
        C['DUMA_get_sem'] = s.k_get
        C['DUMA_rel_sem'] = s.k_rel
        s.page = z3.BitVec('page_size', 64)
        s.inits = []

    def k_pagesize(s, ex, st, args, ins):
        t = s.page
        return V(z3.Extract(ex.bits(ins.ty) - 1, 0, t) if getattr(ins, 'ty', None) is not None and ex.bits(ins.ty) < 64 else t)

    def k_get(s, ex, st, args, ins):
        st.gh['depth'] = z3.simplify(st.gh['depth'] + bv(1))

    def k_rel(s, ex, st, args, ins):
        s.ver.oblige0('only a held lock is released', {'C14', 'C07'}, st.guard, st.gh['depth'] != bv(0), ex)
        st.gh['depth'] = z3.simplify(st.gh['depth'] - bv(1))
        return V(args[0].t) if args and args[0] is not None else None

    def k_memset(s, ex, st, args, ins):
        """the first table is laid out by clearing it"""
        d, c, n = args[0].t, z3.simplify(z3.Extract(7, 0, args[1].t)), args[2].t
        t = TV(s, st)
        whole = z3.And(d == t.T, n == t.size)
        s.bulk_access(ex, st, d, n, True)
        s.ver.oblige0('the whole new table is cleared', {'C25', 'C07', 'C04'}, st.guard, z3.And(whole, c == bv(0, 8), t.count == z3.LShR(t.size, 6)), ex)
        s.ctx.assume(st.guard, whole)
        for o, b in OFFS.items():
            st.F[o] = st.F[o].update(lambda x, prev, b=b: ite(z3.ULT(x - d, n), bv(0, b), prev()))
        st.gh['sum'], st.gh['empty'] = bv(0), z3.LShR(n, 6)
        st.M = st.M.update(lambda x, prev: ite(z3.ULT(x - d, n), c, prev()))
        st.gh['cleared'] = z3.simplify(st.gh['cleared'] + bv(1))
        return args[0]

    def k_duma_init(s, ex, st, args, ins):
        s.inits.append((st.copy(), ex.line))
        st.gh['inits'] = z3.simplify(st.gh['inits'] + bv(1))
        s.setc(st, 'init_state', bv(OUTINIT, 32))
        return None

    def initial(s, v, st):
        """every static variable has the value of its initialiser"""
        e = Exec(s.ctx, v.fn('_duma_init'), {}, s)
        for g in (S_, G_):
            for (o, b), t in e.flat(g).items():
                if b > 8:
                    st.cells[(g, o, b)] = t


def begin(v, state):
    w = v.w
    st = new_state()
    w.unlocked, w.maps, w.inits = [], [], []
    w.fresh_table(st)
    st.gh['depth'] = v.inp('lock_depth')
    v.assume(z3.ULT(st.gh['depth'], bv(1 << 30)))
    st.gh['inits'], st.gh['cleared'] = bv(0), bv(0)
    st.gh['extra'] = bv(-1)
    w.own_ok = z3.Bool('byte_is_the_programs')
    if state is not None:
        w.initial(v, st)
        w.setc(st, 'init_state', bv(state, 32))
        v.assume(st.P.read(w.x0) == RW)     # a byte of the program
        if state == INCON:
            v.assume(st.gh['depth'] != bv(0))       # the outer call holds the lock
    return st


def construct(state):
    def spec(v):
        w = v.w
        st = begin(v, state)
        start = st.copy()
        rets = v.execute('_duma_init', st, [])
        x = w.x0
        for s, r in rets:
            v.oblige('a wrong page size is refused', {'C25'}, s.guard, w.page == bv(PG))
            v.oblige('the lock is as before', {'C14'}, s.guard, s.gh['depth'] == start.gh['depth'])
            v.oblige('memory of the program is unchanged', {'C25', 'C04'}, s.guard, z3.And(s.M.read(x) == start.M.read(x), s.P.read(x) == RW))
            v.oblige('the table is set up once and initialisation completed once', {'C25'}, s.guard, z3.And(s.gh['inits'] == 1, s.gh['cleared'] == 1, w.c(s, 'init_state') == bv(OUTINIT, 32)))
            cells(v, s, start, {'allocList', 'null_addr', 'null_block', 'slotCount', 'slotsPerPage', 'allocListSize', 'unUsedSlots', 'init_state'})
        for s, ln in w.inits:
            v.ex.line = ln
            v.oblige('initialisation continues after the construction', {'C25'}, s.guard, z3.And(z3.UGE(w.c(s, 'init_state'), bv(OUTCON, 32)), z3.ULT(w.c(s, 'init_state'), bv(ININIT, 32))))
            s.gh['tslot'] = w.c(s, 'allocList')
            for n, f in w.inv(s, True):
                v.oblige('start state: %s' % n, {'C25'} | INVTAGS.get(n, {'C04'}), s.guard, f, ln)
            t = w.tv(s)
            P = s.P
            v.oblige('start state: unused memory is inaccessible', {'C25'}, s.guard, U('free', [('s', 64, []), ('x', 64, [])], lambda a, y: imp(z3.And(t.intab(a), t.isst(a, FREE), t.inreg(a, y)), P.read(y) == NONE)), ln)
            v.oblige('start state: the entries describe exactly the memory taken from the system', {'C25'}, s.guard, exact(w, s), ln)
            v.oblige('start state: entries for the table, the unused memory and no other', {'C25'}, s.guard, U('rest', [('s', 64, [])], lambda a: imp(z3.And(t.intab(a), z3.UGE(a - t.T, bv(128))), t.isst(a, EMPTY))), ln)
            v.oblige('start state: the program\'s memory is its own', {'C25', 'C04'}, s.guard, own_all(w, s), ln)
        for g, msg, args, ln, fn in w.aborts:
            v.oblige('initialisation fails only on a wrong page size or for want of memory', {'C25', 'C07'}, g, z3.Or(w.page != bv(PG), z3.Not(w.grant)), ln)
        for s, r in rets:
            v.cover('returns', s.guard)
    return spec


def own_all(w, s):
    t = w.tv(s)
    x = w.x0
    return U('own', [('s', 64, t.trig())], lambda a: imp(z3.And(t.intab(a), z3.Not(t.isst(a, EMPTY))), z3.UGE(x - t.ia(a), t.isz(a))))


def exact(w, s):
    """the mapped regions are the shared zero block and what the entries describe (one contiguous region)"""
    t = w.tv(s)
    nb = w.c(s, 'null_block')
    fs = []
    for g, b, n, ok in w.maps:
        fs.append(imp(z3.And(*(list(g) + [ok])), z3.Or(z3.And(b == nb, n == bv(2 * PG)), z3.And(t.ia(t.T) == b, t.isz(t.T) + z3.If(t.isst(t.T + bv(64), EMPTY), bv(0), t.isz(t.T + bv(64))) == n, z3.Or(t.isst(t.T + bv(64), EMPTY), t.ia(t.T + bv(64)) == b + t.isz(t.T))))))
    return z3.And(*fs)


def cells(v, s, start, names):
    w = v.w
    ok = {w.key(n) for n in names}
    for k in s.cells:
        a = start.cells.get(k)
        if a is None:
            a = w.cell_init(k)
        if k not in ok and not a.eq(s.cells[k]) and k[0] in (S_, G_):
            v.oblige('%s+%d is unchanged' % k[:2], {'C25'}, s.guard, s.cells[k] == a)


def again(v):
    """initialisation has been done or is being done: nothing is set up again"""
    w = v.w
    st = begin(v, None)
    stt = w.c(st, 'init_state')
    v.assume(z3.And(z3.UGE(stt, bv(OUTCON, 32)), z3.ULE(stt, bv(OUTINIT, 32))))
    v.assume(w.c(st, 'allocList') != bv(0))
    start = st.copy()
    rets = v.execute('_duma_init', st, [])
    for s, r in rets:
        v.oblige('the lock is as before', {'C14', 'C25'}, s.guard, s.gh['depth'] == start.gh['depth'])
        v.oblige('nothing is set up again', {'C25'}, s.guard, U('same', [('x', 64, [])], lambda x, s=s: z3.And(s.M.read(x) == start.M.read(x), s.P.read(x) == start.P.read(x), *[s.F[o].read(x) == start.F[o].read(x) for o in OFFS])))
        v.oblige('initialisation is completed', {'C25'}, s.guard, z3.And(w.c(s, 'init_state') == bv(OUTINIT, 32), z3.ULE(s.gh['inits'], bv(1)), imp(stt == bv(OUTINIT, 32), s.gh['inits'] == bv(0))))
        cells(v, s, start, {'init_state'})
    for g, msg, args, ln, fn in w.aborts:
        v.oblige('no failure once set up', {'C25', 'C07'}, g, FALSE, ln)
    for s, r in rets:
        v.cover('returns', s.guard)


# ---------------- duma_init
class SecondWorld(InitWorld):
    def __init__(s, mod, ctx):
        super().__init__(mod, ctx)
        C = s.contracts
        del C['duma_init']
        C['duma_getenvvars'] = s.k_getenvvars
        C['DUMA_init_sem'] = lambda ex, st, a, i: None
        C['malloc'] = s.k_malloc
        C['free'] = s.k_free
        C['_duma_init'] = s.k_con

    def k_con(s, ex, st, args, ins):
        raise Unsupported('duma_init calls the constructor')

    def k_getenvvars(s, ex, st, args, ins):
        """contract (C22): every option has a legal value"""
        s.ver.oblige0('options are read after the construction', {'C25'}, st.guard, s.c(st, 'init_state') == bv(ININIT, 32), ex)
        st.gh['env'] = z3.simplify(st.gh['env'] + bv(1))
        for n in OPTIONS:
            s.setc(st, n, s.ctx.fresh(n, s.key(n)[2]))
        return None

    def k_malloc(s, ex, st, args, ins):
        s.ver.oblige0('options are known when the first block is allocated', {'C25', 'C22'}, st.guard, st.gh['env'] == bv(1), ex)
        s.setc(st, 'numAllocs', z3.simplify(s.c(st, 'numAllocs') + bv(1)))
        r = s.ctx.fresh('block')
        st.gh['live'] = r
        st.gh['closed'] = bv(1)
        return V(r)

    def k_free(s, ex, st, args, ins):
        s.ver.oblige0('only an own block is freed', {'C25', 'C07'}, st.guard, args[0].t == st.gh['live'], ex)
        s.setc(st, 'numDeallocs', z3.simplify(s.c(st, 'numDeallocs') + bv(1)))
        st.gh['live'] = bv(0)
        st.gh['closed'] = bv(1)
        return None


def second(v):
    w = v.w
    st = begin(v, None)
    w.setc(st, 'init_state', v.inp('init_state', 32))
    stt = w.c(st, 'init_state')
    for g in ('env', 'live', 'closed'):
        st.gh[g] = bv(0)
    v.assume(z3.And(w.c(st, 'allocList') != bv(0), z3.Or(stt == bv(OUTCON, 32), stt == bv(ININIT, 32), stt == bv(OUTINIT, 32))))
    v.assume(imp(stt == bv(OUTCON, 32), z3.And(w.c(st, 'numAllocs') == 0, w.c(st, 'numDeallocs') == 0)))
    start = st.copy()
    rets = v.execute('duma_init', st, [])
    for s, r in rets:
        new = s.guard + (stt == bv(OUTCON, 32),)
        v.oblige('options are read once and the table is left inaccessible', {'C25', 'C13'}, new, z3.And(s.gh['env'] == 1, s.gh['closed'] == 1, s.gh['live'] == 0, w.c(s, 'init_state') == bv(OUTINIT, 32)))
        v.oblige('a second initialisation does nothing', {'C25'}, s.guard + (stt != bv(OUTCON, 32),), z3.And(s.gh['env'] == 0, w.c(s, 'init_state') == stt))
        v.oblige('the lock is as before', {'C14'}, s.guard, s.gh['depth'] == start.gh['depth'])
    for g, msg, args, ln, fn in w.aborts:
        v.oblige('initialisation does not fail', {'C25', 'C07'}, g, FALSE, ln)
    for s, r in rets:
        v.cover('returns', s.guard)


SPECS = [('_duma_init (program start)', construct(UNINIT), InitWorld, 'duma', PROPS),
         ('_duma_init (entered recursively)', construct(INCON), InitWorld, 'duma', PROPS),
         ('_duma_init (set up already)', again, InitWorld, 'duma', {'C25', 'C14', 'C07'}),
         ('duma_init', second, SecondWorld, 'duma', {'C25', 'C13', 'C14', 'C22'})]
