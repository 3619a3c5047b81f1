"""C++ operators new and delete (src/dumapp.cpp), against the contracts of _duma_allocate and _duma_deallocate.

Exceptions are explicit: the ghost `exc` is 0 (none), 1 (std::bad_alloc or derived) or 2 (anything else).  The ghost `phase` follows the protocol of an
allocation: 0 start, 1 the last attempt failed, 2 the handler returned, 3 the handler left by an exception, 4 memory was obtained."""
import z3
from vc.ir import *
from vc.sym import *
from vc.loops import Cand
from vc.world import World, new_state, ADDRMAX

UNIT = 'pp'
PROPS = {'C21', 'C18', 'C11', 'C12', 'C09', 'C01', 'C02', 'C03', 'C05', 'C07', 'C13', 'C14', 'C17'}
G_ = '@_duma_g'
I32 = lambda n: bv(n, 32)


class CppWorld(World):
    def __init__(s, mod, ctx):
        super().__init__(mod, ctx)
        C = s.contracts
        C['_duma_allocate'] = s.k_allocate
        C['_duma_deallocate'] = s.k_deallocate
        C['_duma_init'] = s.k_init
        C['_ZSt15set_new_handlerPFvvE'] = s.k_set_handler
        C['_ZSt15get_new_handlerv'] = lambda ex, st, a, i: V(st.gh['handler'])
        C['llvm.eh.typeid.for'] = lambda ex, st, a, i: V(I32(1) if a[0].glob and a[0].glob[0] == '@_ZTISt9bad_alloc' else I32(2))
        C['__cxa_allocate_exception'] = lambda ex, st, a, i: V(s.ctx.fresh('exception'))
        C['_ZNSt9bad_allocC2Ev'] = C['_ZNSt9bad_allocC1Ev'] = lambda ex, st, a, i: None
        C['__cxa_begin_catch'] = s.k_begin
        C['__cxa_end_catch'] = s.k_end
        C['__cxa_rethrow'] = s.k_rethrow
        C['__cxa_throw'] = s.k_throw
        C['__cxa_call_unexpected'] = C['_ZSt9terminatev'] = C['__clang_call_terminate'] = s.k_terminate
        s.extra_cands.append(s.cands)
        s.allocs, s.frees = [], []
        f = mod.fields
        # the debug information has only a declaration of the outer structure here, so its layout is read off the LLVM type: the member that
        # has the type of the inner structure, and the first pointer
        gty = mod.res(mod.globals['@_duma_g'][2])
        at = lambda p: next(mod.field_off(gty, i)[0] for i, t in enumerate(gty.el) if p(t))
        tls = at(lambda t: t.k == 'named' and t.name == '%struct.DUMA_TLSVARS_T')
        s.off = lambda n: (G_, tls + f['DUMA_TLSVARS_T'][n][0] // 8, f['DUMA_TLSVARS_T'][n][1])
        s.lst = (G_, at(lambda t: t.k == 'ptr'), 64)

    def c(s, st, k):
        v = st.cells.get(k)
        return v if v is not None else s.cell_init(k)

    def cands(s, ex, header, body, st0, init, hav, n):
        if 'phase' not in hav.gh:
            return []
        return [Cand('an attempt follows the start or a handler that returned', lambda vw: z3.Or(vw.st.gh['phase'] == I32(0), vw.st.gh['phase'] == I32(2))),
                Cand('the installed handler is left installed', lambda vw: vw.st.gh['handler'] == vw.st.gh['uh']),
                Cand('no exception is pending', lambda vw: vw.st.gh['exc'] == I32(0)),
                Cand('DUMA is initialised', lambda vw: s.c(vw.st, s.lst) != bv(0))]

    # ---- exceptions
    def call(s, ex, st, name, args, ins, indirect):
        r = super().call(ex, st, name, args, ins, indirect)
        e = z3.simplify(st.gh['exc'])
        if not st.dead and not z3.is_bv_value(e) and ins.op == 'call':
            s.throw_out(ex, st, e != I32(0))
            st.guard = st.guard + (e == I32(0),)
        elif not st.dead and z3.is_bv_value(e) and e.as_long() != 0 and ins.op == 'call':
            s.throw_out(ex, st, TRUE)
            st.dead = True
        return r

    def throw_out(s, ex, st, cond):
        """the exception leaves the function"""
        if s.ctx.record and not s.ctx.dup():
            n = st.copy()
            n.guard = n.guard + (cond,)
            t = ex.fn.ret
            ex.rets.append((n, None if t is None or t.k == 'void' else ex.fresh_val(t, 'thrown')))

    def invoke_dead(s, ex, st, i, b):
        return []

    def invoke_edges(s, ex, st, i, b):
        e = z3.simplify(st.gh['exc'])
        if z3.is_bv_value(e):
            return [Edge(b, i.x['normal' if e.as_long() == 0 else 'unwind'], st)]
        s2 = st.copy()
        st.guard = st.guard + (e == I32(0),)
        s2.guard = s2.guard + (e != I32(0),)
        st.gh['exc'] = I32(0)
        return [Edge(b, i.x['normal'], st), Edge(b, i.x['unwind'], s2)]

    def landingpad(s, ex, st, i):
        e = st.gh['exc']
        sel = I32(0)
        ti = lambda o: o.k == 'global' and o.v == '@_ZTISt9bad_alloc'
        for kind, o in reversed(i.x):
            if kind == 'catch':
                sel = I32(1) if o.k == 'null' else z3.If(e == I32(1), I32(1), sel) if ti(o) else z3.If(e == I32(2), z3.If(s.ctx.freshb('other type'), I32(2), sel), sel)
            elif kind == 'filter':
                ok = o.k == 'agg' and any(ti(x) for x in o.v)
                sel = z3.If(z3.And(e == I32(1), TRUE if ok else FALSE), sel, I32(-1))
        st.gh['pending'] = e
        st.gh['exc'] = I32(0)
        return V(None, agg=[V(s.ctx.fresh('exn')), V(z3.simplify(sel))])

    def resume(s, ex, st, v):
        st.gh['exc'] = st.gh['pending']
        s.throw_out(ex, st, TRUE)

    def k_begin(s, ex, st, a, i):
        st.gh['caught'] = st.gh['pending']
        return V(s.ctx.fresh('caught'))

    def k_end(s, ex, st, a, i):
        return None

    def k_rethrow(s, ex, st, a, i):
        st.gh['exc'] = st.gh['caught']

    def k_throw(s, ex, st, a, i):
        bad = a[1].glob is not None and a[1].glob[0] == '@_ZTISt9bad_alloc'
        s.ver.oblige0('only std::bad_alloc is thrown', {'C21'}, st.guard, TRUE if bad else FALSE, ex)
        s.ver.oblige0('bad_alloc is thrown only after a failed attempt without a handler', {'C21'}, st.guard, z3.And(st.gh['phase'] == I32(1), st.gh['uh'] == bv(0)), ex)
        st.gh['exc'] = I32(1)

    def k_terminate(s, ex, st, a, i):
        s.add_abort(ex, st, st.guard, 'unexpected exception', a)
        s.ver.oblige0('the program is terminated only for an exception of the handler that is no bad_alloc', {'C21', 'C07'}, st.guard, z3.And(st.gh['phase'] == I32(3), st.gh['pending'] == I32(2)), ex)
        st.dead = True

    # ---- the handler
    def k_set_handler(s, ex, st, a, i):
        old = st.gh['handler']
        st.gh['handler'] = a[0].t
        return V(old)

    def call_indirect(s, ex, st, v, args, ins):
        ob = s.ver.oblige0
        ob('what is called is the installed handler', {'C21'}, st.guard, z3.And(v.t == st.gh['uh'], v.t != bv(0)), ex)
        ob('the installed handler stays installed while it runs', {'C21'}, st.guard, st.gh['handler'] == st.gh['uh'], ex)
        ob('the handler is called only after a failed attempt', {'C21'}, st.guard, st.gh['phase'] == I32(1), ex)
        e = s.ctx.fresh('handler_exception', 32)
        s.ctx.assume(st.guard, z3.ULE(e, I32(2)))
        st.gh['exc'] = e
        st.gh['phase'] = z3.If(e == I32(0), I32(2), I32(3))
        st.gh['handler'] = st.gh['uh'] = s.ctx.fresh('handler_now')     # it may install another one
        st.cells[s.off('FILL')] = s.ctx.fresh('FILL', 32)
        st.cells[s.off('PROTECT_BELOW')] = s.ctx.fresh('PROTECT_BELOW', 32)
        for k in (s.off('FILL'), s.off('PROTECT_BELOW')):
            if s.ctx.stores is not None:
                s.ctx.stores.append(('cell', k, 32, None, st.guard))
        return None

    # ---- DUMA
    def k_init(s, ex, st, a, i):
        for k in (s.lst, s.off('FILL'), s.off('PROTECT_BELOW')):
            st.cells[k] = s.ctx.fresh('after_init', k[2])
        s.ctx.assume(st.guard, st.cells[s.lst] != bv(0))

    def k_allocate(s, ex, st, args, ins):
        align, n, below, fill, prot, alloc, fail, fname, line = [a.t for a in args]
        ob = lambda nm, tg, f: s.ver.oblige0(nm, tg, st.guard, f, ex)
        w = s.want
        ob('DUMA is initialised before the first attempt', {'C21', 'C07'}, s.c(st, s.lst) != bv(0))
        ob('asks for all the bytes', {'C12', 'C21'}, n == w['size'])
        ob('the default alignment is in force', {'C03', 'C01'}, align == bv(0))
        ob('the side of the guard is the configured one', {'C01', 'C02'}, (below != I32(0)) == (s.c(st, s.off('PROTECT_BELOW')) != I32(0)))
        ob('the fill value is the configured one', {'C09'}, fill == s.c(st, s.off('FILL')))
        ob('the block table is protected after the call', {'C13', 'C14'}, prot != I32(0))
        ob('the family recorded is the one of the operator', {'C18', 'C07', 'C11'}, z3.Or(*[alloc == I32(k) for k in w['kinds']]))
        ob('failure is reported to the operator', {'C21', 'C12'}, fail == I32(0))
        ob('a further attempt is made only after the handler returned', {'C21'}, z3.Or(st.gh['phase'] == I32(0), st.gh['phase'] == I32(2)))
        if w['site']:
            ob('the call site that is recorded', {'C17'}, z3.And(fname == w['site'][0], line == w['site'][1]))
        else:
            ob('the call site that is recorded', {'C17'}, line == I32(0))
        r = s.ctx.fresh('block')
        st.gh['phase'] = z3.If(r != bv(0), I32(4), I32(1))
        st.gh['ptr'] = r
        return V(r)

    def k_deallocate(s, ex, st, args, ins):
        p, prot, alloc, fname, line = [a.t for a in args]
        ob = lambda nm, tg, f: s.ver.oblige0(nm, tg, st.guard, f, ex)
        w = s.want
        ob('the block table is protected after the call', {'C13', 'C14'}, prot != I32(0))
        ob('the family of the release is the one of the operator', {'C18', 'C07'}, z3.Or(*[alloc == I32(k) for k in w['kinds']]))
        if w['site']:
            ob('the call site that is recorded', {'C17'}, z3.And(fname == w['site'][0], line == w['site'][1]))
        st.gh['frees'] = z3.simplify(st.gh['frees'] + bv(1))
        st.gh['fptr'] = p
        return None


def begin(v, kinds, site):
    w = v.w
    st = new_state()
    h = v.inp('installed_handler')
    st.gh.update(exc=I32(0), pending=I32(0), caught=I32(0), phase=I32(0), handler=h, uh=h, ptr=w.ctx.fresh('gh_ptr'), frees=bv(0), fptr=w.ctx.fresh('gh_fptr'))
    e = v.mod.enums
    for k in kinds:
        if k not in e:
            raise Unsupported('enumerator %s' % k)
    w.want = dict(kinds=[e[k] for k in kinds], site=site)
    v.assume(w.gaddr('@_Z16duma_new_handlerv') != bv(0))
    return st


def news(fname, kinds, nothrow, site):
    def f(v):
        w = v.w
        fn = v.fn(fname)
        n = v.inp('size')
        fl = (v.inp('filename'), v.inp('lineno', 32)) if site else None
        st = begin(v, kinds, fl)
        w.want['size'] = n
        rets = v.execute(fname, st, [n] + ([v.inp('nothrow_tag')] if nothrow else []) + (list(fl) if fl else []))
        for s, r in rets:
            g, gh = s.guard, s.gh
            e = gh['exc']
            ok = e == I32(0)
            v.oblige('the installed handler is left installed', {'C21'}, g, gh['handler'] == gh['uh'])
            v.oblige('returns what was allocated', {'C21', 'C12', 'C01', 'C02'}, g + (ok,), z3.Or(r.t == bv(0), z3.And(gh['phase'] == I32(4), r.t == gh['ptr'])))
            nomem = z3.Or(z3.And(gh['phase'] == I32(1), gh['uh'] == bv(0)), z3.And(gh['phase'] == I32(3), gh['pending'] == I32(1)))
            if nothrow:
                v.oblige('throws nothing', {'C21'}, g, ok)
                v.oblige('null only when there is no handler or the handler gave up', {'C21'}, g + (ok, r.t == bv(0)), nomem)
            else:
                v.oblige('never returns null', {'C21'}, g + (ok,), r.t != bv(0))
                v.oblige('throws bad_alloc only, and only when there is no handler or the handler gave up', {'C21'}, g + (z3.Not(ok),), z3.And(e == I32(1), z3.Or(z3.And(gh['phase'] == I32(1), gh['uh'] == bv(0)), z3.And(gh['phase'] == I32(3)))))
            v.oblige('nothing is released', {'C05'}, g, gh['frees'] == bv(0))
        ok = [s.guard + (s.gh['exc'] == I32(0), r.t != bv(0)) for s, r in rets]
        for i, g in enumerate(ok):
            if z3.is_bv_value(z3.simplify(rets[i][0].gh['exc'])) and z3.simplify(rets[i][0].gh['exc']).as_long() == 0:
                v.cover('returns a block', g)
                break
    return f


def deletes(fname, kinds, nothrow, site):
    def f(v):
        w = v.w
        p = v.inp('ptr')
        fl = (v.inp('filename'), v.inp('lineno', 32)) if site else None
        st = begin(v, kinds, fl)
        rets = v.execute(fname, st, [p] + ([v.inp('nothrow_tag')] if nothrow else []) + (list(fl) if fl else []))
        for s, r in rets:
            g, gh = s.guard, s.gh
            v.oblige('releases the block passed, once; null is a no-op', {'C05', 'C07', 'C18'}, g, z3.If(p == bv(0), z3.ULE(gh['frees'], bv(1)), z3.And(gh['frees'] == bv(1), gh['fptr'] == p)))
            v.oblige('throws nothing', {'C21', 'C07'}, g, gh['exc'] == I32(0))
            v.oblige('the installed handler is left installed', {'C21'}, g, gh['handler'] == gh['uh'])
        v.cover('returns', rets[-1][0].guard)
    return f


NP = {'C21', 'C18', 'C11', 'C12', 'C09', 'C01', 'C02', 'C03', 'C13', 'C14', 'C17', 'C05', 'C07'}
DP = {'C18', 'C05', 'C07', 'C13', 'C14', 'C21', 'C17'}
SPECS = []
for _a, _n, _k in (('w', 'new', ('EFA_NEW_ELEM', 'EFA_DEL_ELEM')), ('a', 'new[]', ('EFA_NEW_ARRAY', 'EFA_DEL_ARRAY'))):
    for _t in (False, True):
        for _s in (False, True):
            sfx = ('RKSt9nothrow_t' if _t else '') + ('PKci' if _s else '')
            d = 'l' if _a == 'w' else 'a'
            SPECS.append(('operator %s%s%s' % (_n, ', nothrow' if _t else '', ', with site' if _s else ''), news('_Zn%sm%s' % (_a, sfx), _k, _t, _s), CppWorld, 'pp', NP))
            SPECS.append(('operator %s%s%s' % (_n.replace('new', 'delete'), ', nothrow' if _t else '', ', with site' if _s else ''), deletes('_Zd%sPv%s' % (d, sfx), _k, _t, _s), CppWorld, 'pp', DP))
