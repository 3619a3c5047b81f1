"""C19, C20: the memory and string functions (src/duma.c)."""
import z3
from vc.ir import *
from vc.sym import *
from vc.world import World, new_state, ADDRMAX

A = bv(ADDRMAX)


def rng(p, n):
    return z3.And(p != bv(0), z3.ULE(p, A), z3.ULE(n, A), z3.ULE(p + n, A))


def inside(x, p, n):
    return z3.ULT(x - p, n)


def disjoint(p, n, q, m):
    return z3.Or(n == 0, m == 0, z3.ULE(p + n, q), z3.ULE(q + m, p))


def strarg(v, st, p, name):
    """p is a string: ghost length"""
    L = v.inp(name)
    M = st.M
    v.assume(z3.And(p != bv(0), z3.ULT(p, A), z3.ULT(L, A), z3.ULT(p + L, A), M.read(p + L) == bv(0, 8)))
    v.assume(U('string ' + name, [('it', 64, [(b, lambda t, p=p: z3.simplify(t - p)) for b in M.bases()])],
               lambda k: imp(z3.ULT(k, L), M.read(p + k) != bv(0, 8))))
    v.ctx.extra_bounds.append(L)
    return L


def unchanged_at_abort(v, M0):
    """terminated calls have not written anything"""
    v.w.on_abort_state = []
    old = v.w.on_abort

    def f(ex, st, msg, args):
        old(ex, st, msg, args)
        M = st.M
        v.oblige('nothing written before termination', {'C20'}, st.guard,
                 TRUE if M is M0 else U('unchanged', [('x', 64, [])], lambda x: M.read(x) == M0.read(x)), ex.line)
    v.w.on_abort = f


def finish(v, rets, must, may, dest, content, region, ret, pre_ok, part):
    """must: termination demanded; may: termination allowed; content: list of U builders valid when pre_ok"""
    if part == 'content':
        must = may = FALSE
    if must is not None and part != 'content':
        v.post('returns only when no overlap has to be diagnosed', {'C20'}, rets, lambda st, r: z3.Not(must))
    v.aborts_only_if({'C20'}, may, 'diagnoses only overlapping calls')
    v.post('returns the destination', {'C19'}, rets, lambda st, r: r.t == ret)
    if part == 'overlap':
        content, pre_ok = [], FALSE
    for nm, b in content:
        for st, r in rets:
            u = b(st)
            v.oblige(nm, {'C19'}, st.guard, u if pre_ok is None else u.guarded(pre_ok))
    for st, r in rets:
        if part == 'overlap':
            break
        M, M0 = st.M, v.M0
        u = U('frame', [('x', 64, [])], lambda x: z3.Or(region(x), M.read(x) == M0.read(x)))
        v.oblige('no other byte changes', {'C19'}, st.guard, u if pre_ok is None else u.guarded(pre_ok))
    for i, (st, r) in enumerate(rets):
        v.cover('return %d' % i, st.guard)
    if not rets:
        v.oblige('returns', {'C19', 'C20'}, (), FALSE)


def term_tags(v):
    for o in v.ctx.obs:
        if 'termination' in o.tags:
            o.tags |= {'C19', 'C20'}


def pre(v, part, ok):
    if part == 'content':
        v.assume(ok)


def mk(fname, kind, part):
    def f(v):
        st = new_state()
        v.M0 = M0 = st.M
        d, s = v.inp('dest'), v.inp('src')
        over = v.inp('MEMCPY_OVERLAP', 32)
        off = v.mod.fields['_DUMA_GlobalStaticVars'].get('MEMCPY_OVERLAP')
        if off:
            st.cells[('@_duma_s', off[0] // 8, 32)] = over
        args = [d, s]
        if kind in ('memcpy', 'memmove'):
            n = v.inp('size')
            v.assume(z3.And(rng(d, n), rng(s, n)))
            args.append(n)
            unchanged_at_abort(v, M0)
            rets = v.execute(fname, st, args)
            olap = z3.Not(disjoint(d, n, s, n))
            if kind == 'memcpy':
                diag = z3.And(olap, d != s, z3.Or(z3.ULT(s, d), over == 0))
            else:
                diag = FALSE
            content = [('copies every byte', lambda st: U('copied', [('it', 64, [])], lambda k: imp(z3.ULT(k, n), st.M.read(d + k) == M0.read(s + k))))]
            finish(v, rets, diag, diag, d, content, lambda x: inside(x, d, n), d, None, part)
        elif kind == 'strcpy':
            L = strarg(v, st, s, 'srclen')
            v.assume(rng(d, L + 1))
            ok = z3.Or(d == s, disjoint(d, L + 1, s, L + 1))
            pre(v, part, ok)
            unchanged_at_abort(v, M0)
            rets = v.execute(fname, st, args)
            must = z3.And(z3.ULT(s, d), z3.ULE(d, s + L))
            may = z3.And(z3.Not(disjoint(d, L + 1, s, L + 1)), d != s)
            content = [('copies the text and its terminator', lambda st: U('copied', [('it', 64, [])], lambda k: imp(z3.ULE(k, L), st.M.read(d + k) == M0.read(s + k))))]
            finish(v, rets, must, may, d, content, lambda x: inside(x, d, L + 1), d, ok, part)
        elif kind in ('strncpy', 'strncat'):
            n = v.inp('size')
            args.append(n)
            # characters read: T of text; terminator read when T < n
            T = v.inp('srclen')
            M = M0
            v.assume(z3.And(rng(s, bv(1)), z3.ULE(n, A), z3.ULE(T, n), z3.ULT(s + T, A), z3.ULE(T, A), imp(z3.ULT(T, n), M.read(s + T) == bv(0, 8))))
            v.assume(U('text', [('it', 64, [(b, lambda t: z3.simplify(t - s)) for b in M.bases()])], lambda k: imp(z3.ULT(k, T), M.read(s + k) != bv(0, 8))))
            v.ctx.extra_bounds.append(T)
            R = z3.If(z3.ULT(T, n), T + 1, T)          # bytes of src that are read
            if kind == 'strncpy':
                v.assume(rng(d, n))
                ok = z3.Or(d == s, disjoint(d, n, s, R))
                pre(v, part, ok)
                unchanged_at_abort(v, M0)
                rets = v.execute(fname, st, args)
                must = z3.And(n != 0, z3.ULT(s, d), z3.ULT(d, s + R))
                may = z3.And(z3.Not(disjoint(d, n, s, n)), d != s)
                content = [('copies the text', lambda st: U('copied', [('it', 64, [])], lambda k: imp(z3.ULT(k, T), st.M.read(d + k) == M0.read(s + k)))),
                           ('pads with zero bytes', lambda st: U('padded', [('it', 64, [])], lambda k: imp(z3.And(z3.ULE(T, k), z3.ULT(k, n)), st.M.read(d + k) == bv(0, 8))))]
                finish(v, rets, must, may, d, content, lambda x: inside(x, d, n), d, ok, part)
            else:
                D = strarg(v, st, d, 'destlen')
                v.assume(z3.And(rng(d, D + T + 1)))
                e = d + D
                ok = z3.And(disjoint(e, T + 1, s, R))
                pre(v, part, ok)
                unchanged_at_abort(v, M0)
                rets = v.execute(fname, st, args)
                e = d + D
                must = z3.And(n != 0, z3.ULT(s, e), z3.ULT(e, s + R))
                may = z3.And(n != 0, z3.Not(disjoint(d, D + T + 1, s, R)))
                content = [('appends the text', lambda st: U('copied', [('it', 64, [])], lambda k: imp(z3.ULT(k, T), st.M.read(e + k) == M0.read(s + k)))),
                           ('terminates the text', lambda st: U('terminated', [], lambda: st.M.read(e + T) == bv(0, 8)))]
                finish(v, rets, must, may, d, content, lambda x: inside(x, e, T + 1), d, ok, part)
        elif kind == 'strcat':
            L = strarg(v, st, s, 'srclen')
            D = strarg(v, st, d, 'destlen')
            v.assume(rng(d, D + L + 1))
            e = d + D
            ok = disjoint(e, L + 1, s, L + 1)
            pre(v, part, ok)
            unchanged_at_abort(v, M0)
            rets = v.execute(fname, st, args)
            e = d + D
            must = z3.And(z3.ULT(s, e), z3.ULE(e, s + L))
            may = z3.Not(disjoint(d, D + L + 1, s, L + 1))
            content = [('appends the text and its terminator', lambda st: U('copied', [('it', 64, [])], lambda k: imp(z3.ULE(k, L), st.M.read(e + k) == M0.read(s + k))))]
            finish(v, rets, must, may, d, content, lambda x: inside(x, e, L + 1), d, ok, part)
        term_tags(v)
    return (fname if part == 'all' else '%s (%s)' % (fname, part), f, World)


PROPS = {"C19", "C20"}
SPECS = []
for p in ('_duma_', ''):
    for k in ('memcpy', 'memmove', 'strcpy', 'strncpy', 'strcat', 'strncat'):
        for part in (('all',) if k.startswith('mem') else ('overlap', 'content')):
            SPECS.append(mk(p + k, k, part))
