"""C23: numbers in diagnostics (src/print.c)."""
import z3
from vc.ir import *
from vc.sym import *
from vc.loops import Cand
from vc.world import World, new_state, ADDRMAX

PROPS = {'C23'}
UNIT = 'print'
A = bv(ADDRMAX)
NB = 64


class PrintWorld(World):
    """division by the (constant) base is a function with the facts of arithmetic about it"""

    def __init__(s, mod, ctx):
        super().__init__(mod, ctx)
        s.q_f = {}
        s.contracts['strcpy'] = s.k_strcpy

    def qf(s, base):
        if base not in s.q_f:
            nm = 'quotient_by_%d' % base
            f = s.q_f[base] = z3.Function(nm, z3.BitVecSort(64), z3.BitVecSort(64))
            s.ctx.assume((), U(nm, [('x', 64, [nm])], lambda x: z3.And(z3.ULT(x - f(x) * bv(base), bv(base)), z3.ULE(f(x), z3.LShR(x, {10: 3, 16: 4}[base])))))
        return s.q_f[base]

    def quot(s, x, base):
        return s.qf(base)(x)

    def base_of(s, y):
        y = z3.simplify(y)
        return y.as_long() if z3.is_bv_value(y) and y.size() == 64 and y.as_long() in (10, 16) else None

    def udiv(s, x, y):
        b = s.base_of(y)
        return s.quot(x, b) if b else z3.UDiv(x, y)

    def urem(s, x, y):
        b = s.base_of(y)
        return x - s.quot(x, b) * bv(b) if b else z3.URem(x, y)

    def sdiv(s, x, y):
        b = s.base_of(y)
        if not b:
            return x / y
        q = s.quot(z3.If(x < 0, -x, x), b)
        return z3.If(x < 0, -q, q)

    def srem(s, x, y):
        b = s.base_of(y)
        if not b:
            return z3.SRem(x, y)
        a = z3.If(x < 0, -x, x)
        r = a - s.quot(a, b) * bv(b)
        return z3.If(x < 0, -r, r)

    def k_strcpy(s, ex, st, args, ins):
        d, q = args[0].t, args[1].t
        L = s.strlen(ex, st, q)
        M0 = st.M
        if M0.kind == 'store' and z3.is_true(z3.simplify(M0.b[1] == bv(0, 8))) and ex.decide(st, L == M0.b[0] - q):
            L = z3.simplify(M0.b[0] - q)    # the terminator stored last ends the text
        s.ver.oblige0('strcpy is not called with overlapping ranges', {'C23'}, st.guard, z3.Or(z3.ULE(d + L + bv(1), q), z3.ULE(q + L + bv(1), d)), ex)
        if s.ctx.stores is not None:
            s.ctx.stores.append(('M', d, 64, None, st.guard))
        st.M = M0.update(lambda x, prev: ite(z3.ULE(x - d, L), M0.read(q + (x - d)), prev()))
        return args[0]


def number(fname, base):
    def f(v):
        w = v.w
        st = new_state()
        M0 = st.M
        dest, val = v.inp('dest'), v.inp('value')
        v.assume(z3.And(z3.UGE(dest, bv(4096)), z3.ULE(dest, A), z3.ULE(dest + bv(NB + 1), A)))
        if fname == 'sprintLong':
            v.assume(val >= 0)
        # ghost: what is left of the value after k digits
        w.qf(base)
        left = z3.Function('left', z3.BitVecSort(64), z3.BitVecSort(64))
        q = lambda x: w.quot(x, base)
        v.assume(left(bv(0)) == val)
        v.assume(U('left', [('k', 64, ['left'])], lambda k: imp(z3.ULT(k, bv(NB)), left(k + bv(1)) == q(left(k)))))
        digit = lambda k: (lambda d: z3.If(z3.ULT(d, bv(10)), d + bv(48), d + bv(87)))(left(k) - q(left(k)) * bv(base))
        objs = []
        w.local = lambda x: z3.Or(*[z3.ULT(x - t, bv(n)) for t, n in objs])
        old = w.new_object

        def newobj(ex, s, t, size):
            old(ex, s, t, size)
            objs.append((t, size))
            w.ctx.assume((), z3.Or(z3.ULE(t + bv(size), dest), z3.ULE(dest + bv(NB + 1), t)))
        w.new_object = newobj

        def cands(ex, header, body, s0, init, hav, n):
            out = []
            for r, p in init.items():
                if p.t is None or not z3.is_bv(p.t) or p.t.size() != 64:
                    continue
                out.append(Cand('N %s is what is left of the value' % r, lambda vw, r=r: vw.phi[r] == left(vw.n)))
                out.append(Cand('N %s is not used up' % r, lambda vw, r=r: z3.Or(vw.n == bv(0), vw.phi[r] != bv(0))))
                out.append(Cand('N digits end at %s' % r, lambda vw, r=r, p=p: U('digits', [('k', 64, [(b, lambda t, e=p.t: z3.simplify(e - bv(1) - t)) for b in vw.st.M.bases()])],
                                lambda k: imp(z3.ULT(k, vw.n), vw.st.M.read(p.t - bv(1) - k) == z3.Extract(7, 0, digit(k))))))
            out.append(Cand('N left bound', lambda vw: z3.And(z3.ULE(left(vw.n), z3.LShR(bv(-1), vw.n * bv({10: 3, 16: 4}[base]))), z3.ULE(vw.n, bv(22)))))
            out.append(Cand('N left nonzero before', lambda vw: U('nz', [('k', 64, ['left'])], lambda k: imp(z3.ULE(k, vw.n), z3.Or(k == bv(0), left(k) != bv(0))))))
            return out
        w.extra_cands.append(cands)
        rets = v.execute(fname, st, [dest, val, bv(base)])
        for s, r in rets:
            n = z3.SignExt(32, r.t)
            g = s.guard
            v.oblige('at least one digit, at most %d' % NB, {'C23'}, g, z3.And(n != bv(0), z3.ULE(n, bv(NB))))
            v.oblige('every digit is exact', {'C23'}, g, U('digit', [('k', 64, [])], lambda k: imp(z3.ULT(k, n), s.M.read(dest + (n - bv(1) - k)) == z3.Extract(7, 0, digit(k)))))
            v.oblige('no digit is missing', {'C23'}, g, left(n) == bv(0))
            v.oblige('no leading zero', {'C23'}, g, z3.Or(n == bv(1), left(n - bv(1)) != bv(0)))
            v.oblige('the text is terminated', {'C23'}, g, s.M.read(dest + n) == bv(0, 8))
            v.oblige('nothing else is written', {'C23'}, g, U('frame', [('x', 64, [])], lambda x: z3.Or(z3.ULE(x - dest, n), w.local(x), s.M.read(x) == M0.read(x))))
        v.aborts_only_if({'C23'}, FALSE)
        v.cover('returns', rets[-1][0].guard)
    return f


SPECS = [('sprintAddr decimal', number('sprintAddr', 10), PrintWorld), ('sprintAddr hexadecimal', number('sprintAddr', 16), PrintWorld), ('sprintLong decimal', number('sprintLong', 10), PrintWorld)]


# ------------------------------------------------------------------ the formatter
NUMW = 64          # characters of a number, proved for sprintAddr and sprintLong ('at most 64')


class FormatWorld(PrintWorld):
    """numbers by the contracts of sprintAddr and sprintLong"""

    def __init__(s, mod, ctx):
        super().__init__(mod, ctx)
        B = z3.BitVecSort(64)
        s.len_f = {b: z3.Function('digits_%d' % b, B, B) for b in (10, 16)}
        s.chr_f = {b: z3.Function('digit_%d' % b, B, B, z3.BitVecSort(8)) for b in (10, 16)}
        for b in (10, 16):
            f = s.len_f[b]
            ctx.assume((), U('digits', [('v', 64, ['digits_%d' % b])], lambda v, f=f: z3.And(z3.UGE(f(v), bv(1)), z3.ULE(f(v), bv(NUMW)))))
        s.contracts['sprintAddr'] = lambda ex, st, a, i: s.k_number(ex, st, a, False)
        s.contracts['sprintLong'] = lambda ex, st, a, i: s.k_number(ex, st, a, True)
        s.contracts['DUMA_Print'] = lambda ex, st, a, i: None     # writes to descriptors only

    def k_number(s, ex, st, args, signed):
        d, v, b = args[0].t, args[1].t, s.base_of(args[2].t)
        if b is None:
            raise Unsupported('number base')
        if signed:
            s.ver.oblige0('only numbers that are not negative are rendered digit by digit', {'C23'}, st.guard, v >= 0, ex)
        n = s.len_f[b](v)
        if s.ctx.stores is not None:
            s.ctx.stores.append(('M', d, 64, None, st.guard))
        st.M = st.M.update(lambda x, prev: ite(z3.ULT(x - d, n), s.chr_f[b](v, x - d), ite(x - d == n, bv(0, 8), prev())))
        return V(z3.Extract(31, 0, n))


def formatter(v):
    w = v.w
    st = new_state()
    M0 = st.M
    buf, size, pat, ap = v.inp('buffer'), v.inp('size'), v.inp('pattern'), v.inp('arguments')
    v.assume(z3.And(z3.UGE(buf, bv(4096)), z3.ULE(buf, A), z3.ULE(buf + size, A), z3.UGE(size, bv(1)), z3.ULE(size, bv(1 << 30))))
    inside = lambda x: z3.ULT(x - buf, size)
    consts = []
    for nm, (init, const, ty) in v.mod.globals.items():
        if const and init is not None and init.k == 'cstr' and len(init.v) <= 8:
            g = w.gaddr(nm)
            v.assume(z3.And(g != bv(0), z3.ULE(g, A), z3.Or(z3.ULE(g + bv(len(init.v)), buf), z3.ULE(buf + size, g))))
            b = bytes(init.v)
            if 0 in b:
                consts.append((g, b.index(0)))
            for k, c in enumerate(b):
                v.assume(M0.read(g + bv(k)) == bv(c, 8))
    va = w.vararg

    def vararg(s, a, ty=None):
        r = va(s, a, ty)
        if ty is not None and ty.k == 'ptr':
            # a pointer argument is NULL or a string outside the buffer
            w.ctx.assume(s.guard, z3.Or(r == bv(0), z3.And(z3.UGE(r, bv(4096)), z3.ULE(r, A), z3.Or(z3.ULE(r + bv(1 << 31), buf), z3.ULE(buf + size, r)))))
        return r
    w.vararg = vararg

    def cands(ex, header, body, s0, init, hav, n):
        out = [Cand('F nothing outside the buffer is written', lambda vw: U('outside', [('x', 64, sorted(vw.st.M.bases()))], lambda x: z3.Or(inside(x), vw.st.M.read(x) == M0.read(x))))]
        for r, p in init.items():
            if p.t is None or not z3.is_bv(p.t):
                continue
            if p.t.size() == 32:
                out.append(Cand('F %s inside the buffer' % r, lambda vw, r=r: z3.And(vw.phi[r] >= 0, z3.ULT(z3.SignExt(32, vw.phi[r]), size))))
                out.append(Cand('F %s not before' % r, lambda vw, r=r, p=p: p.t <= vw.phi[r]))
                for q, o in init.items():
                    if o.t is not None and z3.is_bv(o.t) and o.t.size() == 64:
                        def copied(vw, r=r, p=p, q=q, o=o):
                            d = buf + z3.SignExt(32, p.t)
                            return U('copied', [('x', 64, sorted(vw.st.M.bases()))], lambda x: z3.If(z3.ULT(x - d, vw.n), z3.And(vw.st.M.read(x) == s0.M.read(o.t + (x - d)), vw.st.M.read(x) != bv(0, 8)), vw.st.M.read(x) == s0.M.read(x)))
                        out.append(Cand('F text of %s copied' % q, copied))
                        for gi, (ga, gl) in enumerate(consts):
                            out.append(Cand('F the end of constant text %d is not passed by %s' % (gi, q), lambda vw, o=o, ga=ga, gl=gl: imp(o.t == ga, z3.ULE(vw.n, bv(gl)))))
        return out
    w.extra_cands.append(cands)

    def on_step(ex, lid, h, b, exits, init):
        if ex.fn.name.strip('@') != 'DUMA_vsprintf' or lid.split('/')[1] != '0':
            return
        one = lambda f: [r for r, t in h.phi.items() if t is not None and z3.is_bv(t) and f(r, t)]
        cs, ls = one(lambda r, t: t.size() == 8), one(lambda r, t: t.size() == 32)
        ss = one(lambda r, t: t.size() == 64 and z3.is_true(z3.simplify(init[r] == pat + bv(1))))
        aps = [k for k in h.st.cells if k[0].startswith('%') and k[2] == 64 and k in b.st.cells and not h.st.cells[k].eq(b.st.cells[k])]
        if len(cs) != 1 or len(ls) != 1 or len(ss) != 1 or len(aps) != 1:
            raise Unsupported('shape of the formatting loop')
        c, ln, s, a = h.phi[cs[0]], z3.SignExt(32, h.phi[ls[0]]), h.phi[ss[0]], h.st.cells[aps[0]]
        c2, ln2, s2, a2 = b.phi[cs[0]], z3.SignExt(32, b.phi[ls[0]]), b.phi[ss[0]], b.st.cells[aps[0]]
        Mh, Mb = h.st.M, b.st.M
        g = b.st.guard
        T = {'C23'}
        ch = lambda x: bv(ord(x), 8)
        d = Mh.read(s)
        pct = c == ch('%')
        arg = w.vararg(None, a)
        lo = z3.Extract(31, 0, arg)
        v.assume(z3.Implies(conj(list(g)), z3.And(z3.UGE(s, bv(4096)), z3.ULE(s, A), z3.Not(inside(s)), z3.Not(inside(s + bv(1))))))     # the pattern lies outside the buffer
        v.oblige('the next character is taken', T, g, z3.And(s2 == z3.If(pct, s + bv(2), s + bv(1)), c2 == z3.If(pct, Mh.read(s + bv(1)), d)))
        known = z3.Or(*[d == ch(x) for x in 'axdilsc'])
        v.oblige('one argument per conversion', T, g, a2 == z3.If(z3.And(pct, known), a + bv(8), a))
        pos = buf + ln

        def text(name, ds, n, at, slack=False):
            if ds is not None and len(ds) > 1:
                for x in ds:
                    text(name, x, n, at, slack)
                return
            cond = z3.Not(pct) if ds is None else z3.And(pct, d == ch(ds))
            S = (lambda t: t) if ds is None else lambda t: z3.simplify(z3.substitute(t, (c, ch('%')), (d, ch(ds))))
            v.oblige('length of %s' % name, T, g + (cond,), S(ln2) == ln + n)
            v.oblige('text of %s' % name, T, g + (cond,), U('text', [('x', 64, [])], lambda x: z3.Or(
                z3.If(z3.ULT(x - pos, n), S(Mb.read(x)) == at(x - pos), S(Mb.read(x)) == Mh.read(x)),
                z3.And(x == pos + n, S(Mb.read(x)) == bv(0, 8)) if slack else FALSE)))
        text('an ordinary character', None, bv(1), lambda k: c)
        text('%%', '%', bv(1), lambda k: ch('%'))
        text('%c', 'c', bv(1), lambda k: z3.Extract(7, 0, arg))
        text('an address', 'ax', w.len_f[16](arg), lambda k: w.chr_f[16](arg, k), True)
        text('a size', 'd', w.len_f[10](arg), lambda k: w.chr_f[10](arg, k), True)
        for x, val in (('i', z3.SignExt(32, lo)), ('l', arg)):
            neg = val < 0
            av = z3.If(neg, -val, val)
            text('%%%s' % x, x, z3.If(neg, bv(1), bv(0)) + w.len_f[10](av), lambda k, neg=neg, av=av: z3.If(neg, z3.If(k == bv(0), ch('-'), w.chr_f[10](av, k - bv(1))), w.chr_f[10](av, k)), True)
        v.oblige('an unknown conversion renders nothing', T, g + (pct, z3.Not(known), d != ch('%')), ln2 == ln)
        v.oblige('an unknown conversion writes nothing', T, g + (pct, z3.Not(known), d != ch('%')), U('text', [('x', 64, [])], lambda x: Mb.read(x) == Mh.read(x)))
        gs = g + (pct, d == ch('s'))
        null = arg == bv(0)
        n = ln2 - ln
        v.oblige('a null string is rendered as NULL', T, gs + (null,), z3.And(n == bv(4), *[Mb.read(pos + bv(k)) == ch(x) for k, x in enumerate('NULL')]))
        gs += (z3.Not(null),)
        v.oblige('a string is copied to its end, or as far as it fits', T, gs, z3.And(z3.ULE(ln, ln2), z3.ULT(ln2, size), z3.Or(Mh.read(arg + n) == bv(0, 8), ln2 + bv(1) == size)))
        v.oblige('text of a string', T, gs, U('string', [('x', 64, [])], lambda x: z3.If(z3.ULT(x - pos, n), z3.And(Mb.read(x) == Mh.read(arg + (x - pos)), Mb.read(x) != bv(0, 8)), Mb.read(x) == Mh.read(x))))
        for e in exits:
            v.oblige('formatting ends at the end of the pattern, or when an element might not fit', T, e.st.guard, z3.Or(c == bv(0, 8), z3.UGE(ln + bv(NUMW + 2), size)))
    w.on_step = on_step
    w.pick = {'DUMA_vsprintf/0': ['F nothing', 'acc .*nonneg', 'F .* inside', 'F .* not before']}
    rets = v.execute('DUMA_vsprintf', st, [buf, size, pat, ap])
    for s, r in rets:
        n = z3.SignExt(32, r.t)
        v.oblige('the text is terminated inside the buffer', {'C23'}, s.guard, z3.And(z3.ULT(n, size), s.M.read(buf + n) == bv(0, 8)))
        v.oblige('nothing outside the buffer is written', {'C23'}, s.guard, U('outside', [('x', 64, [])], lambda x: z3.Or(inside(x), s.M.read(x) == M0.read(x))))
    v.aborts_only_if({'C23'}, FALSE)
    v.cover('returns', rets[-1][0].guard)


SPECS.append(('DUMA_vsprintf', formatter, FormatWorld))
