"""Memory model, calls, contracts of external functions shared by all groups."""
import z3
from .ir import *
from .sym import *

ADDRMAX = 1 << 47


class World:
    slot_ty = 'struct._DUMA_Slot'

    def __init__(s, mod, ctx):
        s.mod, s.ctx = mod, ctx
        s.contracts = {}
        s.gaddrs = {}
        s.cinit = {}
        s.cbits = {}
        s.depth = 0
        s.inlined = set()
        s.used_contracts = set()
        s.aborts = []        # (guard, message, args, line, fn)
        s.extra_cands = []
        s.base_contracts()

    # ---- globals
    def gaddr(s, name):
        if name not in s.gaddrs:
            s.gaddrs[name] = z3.BitVec('&' + name.strip('@'), 64)
        return s.gaddrs[name]

    def cell_init(s, key):
        if key not in s.cinit:
            g, off, n = key
            nm = 'g:%s+%d' % (g, off)
            s.cinit[key] = z3.BitVec(nm, n) if n != 1 else z3.Bool(nm)
        return s.cinit[key]

    def cell_check(s, g, off, n):
        k = (g, off)
        b = s.cbits.get(k)
        if b is None:
            s.cbits[k] = n
        elif b != n:
            raise Unsupported('mixed-width access to global %s+%d' % (g, off))

    def cell_load(s, ex, st, g, off, n):
        s.cell_check(g, off, n)
        key = (g, off, n)
        v = st.cells.get(key)
        return v if v is not None else s.cell_init(key)

    def cell_store(s, ex, st, g, off, n, v):
        s.cell_check(g, off, n)
        st.cells[(g, off, n)] = v
        if s.ctx.stores is not None:
            s.ctx.stores.append(('cell', (g, off, n), n, v, st.guard))

    # ---- raw memory
    def access(s, ex, st, a, nbytes, write):
        """hook: permission obligations"""

    def raw_load(s, ex, st, a, n):
        if n == 1:
            n = 8
        s.access(ex, st, a, n // 8, False)
        if n == 8:
            return st.M.read(a)
        return z3.Concat(*[st.M.read(a + bv(k) if k else a) for k in reversed(range(n // 8))])

    def raw_store(s, ex, st, a, n, v):
        s.access(ex, st, a, n // 8, True)
        if s.ctx.stores is not None:
            s.ctx.stores.append(('M', a, n, v, st.guard))
        if n == 8:
            st.M = st.M.store(a, v)
            return
        for k in range(n // 8):
            st.M = st.M.store(a + bv(k) if k else a, z3.Extract(8 * k + 7, 8 * k, v))

    def slot_load(s, ex, st, base, off, n):
        return None

    def slot_store(s, ex, st, base, off, n, v):
        return False

    def new_object(s, ex, st, t, size):
        s.ctx.assume((), z3.And(t != bv(0), z3.ULT(t, bv(ADDRMAX)), t & bv(15) == bv(0)))

    def udiv(s, x, y):
        return z3.UDiv(x, y)

    on_step = None
    vararg_f = z3.Function('vararg', z3.BitVecSort(64), z3.BitVecSort(64))

    def vararg(s, st, a, ty=None):
        return s.vararg_f(a)

    def urem(s, x, y):
        return z3.URem(x, y)

    def sdiv(s, x, y):
        return x / y

    def srem(s, x, y):
        return z3.SRem(x, y)

    def mul(s, st, *a):
        return a[-2] * a[-1]

    def loop_cands(s, ex, header, body, st0, init, hav, n):
        out = []
        for f in s.extra_cands:
            out += f(ex, header, body, st0, init, hav, n)
        return out

    def merge_ghost(s, k, sel, vs):
        if all(v is vs[0] for v in vs):
            return vs[0]
        raise Unsupported('merge of ghost ' + k)

    def havoc_ghost(s, ex, k, a, b):
        raise Unsupported('ghost %s changes in a loop' % k)

    # ---- calls
    def call(s, ex, st, name, args, ins, indirect):
        if name is None:
            return s.call_indirect(ex, st, indirect, args, ins)
        nm = name.strip('@').strip('"')
        if nm.startswith('llvm.dbg') or nm.startswith('llvm.lifetime'):
            return None
        c = s.contracts.get(nm)
        if c is not None:
            s.used_contracts.add(nm)
            return c(ex, st, args, ins)
        if name in s.mod.fns or nm in s.mod.fns:
            return s.inline(ex, st, name if name in s.mod.fns else nm, args)
        raise Unsupported('call of %s' % nm)

    def call_indirect(s, ex, st, v, args, ins):
        raise Unsupported('indirect call')

    def inline(s, ex, st, name, args):
        if s.depth > 24:
            raise Unsupported('recursion through ' + name)
        fn = s.mod.fns[name]
        s.inlined.add(name.strip('@'))
        sub = Exec(s.ctx, fn, ex.contracts, s)
        sub.parent = ex
        s.depth += 1
        try:
            sub.run(st.copy(), args)
        finally:
            s.depth -= 1
        return s.join(ex, st, sub)

    def join(s, ex, st, sub):
        ex.unwinds += sub.unwinds
        if not sub.rets:
            st.dead = True
            return None
        edges = [Edge(None, None, r[0]) for r in sub.rets]
        n, sel = ex.merge(edges)
        assign(st, n)
        vals = [r[1] for r in sub.rets]
        v0 = vals[0]
        if v0 is None or v0.t is None:
            return v0
        if len(vals) == 1:
            return v0
        t = vals[-1].t
        for c, w in zip(reversed(sel[:-1]), reversed(vals[:-1])):
            t = ite(c, w.t, t)
        r = V(t)
        if all(v.glob == v0.glob for v in vals):
            r.glob = v0.glob
        return r

    # ---- strings in constant globals
    def cstring(s, v):
        if v.glob is not None and v.glob[0] in s.mod.globals:
            init, const, ty = s.mod.globals[v.glob[0]]
            if const and init is not None and init.k == 'cstr':
                b = bytes(init.v)[v.glob[1]:]
                return b.split(b'\0')[0]
            if const and init is not None and init.k == 'zero':
                return b''
        return None

    # ---- externals common to every group
    def base_contracts(s):
        C = s.contracts

        def abort(ex, st, args, ins):
            msg = s.cstring(args[0])
            s.on_abort(ex, st, (msg or b'?').decode('latin1'), args)
            st.dead = True
        C['DUMA_Abort'] = abort

        def dassert(ex, st, args, ins):
            msg = s.cstring(args[0])
            s.on_abort(ex, st, 'ASSERT ' + (msg or b'?').decode('latin1'), args)
            st.dead = True
        C['_duma_assert'] = dassert

        def dexit(ex, st, args, ins):
            s.on_abort(ex, st, 'exit', args)
            st.dead = True
        C['_exit'] = dexit
        C['exit'] = dexit
        C['DUMA_Exit'] = dexit
        C['DUMA_Print'] = lambda ex, st, args, ins: s.on_print(ex, st, args)

        def strlen(ex, st, args, ins):
            return V(s.strlen(ex, st, args[0].t))
        C['strlen'] = strlen

    def strlen(s, ex, st, p):
        L = s.ctx.fresh('strlen')
        M = st.M
        s.ctx.assume(st.guard, z3.And(M.read(p + L) == bv(0, 8), z3.ULT(L, bv(ADDRMAX)), z3.ULE(p, bv(ADDRMAX)), z3.ULT(p + L, bv(ADDRMAX))))
        nm = [(b, lambda t, p=p: z3.simplify(t - p)) for b in M.bases()]
        s.ctx.assume(st.guard, U('strlen', [('it', 64, nm)], lambda k: imp(z3.ULT(k, L), M.read(p + k) != bv(0, 8))))
        m = M
        while m.kind == 'store':
            # instances at the addresses written last
            k = z3.simplify(m.b[0] - p)
            s.ctx.assume(st.guard, imp(z3.ULT(k, L), M.read(p + k) != bv(0, 8)))
            m = m.a
        s.ctx.extra_bounds.append(L)
        return L

    def on_abort(s, ex, st, msg, args):
        s.add_abort(ex, st, st.guard, msg, args)

    def add_abort(s, ex, st, guard, msg, args):
        if s.ctx.record and not s.ctx.dup():
            s.aborts.append((guard, msg, args, ex.line, ex.fn.name))

    def on_print(s, ex, st, args):
        return None


def assign(st, n):
    st.guard, st.cells, st.M, st.P, st.F, st.gh, st.dead = n.guard, n.cells, n.M, n.P, n.F, n.gh, n.dead


def new_state():
    st = State()
    st.guard = ()
    st.cells = {}
    st.M = Map.base('M', 8)
    st.P = Map.base('P', 2)
    st.F = {}
    st.gh = {}
    st.dead = False
    return st
