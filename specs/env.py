"""C22: environment settings (src/duma.c: duma_getenv, duma_getenvvars, the initial values)."""
import z3
from vc.ir import *
from vc.sym import *
from vc.loops import Cand, quotient
from vc.world import World, new_state, ADDRMAX

A = bv(ADDRMAX)
# documented name -> (where, kind, documented default)
S, G, X = '_duma_s', '_duma_g.TLS', ''
OPTS = {
    'DUMA_ALIGNMENT': (G, 'ALIGNMENT', 'align', 1), 'DUMA_PROTECT_BELOW': (G, 'PROTECT_BELOW', 'bool', 0), 'DUMA_FILL': (G, 'FILL', 'fill', 255),
    'DUMA_REPORT_ALL_LEAKS': (S, 'REPORT_ALL_LEAKS', 'bool', 0), 'DUMA_PROTECT_FREE': (S, 'PROTECT_FREE', 'long', -1), 'DUMA_MAX_ALLOC': (S, 'MAX_ALLOC', 'long', -1),
    'DUMA_MALLOC_0_STRATEGY': (S, 'MALLOC_0_STRATEGY', (0, 3), 3), 'DUMA_NEW_0_STRATEGY': (S, 'NEW_0_STRATEGY', (2, 3), 3),
    'DUMA_MALLOC_FAILEXIT': (S, 'MALLOC_FAILEXIT', 'bool', 1), 'DUMA_FREE_ACCESS': (S, 'FREE_ACCESS', 'bool', 0), 'DUMA_SLACKFILL': (S, 'SLACKFILL', 'byte', 0xAA),
    'DUMA_SHOW_ALLOC': (S, 'SHOW_ALLOC', 'bool', 0), 'DUMA_SUPPRESS_ATEXIT': (S, 'SUPPRESS_ATEXIT', 'bool', 0), 'DUMA_MEMCPY_OVERLAP': (S, 'MEMCPY_OVERLAP', 'bool', 0),
    'DUMA_SKIPCOUNT_INIT': (S, 'SKIPCOUNT_INIT', 'int', 0), 'DUMA_CHECK_FREQ': (S, 'CHECK_FREQ', 'pos', 0), 'DUMA_DISABLE_BANNER': (S, 'DISABLE_BANNER', 'bool', 0),
    'DUMA_OUTPUT_STACKTRACE': (X, 'DUMA_OUTPUT_STACKTRACE', 'bool', 0), 'DUMA_OUTPUT_STACKTRACE_MAPFILE': (X, 'DUMA_OUTPUT_STACKTRACE_MAPFILE', 'str', 0),
    'DUMA_OUTPUT_DEBUG': (X, 'DUMA_OUTPUT_DEBUG', 'bool', 0), 'DUMA_OUTPUT_STDOUT': (X, 'DUMA_OUTPUT_STDOUT', 'bool', 0), 'DUMA_OUTPUT_STDERR': (X, 'DUMA_OUTPUT_STDERR', 'bool', 1),
    'DUMA_OUTPUT_FILE': (X, 'DUMA_OUTPUT_FILE', 'str', 0),
}


def cellof(mod, where, field):
    if where == S:
        off, n = mod.fields['_DUMA_GlobalStaticVars'][field]
        return ('@_duma_s', off // 8, n)
    if where == G:
        off, n = mod.fields['DUMA_TLSVARS_T'][field]
        return ('@_duma_g', (mod.fields['DUMA_GLOBALVARS_T']['TLS'][0] + off) // 8, n)
    ty = mod.globals['@' + field][2]
    return ('@' + field, 0, 64 if ty.k == 'ptr' else ty.n)


def initial(mod, key):
    """initial value of a scalar inside a global: walk the initialiser"""
    g, off, n = key
    o, const, ty = mod.globals[g]
    while True:
        rt = mod.res(ty)
        if o is None or o.k in ('zero', 'null'):
            return 0
        if rt.k == 'struct':
            for i in reversed(range(len(rt.el))):
                fo, ft = mod.field_off(rt, i)
                if fo <= off:
                    off, ty, o = off - fo, ft, o.v[i]
                    break
        elif rt.k == 'arr':
            es = mod.size(rt.el)
            o, ty, off = o.v[off // es], rt.el, off % es
        else:
            return o.v if o.k == 'int' else None


class EnvWorld(World):
    def __init__(s, mod, ctx):
        super().__init__(mod, ctx)
        s.val = {}          # name -> pointer to the value or null
        s.AL = z3.Function('atol', BV64, BV64)
        s.DUP = z3.Function('strdup', BV64, BV64)
        C = s.contracts
        C['atol'] = C['strtol'] = lambda ex, st, a, i: V(s.AL(a[0].t))
        C['atoi'] = lambda ex, st, a, i: V(z3.Extract(31, 0, s.AL(a[0].t)))
        C['_duma_strdup'] = lambda ex, st, a, i: V(s.DUP(a[0].t))
        C['duma_getenv'] = C['getenv'] = s.c_getenv

    def c_getenv(s, ex, st, a, i):
        nm = s.cstring(a[0])
        if nm is None:
            raise Unsupported('duma_getenv of a computed name')
        return V(s.value(nm.decode()))

    env = None

    def raw_load(s, ex, st, a, n):
        if s.env is None or n != 64:
            return super().raw_load(ex, st, a, n)
        # the array of entries is not written here: its contents are the function ENT of the address
        base, N = s.env
        s.ver.oblige('reads entries up to the terminating null pointer only', {'C22'}, st.guard, z3.And(z3.ULE(z3.LShR(a - base, 3), N), (a - base) & bv(7) == bv(0)), ex.line)
        return s.ENT(a)

    def raw_store(s, ex, st, a, n, v):
        if s.env is not None:
            s.ver.oblige('writes no memory', {'C22'}, st.guard, FALSE, ex.line)
        super().raw_store(ex, st, a, n, v)

    def value(s, nm):
        if nm not in s.val:
            s.val[nm] = z3.BitVec('env_' + nm, 64)
        return s.val[nm]


def settings(v):
    mod, w = v.mod, v.w
    st = new_state()
    T = {'C22'}
    fn = v.fn('duma_getenvvars')
    if fn is None:
        raise Unsupported('duma_getenvvars not found')
    tls = mod.fields['DUMA_GLOBALVARS_T']['TLS'][0] // 8
    pre = {}
    for nm, (wh, f, kind, d) in OPTS.items():
        k = cellof(mod, wh, f)
        pre[nm] = st.cells[k] = v.inp(nm, k[2])
    v.assume(z3.And(pre['DUMA_SLACKFILL'] >= 0, pre['DUMA_SLACKFILL'] <= 255))
    st0 = st.copy()
    base = w.gaddr('@_duma_g')
    rets = v.execute('duma_getenvvars', st, [V(base + bv(tls), glob=('@_duma_g', tls))] if fn.params else [])
    for nm in w.val:
        v.inputs['env_' + nm] = w.val[nm]
        if nm not in OPTS:
            v.assume(w.val[nm] == bv(0))       # undocumented names are absent
    known = set()
    for nm, (wh, f, kind, d) in OPTS.items():
        k = cellof(mod, wh, f)
        known.add(k)
        p = w.value(nm)
        n = k[2]
        L = w.AL(p)
        I = z3.Extract(31, 0, L)
        o = pre[nm]
        z = bv(0, 32)
        e = {'bool': lambda: z3.If(I != z, bv(1, n), bv(0, n)), 'long': lambda: L, 'int': lambda: I, 'byte': lambda: I & bv(255, 32), 'pos': lambda: z3.If(I > z, I, o),
             'fill': lambda: z3.If(I == bv(-1, 32), I, I & bv(255, 32)), 'align': lambda: z3.If(I == z, bv(1, n), I if n == 32 else z3.SignExt(32, I)),
             'str': lambda: w.DUP(p)}
        e = e[kind]() if not isinstance(kind, tuple) else z3.If(z3.And(I >= bv(kind[0], 32), I <= bv(kind[1], 32)), I, o)
        v.post('%s sets its setting as documented' % nm, T, rets, lambda s, r, k=k, p=p, e=e: imp(p != bv(0), s.cells[k] == e))
        v.post('without %s its setting keeps its value' % nm, T, rets, lambda s, r, k=k, p=p, o=o: imp(p == bv(0), s.cells[k] == o))
    for s, r in rets:
        for k in s.cells:
            if k not in known and not k[0].startswith('%') and k in s.cells and not (k in st0.cells):
                v.oblige('no other variable changes (%s+%d)' % (k[0], k[1]), T, s.guard, s.cells[k] == w.cell_init(k))
        v.oblige('no memory changes', T, s.guard, TRUE if s.M is st0.M else U('same', [('x', 64, [])], lambda x: s.M.read(x) == st0.M.read(x)))
        v.cover('returns', s.guard)
    if not rets:
        v.oblige('returns', T, (), FALSE)
    v.aborts_only_if(T, FALSE)
    for nm, (wh, f, kind, d) in OPTS.items():
        k = cellof(mod, wh, f)
        i = initial(mod, k)
        v.oblige('default of %s is as documented' % nm, T, (), TRUE if i is not None and (i - d) % (1 << k[2]) == 0 else FALSE)


def lookup(v):
    """duma_getenv(name): the value of the first entry "name=value" of environ, and nothing else"""
    T = {'C22'}
    w, ctx = v.w, v.ctx
    w.contracts.pop('duma_getenv')
    if v.fn('duma_getenv') is None:
        raise Unsupported('duma_getenv not found')
    st = new_state()
    M = st.M
    nm, L, env, N = v.inp('name'), v.inp('namelen'), v.inp('environ'), v.inp('entries')
    st.cells[('@environ', 0, 64)] = env
    lim = bv(1 << 30)
    v.assume(z3.And(nm != 0, z3.ULT(nm, A), z3.ULT(L, lim), M.read(nm + L) == bv(0, 8), z3.ULT(N, lim), env != 0, z3.ULT(env, A), env & bv(7) == 0))
    names = M.bases()
    v.assume(U('name', [('it', 64, [(b, lambda t: z3.simplify(t - nm)) for b in names])], lambda k: imp(z3.ULT(k, L), M.read(nm + k) != bv(0, 8))))

    def entry(i):
        return w.ENT(env + bv(8) * i)
    w.ENT = z3.Function('ENT', BV64, BV64)
    w.env = (env, N)
    # entries are non-null strings (in user space) up to the terminating null pointer
    inv = [('ENT', lambda t: quotient(t - env, 3))]
    v.assume(entry(N) == bv(0))
    v.assume(U('entries', [('ent', 64, inv)], lambda i: imp(z3.ULT(i, N), z3.And(entry(i) != bv(0), z3.ULT(entry(i), A)))))
    # W: any entry that is "name=..." (if there is one)
    W, hasW = v.inp('witness'), z3.Bool('some_entry_matches')
    eW = z3.BitVec('matching_entry', 64)
    v.assume(imp(hasW, z3.And(z3.ULT(W, N), eW == entry(W), L != bv(0), M.read(eW + L) == bv(ord('='), 8))))
    v.assume(U('matches', [('it', 64, [(b, lambda t: z3.simplify(t - nm)) for b in names])], lambda k: imp(z3.And(hasW, z3.ULT(k, L)), M.read(eW + k) == M.read(nm + k))))

    def cands(ex, header, body, st0, init, hav, n):
        return [Cand('a matching entry is not passed', lambda q: z3.Or(z3.Not(hasW), z3.ULE(q.n, W)))]
    w.extra_cands.append(cands)
    ctx.extra_bounds += [N, L]
    rets = v.execute('duma_getenv', st, [nm])
    for i, (s, r) in enumerate(rets):
        v.cover('return %d' % i, s.guard)
    for s, r in rets:
        e = r.t - L - bv(1)
        v.oblige('a setting that is present is found', T, s.guard, z3.Or(z3.Not(hasW), r.t != bv(0)))
        v.oblige('what is found is "name=": the "="', T, s.guard, imp(r.t != bv(0), z3.And(L != bv(0), M.read(e + L) == bv(ord('='), 8))))
        v.oblige('what is found is "name=": the name', T, s.guard, U('name', [('it', 64, [])], lambda k, e=e, r=r: imp(z3.And(r.t != bv(0), z3.ULT(k, L)), M.read(e + k) == M.read(nm + k))))
        v.oblige('what is found is an entry, and the first of that name', T, s.guard, E('entry', lambda pool, r=r, e=e: [r.t == bv(0)] + [
            z3.And(z3.ULT(q, N), entry(q) == e, z3.Or(z3.Not(hasW), z3.ULE(q, W))) for q in {x.get_id(): x for x in [inv[0][1](t) for t in pool.get('ENT', {}).values()]}.values()]))
        v.oblige('memory is not changed', T, s.guard, TRUE if s.M is M else FALSE)
    v.aborts_only_if(T, FALSE)
    for o in ctx.obs:
        if 'termination' in o.tags:
            o.tags |= T
    v.assumptions += ['names and the environment have fewer than 2^30 characters / entries']


PROPS = {'C22'}
SPECS = [('duma_getenvvars', settings, EnvWorld), ('duma_getenv', lookup, EnvWorld)]
