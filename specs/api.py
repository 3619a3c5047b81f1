"""C entry points that wrap _duma_allocate / _duma_deallocate, verified against the contracts of those two."""
import z3
from vc.ir import *
from vc.sym import *
from vc.table import *
from vc.world import new_state

PROPS = set()
FAMILY = {'internal': 0, 'malloc': 1, 'new': 2, 'new[]': 3, 'member new': 4, 'member new[]': 5}
OPTIONS = ['CHECK_FREQ', 'REPORT_ALL_LEAKS', 'SLACKFILL', 'PROTECT_FREE', 'MAX_ALLOC', 'MALLOC_0_STRATEGY', 'NEW_0_STRATEGY', 'MALLOC_FAILEXIT', 'FREE_ACCESS', 'SHOW_ALLOC', 'MEMCPY_OVERLAP',
           'slotsPerPage', 'init_state', 'null_block', 'null_addr', 'ALIGNMENT', 'PROTECT_BELOW', 'FILL', 'numDeallocs', 'numAllocs', 'sumTotalAllocatedMem']


def desc(mod):
    """_duma_allocDesc: index -> (name, family, language)"""
    a = mod.globals['@_duma_allocDesc'][0].v
    out = []
    for e in a:
        n, t, s = e.v
        nm = mod.globals[n.v][0]
        out.append((bytes(nm.v).split(b'\0')[0].decode() if nm.k == 'cstr' else '', t.v, s.v))
    return out


def pick(table, k, i):
    """field i of entry k of the constant table of allocators, k symbolic"""
    t = bv(-1, 32)
    for j, e in reversed(list(enumerate(table))):
        t = z3.If(k == bv(j, k.size()), bv(e[i], 32), t)
    return t


class ApiWorld(TableWorld):
    """state of a program between calls; the two central functions by contract"""

    def __init__(s, mod, ctx):
        super().__init__(mod, ctx)
        C = s.contracts
        C['_duma_allocate'] = s.k_allocate
        C['_duma_deallocate'] = s.k_deallocate
        C['_duma_init'] = s.k_init
        C.pop('memset'), C.pop('memcpy')
        s.extra_cands = []
        s.own_f = z3.Function('programs_byte', z3.BitVecSort(64), z3.BoolSort())
        s.desc = desc(mod)
        s.calls = []

    def access(s, ex, st, a, nb, write):
        ob = s.ver.oblige0
        for k in ([0] if nb == 1 else [0, nb - 1]):
            x = a + bv(k) if k else a
            ob('memory is accessible where DUMA %s it' % ('writes' if write else 'reads'), {'C07', 'C09'}, st.guard, z3.Or(s.own_f(x), *[z3.And(r != bv(0), z3.ULT(x - r, n)) for r, n in s.fresh_blocks]), ex)

    fresh_blocks = ()
    mul_f = z3.Function('product', z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(64))
    div_f = z3.Function('quotient', z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(64))

    def prod(s, a, b):
        r = s.mul_f(a, b)
        s.ctx.assume((), z3.And(r == s.mul_f(b, a), imp(a == bv(0), r == bv(0)), imp(b == bv(0), r == bv(0)), imp(a == bv(1), r == b), imp(b == bv(1), r == a)))
        return r

    def mul(s, ex, st, a, b):
        if a.size() != 64:
            return a * b
        return s.prod(a, b)

    def udiv(s, x, y):
        if x.size() != 64 or z3.is_bv_value(z3.simplify(y)):
            return z3.UDiv(x, y)
        return s.div_f(x, y)

    def representable(s, a, b):
        """a*b fits into 64 bits: a Boolean tied to the ways a program can test it (facts of arithmetic)"""
        rep = z3.Bool('product_is_representable')
        m = bv(-1)
        for x, y in ((a, b), (b, a)):
            s.ctx.assume((), rep == z3.Or(y == bv(0), z3.ULE(x, s.div_f(m, y))))
            s.ctx.assume((), rep == z3.Or(y == bv(0), s.div_f(s.prod(x, y), y) == x))
        s.ctx.assume((), imp(z3.And(z3.ULT(a, bv(1 << 32)), z3.ULT(b, bv(1 << 32))), rep))
        return rep

    def k_init(s, ex, st, args, ins):
        """contract of _duma_init (C25): afterwards DUMA is initialised; memory of the program is untouched"""
        for n in SHARED + OPTIONS + ['allocList']:
            s.setc(st, n, s.ctx.fresh(n, s.key(n)[2]))
        s.ctx.assume(st.guard, s.c(st, 'allocList') != bv(0))
        s.new_memory(st, None)
        return None

    def new_memory(s, st, extra):
        M0 = st.M
        st.M = M1 = Map.base('M', 8)
        s.ctx.assume(st.guard, U('memory of the program is unchanged', [('x', 64, sorted(set(M0.bases()) | set(M1.bases())))], lambda x: imp(s.own_f(x), M1.read(x) == M0.read(x))))
        if s.ctx.stores is not None:
            s.ctx.stores.append(('M', bv(0), 64, None, st.guard))

    def k_allocate(s, ex, st, args, ins):
        align, n, below, fill, prot, alloc, fail, fname, line = [a.t for a in args]
        ob = s.ver.oblige0
        ob('DUMA is initialised before the first allocation', {'C25', 'C07'}, st.guard, s.c(st, 'allocList') != bv(0), ex)
        ob('the allocation is made by an allocating function', {'C18'}, st.guard, z3.And(z3.UGE(alloc, bv(2, 32)), z3.ULE(alloc, bv(17, 32))), ex)
        ob('the block table is protected after the call', {'C13', 'C14'}, st.guard, prot != bv(0, 32), ex)
        r = s.ctx.fresh('block')
        dflt = z3.SignExt(32, s.c(st, 'ALIGNMENT'))
        big = z3.UGE(n, bv(1 << 44))
        null = s.c(st, 'null_addr')
        for nm in ('numAllocs', 'checkFreqCounter', 'allocListSize', 'slotCount', 'unUsedSlots', 'sumAllocatedMem', 'sumTotalAllocatedMem', 'sumProtectedMem', 'allocList'):
            s.setc(st, nm, s.ctx.fresh(nm, s.key(nm)[2]))
        A0 = s.ctx.assume
        A0(st.guard, s.c(st, 'allocList') != bv(0))
        s.new_memory(st, None)
        M1 = st.M
        A0(st.guard, imp(z3.And(r != bv(0), n != bv(0)), z3.And(z3.ULE(r, A), z3.ULE(n, A), z3.ULE(r + n, A))))
        tr = sorted(M1.bases())
        A0(st.guard, U('fill value', [('x', 64, tr)], lambda x: imp(z3.And(r != bv(0), fill != bv(-1, 32), z3.ULT(x - r, n)), M1.read(x) == z3.Extract(7, 0, fill))))
        A0(st.guard, U('the block is fresh', [('x', 64, tr)], lambda x: imp(z3.And(r != bv(0), z3.ULT(x - r, n)), z3.Not(s.own_f(x)))))
        if s.ctx.record:
            s.fresh_blocks = tuple(s.fresh_blocks) + ((r, n),)
        g = st.gh
        g['allocs'] = z3.simplify(g['allocs'] + bv(1))
        g['ptr'], g['size'], g['kind'], g['align'], g['below'], g['fill'], g['fail'], g['file'], g['line'] = r, n, alloc, align, below, fill, fail, fname, line
        # termination for misuse (C03, C11, C12)
        eff = z3.If(align != bv(0), align, dflt)
        strat = z3.If(pick(s.desc, alloc, 2) == 1, s.c(st, 'NEW_0_STRATEGY'), s.c(st, 'MALLOC_0_STRATEGY'))
        return V(r)

    def k_deallocate(s, ex, st, args, ins):
        p, prot, alloc, fname, line = [a.t for a in args]
        ob = s.ver.oblige0
        ob('the block table is protected after the call', {'C13', 'C14'}, st.guard, prot != bv(0, 32), ex)
        ob('the release is made by a releasing function', {'C18'}, st.guard, z3.And(z3.UGE(alloc, bv(2, 32)), z3.ULE(alloc, bv(17, 32))), ex)
        ob('DUMA is initialised before a release', {'C25', 'C07'}, st.guard, z3.Or(p == bv(0), s.c(st, 'allocList') != bv(0)), ex)
        for nm in ('checkFreqCounter', 'unUsedSlots', 'sumAllocatedMem', 'sumProtectedMem', 'numDeallocs'):
            s.setc(st, nm, s.ctx.fresh(nm, s.key(nm)[2]))
        s.new_memory(st, None)
        g = st.gh
        # releasing NULL does nothing
        g['frees'] = z3.simplify(g['frees'] + z3.If(p == bv(0), bv(0), bv(1)))
        g['fptr'], g['fkind'], g['ffile'], g['fline'] = p, alloc, fname, line
        return None


def begin(v):
    w = v.w
    st = new_state()
    w.unlocked, w.maps = [], []
    st.gh.update(depth=bv(0), allocs=bv(0), frees=bv(0))
    for n, b in (('ptr', 64), ('size', 64), ('kind', 32), ('align', 64), ('below', 32), ('fill', 32), ('fail', 32), ('file', 64), ('line', 32), ('fptr', 64), ('fkind', 32), ('ffile', 64), ('fline', 32)):
        st.gh[n] = w.ctx.fresh('gh_' + n, b)
    return st


def site(v, rets, explicit, pre=''):
    """the call site is recorded: the caller's, or none"""
    for s, r in rets:
        if explicit is not None:
            f = z3.And(s.gh[pre + 'file'] == explicit[0], s.gh[pre + 'line'] == explicit[1])
        else:
            f = s.gh[pre + 'line'] == bv(0, 32)
        v.oblige('the call site that is recorded', {'C17'}, s.guard + ((s.gh['allocs'] if not pre else s.gh['frees']) == bv(1),), f)


def allocating(fname, shape, glob):
    def f(v):
        w = v.w
        st = begin(v)
        M0 = st.M
        init0 = w.c(st, 'allocList')
        A0 = lambda nm: v.inp(nm)
        args, mp, src, L = [], None, None, None
        al = bv(0)
        if shape == 'calloc':
            n1, n2 = A0('nelem'), A0('elsize')
            args = [n1, n2]
        elif shape == 'memalign':
            al, n = A0('alignment'), A0('size')
            args = [al, n]
        elif shape == 'posix':
            mp, al, n = A0('memptr'), A0('alignment'), A0('size')
            args = [mp, al, n]
            v.assume(z3.And(mp != bv(0), z3.ULE(mp, A)))
            for k in range(8):
                v.assume(w.own_f(mp + bv(k)))
        elif shape == 'strdup':
            src = A0('str')
            args = [src]
            L = A0('length')
            v.assume(z3.And(src != bv(0), z3.ULT(src, A), z3.ULT(L, A), z3.ULT(src + L, A), M0.read(src + L) == bv(0, 8)))
            v.assume(U('string', [('it', 64, [(b, lambda t, p=src: z3.simplify(t - p)) for b in M0.bases()] + [('programs_byte', lambda t, p=src: z3.simplify(t - p))])], lambda k: z3.And(imp(z3.ULT(k, L), M0.read(src + k) != bv(0, 8)), imp(z3.ULE(k, L), w.own_f(src + k)))))
            v.ctx.extra_bounds.append(L)
        else:
            n = A0('size')
            args = [n]
        fl = (v.inp('filename'), v.inp('lineno', 32))
        rets = v.execute(fname, st, args + ([] if glob else list(fl)))
        for s, r in rets:
            g, gh = s.guard, s.gh
            done = gh['allocs'] == bv(1)
            ok = g + (done,)
            if shape == 'posix':
                bad = z3.Or(al & (al - bv(1)) != bv(0), z3.ULT(al, bv(8)))
                v.oblige('EINVAL for a bad alignment, and only then', {'C03', 'C12'}, g, (r.t == bv(22, 32)) == bad)
                v.oblige('nothing is allocated for a bad alignment', {'C03'}, g, z3.If(bad, gh['allocs'] == bv(0), done))
                word = z3.Concat(*[s.M.read(mp + bv(k)) for k in reversed(range(8))])
                v.oblige('success stores the block', {'C03', 'C12', 'C09'}, ok, imp(gh['ptr'] != bv(0), z3.And(r.t == bv(0, 32), word == gh['ptr'])))
                v.oblige('no memory: ENOMEM', {'C12'}, ok, imp(gh['ptr'] == bv(0), r.t == bv(12, 32)))
                v.oblige('the output is untouched for a bad alignment', {'C03'}, g + (bad,), U('same', [('x', 64, [])], lambda x: imp(w.own_f(x), s.M.read(x) == M0.read(x))))
                frame = lambda x: z3.ULT(x - mp, bv(8))
            else:
                v.oblige('allocates exactly once', {'C12', 'C07'}, g, done)
                v.oblige('returns the block', {'C12', 'C01', 'C02'}, ok, r.t == gh['ptr'])
                frame = lambda x: FALSE
            v.oblige('nothing is released', {'C04', 'C05'}, g, gh['frees'] == bv(0))
            if shape == 'calloc':
                rep = w.representable(n1, n2)
                v.oblige('asks for all the bytes', {'C12', 'C24', 'C09'}, ok, z3.If(rep, gh['size'] == w.prod(n1, n2), z3.UGE(gh['size'], bv(1 << 63))))
                v.oblige('the bytes are zero', {'C09'}, ok, z3.Extract(7, 0, gh['fill']) == bv(0, 8))
                v.oblige('the memory is filled', {'C09'}, ok, gh['fill'] != bv(-1, 32))
            elif shape == 'strdup':
                v.oblige('asks for all the bytes', {'C12', 'C24', 'C09'}, ok, gh['size'] == L + bv(1))
                v.oblige('copies the string with its terminator', {'C09'}, ok + (r.t != bv(0),), U('copied', [('it', 64, [])], lambda k: imp(z3.ULE(k, L), s.M.read(r.t + k) == M0.read(src + k))))
            else:
                v.oblige('asks for all the bytes', {'C12', 'C24', 'C09'}, ok, gh['size'] == n)
                v.oblige('the fill value is the configured one', {'C09'}, ok, gh['fill'] == w.c(s, 'FILL'))
            want = bv(PG) if shape == 'valloc' else al
            if shape in ('valloc', 'memalign', 'posix'):
                v.oblige('the alignment asked for is explicit', {'C03', 'C01', 'C02'}, ok, gh['align'] == want)
            else:
                v.oblige('the default alignment is in force', {'C03', 'C01', 'C02'}, ok, gh['align'] == bv(0))
            v.oblige('the side of the guard is the configured one', {'C01', 'C02'}, ok, (gh['below'] != bv(0, 32)) == (w.c(s, 'PROTECT_BELOW') != bv(0, 32)))
            v.oblige('the family recorded is the malloc family', {'C18', 'C07'}, ok, pick(w.desc, gh['kind'], 1) == bv(FAMILY['malloc'], 32))
            v.oblige('zero sizes follow the malloc strategy', {'C11'}, ok, pick(w.desc, gh['kind'], 2) == bv(0, 32))
            v.oblige('failure follows exit-on-failure', {'C12'}, ok, gh['fail'] == bv(1, 32))
            v.oblige('other memory of the program is unchanged', {'C04'}, g, U('frame', [('x', 64, [])], lambda x: imp(z3.And(w.own_f(x), z3.Not(frame(x))), s.M.read(x) == M0.read(x))))
            v.oblige('no lock is kept', {'C14'}, g, gh['depth'] == bv(0))
        site(v, rets, None if glob else fl)
        v.aborts_only_if({'C07', 'C12'}, FALSE)
        v.cover('returns', rets[-1][0].guard)
    return f


def releasing(fname, glob):
    def f(v):
        w = v.w
        st = begin(v)
        M0 = st.M
        p = v.inp('ptr')
        fl = (v.inp('filename'), v.inp('lineno', 32))
        rets = v.execute(fname, st, [p] + ([] if glob else list(fl)))
        for s, r in rets:
            g, gh = s.guard, s.gh
            v.oblige('releases the block passed, once; NULL is a no-op', {'C05', 'C06', 'C07'}, g, z3.If(p == bv(0), gh['frees'] == bv(0), z3.And(gh['frees'] == bv(1), gh['fptr'] == p)))
            v.oblige('the family of the release is the malloc family', {'C18', 'C07'}, g + (gh['frees'] == bv(1),), pick(w.desc, gh['fkind'], 1) == bv(FAMILY['malloc'], 32))
            v.oblige('nothing is allocated', {'C04'}, g, gh['allocs'] == bv(0))
            v.oblige('memory of the program is unchanged', {'C04'}, g, U('frame', [('x', 64, [])], lambda x: imp(w.own_f(x), s.M.read(x) == M0.read(x))))
            v.oblige('no lock is kept', {'C14'}, g, gh['depth'] == bv(0))
        site(v, rets, None if glob else fl, 'f')
        v.aborts_only_if({'C07'}, FALSE)
        v.cover('returns', rets[-1][0].guard)
    return f


ALLP_ = {'C03', 'C09', 'C11', 'C12', 'C18', 'C24', 'C01', 'C02', 'C07', 'C04', 'C17', 'C13', 'C14', 'C25'}
SPECS = []
for _n, _s in (('malloc', 'malloc'), ('calloc', 'calloc'), ('memalign', 'memalign'), ('posix_memalign', 'posix'), ('valloc', 'valloc'), ('strdup', 'strdup')):
    for _g in (False, True):
        SPECS.append((('' if _g else '_duma_') + _n, allocating(('' if _g else '_duma_') + _n, _s, _g), ApiWorld, 'duma', ALLP_))
for _g in (False, True):
    SPECS.append((('' if _g else '_duma_') + 'free', releasing(('' if _g else '_duma_') + 'free', _g), ApiWorld, 'duma', {'C05', 'C06', 'C07', 'C18', 'C04', 'C17', 'C13', 'C14', 'C25'}))


def families(v):
    """the constant table of allocators and releasers, read off the initialiser in the object code"""
    d, e = desc(v.mod), v.mod.enums
    fam = {'internal': ('EFA_INT_ALLOC', 'EFA_INT_DEALLOC'),
           'malloc': ('EFA_MALLOC', 'EFA_CALLOC', 'EFA_FREE', 'EFA_MEMALIGN', 'EFA_POSIX_MEMALIGN', 'EFA_REALLOC', 'EFA_VALLOC', 'EFA_STRDUP'),
           'new': ('EFA_NEW_ELEM', 'EFA_DEL_ELEM'), 'new[]': ('EFA_NEW_ARRAY', 'EFA_DEL_ARRAY'),
           'member new': ('EFA_MEMBER_NEW_ELEM', 'EFA_MEMBER_DEL_ELEM'), 'member new[]': ('EFA_MEMBER_NEW_ARRAY', 'EFA_MEMBER_DEL_ARRAY')}
    of = {}
    for f, ks in fam.items():
        for k in ks:
            if k not in e or e[k] >= len(d):
                raise Unsupported('enumerator %s' % k)
            of[k] = f
    k1, k2 = v.inp('allocator', 32), v.inp('releaser', 32)
    code = lambda k: z3.Or(*[k == bv(e[n], 32) for n in of])
    cls = lambda k, f: z3.Or(*[k == bv(e[n], 32) for n in fam[f]])
    both = z3.And(code(k1), code(k2))
    v.oblige('two functions have the same family in the table exactly when they belong to the same family', {'C18', 'C07'}, (both,),
             (pick(d, k1, 1) == pick(d, k2, 1)) == z3.Or(*[z3.And(cls(k1, f), cls(k2, f)) for f in fam]))
    v.oblige('the families of the table are those of the contracts', {'C18', 'C07', 'C11', 'C17'}, (code(k1),),
             z3.And(*[imp(cls(k1, f), pick(d, k1, 1) == bv(FAMILY[f], 32)) for f in fam]))
    v.oblige('zero sizes follow the strategy of the language', {'C11'}, (code(k1),),
             pick(d, k1, 2) == z3.If(z3.Or(cls(k1, 'internal'), cls(k1, 'malloc')), bv(0, 32), bv(1, 32)))
    v.cover('a pair', (both,))


SPECS.append(('table of allocator families', families, ApiWorld, 'duma', {'C18', 'C07', 'C11', 'C17'}))
