"""Loop summaries: unbounded, by inductive invariants that are inferred from the loop's own
behaviour (closed forms, per-iteration history, written regions, accumulators), from contract
supplied candidates, and kept only when the solver proves them inductive (Houdini)."""
import re
import z3
from .sym import *
from . import par

N64 = lambda v: z3.BitVecVal(v, 64)


class NotExpr(Exception):
    pass


def subst(t, pairs):
    if not pairs:
        return t
    return z3.substitute(t, *pairs)


def apps_of(t, names):
    """applications of the functions in names occurring in t (innermost first)"""
    out, seen = [], set()

    def rec(x):
        if x.get_id() in seen:
            return
        seen.add(x.get_id())
        for c in x.children():
            rec(c)
        if z3.is_app(x) and x.num_args() == 1 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in names:
            out.append(x)
    rec(t)
    return out


def consts_of(t, acc=None):
    acc = {} if acc is None else acc
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                acc[x.decl().name()] = x
            st.extend(x.children())
    return acc


def fapps(t):
    """all unary uninterpreted applications"""
    out, seen = [], set()
    st = [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.num_args() == 1 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.append(x)
            st.extend(x.children())
    return out


def widen(t, n):
    """heuristic normal form: 32-bit counters read as 64-bit ones"""
    lo = z3.Extract(31, 0, n)
    return subst(t, [(z3.SignExt(32, lo), n), (z3.ZeroExt(32, lo), n)])


def quotient(d, k):
    """d >> k for a trigger: the factor itself where d is visibly a multiple"""
    d = z3.simplify(d)
    if z3.is_app(d) and d.decl().kind() == z3.Z3_OP_BMUL and d.num_args() == 2 and z3.is_bv_value(d.arg(0)) and d.arg(0).as_long() == 1 << k:
        return d.arg(1)
    return z3.simplify(z3.LShR(d, k))


def affine(t, n):
    """(base, c) with t == base + c*n, or None.  n is 64-bit, t any width up to 64"""
    if t is None or not z3.is_bv(t):
        return None
    t = widen(t, n)
    w = t.size()
    d = z3.simplify(subst(t, [(n, n + N64(1))]) - t)
    if not z3.is_bv_value(d):
        return None
    c = d.as_signed_long()
    b = z3.simplify(subst(t, [(n, N64(0))]))
    if n.decl().name() in consts_of(b):
        return None
    # verify
    if w == 64:
        if not z3.is_true(z3.simplify(b + N64(c) * n == t)):
            if c != 0 and not z3.is_true(z3.simplify(t - b - N64(c) * n == N64(0))):
                return None
    return b, c


def atoms(t, acc):
    if z3.is_and(t) or z3.is_or(t) or z3.is_not(t) or z3.is_implies(t):
        for c in t.children():
            atoms(c, acc)
    elif z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE and z3.is_bool(t):
        for c in t.children():
            atoms(c, acc)
    elif z3.is_bool(t):
        acc.append(t)


class LoopInfo:
    pass


def short(t, n):
    return re.sub(r'#\d+|!\d+', '', str(t)).replace('\n', ' ')[:n]


class NotNarrow(Exception):
    pass


def exec_loop(ex, header, body, entry_edges):
    ex.ctx.nosplit += 1
    try:
        return exec_loop1(ex, header, body, entry_edges, True)
    except NotNarrow:
        return exec_loop1(ex, header, body, entry_edges, False)
    finally:
        ex.ctx.nosplit -= 1


def exec_loop1(ex, header, body, entry_edges, narrow):
    ctx = ex.ctx
    st0, sel = ex.merge(entry_edges)
    phis = []
    for i in ex.fn.blocks[header]:
        if i.op != 'phi':
            break
        phis.append(i)
    init = {i.res: ex.phi(i, entry_edges, sel) for i in phis}
    env0 = dict(ex.env)
    rec0, conds0, stores0 = ctx.record, ctx.conds, ctx.stores
    g0 = len(st0.guard)
    n = ctx.fresh('n')
    hav = LoopInfo()
    hav.M = hav.P = None
    hav.F, hav.cells, hav.gh = {}, {}, {}
    opaque = {}
    for i in phis:
        opaque[i.res] = ex.fresh_val(i.ty, 'phi' + i.res.strip('%'))
    phival = dict(opaque)

    def header_state():
        s = st0.copy()
        if hav.M is not None:
            s.M = hav.M
        if hav.P is not None:
            s.P = hav.P
        for k, m in hav.F.items():
            s.F[k] = m
        for k, v in hav.cells.items():
            s.cells[k] = v
        for k, v in hav.gh.items():
            s.gh[k] = v
        return s

    def one_pass(cands, record):
        ex.env = dict(env0)
        for i in phis:
            ex.env[i.res] = phival[i.res]
        s = header_state()
        hstate = s.copy()
        ctx.record = record and rec0
        v = View(hstate, {i.res: phival[i.res].t for i in phis}, n)
        v.pre = st0
        for c in cands:
            f = c.f(v)
            if f is not None:
                h0 = len(ctx.hyps)
                ctx.assume(s.guard, f)
                for h in ctx.hyps[h0:]:
                    h.cand = c
        exits, backs = ex.region(body, header, s, True)
        if backs:
            bst, bsel = ex.merge(backs)
            bphi = {i.res: ex.phi(i, backs, bsel) for i in phis}
        else:
            bst, bphi = None, {}
        ctx.record = rec0
        return hstate, exits, backs, bst, bphi

    rets0 = len(ex.rets)
    unw0 = len(ex.unwinds)
    # ---- 1. discover what the body modifies
    nobs0 = len(ctx.obs)
    rounds = 0
    while True:
        rounds += 1
        if rounds > 12:
            raise Unsupported('loop discovery')
        h = len(ctx.hyps)
        ctx.conds, ctx.stores = [], []
        ctx.discover += 1
        try:
            hs, exits, backs, bst, bphi = one_pass([], False)
        finally:
            ctx.discover -= 1
        del ctx.hyps[h:]
        del ex.rets[rets0:]
        del ex.unwinds[unw0:]
        if not backs:
            # not a loop at all: straight-line
            ctx.conds, ctx.stores = conds0, stores0
            ex.env = dict(env0)
            for i in phis:
                ex.env[i.res] = init[i.res]
            exits, backs = ex.region(body, header, st0, True)
            if backs:
                raise Unsupported('loop shape')
            return exits
        ch = False
        if bst.M is not hs.M and hav.M is None:
            hav.M, ch = Map.base('M', 8), True
        if bst.P is not hs.P:
            if hav.P is None:
                hav.P, ch = Map.base('P', hs.P.bits), True
        for k in bst.F:
            if bst.F[k] is not hs.F[k] and k not in hav.F:
                hav.F[k] = Map.base('F%s' % (k,), hs.F[k].bits)
                ch = True
        for k in set(bst.cells) | set(hs.cells):
            a, b = bst.cells.get(k), hs.cells.get(k)
            if k not in hav.cells and k in bst.cells:
                if b is None:
                    if k[0].startswith('%'):
                        # first assigned inside the loop
                        hav.cells[k] = ctx.fresh('cell', k[2]) if k[2] != 1 else ctx.freshb('cell')
                        ch = True
                        continue
                    b = ex.w.cell_init(k)
                if not a.eq(b):
                    hav.cells[k] = ctx.fresh('cell', k[2]) if z3.is_bv(a) else ctx.freshb('cell')
                    ch = True
        for k in bst.gh:
            a, b = bst.gh[k], hs.gh.get(k)
            if k in hav.gh:
                continue
            if isinstance(a, Map):
                if a is not b:
                    hav.gh[k] = Map.base('G' + k, a.bits)
                    ch = True
            elif isinstance(a, z3.ExprRef):
                if not a.eq(b):
                    hav.gh[k] = ctx.fresh('gh_' + k, a.size()) if z3.is_bv(a) else ctx.freshb('gh_' + k)
                    ch = True
            elif a is not b and a != b:
                hav.gh[k] = ex.w.havoc_ghost(ex, k, b, a)
                ch = True
        if not ch:
            break
    # ---- 2. closed forms
    aff = {}
    for i in phis:
        t, o = bphi[i.res].t, opaque[i.res].t
        if t is None or not z3.is_bv(t):
            continue
        d = z3.simplify(t - o)
        if z3.is_bv_value(d):
            aff[i.res] = d.as_signed_long()
    affcell = {}
    for k, v in hav.cells.items():
        if k in st0.cells and z3.is_bv(v) and k in bst.cells:
            d = z3.simplify(bst.cells[k] - v)
            if z3.is_bv_value(d):
                affcell[k] = d.as_signed_long()
    affgh = {}
    for k, v in hav.gh.items():
        if isinstance(v, z3.ExprRef) and z3.is_bv(v):
            d = z3.simplify(bst.gh[k] - v)
            if z3.is_bv_value(d):
                affgh[k] = d.as_signed_long()

    def lin(t0, c):
        w = t0.size()
        m = n if w == 64 else z3.Extract(w - 1, 0, n)
        if c == 0:
            return t0
        if c == 1:
            return t0 + m
        if c == -1:
            return t0 - m
        return t0 + z3.BitVecVal(c, w) * m
    for r, c in aff.items():
        v0 = init[r]
        v = V(lin(v0.t, c))
        if c == 0:
            v = v0
        else:
            if v0.glob is not None and not v0.glob[0].startswith('%'):
                v.cg = (v0.glob[0], N64(v0.glob[1]) + N64(c) * n)
            elif v0.cg is not None:
                v.cg = (v0.cg[0], v0.cg[1] + N64(c) * n)
            elif v0.glob is not None:
                raise Unsupported('pointer into local object walked by a loop')
        phival[r] = v
    for k, c in affcell.items():
        hav.cells[k] = lin(st0.cells[k], c)
    for k, c in affgh.items():
        hav.gh[k] = lin(st0.gh[k], c)
    narrow = narrow and any(aff[r] == 1 and init[r].t.size() == 32 and z3.is_bv_value(z3.simplify(init[r].t)) for r in aff)
    if narrow:
        # 32-bit counters are read as 64-bit ones; this relies on the invariant n < 2^30, which has to be proved below
        ctx.narrow[n.decl().name()] = n
    # which constants / functions are loop-varying and not closed-form
    bad = set()
    for i in phis:
        if i.res not in aff and opaque[i.res].t is not None:
            bad.add(opaque[i.res].t.decl().name())
    for k, v in hav.cells.items():
        if k not in affcell:
            bad.add(v.decl().name())
    for k, v in hav.gh.items():
        if isinstance(v, z3.ExprRef) and k not in affgh:
            bad.add(v.decl().name())
    hmaps = {}
    for m, pre in [(hav.M, st0.M), (hav.P, st0.P)] + [(m, st0.F[k]) for k, m in hav.F.items()] + \
            [(m, st0.gh[k]) for k, m in hav.gh.items() if isinstance(m, Map)]:
        if m is not None:
            hmaps[m.a.name()] = pre
    phisym = {opaque[i.res].t.decl().name(): i.res for i in phis if i.res not in aff and opaque[i.res].t is not None}
    nname = n.decl().name()

    def rewrite(t, allow_phi=False):
        """t over the header state of iteration n -> over n and the pre-loop state"""
        for _ in range(6):
            aps = apps_of(t, hmaps)
            if not aps:
                break
            t = subst(t, [(a, hmaps[a.decl().name()].read(a.arg(0))) for a in aps[:1]])
        else:
            if apps_of(t, hmaps):
                aps = apps_of(t, hmaps)
                k = 0
                while aps and k < 40:
                    t = subst(t, [(aps[0], hmaps[aps[0].decl().name()].read(aps[0].arg(0)))])
                    aps = apps_of(t, hmaps)
                    k += 1
        cs = consts_of(t)
        for c in cs:
            if c in bad and not (allow_phi and c in phisym):
                raise NotExpr()
            if c not in known and c != nname:
                if not (allow_phi and c in phisym):
                    raise NotExpr()
        return t

    if ctx.discover:
        # an enclosing loop only wants to know what changes: no facts needed
        ctx.conds, ctx.stores = conds0, stores0
        hs, exits, backs, bst, bphi = one_pass([], True)
        return exits

    # ---- 3. candidates from one generic pass
    nf0 = ctx.fresh_n
    known_mark = ctx.fresh_n
    h = len(ctx.hyps)
    ctx.conds, ctx.stores = [], []

    class Known:
        def __contains__(s, nm):
            # symbols created before this pass (inputs, entry facts)
            k = nm.rfind('#')
            if k < 0:
                return True
            try:
                return int(nm[k + 1:]) <= known_mark
            except ValueError:
                return True
    known = Known()
    ctx.discover += 1
    try:
        hs, exits, backs, bst, bphi = one_pass([], False)
    finally:
        ctx.discover -= 1
    stores, conds = ctx.stores, ctx.conds
    del ctx.hyps[h:]
    del ex.rets[rets0:]
    del ex.unwinds[unw0:]
    lits = list(bst.guard[g0:])
    cands = []
    tagno = [0]

    def trig_for(term, extra=()):
        """instantiation triggers for a universal over iterations"""
        tr = []
        for a in fapps(term):
            af = affine(a.arg(0), n)
            if af and af[1] != 0:
                tr.append((a.decl().name(), inv(af)))
        for nm, af in extra:
            tr.append((nm, inv(af)))
        return tr

    def inv(af):
        b, c = af
        if c == 1:
            return lambda t: z3.simplify(t - b)
        if c == -1:
            return lambda t: z3.simplify(b - t)
        if c > 0 and c & (c - 1) == 0:
            k = c.bit_length() - 1
            return lambda t: quotient(t - b, k)
        return lambda t: z3.simplify(z3.UDiv(t - b, N64(abs(c)))) if c > 0 else z3.simplify(z3.UDiv(b - t, N64(abs(c))))

    # bounds
    bounds = []

    def add_bound(t):
        t = z3.simplify(t)
        if z3.is_bv(t) and t.size() == 32:
            t = z3.SignExt(32, t)
        if not any(t.eq(x) for x in bounds):
            bounds.append(t)
    ats = []
    for l in lits:
        atoms(l, ats)
    for c in conds:
        atoms(c, ats)
    for a in ats:
        if len(a.children()) != 2 or not z3.is_bv(a.arg(0)):
            continue
        try:
            x, y = rewrite(a.arg(0)), rewrite(a.arg(1))
        except NotExpr:
            continue
        ax, ay = affine(x, n), affine(y, n)
        if not ax or not ay or x.size() not in (64, 32):
            continue
        if ax[1] == ay[1]:
            continue
        d0, c = z3.simplify(ay[0] - ax[0]), ay[1] - ax[1]
        if c > 0:
            d0, c = z3.simplify(-d0), -c
        k = -c
        if d0.size() == 32:
            d0 = z3.SignExt(32, d0)
        one = N64(1)
        if k == 1:
            add_bound(d0)
            add_bound(d0 + one)
        elif k & (k - 1) == 0:
            sh = k.bit_length() - 1
            add_bound(z3.LShR(d0, sh))
            add_bound(z3.LShR(d0, sh) + one)
    for t in ctx.extra_bounds:
        add_bound(t)
    for b in bounds[:24]:
        cands.append(Cand('n<=%s' % short(b, 60), lambda v, b=b: z3.ULE(v.n, b)))
        cands[-1].bound = b
    small = Cand('n<2^30', lambda v: z3.ULT(v.n, N64(1 << 30)))
    cands += [small, Cand('n<2^62', lambda v: z3.ULT(v.n, N64(1 << 62)))]

    # history
    def hist(name, lit):
        tr = trig_for(lit)

        def f(v):
            return U(name, [('it', 64, tr)], lambda k: imp(z3.ULT(k, v.n), subst(lit, [(n, k)])))
        c = Cand(name, f)
        cands.append(c)
    seenl = set()
    for l in lits:
        try:
            r = rewrite(l)
        except NotExpr:
            continue
        if r.get_id() in seenl:
            continue
        seenl.add(r.get_id())
        if nname in consts_of(r):
            hist('history %s' % short(r, 70), r)
        else:
            cands.append(Cand('entered %s' % short(r, 70), lambda v, r=r: z3.Or(v.n == N64(0), r)))

    # written regions
    def region_cands(key, getm, hm, pre):
        ss = [x for x in stores if x[0] == key]
        allst = [x for x in ss]
        regs = []
        ok = True
        vals = []
        seen = set()
        if any(val is None for (_, addr, bits, val, guard) in allst):
            return      # block-wise writes: contract-supplied candidates only
        for (_, addr, bits, val, guard) in allst:
            try:
                a = rewrite(addr)
            except NotExpr:
                ok = False
                continue
            w = bits // 8 if key == 'M' else 1
            af = affine(a, n)
            if not af:
                ok = False
                continue
            sig = (z3.simplify(af[0]).get_id(), af[1], w)
            if sig not in seen:
                seen.add(sig)
                regs.append((af, w))
            vals.append((af, bits, val, guard))

        def inreg(x, nn):
            out = []
            for (b, c), w in regs:
                if c == 0:
                    out.append(z3.And(nn != N64(0), z3.ULT(x - b, N64(w))))
                elif c > 0:
                    sp = N64(c) * nn
                    out.append(z3.ULT(x - b, sp) if w <= c else z3.ULT(x - b, sp + N64(w)))
                else:
                    out.append(z3.ULT((b + N64(w - 1)) - x, N64(-c) * nn))
            return disj(out)
        hname = hm.a.name()
        if ok:
            cands.append(Cand('frame %s outside written region' % (key,), lambda v: U('frame', [('x', 64, [(hname, None)])],
                         lambda x: z3.Or(inreg(x, v.n), getm(v.st).read(x) == pre.read(x)))))
        # byte values
        for (b, c), bits, val, guard in vals:
            if val is None or c == 0 or key != 'M' and bits != pre.bits:
                continue
            try:
                vr = rewrite(val)
            except NotExpr:
                continue
            if key == 'M':
                for j in range(bits // 8):
                    def f(v, b=b, c=c, j=j, vr=vr):
                        def bd(k):
                            want = subst(z3.Extract(8 * j + 7, 8 * j, vr) if bits > 8 else vr, [(n, k)])
                            return imp(z3.ULT(k, v.n), getm(v.st).read(b + N64(c) * k + N64(j) if j else (b + N64(c) * k if c != 1 else b + k)) == want)
                        iv = inv((b + N64(j) if j else b, c))
                        return U('written', [('it', 64, [(hname, iv)])], bd)
                    cands.append(Cand('written values %s' % (key,), f))
            else:
                def f(v, b=b, c=c, vr=vr):
                    return U('written', [('it', 64, [(hname, inv((b, c)))])],
                             lambda k: imp(z3.ULT(k, v.n), getm(v.st).read(b + N64(c) * k) == subst(vr, [(n, k)])))
                cands.append(Cand('written values %s' % (key,), f))
    if hav.M is not None:
        region_cands('M', lambda s: s.M, hav.M, st0.M)
    for k, m in hav.F.items():
        region_cands(('F', k), lambda s, k=k: s.F[k], m, st0.F[k])
    # scalars that stay
    for k, v in hav.cells.items():
        if k not in affcell and k in st0.cells:
            cands.append(Cand('%s unchanged' % (k[0],), lambda v, k=k: v.st.cells[k] == st0.cells[k]))

    # accumulators
    accs = [i.res for i in phis if i.res not in aff and opaque[i.res].t is not None and z3.is_bv(opaque[i.res].t)]

    def vsub(t, v):
        ps = [(n, v.n)]
        for r in accs:
            ps.append((opaque[r].t, v.phi[r]))
        return subst(t, ps)

    def leaves(t, conds, out, depth=0):
        if depth < 14 and z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            c, a, b = t.children()
            leaves(a, conds + [c], out, depth + 1)
            leaves(b, conds + [neg(c)], out, depth + 1)
        else:
            out.append((conds, t))
    upd = {}
    for r in accs:
        ls = []
        leaves(bphi[r].t, [], ls)
        upd[r] = [(c, t) for c, t in ls if not t.eq(opaque[r].t)]
        # flatten single ite chains for case "unchanged" conditions
    rng_memo = {}
    for r in accs:
        o = opaque[r].t
        i0 = init[r].t
        w = o.size()
        for conds_, leaf in upd[r]:
            try:
                lf = rewrite(leaf)
            except NotExpr:
                continue
            af = affine(lf, n) if w == 64 else None
            if af and af[1] != 0:
                b, c = af
                if c > 0:
                    cands.append(Cand('acc %s in range' % r, lambda v, r=r, b=b, c=c, i0=i0: z3.Or(v.phi[r] == i0, z3.ULT(v.phi[r] - b, N64(c) * v.n))))
                    if c & (c - 1) == 0 and c > 1:
                        cands.append(Cand('acc %s aligned' % r, lambda v, r=r, b=b, c=c, i0=i0: z3.Or(v.phi[r] == i0, (v.phi[r] - b) & N64(c - 1) == N64(0))))
                alll = []
                for l in conds_ + lits:
                    if z3.is_and(l):
                        alll += l.children()
                    else:
                        alll.append(l)
                for l in alll:
                    try:
                        lr = rewrite(l, True)
                    except NotExpr:
                        continue
                    l2 = subst(lr, [(lf, o)])
                    l2 = subst(l2, [(n, inv(af)(o))])
                    cands.append(Cand('acc %s sat %s' % (r, short(l2, 50)), lambda v, r=r, l2=l2, i0=i0: z3.Or(v.phi[r] == i0, vsub(l2, v))))
                    # not yet found => no earlier iteration satisfied
                    try:
                        lh = rewrite(l)
                    except NotExpr:
                        lh = None
                    if lh is not None and nname in consts_of(lh):
                        tr = trig_for(lh)

                        def f(v, r=r, lh=lh, tr=tr, i0=i0):
                            return U('unfound', [('it', 64, tr)], lambda k: z3.Or(z3.UGE(k, v.n), v.phi[r] != i0, z3.Not(subst(lh, [(n, k)]))))
                        cands.append(Cand('acc %s unfound %s' % (r, short(lh, 50)), f))
                        for r2 in accs:
                            if r2 != r and opaque[r2].t.size() == 64:
                                def f2(v, r=r, r2=r2, lh=lh, tr=tr, i0=i0, lf=lf):
                                    return U('unfound2', [('it', 64, tr)], lambda k: z3.Or(z3.UGE(k, v.n), v.phi[r] != i0, z3.Not(subst(lh, [(n, k)])), subst(lf, [(n, k)]) == v.phi[r2]))
                                cands.append(Cand('acc %s unfound unless %s' % (r, r2), f2))
            else:
                # numeric accumulator
                pass
        if w == 64:
            cands.append(Cand('acc %s <= init' % r, lambda v, r=r, i0=i0: z3.ULE(v.phi[r], i0)))
            cands.append(Cand('acc %s same top bit' % r, lambda v, r=r, i0=i0: z3.Or(v.phi[r] == i0, z3.ULT(v.phi[r] ^ i0, v.phi[r]))))
        cands.append(Cand('acc %s unchanged' % r, lambda v, r=r, i0=i0: v.phi[r] == i0))
        if w in (32, 64):
            z = z3.BitVecVal(0, w)
            cands.append(Cand('acc %s nonzero' % r, lambda v, r=r, z=z: v.phi[r] != z))
            cands.append(Cand('acc %s nonneg' % r, lambda v, r=r, z=z: v.phi[r] >= z))
            d_n = (lambda v, r=r, i0=i0, w=w: z3.ULE(v.phi[r] - i0, v.n if w == 64 else z3.Extract(31, 0, v.n)))
            cands.append(Cand('acc %s counts' % r, d_n))
    for a in range(len(accs)):
        for b in range(a + 1, len(accs)):
            r, q = accs[a], accs[b]
            if opaque[r].t.size() != opaque[q].t.size():
                continue
            if opaque[r].t.size() == 64:
                cands.append(Cand('accs distinct', lambda v, r=r, q=q: z3.Or(v.phi[r] == init[r].t, v.phi[q] == init[q].t, v.phi[r] != v.phi[q])))
            cands.append(Cand('accs move together', lambda v, r=r, q=q: v.phi[r] - init[r].t == v.phi[q] - init[q].t))
            cands.append(Cand('acc %s before %s' % (r, q), lambda v, r=r, q=q: z3.ULE(v.phi[q] - init[q].t, v.phi[r] - init[r].t)))
            cands.append(Cand('acc %s before %s' % (q, r), lambda v, r=r, q=q: z3.ULE(v.phi[r] - init[r].t, v.phi[q] - init[q].t)))
            if opaque[r].t.size() == 64:
                cands.append(Cand('found order', lambda v, r=r, q=q: z3.Or(v.phi[r] != init[r].t, v.phi[q] == init[q].t)))
                cands.append(Cand('found order', lambda v, r=r, q=q: z3.Or(v.phi[q] != init[q].t, v.phi[r] == init[r].t)))
    # relations of scalars with ghosts
    scal = [('phi', r) for r in accs] + [('gh', k) for k, v in hav.gh.items() if isinstance(v, z3.ExprRef) and z3.is_bv(v) and k not in affgh] + \
        [('cell', k) for k, v in hav.cells.items() if z3.is_bv(v) and k in st0.cells and k not in affcell]

    def getv(v, s):
        return v.phi[s[1]] if s[0] == 'phi' else (v.st.gh[s[1]] if s[0] == 'gh' else v.st.cells[s[1]])

    def get0(s):
        return init[s[1]].t if s[0] == 'phi' else (st0.gh[s[1]] if s[0] == 'gh' else st0.cells[s[1]])

    def fit(t, w):
        if t.size() == w:
            return t
        return z3.Extract(w - 1, 0, t) if t.size() > w else z3.SignExt(w - t.size(), t)
    for a in range(len(scal)):
        for b in range(a + 1, len(scal)):
            p, q = scal[a], scal[b]
            if p[0] == 'phi' and q[0] == 'phi':
                continue
            for sg in (1, -1):
                def f(v, p=p, q=q, sg=sg):
                    x, y = getv(v, p) - get0(p), getv(v, q) - get0(q)
                    w = min(x.size(), y.size())
                    x, y = fit(x, w), fit(y, w)
                    return x == (y if sg == 1 else -y)
                cands.append(Cand('%s %s linear' % (p[1], q[1]), f))
    # contract supplied
    extra = ex.w.loop_cands(ex, header, body, st0, init, hav, n)
    cands += extra
    ctx.conds, ctx.stores = None, None

    # ---- 4. initial filter, then Houdini
    v0 = View(st0, {i.res: init[i.res].t for i in phis}, N64(0))
    v0.pre = st0
    kept = []
    jobs = []
    hyplen = len(ctx.hyps)
    for c in cands:
        try:
            f = c.f(v0)
        except NotExpr:
            continue
        if f is None:
            continue
        kept.append(c)
        jobs.append((st0.guard, f))
    if DEBUG:
        print('  loop %s/%s: %d candidates' % (ex.fn.name, header, len(kept)))
    cnt = {}
    for c in kept:
        k = re.sub(r'#\d+|!\d+', '', c.name)
        cnt[k] = cnt.get(k, 0) + 1
        c.key = '%s~%d' % (k, cnt[k])
    lid = '%s/%d' % (ex.fn.name.strip('@'), [b for b in ex.cfg.rpo if b in ex.cfg.loops].index(header))
    hint = ctx.hints.get('loops', {}).get(ctx.vname + lid)
    pick = getattr(ex.w, 'pick', {}).get(lid) if hint is None else None
    if pick:
        sub = [(c, j) for c, j in zip(kept, jobs) if any(re.match(x, c.key) for x in pick)]
        kept, jobs = [c for c, j in sub], [j for c, j in sub]
    full = True
    if hint is not None:
        # invariants that were inductive on the tree the contracts were written for: tried first, re-proved here
        hs_ = set(hint)
        sub = [(c, j) for c, j in zip(kept, jobs) if c.key in hs_]
        if len(sub) == len(hs_):
            full = False
            kept, jobs = [c for c, j in sub], [j for c, j in sub]
        else:
            ctx.degraded.append('%s: %d of %d hinted invariants do not exist' % (lid, len(hs_) - len(sub), len(hs_)))
    mk = ('loop', ctx.place(), lid, narrow) if ctx.script is not None else None
    done = mk is not None and mk in ctx.memo
    if done:
        if ctx.memo[mk][0] is None:
            ctx.fresh_n = ctx.memo[mk][1]
            del ctx.narrow[n.decl().name()]
            ex.env = dict(env0)
            ctx.conds, ctx.stores, ctx.record = conds0, stores0, rec0
            raise NotNarrow()
        # the same loop from the same state was summarised by an earlier variant
        ks = set(ctx.memo[mk][0])
        kept = [c for c in kept if c.key in ks]
        jobs = []
    res = [True] * len(kept) if done else prove_many(ctx, jobs, timeout_ms=8000, names=['%s init %s' % (lid, c.key) for c in kept])
    if not full and not all(res):
        ctx.degraded.append('%s: does not hold initially: %s' % (lid, [c.key for c, r in zip(kept, res) if not r][:4]))
    unsure(ctx, lid, full, kept, res)
    cands = [c for c, r in zip(kept, res) if r]
    dropped_init = [c.name for c, r in zip(kept, res) if not r]
    if DEBUG:
        print('   init drops:', len(dropped_init), dropped_init if not full else '')
    rnd = 0
    while not done:
        rnd += 1
        h = len(ctx.hyps)
        hs, exits, backs, bst, bphi = one_pass(cands, False)
        v1 = View(bst, {i.res: bphi[i.res].t for i in phis}, z3.simplify(n + N64(1)))
        v1.pre = st0
        jobs = [(bst.guard, c.f(v1)) for c in cands]
        res = prove_many(ctx, jobs, timeout_ms=8000, names=['%s step %s' % (lid, c.key) for c in cands])
        del ctx.hyps[h:]
        del ex.rets[rets0:]
        del ex.unwinds[unw0:]
        unsure(ctx, lid, full, cands, res)
        new = [c for c, r in zip(cands, res) if r]
        if not full and len(new) < len(cands):
            ctx.degraded.append('%s: not inductive: %s' % (lid, [c.key for c, r in zip(cands, res) if not r][:4]))
        if DEBUG:
            print('   round %d keeps %d of %d' % (rnd, len(new), len(cands)))
            if DEBUG > 1:
                for c, r in zip(cands, res):
                    if not r:
                        print('      drop', c.name)
        if narrow and small not in new:
            if mk is not None:
                ctx.memo[mk] = (None, ctx.fresh_n)
            del ctx.narrow[n.decl().name()]
            ex.env = dict(env0)
            ctx.conds, ctx.stores, ctx.record = conds0, stores0, rec0
            raise NotNarrow()
        if len(new) == len(cands):
            break
        cands = new
    if DEBUG:
        for c in cands:
            print('   inv:', c.name)
    if mk is not None:
        if done:
            ctx.fresh_n = ctx.memo[mk][1]
        else:
            ctx.memo[mk] = ([c.key for c in cands], ctx.fresh_n)
    ctx.kept[ctx.vname + lid] = [c.key for c in cands]
    bnd = [c for c in cands if hasattr(c, 'bound')]
    ctx.loops = getattr(ctx, 'loops', [])
    ctx.loops.append((ex.fn.name, header, ex.line, len(cands), [c.name for c in cands], bool(bnd)))
    # ---- 5. final pass, recording
    ctx.conds, ctx.stores = conds0, stores0
    hs, exits, backs, bst, bphi = one_pass(cands, True)
    if not bnd and rec0:
        ctx.oblige('loop terminates (a decreasing measure is found)', {'termination'}, st0.guard, FALSE, ex.line, ex.fn.name, kind='measure')
    elif rec0:
        ctx.oblige('loop terminates: measure %s - n decreases' % str(bnd[0].bound)[:60].replace('\n', ' '), {'termination'}, st0.guard,
                   TRUE, ex.line, ex.fn.name, kind='measure')
    for c in cands:
        # a map that is the same before and after every iteration
        if getattr(c, 'restores', None) == 'M':
            for e in exits:
                if e.st.M is hs.M:
                    e.st.M = st0.M
    if rec0:
        # the kept invariants were proved: count them as discharged obligations of this function
        ctx.inv_obs = getattr(ctx, 'inv_obs', 0) + 2 * len(cands)
        if ex.w.on_step is not None:
            # contract of one iteration
            ex.w.on_step(ex, lid, View(hs, {i.res: phival[i.res].t for i in phis}, n), View(bst, {i.res: bphi[i.res].t for i in phis}, n + N64(1)), exits, {r: v.t for r, v in init.items()})
    return exits


DEBUG = 0


def LEARN():
    from . import sym
    return sym.LEARN


def unsure(ctx, lid, full, cands, res):
    """an invariant that was needed before and that the solvers neither proved nor refuted: refutations of
    obligations after this loop are then not meaningful"""
    if not full:
        for c, r in zip(cands, res):
            if r is None:
                ctx.unsure.append('%s: %s' % (lid, c.key))


def prove_many(ctx, jobs, timeout_ms=8000, names=None):
    idx = len(ctx.hyps)
    trivial = []
    tasks = []
    pos = []
    out = [None] * len(jobs)
    for i, (g, f) in enumerate(jobs):
        if isinstance(f, (list, tuple)):
            f = conj(list(f))
        if not isinstance(f, (U, E)):
            s = z3.simplify(f)
            if z3.is_true(s):
                out[i] = True
                continue
            f = s
        pos.append(i)
        tasks.append(lambda g=g, f=f, i=i: attempt(ctx, g, f, idx, timeout_ms, names and names[i])[::4])
    res = par.run(tasks, wall=timeout_ms / 1000.0 + 30 + 8 * LEARN())
    for i, r in zip(pos, res):
        if isinstance(r, tuple) and r and r[0] == 'EXC':
            if DEBUG:
                print('EXC', r[1])
            r = None
        out[i] = True if r is not None and r[0] == 'unsat' else 0 if r is not None and r[0] == 'sat' else None
        if out[i] and r[1] is not None:
            for sfx, l in r[1].items():
                ctx.learned[ctx.vname + names[i] + sfx] = l
    ctx.stats['queries'] += len(tasks)
    return out
