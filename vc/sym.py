"""Verification-condition generator: symbolic execution of LLVM IR with state
merging, loop-invariant inference (Houdini over abstraction-level candidates),
modular calls, and quantifier-free discharge by explicit instantiation.
"""
import time, os, shutil, subprocess, tempfile, re, hashlib
import z3
from .ir import *

BV64 = z3.BitVecSort(64)
z3.set_param('rewriter.bv_le2extract', False)


def bv(v, n=64):
    return z3.BitVecVal(v, n)


TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


class Unsupported(Exception):
    pass


def simp(t):
    return z3.simplify(t)


def conj(xs):
    xs = [x for x in xs if not z3.is_true(x)]
    if not xs:
        return TRUE
    return xs[0] if len(xs) == 1 else z3.And(*xs)


def disj(xs):
    xs = [x for x in xs if not z3.is_false(x)]
    if not xs:
        return FALSE
    return xs[0] if len(xs) == 1 else z3.Or(*xs)


def imp(a, b):
    if z3.is_true(a):
        return b
    return z3.Implies(a, b)


def neg(a):
    if z3.is_not(a):
        return a.arg(0)
    if z3.is_true(a):
        return FALSE
    if z3.is_false(a):
        return TRUE
    return z3.Not(a)


def ite(c, a, b):
    if a is b or a.eq(b):
        return a
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    return z3.If(c, a, b)


class V:
    """symbolic value: term + optional provenance"""
    __slots__ = ('t', 'slot', 'glob', 'cg', 'agg', 'fnp')

    def __init__(s, t, slot=None, glob=None, cg=None, agg=None):
        s.t, s.slot, s.glob, s.cg, s.agg = t, slot, glob, cg, agg
        s.fnp = None


# ------------------------------------------------------------------ maps
class Map:
    """functional memory: chain of updates over an uninterpreted base"""
    __slots__ = ('kind', 'a', 'b', 'memo', 'bits', 'tag')
    cnt = 0

    def __init__(s, kind, a, b, bits):
        s.kind, s.a, s.b, s.bits = kind, a, b, bits
        s.memo = {}
        s.tag = None

    @staticmethod
    def base(name, bits):
        Map.cnt += 1
        f = z3.Function('%s!%d' % (name, Map.cnt), BV64, z3.BitVecSort(bits))
        return Map('base', f, None, bits)

    def store(s, addr, val):
        m = Map('store', s, (addr, val), s.bits)
        return m

    def update(s, fn, tag=None):
        """fn(x, prev_thunk) -> term"""
        m = Map('upd', s, fn, s.bits)
        m.tag = tag
        return m

    @staticmethod
    def merge(conds, maps):
        m0 = maps[0]
        if all(m is m0 for m in maps):
            return m0
        return Map('mrg', conds, maps, m0.bits)

    def read(s, x):
        k = x.get_id()
        r = s.memo.get(k)
        if r is not None:
            return r[1]
        if s.kind == 'base':
            v = s.a(x)
        elif s.kind == 'store':
            a, val = s.b
            c = z3.simplify(x == a) if not x.eq(a) else TRUE
            if z3.is_true(c):
                v = val
            elif z3.is_false(c):
                v = s.a.read(x)
            else:
                v = ite(x == a, val, s.a.read(x))
        elif s.kind == 'upd':
            v = s.b(x, lambda: s.a.read(x))
        else:
            vs = [m.read(x) for m in s.b]
            v = vs[-1]
            for c, w in zip(reversed(s.a[:-1]), reversed(vs[:-1])):
                v = ite(c, w, v)
        s.memo[k] = (x, v)
        return v

    def bases(s, acc=None, seen=None):
        """names of base functions reachable"""
        acc = set() if acc is None else acc
        seen = set() if seen is None else seen
        if id(s) in seen:
            return acc
        seen.add(id(s))
        if s.kind == 'base':
            acc.add(s.a.name())
        elif s.kind == 'mrg':
            for m in s.b:
                m.bases(acc, seen)
        else:
            s.a.bases(acc, seen)
        return acc


class U:
    """universally quantified hypothesis or goal.
    vars: list of (name, sortbits, triggers) with triggers a set of base-function names
    (or a callable returning it); body(*terms) -> formula"""

    def __init__(s, name, vars, body, guard=None):
        s.name, s.vars, s.body, s.guard = name, vars, body, guard

    def inst(s, *ts):
        b = s.body(*ts)
        return imp(s.guard, b) if s.guard is not None else b

    def guarded(s, g):
        if z3.is_true(g):
            return s
        g2 = g if s.guard is None else z3.And(g, s.guard)
        return U(s.name, s.vars, s.body, g2)


class E:
    """existential goal: alts(pool)->list of formulas, any of which suffices"""

    def __init__(s, name, alts):
        s.name, s.alts = name, alts


class Leaf:
    """one case of a universal goal: formula over skolem constants, with what is known in the case"""

    def __init__(s, name, f, conds, sks, nvars):
        s.name, s.f, s.conds, s.sks, s.nvars = name, f, conds, sks, nvars


class Ob:
    __slots__ = ('name', 'tags', 'guard', 'goal', 'idx', 'line', 'fn', 'res', 'time', 'solver', 'model', 'kind', 'approx', 'extra', 'reason', 'key')

    def __init__(s, name, tags, guard, goal, idx, line, fn, kind='assert'):
        s.name, s.tags, s.guard, s.goal, s.idx, s.line, s.fn, s.kind = name, tags, guard, goal, idx, line, fn, kind
        s.res = None
        s.time = 0.0
        s.solver = None
        s.model = None
        s.approx = False
        s.extra = []
        s.reason = None


class State:
    __slots__ = ('guard', 'cells', 'M', 'P', 'F', 'gh', 'dead')

    def copy(s):
        n = State()
        n.guard, n.cells, n.M, n.P, n.F, n.gh, n.dead = s.guard, dict(s.cells), s.M, s.P, dict(s.F), dict(s.gh), s.dead
        return n


class Edge:
    __slots__ = ('src', 'dst', 'st', 'phi')

    def __init__(s, src, dst, st):
        s.src, s.dst, s.st = src, dst, st


def lcp(gs):
    g0 = gs[0]
    n = min(len(g) for g in gs)
    i = 0
    while i < n and all(g[i] is g0[i] or g[i].eq(g0[i]) for g in gs):
        i += 1
    return i


def merge_guards(gs):
    """returns (merged guard tuple, selector conditions)"""
    if len(gs) == 1:
        return gs[0], [TRUE]
    i = lcp(gs)
    pre = gs[0][:i]
    suf = [g[i:] for g in gs]
    sel = [conj(list(x)) for x in suf]
    # recognise complete case splits, pairwise
    work = [list(x) for x in suf]
    changed = True
    while changed and len(work) > 1:
        changed = False
        for a in range(len(work)):
            for b in range(a + 1, len(work)):
                x, y = work[a], work[b]
                if len(x) == len(y) and len(x) > 0 and all(p.eq(q) for p, q in zip(x[:-1], y[:-1])) and neg(x[-1]).eq(y[-1]):
                    work[a] = x[:-1]
                    del work[b]
                    changed = True
                    break
            if changed:
                break
    if any(len(w) == 0 for w in work):
        return pre, sel
    d = z3.simplify(disj([conj(w) for w in work]))
    if z3.is_true(d):
        return pre, sel
    return pre + (disj([conj(w) for w in work]),), sel


class Ctx:
    """shared by one function verification"""

    def __init__(s, mod, name=''):
        s.mod = mod
        s.name = name
        s.hyps = []          # z3 formulas and U
        s.obs = []
        s.record = True
        s.fresh_n = 0
        s.stats = {'queries': 0, 'solver_s': 0.0}
        s.notes = []
        s.conds = None       # branch conditions collected during loop body passes
        s.stores = None
        s.extra_bounds = []
        s.narrow = {}       # iteration counters known to stay below 2^30
        s.approx_loops = 0
        s.strings = {}
        s.hints = {}        # see unit.load_hints: which invariants / hypotheses to try first (never trusted)
        s.degraded = []
        s.kept = {}
        s.learned = {}
        s.light = []        # scalar facts that decide branches early
        s.vname = ''
        s.script = None     # which group of edges to follow at joins of differing tables (None: always merge)
        s.pos = s.forced = 0
        s.taken = []
        s.alts = []
        s.nosplit = 0
        s.nfeas = 0
        s.prune_loops = False
        s.taildup = False
        s.discover = 0
        s.unsure = []
        s.memo = {}         # results shared by the variants of one specification

    def fresh(s, base, bits=64):
        s.fresh_n += 1
        return z3.BitVec('%s#%d' % (base, s.fresh_n), bits)

    def freshb(s, base):
        s.fresh_n += 1
        return z3.Bool('%s#%d' % (base, s.fresh_n))

    def assume(s, guard, f):
        g = conj(list(guard))
        if isinstance(f, U):
            s.hyps.append(f.guarded(g))
        elif isinstance(f, (list, tuple)):
            for x in f:
                s.assume(guard, x)
        elif not z3.is_true(f):
            s.hyps.append(imp(g, f))

    def narrowed(s, t, n, signed):
        """sign/zero extension; of a 32-bit counter that is known to stay small: the counter itself"""
        if n == 64 and t.size() == 32 and s.narrow:
            k, x = 0, t
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_BADD and t.num_args() == 2 and z3.is_bv_value(t.arg(0)):
                k, x = t.arg(0).as_signed_long(), t.arg(1)
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_EXTRACT and x.params() == [31, 0] and abs(k) < 1 << 30 and (signed or k >= 0):
                c = x.arg(0)
                if z3.is_app(c) and c.num_args() == 0 and c.decl().name() in s.narrow:
                    return c + bv(k) if k else c
        return z3.SignExt(n - t.size(), t) if signed else z3.ZeroExt(n - t.size(), t)

    def dup(s):
        """this part of the execution belongs to a variant that was explored before"""
        return s.script is not None and s.pos < s.forced

    def place(s):
        return (tuple(s.taken), s.fresh_n, len(s.hyps)) if s.script is not None else None

    def choose(s, n):
        """at a join of n groups: which one this variant follows (the others are explored by other variants)"""
        if s.pos < len(s.script):
            k = s.script[s.pos]
        else:
            k = 0
            for j in range(1, n):
                s.alts.append(s.taken + [j])
        s.taken.append(k)
        s.pos += 1
        return k

    xtags = frozenset()     # tags of every obligation of this specification

    def oblige(s, name, tags, guard, goal, line=0, fn='', kind='assert'):
        if not s.record or s.dup():
            return None
        if not isinstance(goal, (U, E)) and z3.is_true(goal):
            goal = TRUE
        o = Ob(name, set(tags) | s.xtags, tuple(guard), goal, len(s.hyps), line, fn, kind)
        s.obs.append(o)
        return o


# ------------------------------------------------------------------ proving
def app_collect(t, pool, seen):
    st = [t]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen[i] = x
        if z3.is_app(x):
            if x.num_args() == 1:
                d = x.decl()
                if d.kind() == z3.Z3_OP_UNINTERPRETED:
                    pool.setdefault(d.name(), {})[x.arg(0).get_id()] = x.arg(0)
            st.extend(x.children())


def instances(v, pool, sks):
    """candidate instantiation terms for a bound variable"""
    tr = v[2]
    if callable(tr):
        tr = tr()
    d = {}
    if isinstance(tr, dict):
        d.update(tr)
        tr = ()
    for x in tr:
        if isinstance(x, tuple):
            nm, iv = x
        else:
            nm, iv = x, None
        for k, t in pool.get(nm, {}).items():
            if iv is None:
                d[k] = t
            else:
                y = iv(t)
                d[y.get_id()] = y
    for nm, t in sks:
        if nm == v[0] and t.size() == v[1]:
            d[t.get_id()] = t
    return d


_light = {}


def light_term(t):
    """small and without map reads"""
    k = t.get_id()
    r = _light.get(k)
    if r is not None:
        return r[1]
    seen, st, ok = set(), [t], True
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if len(seen) > 400 or (z3.is_app(x) and x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED):
            ok = False
            break
        st.extend(x.children())
    _light[k] = (t, ok)
    return ok


def label_of(h):
    l = getattr(h, 'lab', None)
    if l is None:
        if isinstance(h, U):
            l = 'U ' + h.name
        else:
            l = 'f ' + hashlib.md5(re.sub(r'[#!]\d+', '', h.sexpr()).encode()).hexdigest()[:10]
        h.lab = l
    return l


def labelled(hyps):
    """label for every hypothesis: stable under renumbering of fresh symbols"""
    cnt, out = {}, []
    for h in hyps:
        l = label_of(h)
        cnt[l] = cnt.get(l, 0) + 1
        out.append('%s~%d' % (l, cnt[l]))
    return out


class Query:
    """builds the quantifier-free query for a goal"""

    def __init__(s, ctx, idx, guard, goal, rounds=4, cap=6000, hyps=None, only=None, track=False):
        s.sk = []
        s.sks = []
        hyps = ctx.hyps[:idx] if hyps is None else hyps
        s.src = {}
        if track or only is not None:
            labs = dict((id(h), l) for h, l in zip(ctx.hyps[:idx], labelled(ctx.hyps[:idx])))
        if only is not None:
            hyps = [h for h in hyps if labs.get(id(h)) in only]
        fs = [h for h in hyps if not isinstance(h, U)]
        us = [h for h in hyps if isinstance(h, U)]
        if isinstance(goal, U):
            sk = []
            for i, v in enumerate(goal.vars):
                ctx.fresh_n += 1
                sk.append(z3.BitVec('sk_%s_%d' % (v[0], ctx.fresh_n), v[1]))
            s.sk = sk
            s.sks = [(v[0], k) for v, k in zip(goal.vars, sk)]
            g = goal.inst(*sk)
        elif isinstance(goal, Leaf):
            s.sks = goal.sks
            s.sk = [k for _, k in goal.sks]
            g = goal.f
        else:
            g = goal
        base = list(guard)
        if isinstance(goal, Leaf):
            base += goal.conds
        pool, seen = {}, {}
        if isinstance(g, E):
            for f in base:
                app_collect(f, pool, seen)
            for f in fs:
                app_collect(f, pool, seen)
            alts = g.alts(pool)
            ng = [z3.Not(a) for a in alts]
        else:
            ng = [z3.Not(g)]
        out = base + ng + fs
        if track:
            for f in fs:
                s.src[f.get_id()] = labs[id(f)]
        for f in out:
            app_collect(f, pool, seen)
        s.keep = []
        done = set()
        n = 0
        for r in range(rounds):
            new = []
            for ui, u in enumerate(us):
                pools = []
                for v in u.vars:
                    d = instances(v, pool, s.sks)
                    s.keep.append(d)
                    pools.append(d)
                if len(pools) == 1:
                    combos = [((k,), (t,)) for k, t in pools[0].items()]
                elif len(pools) == 2:
                    combos = [((k, l), (t, w)) for k, t in pools[0].items() for l, w in pools[1].items()]
                else:
                    combos = [((k, l, m), (t, w, y)) for k, t in pools[0].items() for l, w in pools[1].items() for m, y in pools[2].items()]
                for key, ts in combos:
                    kk = (ui,) + key
                    if kk in done:
                        continue
                    done.add(kk)
                    if any(t.size() != v[1] for t, v in zip(ts, u.vars)):
                        continue
                    f = u.inst(*ts)
                    if f is None:
                        continue
                    if not z3.is_true(f):
                        new.append(f)
                        if track:
                            s.src[f.get_id()] = labs[id(u)]
                    n += 1
                    if n > cap:
                        break
                if n > cap:
                    break
            if not new:
                break
            for f in new:
                app_collect(f, pool, seen)
            out += new
            if n > cap:
                break
        s.asserts = out
        s.ninst = n
        s.capped = n > cap


STATS = {'z3': [0, 0.0], 'cvc5': [0, 0.0]}


FIRST_MS = 800


def solve_query(q, timeout_ms=20000, want_model=False, quick=False):
    """portfolio: z3 briefly, cvc5 with bit-vectors as integers, z3 for the full time.
    returns (result, model, assertions, solver name)"""
    t = time.time()
    m = None

    def z3run(ms):
        nonlocal m
        sol = z3.SolverFor('QF_AUFBV')
        sol.set('timeout', ms)
        for a in q.asserts:
            sol.add(a)
        r = sol.check()
        if r == z3.sat and want_model:
            m = sol.model()
        return str(r)
    r, who = z3run(min(FIRST_MS, timeout_ms)), 'z3'
    if r == 'unknown' and timeout_ms > FIRST_MS:
        r2 = cvc5_check(q.asserts, timeout_ms / (1000.0 if quick else 2000.0))
        if r2 == 'unsat' or quick:
            r, who = r2, 'cvc5'
        else:
            r = z3run(timeout_ms)
            if r == 'unknown' and r2 == 'sat':
                r, who = 'unknown', 'cvc5 says sat'
    STATS['z3'][0] += 1
    STATS['z3'][1] += time.time() - t
    return r, m, q, who


def smt2(asserts):
    sol = z3.Solver()
    for a in asserts:
        sol.add(a)
    return '(set-logic QF_UFBV)\n' + '\n'.join(l for l in sol.to_smt2().splitlines() if not l.startswith('(set-info') and not l.startswith('(set-logic'))


def cvc5_check(asserts, secs):
    exe = shutil.which('cvc5')
    if not exe:
        return 'unknown'
    fd, p = tempfile.mkstemp(suffix='.smt2')
    try:
        with os.fdopen(fd, 'w') as f:
            f.write(smt2(asserts))
        try:
            r = subprocess.run([exe, '--solve-bv-as-int=sum', '--tlimit=%d' % int(secs * 1000), p], capture_output=True, text=True, timeout=secs + 5)
        except subprocess.TimeoutExpired:
            return 'unknown'
        o = r.stdout.strip().splitlines()
        return o[-1] if o and o[-1] in ('sat', 'unsat') else 'unknown'
    finally:
        os.unlink(p)


def core_labels(q, secs=60):
    """labels of the hypotheses in an unsat core (cvc5)"""
    names = {}
    sol = z3.Solver()
    lines = []
    for a in q.asserts:
        sol.add(a)
    txt = smt2(q.asserts)
    # name every assertion
    out, k = [], 0
    i = 0
    while True:
        j = txt.find('\n(assert', i)
        if j < 0:
            out.append(txt[i:])
            break
        out.append(txt[i:j])
        # matching parenthesis
        d, e = 0, j + 1
        while True:
            ch = txt[e]
            if ch == '|':
                e = txt.index('|', e + 1)
            elif ch == '(':
                d += 1
            elif ch == ')':
                d -= 1
                if d == 0:
                    break
            e += 1
        body = txt[j + 1 + len('(assert'):e]
        out.append('\n(assert (! %s :named A%d))' % (body.strip(), k))
        k += 1
        i = e + 1
    txt = '(set-option :produce-unsat-cores true)\n' + ''.join(out) + '\n(get-unsat-core)\n'
    if k != len(q.asserts):
        return None
    fd, p = tempfile.mkstemp(suffix='.smt2')
    try:
        with os.fdopen(fd, 'w') as f:
            f.write(txt)
        try:
            r = subprocess.run(['cvc5', '--solve-bv-as-int=sum', '--tlimit=%d' % (secs * 1000), p], capture_output=True, text=True, timeout=secs + 10)
        except subprocess.TimeoutExpired:
            return None
        if not r.stdout.startswith('unsat'):
            return None
        ids = [int(x) for x in re.findall(r'\bA(\d+)\b', r.stdout)]
        return sorted({q.src[q.asserts[i].get_id()] for i in ids if q.asserts[i].get_id() in q.src})
    finally:
        os.unlink(p)


LEARN = 0       # seconds per query when hints are being learned (tools/learn.py), 0 in a check


def tier(hyps, goal):
    """hypotheses without the instances that most goals do not need"""
    nm = goal.name if isinstance(goal, (U, Leaf)) else ''
    return [h for h in hyps if not isinstance(h, U) or len(h.vars) < 2 or h.name == nm]


def ite_conds(f, names):
    """atoms that decide an if-then-else of the formula and mention a skolem constant; outermost first"""
    out, seen, st = [], set(), [f]
    cache = {}

    def mentions(t):
        k = t.get_id()
        if k not in cache:
            cache[k] = (t.decl().name() in names if z3.is_app(t) and t.num_args() == 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED else any(mentions(c) for c in t.children()))
        return cache[k]

    def atom(c):
        if z3.is_not(c):
            return atom(c.arg(0))
        if z3.is_and(c) or z3.is_or(c):
            for x in c.children():
                a = atom(x)
                if a is not None:
                    return a
            return None
        if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_ITE:
            return atom(c.arg(0)) if mentions(c.arg(0)) else None
        return c if mentions(c) else None
    from collections import deque
    st = deque([f])
    while st:
        x = st.popleft()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE and z3.is_bv(x):
            a = atom(x.arg(0))
            if a is not None and a.decl().kind() != z3.Z3_OP_ITE:
                return a
        st.extend(x.children())
    return None


def leaves(ctx, goal, cap=48):
    """case distinction of a universal goal over which updates of the tables and permissions a bound variable meets"""
    sk = []
    for v in goal.vars:
        ctx.fresh_n += 1
        sk.append(z3.BitVec('sk_%s_%d' % (v[0], ctx.fresh_n), v[1]))
    names = {k.decl().name() for k in sk}
    out = []
    work = [(z3.simplify(goal.inst(*sk)), [], [(v[0], k) for v, k in zip(goal.vars, sk)])]
    while work:
        f, cs, sks = work.pop()
        if z3.is_true(f):
            continue
        c = ite_conds(f, names) if len(cs) < 12 else None
        if c is None or len(out) + len(work) >= cap:
            out.append(Leaf(goal.name, f, cs, sks, len(sk)))
            continue
        work.append((z3.simplify(z3.substitute(f, (c, FALSE))), cs + [z3.Not(c)], sks))
        # in the other case an equality replaces the constant
        eq = None
        if z3.is_eq(c):
            for a, b in ((c.arg(0), c.arg(1)), (c.arg(1), c.arg(0))):
                if z3.is_app(a) and a.num_args() == 0 and a.decl().name() in names and not mentions_any(b, names):
                    eq = (a, b)
        if eq:
            work.append((z3.simplify(z3.substitute(f, eq)), [z3.substitute(x, eq) for x in cs], [(n, z3.substitute(t, eq)) for n, t in sks]))
        else:
            work.append((z3.simplify(z3.substitute(f, (c, TRUE))), cs + [c], sks))
    return out


def mentions_any(t, names):
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in names:
            return True
        st.extend(x.children())
    return False


SMALL_MS, LEAF_MS = 2500, 4000


def attempt(ctx, guard, goal, idx=None, timeout_ms=20000, name=None, hyps=None, model=False):
    """returns (result, solver, query, model, labels).  Fewer hypotheses are tried first: that is always sound.
    labels: hypotheses that sufficed, {suffix of the name: labels}, when they are being learned"""
    t = time.time()
    ctx.stats['queries'] += 1
    idx = len(ctx.hyps) if idx is None else idx
    n = ctx.fresh_n
    hy = ctx.hyps[:idx] if hyps is None else hyps
    if name:
        name = ctx.vname + name
    qh = ctx.hints.get('q', {})

    def query(g, h, quick, ms, only=None, model=False, rounds=2):
        q = Query(ctx, idx, guard, g, rounds=rounds, hyps=h, only=only)
        return solve_query(q, ms, quick=quick, want_model=model)

    def one(g, nm, small_ms, full_ms):
        """a goal without further case distinction: (result, solver, query, labels)"""
        if nm in qh:
            r, m, q, who = query(g, hy, True, 5000, set(qh[nm]))
            if r == 'unsat':
                return r, who, q, qh[nm]
        small = tier(hy, g)
        t1 = time.time()
        for h, ms in ([(small, small_ms)] if len(small) < len(hy) else []) + [(hy, full_ms)]:
            if not ms:
                continue
            r, m, q, who = query(g, h, True, ms)
            if r == 'unsat':
                return r, who, q, learn(ctx, idx, guard, g, ctx.fresh_n, h) if LEARN and nm and time.time() - t1 > 1 else None
        return r, who, q, None
    try:
        universal = isinstance(goal, U)
        if not (universal and name and name + '/0' in qh):
            r, who, q, labs = one(goal, name, 800 if universal else SMALL_MS, min(timeout_ms, 6000) if not universal else 0 if len(tier(hy, goal)) < len(hy) else 800)
            if r == 'unsat':
                return r, who, q, None, {'': labs} if labs else None
        bad = None
        if universal:
            ctx.fresh_n = n
            ls = leaves(ctx, goal)
            m0 = ctx.fresh_n
            labs = {}
            for i, l in enumerate(ls):
                ctx.fresh_n = m0
                r, who, q, lb = one(l, '%s/%d' % (name, i) if name else None, SMALL_MS, LEAF_MS)
                if r != 'unsat' and LEARN and name and r != 'sat':
                    for h in (tier(hy, l), hy):
                        lb = learn(ctx, idx, guard, l, m0, h)
                        if lb is not None:
                            r = 'unsat'
                            break
                if r != 'unsat':
                    bad = (l, r)
                    break
                if lb:
                    labs['/%d' % i] = lb
            if bad is None:
                if labs and '/0' not in labs:
                    labs['/0'] = []
                return 'unsat', who if ls else 'simplifier', q if ls else None, None, labs or None
        elif LEARN and name and r != 'sat':
            for h in (tier(hy, goal), hy):
                lb = learn(ctx, idx, guard, goal, n, h)
                if lb is not None:
                    return 'unsat', 'cvc5', q, None, {'': lb}
        g = bad[0] if bad else goal
        ctx.fresh_n = n if not bad else m0
        if not model and (bad and bad[1] or r) == 'sat':
            na = len(q.asserts)
            q = Query(ctx, idx, guard, g, hyps=hy)
            if len(q.asserts) == na:
                return 'sat', who, q, None, None
        ctx.fresh_n = n if not bad else m0
        q = Query(ctx, idx, guard, g, hyps=hy)
        r, m, q, who = solve_query(q, timeout_ms, want_model=model)
        if bad and r == 'unsat' and bad[0] is not ls[-1]:
            r, who = 'unknown', 'one case took long'
            rest = ls[ls.index(bad[0]) + 1:]
            if len(rest) <= 60:
                r = 'unsat'
                for l in rest:
                    ctx.fresh_n = m0
                    if one(l, None, SMALL_MS, 2 * LEAF_MS)[0] != 'unsat':
                        r = 'unknown'
                        break
        return r, who, q, m, None
    finally:
        ctx.fresh_n = n
        ctx.stats['solver_s'] += time.time() - t


def learn(ctx, idx, guard, goal, n, hyps):
    """labels of a small set of hypotheses that suffices (or None)"""
    ctx.fresh_n = n
    q = Query(ctx, idx, guard, goal, rounds=2, hyps=hyps, track=True)
    labs = core_labels(q, LEARN)
    best = None
    for _ in range(3):
        if labs is None:
            break
        ctx.fresh_n = n
        q2 = Query(ctx, idx, guard, goal, rounds=2, hyps=hyps, only=set(labs), track=True)
        r, m, q2, who = solve_query(q2, 20000, quick=True)
        if r != 'unsat':
            break
        best = labs
        l2 = core_labels(q2, 60)
        if l2 is None or len(l2) >= len(labs):
            break
        labs = l2
    return best


def prove(ctx, guard, goal, idx=None, timeout_ms=20000, hyps=None, name=None):
    """True if proved"""
    if not isinstance(goal, (U, E)) and z3.is_true(goal):
        return True
    return attempt(ctx, guard, goal, idx, timeout_ms, name, hyps)[0] == 'unsat'


def infeasible(ctx, guard, top):
    """a path that cannot be taken need not be explored (exploring it as well is always sound)"""
    if not top:
        return prove(ctx, guard, FALSE, timeout_ms=3000)
    ctx.nfeas += 1
    nm = 'feasible %d' % ctx.nfeas
    full = ctx.vname + nm
    if ctx.hints.get('q', {}).get(full) == ['FEASIBLE']:
        return False
    r, who, q, m, labs = attempt(ctx, guard, FALSE, None, 3000, nm)
    if LEARN:
        if r != 'unsat':
            ctx.learned[full] = ['FEASIBLE']
        elif labs and labs.get(''):
            ctx.learned[full] = labs['']
    return r == 'unsat'


# ------------------------------------------------------------------ CFG
class CFG:
    def __init__(s, fn):
        s.fn = fn
        s.succ = {}
        for b in fn.order:
            t = fn.blocks[b][-1]
            if t.op == 'br':
                s.succ[b] = list(dict.fromkeys(t.x))
            elif t.op == 'switch':
                s.succ[b] = list(dict.fromkeys([t.x[0]] + [c[1] for c in t.x[1]]))
            elif t.op == 'invoke':
                s.succ[b] = [t.x['normal'], t.x['unwind']]
            else:
                s.succ[b] = []
        s.entry = fn.order[0]
        # RPO
        seen = set()
        post = []
        stack = [(s.entry, iter(s.succ[s.entry]))]
        seen.add(s.entry)
        while stack:
            b, it = stack[-1]
            for n in it:
                if n not in seen:
                    seen.add(n)
                    stack.append((n, iter(s.succ[n])))
                    break
            else:
                post.append(b)
                stack.pop()
        s.rpo = post[::-1]
        s.num = {b: i for i, b in enumerate(s.rpo)}
        s.pred = {b: [] for b in s.rpo}
        for b in s.rpo:
            for n in s.succ[b]:
                s.pred[n].append(b)
        # dominators
        idom = {s.entry: s.entry}
        ch = True
        while ch:
            ch = False
            for b in s.rpo[1:]:
                ps = [p for p in s.pred[b] if p in idom]
                new = ps[0]
                for p in ps[1:]:
                    a, c = p, new
                    while a != c:
                        while s.num[a] > s.num[c]:
                            a = idom[a]
                        while s.num[c] > s.num[a]:
                            c = idom[c]
                    new = a
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True
        s.idom = idom
        s.loops = {}     # header -> set(blocks)
        for b in s.rpo:
            for n in s.succ[b]:
                if s.dom(n, b):
                    body = s.loops.setdefault(n, {n})
                    w = [b]
                    while w:
                        x = w.pop()
                        if x not in body:
                            body.add(x)
                            w.extend(s.pred[x])
                elif s.num[n] <= s.num[b]:
                    raise Unsupported('irreducible control flow')
        # loop-aware order: topological order in which inner-loop bodies are contiguous is not needed

    def dom(s, a, b):
        while True:
            if a == b:
                return True
            if b == s.entry:
                return False
            b = s.idom[b]


class View:
    """loop-iteration view handed to candidates"""

    def __init__(s, st, phi, n):
        s.st, s.phi, s.n = st, phi, n


class Cand:
    def __init__(s, name, f):
        s.name, s.f = name, f


class Exec:
    def __init__(s, ctx, fn, contracts, world):
        s.ctx, s.fn, s.contracts, s.w = ctx, fn, contracts, world
        s.mod = ctx.mod
        s.cfg = CFG(fn)
        s.env = {}
        s.rets = []       # (state, V)
        s.line = 0
        s.unwinds = []
        s.alloca_cells = s.scan_allocas()

    # -------- allocas that are only used directly can be cells
    def scan_allocas(s):
        al = {}
        for b in s.fn.order:
            for i in s.fn.blocks[b]:
                if i.op == 'alloca':
                    al[i.res] = True
        if not al:
            return set()
        alias = {a: a for a in al}
        bad = set()
        for _ in range(3):
            for b in s.fn.order:
                for i in s.fn.blocks[b]:
                    for j, a in enumerate(i.args):
                        if a is not None and a.k == 'reg' and a.v in alias:
                            root = alias[a.v]
                            if i.op in ('load', 'va_arg'):
                                continue
                            if i.op == 'store' and j == 1:
                                continue
                            if i.op == 'getelementptr' and j == 0 and all(o.k == 'int' for o in i.args[1:]):
                                alias[i.res] = root
                                continue
                            if i.op == 'call' and i.x['callee'].v in ('@llvm.va_start', '@llvm.va_end', '@llvm.lifetime.start.p0', '@llvm.lifetime.end.p0'):
                                continue
                            bad.add(root)
                    if i.op == 'phi':
                        for v, _b in i.x:
                            if v.k == 'reg' and v.v in alias:
                                bad.add(alias[v.v])
        return set(al) - bad

    # -------- values
    def const(s, o):
        ty = o.ty
        if o.k == 'int':
            if ty.n == 1:
                return V(z3.BoolVal(bool(o.v)))
            return V(bv(o.v, ty.n))
        if o.k == 'null':
            return V(bv(0))
        if o.k == 'undef':
            return s.fresh_val(ty, 'undef')
        if o.k == 'zero':
            if ty.k == 'ptr':
                return V(bv(0))
            if ty.k == 'int':
                return V(bv(0, ty.n)) if ty.n != 1 else V(FALSE)
            return V(None, agg=('zero', ty))
        if o.k == 'global':
            v = V(s.w.gaddr(o.v), glob=(o.v, 0))
            v.fnp = o.v
            return v
        if o.k == 'ce':
            if o.v == 'getelementptr':
                sty, ops = o.x
                return s.gep(sty, [s.val(a) for a in ops], ops)
            if o.v in ('ptrtoint', 'inttoptr', 'bitcast'):
                return s.val(o.x[0])
            if o.v in ('sub', 'add'):
                a, b = s.val(o.x[0]), s.val(o.x[1])
                return V(a.t - b.t if o.v == 'sub' else a.t + b.t)
        if o.k == 'agg':
            return V(None, agg=[s.val(e) for e in o.v])
        if o.k == 'fp':
            return V(s.ctx.fresh('fp', 64))
        raise Unsupported('constant %s' % o.k)

    def fresh_val(s, ty, nm):
        if ty is None or ty.k == 'void':
            return V(None)
        if ty.k == 'ptr':
            return V(s.ctx.fresh(nm))
        if ty.k == 'int':
            if ty.n == 1:
                return V(s.ctx.freshb(nm))
            return V(s.ctx.fresh(nm, ty.n))
        if ty.k == 'struct':
            return V(None, agg=[s.fresh_val(e, nm) for e in ty.el])
        if ty.k == 'fp':
            return V(s.ctx.fresh(nm, 64))
        raise Unsupported('fresh of %r' % ty)

    def val(s, o):
        if o.k == 'reg':
            v = s.env.get(o.v)
            if v is None:
                raise Unsupported('undefined register ' + o.v)
            return v
        return s.const(o)

    def gep(s, sty, vals, ops):
        base = vals[0]
        off_c = 0
        off_t = None
        ty = sty
        sz = s.mod.size(ty)
        slot_step = False

        def addidx(v, scale):
            nonlocal off_c, off_t
            t = v.t
            if t.size() < 64:
                t = z3.SignExt(64 - t.size(), t)
            t = z3.simplify(t)
            if z3.is_bv_value(t):
                off_c += t.as_signed_long() * scale
            else:
                x = t * bv(scale) if scale != 1 else t
                off_t = x if off_t is None else off_t + x
        addidx(vals[1], sz)
        fieldoff = 0
        rest = vals[2:]
        pre_c, pre_t = off_c, off_t
        for v in rest:
            rt = s.mod.res(ty)
            if rt.k == 'struct':
                idx = z3.simplify(v.t).as_long()
                o, ty = s.mod.field_off(rt, idx)
                off_c += o
            elif rt.k == 'arr':
                ty = rt.el
                addidx(v, s.mod.size(ty))
            else:
                raise Unsupported('gep into %r' % rt)
        t = base.t
        if off_t is not None:
            t = t + off_t
        if off_c:
            t = t + bv(off_c)
        r = V(t)
        isslot = sty.k == 'named' and sty.name == s.w.slot_ty
        if isslot and rest:
            # field access: base pointer (with element step) + field offset
            bt = base.t
            if pre_t is not None:
                bt = bt + pre_t
            if pre_c:
                bt = bt + bv(pre_c)
            r.slot = (bt, off_c - pre_c)
        elif base.slot is not None and off_t is None and not isslot:
            r.slot = (base.slot[0], base.slot[1] + off_c)
        if base.glob is not None:
            if off_t is None:
                r.glob = (base.glob[0], base.glob[1] + off_c)
            else:
                r.cg = (base.glob[0], bv(base.glob[1] + off_c) + off_t)
        elif base.cg is not None:
            o = base.cg[1]
            if off_t is not None:
                o = o + off_t
            if off_c:
                o = o + bv(off_c)
            r.cg = (base.cg[0], o)
        return r

    # -------- memory access
    def bits(s, ty):
        ty = s.mod.res(ty)
        if ty.k == 'ptr':
            return 64
        if ty.k == 'int':
            return ty.n
        raise Unsupported('access of type %r' % ty)

    def load(s, st, p, ty):
        n = s.bits(ty)
        w = s.w
        if p.slot is not None and p.glob is None:
            r = w.slot_load(s, st, p.slot[0], p.slot[1], n)
            if r is not None:
                return V(r)
        if p.glob is not None:
            g, off = p.glob
            if g.startswith('%'):
                key = (g, off, n)
                if key in st.cells:
                    return V(st.cells[key])
                v = s.fresh_val(ty, 'uninit')
                st.cells[key] = v.t
                return v
            gi = s.mod.globals.get(g)
            if gi and gi[1] and gi[0] is not None:   # constant with initialiser
                v = s.const_at(g, off, n)
                if v is not None:
                    return v
            return V(w.cell_load(s, st, g, off, n))
        if p.cg is not None:
            g, off = p.cg
            gi = s.mod.globals.get(g)
            if gi and gi[1] and gi[0] is not None:
                return s.const_sym(st, g, off, n)
        return V(w.raw_load(s, st, p.t, n))

    def flat(s, g):
        c = getattr(s.mod, '_flat', None)
        if c is None:
            c = s.mod._flat = {}
        if g in c:
            return c[g]
        init, _, ty = s.mod.globals[g]
        out = {}

        def rec(o, ty, off):
            rt = s.mod.res(ty)
            if rt.k == 'struct':
                for i in range(len(rt.el)):
                    fo, ft = s.mod.field_off(rt, i)
                    if o.k == 'zero':
                        rec(o, ft, off + fo)
                    elif o.k == 'agg':
                        rec(o.v[i], ft, off + fo)
            elif rt.k == 'arr':
                es = s.mod.size(rt.el)
                for i in range(rt.n):
                    if o.k == 'cstr':
                        out[(off + i, 8)] = bv(o.v[i], 8)
                    elif o.k == 'zero':
                        rec(o, rt.el, off + i * es)
                    elif o.k == 'agg':
                        rec(o.v[i], rt.el, off + i * es)
            elif rt.k in ('int', 'ptr'):
                n = 64 if rt.k == 'ptr' else rt.n
                if o.k == 'zero' or o.k == 'null':
                    out[(off, n)] = bv(0, n)
                else:
                    out[(off, n)] = s.const(o).t
        rec(init, ty, 0)
        c[g] = out
        return out

    def const_at(s, g, off, n):
        f = s.flat(g)
        t = f.get((off, n))
        return V(t) if t is not None else None

    def const_sym(s, st, g, off, n):
        f = s.flat(g)
        c = [(o, t) for (o, b), t in sorted(f.items()) if b == n]
        if not c or len(c) > 600:
            raise Unsupported('symbolic index into ' + g)
        ty = s.mod.globals[g][2]
        total = s.mod.size(ty)
        s.ctx.oblige('index within constant table %s' % g, {'safety'}, st.guard, z3.ULT(off, bv(total)), s.line, s.fn.name)
        t = s.ctx.fresh('oob', n)
        if getattr(s.w, 'abstract_tables', False):
            # the value of a named constant instead of a chain of comparisons
            for o, x in c:
                f = imp(off == bv(o), t == x)
                s.ctx.assume((), f)
                s.ctx.light.append(f)
            return V(t)
        for o, x in reversed(c):
            t = ite(off == bv(o), x, t)
        return V(t)

    def store(s, st, p, v, ty):
        n = s.bits(ty)
        w = s.w
        if p.slot is not None and p.glob is None:
            if w.slot_store(s, st, p.slot[0], p.slot[1], n, v.t):
                return
        if p.glob is not None:
            g, off = p.glob
            if g.startswith('%'):
                st.cells[(g, off, n)] = v.t
                return
            w.cell_store(s, st, g, off, n, v.t)
            return
        w.raw_store(s, st, p.t, n, v.t)

    # -------- instruction execution
    def step(s, st, i):
        ctx = s.ctx
        op = i.op
        if i.dbg:
            s.line = s.mod.line(i.dbg) or s.line
        if op in BIN:
            a, b = s.val(i.args[0]), s.val(i.args[1])
            s.env[i.res] = s.binop(st, op, a, b, i.ty)
        elif op == 'icmp':
            a, b = s.val(i.args[0]), s.val(i.args[1])
            s.env[i.res] = V(icmp(i.x, a.t, b.t))
        elif op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'freeze'):
            a = s.val(i.args[0])
            if op in ('ptrtoint', 'inttoptr', 'bitcast', 'freeze'):
                s.env[i.res] = a
            else:
                n = i.ty.n
                t = a.t
                if z3.is_bool(t):
                    if op == 'zext':
                        r = z3.If(t, bv(1, n), bv(0, n))
                    else:
                        r = z3.If(t, bv(-1, n), bv(0, n))
                elif op == 'zext':
                    r = ctx.narrowed(t, n, False)
                elif op == 'sext':
                    r = ctx.narrowed(t, n, True)
                else:
                    r = z3.Extract(n - 1, 0, t) if n > 1 else (z3.Extract(0, 0, t) == bv(1, 1))
                s.env[i.res] = V(z3.simplify(r))
        elif op == 'select':
            c, a, b = [s.val(x) for x in i.args]
            s.env[i.res] = V(ite(c.t, a.t, b.t))
        elif op == 'load':
            s.env[i.res] = s.load(st, s.val(i.args[0]), i.ty)
        elif op == 'store':
            s.store(st, s.val(i.args[1]), s.val(i.args[0]), i.ty)
        elif op == 'getelementptr':
            s.env[i.res] = s.gep(i.x, [s.val(a) for a in i.args], i.args)
        elif op == 'alloca':
            t = ctx.fresh('alloca')
            if i.res in s.alloca_cells:
                s.env[i.res] = V(t, glob=(i.res + '@' + s.fn.name, 0))
            else:
                s.env[i.res] = V(t)
                s.w.new_object(s, st, t, s.mod.size(i.x) if not i.args else 8)
        elif op == 'call' or op == 'invoke':
            s.call(st, i)
        elif op == 'extractvalue':
            a = s.val(i.args[0])
            for k in i.x:
                a = a.agg[k]
            s.env[i.res] = a
        elif op == 'insertvalue':
            a, b = s.val(i.args[0]), s.val(i.args[1])
            if a.agg is None or a.agg[0] == 'zero':
                raise Unsupported('insertvalue')
            l = list(a.agg)
            l[i.x[0]] = b
            s.env[i.res] = V(None, agg=l)
        elif op == 'va_arg':
            # the list of variable arguments is a plain pointer (see extract.ir_varargs): one 8-byte word each
            p = s.val(i.args[0])
            a = s.load(st, p, Ty('ptr')).t
            w = s.w.vararg(st, a, i.ty)
            n = s.bits(i.ty)
            s.env[i.res] = V(w if n == 64 else z3.Extract(n - 1, 0, w))
            s.store(st, p, V(z3.simplify(a + bv(8))), Ty('ptr'))
        elif op == 'landingpad':
            s.env[i.res] = s.w.landingpad(s, st, i)
        else:
            raise Unsupported('instruction %s %s' % (op, i.x if op == 'unsupported' else ''))

    def binop(s, st, op, a, b, ty):
        x, y = a.t, b.t
        if z3.is_bool(x):
            if op == 'and':
                return V(z3.simplify(z3.And(x, y)))
            if op == 'or':
                return V(z3.simplify(z3.Or(x, y)))
            if op == 'xor':
                return V(z3.simplify(z3.Xor(x, y)))
            raise Unsupported('i1 ' + op)
        if op == 'add':
            r = x + y
        elif op == 'sub':
            r = x - y
        elif op == 'and':
            r = x & y
        elif op == 'or':
            r = x | y
        elif op == 'xor':
            r = x ^ y
        elif op == 'shl':
            r = x << y
        elif op == 'lshr':
            r = z3.LShR(x, y)
        elif op == 'ashr':
            r = x >> y
        elif op == 'mul':
            xs, ys = z3.simplify(x), z3.simplify(y)
            if not z3.is_bv_value(xs) and not z3.is_bv_value(ys):
                for u, v in ((xs, ys), (ys, xs)):
                    if s.decide(st, u == bv(1, u.size())):
                        return V(v)
                r = s.w.mul(s, st, xs, ys)
            else:
                r = x * y
        elif op in ('udiv', 'urem', 'sdiv', 'srem'):
            r = s.division(st, op, x, y)
        else:
            raise Unsupported(op)
        if z3.is_app(r) and all(z3.is_bv_value(c) for c in r.children()):
            r = z3.simplify(r)
        return V(r)

    def division(s, st, op, x, y):
        n = x.size()
        xs, ys = z3.simplify(x), z3.simplify(y)
        if op == 'udiv' and not z3.is_bv_value(ys):
            if s.decide(st, z3.And(z3.ULE(ys, xs), z3.ULT(xs - ys, ys))):
                return bv(1, n)
            if s.decide(st, z3.ULT(xs, ys)):
                return bv(0, n)
        s.ctx.oblige('division by zero', {'safety'}, st.guard, ys != bv(0, n), s.line, s.fn.name)
        if op == 'udiv':
            return s.w.udiv(x, y)
        if op == 'urem':
            return s.w.urem(x, y)
        if op == 'sdiv':
            return s.w.sdiv(x, y)
        return s.w.srem(x, y)

    def decide(s, st, c, timeout=5000):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        k = ('decide', s.ctx.place(), c.sexpr() if s.ctx.script is not None else None)
        if k[1] is not None and k in s.ctx.memo:
            r, s.ctx.fresh_n = s.ctx.memo[k]
            return r
        r = prove(s.ctx, st.guard, c, timeout_ms=timeout)
        if k[1] is not None:
            s.ctx.memo[k] = (r, s.ctx.fresh_n)
        return r

    def call(s, st, i):
        cal = i.x['callee']
        args = [s.val(a) if a.k != 'meta' else None for a in i.args]
        if cal.k == 'global':
            name = cal.v
            name = s.mod.aliases.get(name, name)
        else:
            name = None
            cv = s.val(cal)
            if cv.fnp:
                name = cv.fnp
        r = s.w.call(s, st, name, args, i, None if name else s.val(cal))
        if i.res is not None:
            if r is None:
                r = s.fresh_val(i.ty, 'ret')
            s.env[i.res] = r

    # -------- region execution
    def merge(s, edges):
        """merge edges into one state; returns state, selectors"""
        sts = [e.st for e in edges]
        if len(sts) == 1:
            return sts[0].copy(), [TRUE]
        g, sel = merge_guards([x.guard for x in sts])
        n = sts[0].copy()
        n.guard = g

        def m(vals):
            v = vals[-1]
            for c, w in zip(reversed(sel[:-1]), reversed(vals[:-1])):
                v = ite(c, w, v)
            return v
        keys = set()
        for x in sts:
            keys |= set(x.cells)
        for k in keys:
            vs = []
            for x in sts:
                if k in x.cells:
                    vs.append(x.cells[k])
                elif k[0].startswith('%'):
                    vs.append(s.ctx.fresh('uninit', k[2]) if k[2] != 1 else s.ctx.freshb('uninit'))
                else:
                    vs.append(s.w.cell_init(k))
            n.cells[k] = m(vs)
        for k in n.gh:
            vs = [x.gh[k] for x in sts]
            if isinstance(vs[0], Map):
                n.gh[k] = Map.merge(sel, vs)
            elif isinstance(vs[0], z3.ExprRef):
                n.gh[k] = m(vs)
            elif isinstance(vs[0], tuple):
                n.gh[k] = s.w.merge_ghost(k, sel, vs)
            else:
                n.gh[k] = vs[0] if all(v is vs[0] for v in vs) else s.w.merge_ghost(k, sel, vs)
        n.M = Map.merge(sel, [x.M for x in sts])
        n.P = Map.merge(sel, [x.P for x in sts])
        for k in n.F:
            n.F[k] = Map.merge(sel, [x.F[k] for x in sts])
        return n, sel

    def split(s, es, top=True):
        """follow one group of edges whose tables agree; the other groups belong to other variants"""
        c = s.ctx
        if c.script is None or c.nosplit or len(es) < 2:
            return es
        groups = {}
        for e in es:
            k = (id(e.st.P),) + tuple(id(e.st.F[o]) for o in sorted(e.st.F))
            groups.setdefault(k, []).append(e)
        if len(groups) < 2:
            return es
        gs = list(groups.values())
        if c.prune_loops:
            k = ('feasible', c.place())
            if k not in c.memo:
                ok = [i for i, g in enumerate(gs) if not all(infeasible(c, e.st.guard, top) for e in g)]
                c.memo[k] = (ok or [0], c.fresh_n, c.nfeas)
            ok, c.fresh_n, c.nfeas = c.memo[k]
            gs = [gs[i] for i in ok]
            if len(gs) < 2:
                return gs[0]
        return gs[c.choose(len(gs))]

    def run(s, st, args):
        for (nm, ty), v in zip(s.fn.params, args):
            s.env[nm] = v
        exits = s.region(set(s.cfg.rpo), s.cfg.entry, st, None)
        return s.rets

    def region(s, blocks, header, st, phis):
        """execute the acyclic region; for a loop body, header phis are preset in env.
        returns (exit edges, back edges)"""
        inc = {header: [Edge(None, header, st)]}
        exits, backs = [], []
        order = [b for b in s.cfg.rpo if b in blocks]
        done = set()
        for b in order:
            if b in done:
                continue
            es = inc.get(b)
            if not es:
                continue
            if b in s.cfg.loops and not (b == header and phis is not None):
                lb = s.cfg.loops[b]
                if phis is None:
                    es = s.split(es)
                if s.ctx.prune_loops:
                    # a loop that cannot be reached need not be summarised
                    es = [e for e in es if not infeasible(s.ctx, e.st.guard, phis is None)]
                outs = s.loop(b, lb, es) if es else []
                done |= lb
                for e in outs:
                    if e.dst in blocks:
                        inc.setdefault(e.dst, []).append(e)
                    else:
                        exits.append(e)
                continue
            if phis is None:
                es = s.split(es)
            ins = s.fn.blocks[b]
            if phis is None and len(es) > 1 and s.ctx.taildup and ins[-1].op == 'ret' and all(i.op == 'phi' for i in ins[:-1]):
                # a common return block: one return per way to reach it
                for e in es:
                    cur, sel = s.merge([e])
                    s.env.update({i.res: s.phi(i, [e], sel) for i in ins[:-1]})
                    s.term(cur, b, ins[-1])
                continue
            cur, sel = s.merge(es)
            k = 0
            if not (b == header and phis is not None):
                newv = {}
                while k < len(ins) and ins[k].op == 'phi':
                    newv[ins[k].res] = s.phi(ins[k], es, sel)
                    k += 1
                s.env.update(newv)
            else:
                while ins[k].op == 'phi':
                    k += 1
            dead = False
            for i in ins[k:-1]:
                s.step(cur, i)
                if cur.dead:
                    dead = True
                    break
            if dead:
                continue
            for e in s.term(cur, b, ins[-1]):
                if e.dst == header and phis is not None:
                    backs.append(e)
                elif e.dst in blocks:
                    inc.setdefault(e.dst, []).append(e)
                else:
                    exits.append(e)
        return exits, backs

    def phi(s, i, es, sel):
        m = dict((b, v) for v, b in i.x)
        vs = []
        for e in es:
            if e.src not in m:
                raise Unsupported('phi source')
            vs.append(s.val(m[e.src]))
        v0 = vs[0]
        if len(vs) == 1:
            return v0
        if v0.agg is not None:
            if any(v.agg is None or v.agg[0] == 'zero' or len(v.agg) != len(v0.agg) for v in vs):
                raise Unsupported('phi of aggregates')
            out = []
            for k in range(len(v0.agg)):
                t = vs[-1].agg[k].t
                for c, w in zip(reversed(sel[:-1]), reversed(vs[:-1])):
                    t = ite(c, w.agg[k].t, t)
                out.append(V(t))
            return V(None, agg=out)
        t = vs[-1].t
        for c, w in zip(reversed(sel[:-1]), reversed(vs[:-1])):
            t = ite(c, w.t, t)
        r = V(t)
        if all(v.glob == v0.glob for v in vs):
            r.glob = v0.glob
        if all(v.slot is not None and v0.slot is not None and v.slot[1] == v0.slot[1] for v in vs):
            bt = vs[-1].slot[0]
            for c, w in zip(reversed(sel[:-1]), reversed(vs[:-1])):
                bt = ite(c, w.slot[0], bt)
            r.slot = (bt, v0.slot[1])
        if r.glob is not None and r.glob[0].startswith('%') and any(v.glob != v0.glob for v in vs):
            raise Unsupported('phi of cells')
        return r

    def branch(s, st, c):
        """returns 'T','F' or None if undecided syntactically"""
        c = z3.simplify(c)
        if z3.is_true(c):
            return 'T', c
        if z3.is_false(c):
            return 'F', c
        nc = neg(c)
        for g in st.guard:
            if g.eq(c):
                return 'T', c
            if g.eq(nc):
                return 'F', c
        if s.ctx.light and light_term(c):
            gs = [g for g in st.guard if light_term(g)]
            for d, x in (('T', nc), ('F', c)):
                sol = z3.SolverFor('QF_AUFBV')
                sol.set('timeout', 100)
                sol.add(*s.ctx.light)
                sol.add(*gs)
                sol.add(x)
                if sol.check() == z3.unsat:
                    return d, c
        return None, c

    def term(s, st, b, i):
        if i.dbg:
            s.line = s.mod.line(i.dbg) or s.line
        out = []
        if i.op == 'br':
            if not i.args:
                return [Edge(b, i.x[0], st)]
            c = s.val(i.args[0]).t
            d, cs = s.branch(st, c)
            if d == 'T':
                return [Edge(b, i.x[0], st)]
            if d == 'F':
                return [Edge(b, i.x[1], st)]
            if s.ctx.conds is not None:
                s.ctx.conds.append(cs)
            s2 = st.copy()
            st.guard = st.guard + (cs,)
            s2.guard = s2.guard + (neg(cs),)
            return [Edge(b, i.x[0], st), Edge(b, i.x[1], s2)]
        if i.op == 'switch':
            v = s.val(i.args[0]).t
            dflt, cases = i.x
            n = v.size()
            cur = st
            for k, dst in cases:
                d, cs = s.branch(cur, v == bv(k, n))
                if d == 'T':
                    out.append(Edge(b, dst, cur))
                    return s.joinsame(out)
                if d == 'F':
                    continue
                if s.ctx.conds is not None:
                    s.ctx.conds.append(cs)
                s2 = cur.copy()
                s2.guard = s2.guard + (cs,)
                out.append(Edge(b, dst, s2))
                nxt = cur.copy()
                nxt.guard = nxt.guard + (neg(cs),)
                cur = nxt
            out.append(Edge(b, dflt, cur))
            return s.joinsame(out)
        if i.op == 'ret':
            v = s.val(i.args[0]) if i.args else None
            s.rets.append((st, v))
            return []
        if i.op == 'unreachable':
            return []
        if i.op == 'invoke':
            s.call(st, i)
            if st.dead:
                return s.w.invoke_dead(s, st, i, b)
            return s.w.invoke_edges(s, st, i, b)
        if i.op == 'resume':
            s.w.resume(s, st, s.val(i.args[0]))
            return []
        raise Unsupported('terminator ' + i.op)

    def joinsame(s, out):
        return out

    # -------- loops
    def loop(s, header, body, entry_edges):
        from . import loops
        return loops.exec_loop(s, header, body, entry_edges)


BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'}


def icmp(pred, a, b):
    if z3.is_bool(a):
        r = (a == b) if pred == 'eq' else (a != b)
        return z3.simplify(r)
    f = {'eq': lambda: a == b, 'ne': lambda: a != b, 'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b),
         'ugt': lambda: z3.UGT(a, b), 'uge': lambda: z3.UGE(a, b), 'slt': lambda: a < b, 'sle': lambda: a <= b,
         'sgt': lambda: a > b, 'sge': lambda: a >= b}[pred]
    return f()
