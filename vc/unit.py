"""Verification of one function (or one protocol of calls) against its contract."""
import time, subprocess, tempfile, os, shutil, json
import z3
from .ir import *
from .sym import *
from .world import World, new_state, ADDRMAX
from . import par, loops, sym


class Result:
    """picklable outcome of one verification task"""

    def __init__(s, name):
        s.name = name
        s.obs = []          # dicts
        s.error = None
        s.loops = []
        s.inlined = []
        s.contracts = []
        s.wall = 0.0
        s.inv_obs = 0
        s.queries = 0
        s.solver_s = 0.0
        s.covers = []
        s.assumptions = []
        s.kept = {}
        s.degraded = []
        s.learned = {}


class Ver:
    def __init__(s, mod, name, tier='quick', worldcls=World, want=None):
        s.mod, s.name, s.tier = mod, name, tier
        s.ctx = Ctx(mod, name)
        s.w = worldcls(mod, s.ctx)
        s.w.ver = s
        s.inputs = {}
        s.covers = []
        s.want = want
        s.assumptions = []

    def inp(s, name, bits=64):
        t = z3.BitVec(name, bits)
        s.inputs[name] = t
        return t

    def assume(s, f, guard=()):
        s.ctx.assume(guard, f)

    def fn(s, name):
        for f in ('@' + name, '@"%s"' % name):
            if f in s.mod.fns:
                return s.mod.fns[f]
        return None

    def execute(s, name, st, args):
        """args: dict by parameter position or list of terms/V/None"""
        fn = s.fn(name)
        if fn is None:
            raise Unsupported('function %s not found' % name)
        ex = Exec(s.ctx, fn, {}, s.w)
        a = []
        for i, (p, ty) in enumerate(fn.params):
            v = args[i] if i < len(args) else None
            if v is None:
                v = ex.fresh_val(ty, 'arg' + p.strip('%'))
                if v.t is not None:
                    s.inputs.setdefault(p.strip('%'), v.t)
            elif not isinstance(v, V):
                v = V(v)
            a.append(v)
        s.ex = ex
        rets = ex.run(st, a)
        return rets

    def oblige(s, name, tags, guard, goal, line=0, kind='post'):
        o = s.ctx.oblige(name, set(tags), tuple(guard), goal, line, s.name, kind)
        if o is not None:
            o.idx = None
        return o

    def lemma(s, name, tags, guard, goal, line=0):
        """an obligation that later obligations may use"""
        o = s.ctx.oblige(name, set(tags), tuple(guard), goal, line, s.name, 'lemma')   # decided from the hypotheses known up to here
        s.ctx.assume(tuple(guard), goal)
        return o

    def oblige0(s, name, tags, guard, goal, ex, kind='assert'):
        """obligation inside the code (recorded only in recording passes)"""
        return s.ctx.oblige(name, set(tags), tuple(guard), goal, ex.line, ex.fn.name, kind)

    def post(s, name, tags, rets, f):
        """f(state, value) -> formula, for every return"""
        for st, v in rets:
            s.oblige(name, tags, st.guard, f(st, v))

    def cover(s, name, guard):
        s.covers.append((name, guard))

    def aborts_only_if(s, tags, cond, name='terminates only when the contract allows it'):
        for g, msg, args, line, fn in s.w.aborts:
            c = cond(msg, g) if callable(cond) else cond
            s.oblige('%s [%s]' % (name, msg[:60].strip()), tags, g, c, line)

    # ---------------------------------------------------------------- discharge
    def discharge(s, res, timeout_ms):
        ctx = s.ctx
        cnt = {}
        for o in ctx.obs:
            k = 'ob ' + o.name
            cnt[k] = cnt.get(k, 0) + 1
            o.key = '%s~%d' % (k, cnt[k])
        obs = ctx.obs if s.want is None else [o for o in ctx.obs if o.tags & s.want]
        tasks, which = [], []
        for o in obs:
            if o.kind == 'measure' and z3.is_false(o.goal):
                o.res, o.reason = 'unknown', 'no decreasing measure found'
                continue
            if not isinstance(o.goal, (U, E)) and z3.is_true(z3.simplify(o.goal)):
                o.res, o.solver = 'unsat', 'simplifier'
                continue
            which.append(o)
            tasks.append(lambda o=o: s.solve(o, timeout_ms))
        full = timeout_ms / 1000.0 * 3 + 40 + 8 * sym.LEARN
        hard = HARD.get(s.name, ()) if QUICK and not sym.LEARN else ()
        out = par.run(tasks, wall=[HARD_S if o.name in hard else full for o in which])
        und = [i for i, r in enumerate(out) if (r is None or r[0] == 'unknown') and which[i].name not in hard]
        if 0 < len(und) <= 6 and not sym.LEARN:
            # a few left: once more, with more time
            again = par.run([lambda o=which[i]: s.solve(o, 3 * timeout_ms) for i in und], wall=timeout_ms / 1000.0 * 4 + 20)
            for i, r in zip(und, again):
                if r is not None and r[0] != 'EXC':
                    out[i] = r
        for o, r in zip(which, out):
            if r is None:
                o.res, o.reason = 'unknown', 'time limit'
            elif isinstance(r, tuple) and r[0] == 'EXC':
                o.res, o.reason = 'unknown', 'engine: ' + r[1][:2000]
            else:
                o.res, o.solver, o.time, o.model, o.reason = r
                if o.res == 'unsat':
                    if o.model is not None:
                        for sfx, l in o.model.items():
                            ctx.learned[ctx.vname + o.key + sfx] = l
                    o.model = None
                elif o.res == 'sat' and ctx.unsure:
                    o.res, o.reason = 'unknown', 'refuted, but without an invariant the solvers gave up on: %s' % ctx.unsure[0]
        for o in obs:
            res.obs.append(dict(name=o.name, fn=o.fn, tags=sorted(o.tags), line=o.line, kind=o.kind, res=o.res,
                                solver=o.solver, time=round(o.time or 0, 3), model=o.model, reason=o.reason))
        ctasks = [lambda g=g: prove(ctx, g, FALSE, timeout_ms=5000) for n, g in s.covers]
        for (n, g), r in zip(s.covers, par.run(ctasks, wall=60)):
            res.covers.append((n, r is not True))
        res.queries = ctx.stats['queries'] + len(tasks)

    def solve(s, o, timeout_ms):
        ctx = s.ctx
        t = time.time()
        idx = len(ctx.hyps) if o.idx is None else o.idx
        r, who, q, m, labs = attempt(ctx, o.guard, o.goal, idx, timeout_ms, o.key, model=True)
        if r == 'unsat':
            return r, who, time.time() - t, labs, None
        if r == 'sat':
            return r, who, time.time() - t, s.model(m, q) if m is not None else None, ('instance cap' if q.capped else None)
        return 'unknown', 'z3+cvc5', time.time() - t, None, 'solvers gave up (%s)' % who

    def model(s, m, q):
        out = {}
        for k, t in s.inputs.items():
            try:
                v = m.eval(t, model_completion=True)
                out[k] = v.as_long() if z3.is_bv(v) else str(v)
            except Exception:
                pass
        for i, k in enumerate(q.sk):
            try:
                out['sk%d' % i] = m.eval(k, model_completion=True).as_long()
            except Exception:
                pass
        return out


HINTS = True
# specs/hard.json: obligations the solvers are known not to finish on the tree the contracts were written for; the quick tier gives
# them a shorter time (they end as undecided), the thorough tier the full one
QUICK = os.environ.get('VERIF_TIER', 'quick') == 'quick'
HARD_S = 25
try:
    HARD = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'specs', 'hard.json')))
except Exception:
    HARD = {}
_hints = None


def hints():
    """specs/hints.json: which loop invariants and which hypotheses sufficed on the tree the contracts were
    written for.  They only order the search: everything is proved again on every run."""
    global _hints
    if _hints is None:
        try:
            _hints = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'specs', 'hints.json')))
        except (OSError, ValueError):
            _hints = {}
    return _hints


def run_variant(mod, spec, tier, want, script, memo, t0):
    """one symbolic execution of a specification: all paths (script None), or those of one choice at every split"""
    name, f, wcls = spec
    res = Result(name)
    t = time.time()
    v = Ver(mod, name, tier, wcls or World, want)
    ctx = v.ctx
    ctx.hints = hints().get(name, {}) if HINTS else {}
    if script is not None:
        ctx.script, ctx.forced, ctx.memo = list(script), len(script), memo
        ctx.vname = '.'.join(map(str, script)) + '|'
    try:
        f(v)
        if ctx.script is not None and ctx.pos < ctx.forced:
            raise Unsupported('variant does not reach its split')
        v.gen_s = time.time() - t
        if loops.DEBUG:
            print('  variant %s: %d obligations, %d hypotheses, %.1f s' % (script, len(ctx.obs), len(ctx.hyps), v.gen_s))
        v.discharge(res, 20000 if tier == 'quick' else 90000)
        if loops.DEBUG:
            print('  variant %s: discharged after %.1f s' % (script, time.time() - t))
    except Unsupported as e:
        res.error = 'unsupported: %s' % e
    except NotImplementedError as e:
        res.error = 'unsupported: %s' % e
    except Exception as e:
        import traceback
        res.error = 'engine: %s' % traceback.format_exc()
    res.loops = [(a, b, c, d, n, t) for a, b, c, d, n, t in getattr(ctx, 'loops', [])]
    res.inlined = sorted(v.w.inlined)
    res.contracts = sorted(v.w.used_contracts)
    res.inv_obs = getattr(ctx, 'inv_obs', 0)
    res.assumptions = v.assumptions
    res.kept = ctx.kept
    res.learned = ctx.learned
    res.degraded = ctx.degraded
    res.solver_s = ctx.stats['solver_s']
    res.wall = time.time() - t
    return res, ctx.alts, ctx.memo


MAXVARIANTS = 400


def run_spec(mod, spec, tier, want):
    """spec: (name, callable(Ver)) executed in this process; with splitting, the variants run in parallel"""
    name, f, wcls = spec
    t = time.time()
    if not getattr(f, 'split', False):
        return run_variant(mod, spec, tier, want, None, None, t)[0]
    res, alts, memo = run_variant(mod, spec, tier, want, [], {}, t)
    res.variants = 1
    pend = list(alts)
    while pend and not res.error:
        if res.variants + len(pend) > MAXVARIANTS:
            res.error = 'unsupported: too many paths'
            break
        outs = par.run([lambda s=s: run_variant(mod, spec, tier, want, s, memo, t) for s in pend], wall=600 if tier == 'quick' else 3000, nproc=4)
        nxt = []
        for sc, o in zip(pend, outs):
            if o is None or (isinstance(o, tuple) and o and o[0] == 'EXC'):
                res.error = 'engine: variant %s: %s' % (sc, o and o[1])
                continue
            r, a, m = o
            memo.update(m)
            nxt += a
            res.variants += 1
            res.error = res.error or r.error
            res.obs += r.obs
            res.covers += r.covers
            res.loops += [x for x in r.loops if x not in res.loops]
            res.inlined = sorted(set(res.inlined) | set(r.inlined))
            res.contracts = sorted(set(res.contracts) | set(r.contracts))
            res.inv_obs += r.inv_obs
            res.queries += r.queries
            res.solver_s += r.solver_s
            res.degraded += r.degraded
            res.kept.update(r.kept)
            res.learned.update(r.learned)
        pend = nxt
    # a case is covered when some variant reaches it
    cov = {}
    for n, ok in res.covers:
        cov[n] = cov.get(n, False) or ok
    res.covers = sorted(cov.items())
    res.wall = time.time() - t
    return res
