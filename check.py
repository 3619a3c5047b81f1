#!/usr/bin/env python3-vt
"""check.py <property>: decides one property of /repo's current working tree (see DESIGN.md)."""
import sys, os, time, json, subprocess, random, threading, importlib, traceback, signal, select
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import plan
from vc.extract import Source, ExtractError, sh

PROP = sys.argv[1]
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
T0 = time.time()
MODULES = ['strings']
try:
    MODULES = json.load(open(HERE + '/specs/modules.json'))
except Exception:
    pass
WRAPS = ['mmap', 'mprotect', 'munmap', 'sysconf', 'getpagesize', 'pthread_mutex_lock', 'pthread_mutex_trylock', 'pthread_mutex_unlock']


def note(*a):
    print(*a, flush=True)


GRACE = 45 if TIER == 'quick' else 900


# ------------------------------------------------------------------ exerciser
class Exerciser:
    def __init__(s, src):
        s.src, s.exe, s.wb, s.err = src, None, False, None
        s.cases = s.nontriv = s.runs = 0
        s.samples, s.fails = [], []

    def build(s):
        fl = ['-fno-builtin', '-D_GNU_SOURCE', '-DDUMA_OLD_NEW_MACRO']
        libs = ['-Wl,' + ','.join('--wrap=' + w for w in WRAPS)]
        ex = HERE + '/ex/'
        try:
            s.exe = s.src.build('exer', [ex + 'exer.c', ex + 'exerpp.cpp', ex + 'wb.c'], fl, libs, files=('src/print.c', 'src/sem_inc.c', 'src/dumapp.cpp'))
            s.wb = True
        except ExtractError as e:
            try:
                s.exe = s.src.build('exer0', [ex + 'exer.c', ex + 'exerpp.cpp'], fl, libs)
            except ExtractError as e2:
                s.err = str(e2)

    def one(s, env, args, tmo=110):
        e = {k: v for k, v in os.environ.items() if not k.startswith(('DUMA_', 'MALLOC_', 'NEW_'))}
        e.update(env)
        e.setdefault('DUMA_DISABLE_BANNER', '1')
        try:
            r = subprocess.run([s.exe] + [str(a) for a in args], env=e, capture_output=True, timeout=tmo, text=True, errors='replace', stdin=subprocess.DEVNULL)
            return r.returncode, r.stdout, r.stderr
        except subprocess.TimeoutExpired as x:
            o = x.stdout or b''
            return None, o.decode(errors='replace') if isinstance(o, bytes) else o, ''

    def go(s, deep=False, extra=()):
        """all planned runs of this property; returns list of failures"""
        if not s.exe:
            return []
        todo = list(extra) or plan.runs(PROP, TIER, deep)
        res = []
        lock = threading.Lock()
        jobs = list(enumerate(todo))

        def work():
            while True:
                with lock:
                    if not jobs:
                        return
                    i, j = jobs.pop(0)
                if j[0] == 'ENVIRON':
                    f = s.environ(deep)
                    with lock:
                        res.extend(f)
                    continue
                env, mode, rest = j[0], j[1], j[2:]
                args = [mode, SEED * 1000 + i + (500 if deep else 0)] + list(rest)
                rc, out, err = s.one(env, args)
                with lock:
                    s.runs += 1
                    for l in out.splitlines():
                        if l.startswith('FAIL '):
                            _, p, msg = l.split(' ', 2)
                            if p == PROP:
                                res.append(dict(env=env, args=args, message=msg))
                        elif l.startswith('SAMPLE ') and len(s.samples) < 6:
                            s.samples.append('%s %s: %s' % (' '.join('%s=%s' % x for x in env.items()), ' '.join(map(str, args)), l[7:]))
                        elif l.startswith('DONE '):
                            a, b = l.split()[1:3]
                            s.cases += int(a)
                            s.nontriv += int(b)
        ts = [threading.Thread(target=work) for _ in range(4)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        s.fails += res
        return res

    def environ(s, deep):
        """C22: option values the program ends up with, for generated environments, against the documented interpretation"""
        import re
        if not s.wb:
            return []
        rnd = random.Random(SEED * 7 + deep)

        def atoi(t, bits=32):
            m = re.match(r'[ \t\n\v\f\r]*([+-]?\d+)', t)
            v = int(m.group(1)) if m else 0
            lim = (1 << 63) - 1
            v = max(-lim - 1, min(lim, v))
            if bits == 32:
                v = (v + (1 << 31)) % (1 << 32) - (1 << 31)
            return v
        D = dict(ALIGNMENT=1, PROTECT_BELOW=0, REPORT_ALL_LEAKS=0, PROTECT_FREE=-1, MAX_ALLOC=-1, MALLOC_0_STRATEGY=3, NEW_0_STRATEGY=3, MALLOC_FAILEXIT=1, FREE_ACCESS=0,
                 FILL=255, SLACKFILL=170, SHOW_ALLOC=0, SUPPRESS_ATEXIT=0, MEMCPY_OVERLAP=0, SKIPCOUNT_INIT=0, CHECK_FREQ=0, DISABLE_BANNER=0, OUTPUT_STDOUT=0, OUTPUT_STDERR=1,
                 OUTPUT_DEBUG=0, OUTPUT_STACKTRACE=0, OUTPUT_FILE='(null)', OUTPUT_STACKTRACE_MAPFILE='(null)')
        BOOL = 'PROTECT_BELOW REPORT_ALL_LEAKS MALLOC_FAILEXIT FREE_ACCESS SHOW_ALLOC SUPPRESS_ATEXIT MEMCPY_OVERLAP DISABLE_BANNER OUTPUT_STDOUT OUTPUT_STDERR OUTPUT_DEBUG OUTPUT_STACKTRACE'.split()

        def expect(env):
            x = dict(D)
            for k, v in env.items():
                if not k.startswith('DUMA_') or k[5:] not in D:
                    continue
                o = k[5:]
                if o in BOOL:
                    x[o] = int(atoi(v) != 0)
                elif o in ('PROTECT_FREE', 'MAX_ALLOC'):
                    x[o] = atoi(v, 64)
                elif o == 'ALIGNMENT':
                    x[o] = atoi(v) or 1
                elif o == 'FILL':
                    f = atoi(v)
                    x[o] = -1 if f == -1 else f & 255
                elif o == 'SLACKFILL':
                    x[o] = atoi(v) & 255
                elif o == 'MALLOC_0_STRATEGY':
                    if 0 <= atoi(v) <= 3:
                        x[o] = atoi(v)
                elif o == 'NEW_0_STRATEGY':
                    if 2 <= atoi(v) <= 3:
                        x[o] = atoi(v)
                elif o == 'SKIPCOUNT_INIT':
                    x[o] = atoi(v)
                elif o == 'CHECK_FREQ':
                    if atoi(v) > 0:
                        x[o] = atoi(v)
                elif o in ('OUTPUT_FILE', 'OUTPUT_STACKTRACE_MAPFILE'):
                    x[o] = v
            return x
        VALS = ['0', '1', '-1', '2', '3', '4', '8', '16', '255', '256', '257', '-2', '511', '', 'abc', ' 5', '+7', '0x10', '10kB', '2147483647', '4294967296', '99999', '-300', '1 2', '-0', '00', '0001']
        cases = []
        names = sorted(D)
        for k in names:     # one variable, every value
            vals = ['/dev/null', 'x'] if k.startswith('OUTPUT_') and k.endswith('FILE') else VALS
            for v in vals:
                cases.append({'DUMA_' + k: v})
            for nm in ('DUMA_' + k + 'X', 'DUMA_' + k[:-1], 'XDUMA_' + k, k if k not in ('MALLOC_0_STRATEGY', 'NEW_0_STRATEGY') else 'x' + k, 'DUMA_' + k.lower(), 'DUMA_' + k + '_'):
                for v in (['/dev/null'] if k.endswith('FILE') else ['0', '2', '1']):
                    cases.append({nm: v})
        for _ in range(600 if deep or TIER == 'thorough' else 200):
            e = {}
            for k in rnd.sample(names, rnd.randint(1, 12)):
                e['DUMA_' + k] = rnd.choice(['/dev/null', '/tmp'] if k.endswith('FILE') else VALS)
                if rnd.random() < 0.3:
                    e['DUMA_' + k + rnd.choice('X_1')] = rnd.choice(VALS)
            cases.append(e)
        if not (deep or TIER == 'thorough'):
            rnd.shuffle(cases)
            cases = cases[:500]
        out = []
        for e in cases:
            x = expect(e)
            f = dict(e)
            if 'DUMA_SHOW_ALLOC' not in f and rnd.random() < 0.5:
                pass
            env = dict(f)
            if 'DUMA_DISABLE_BANNER' not in env:
                env['DUMA_DISABLE_BANNER'] = '1'
                x['DISABLE_BANNER'] = 1
            rc, o, err = s.one(env, ['options', 1], 20)
            s.runs += 1
            s.cases += 1
            m = re.search(r'OPTIONS (.*)', o)
            if not m:
                # the process's own first allocations are refused, as documented
                if x['ALIGNMENT'] < 0 or x['ALIGNMENT'] & (x['ALIGNMENT'] - 1) or x['MALLOC_0_STRATEGY'] == 0 or x['MAX_ALLOC'] >= 0:
                    continue
                out.append(dict(env=env, args=['options', 1], message='no options reported (exit %s): %s' % (rc, err[-150:])))
                continue
            s.nontriv += 1
            got = {}
            t = m.group(1)
            for k in names:
                mm = re.search(r'(?:^| )%s=(.*?)(?= [A-Z_0-9]+=|$)' % k, t)
                got[k] = mm.group(1) if mm else None
            bad = [k for k in names if got[k] != str(x[k])]
            if bad:
                out.append(dict(env=env, args=['options', 1], message='; '.join('%s is %s, documented %s' % (k, got[k], x[k]) for k in bad)))
            if len(out) > 5:
                break
        s.samples.append('environment %r' % (cases[0],))
        return out


# ------------------------------------------------------------------ deductive part
def spec_list():
    out = []
    for m in MODULES:
        mod = importlib.import_module('specs.' + m)
        for sp in mod.SPECS:
            props = sp[4] if len(sp) > 4 else mod.PROPS
            if PROP in props and not (TIER == 'quick' and sp[0] in getattr(mod, 'THOROUGH', ())):
                unit = sp[3] if len(sp) > 3 else getattr(mod, 'UNIT', 'duma')
                out.append((m, (sp[0], sp[1], sp[2], unit)))
    return out


def deductive(src, log):
    from vc import par
    from vc.ir import Module
    from vc.unit import run_spec, Result
    specs = spec_list()
    if not specs:
        return []
    units = {}
    for m, sp in specs:
        u = sp[3]
        if u not in units:
            try:
                units[u] = Module(unit_ir(src, u))
            except Exception as e:
                units[u] = e
    tasks = []
    names = []
    for m, sp in specs:
        u = units[sp[3]]
        names.append(sp[0])
        if isinstance(u, Exception):
            def bad(sp=sp, u=u):
                r = Result(sp[0])
                r.error = 'extraction: %s' % str(u)[-1500:]
                return r
            tasks.append(bad)
        else:
            tasks.append(lambda sp=sp, u=u: run_spec(u, (sp[0], sp[1], sp[2]), TIER, {PROP}))
    par.NPROC = 4 if len(tasks) > 2 else 8
    lim = 420 if TIER == 'quick' else 1500
    out = par.run(tasks, wall=lim, nproc=5)
    res = []
    for n, r in zip(names, out):
        if r is None or isinstance(r, tuple):
            x = Result(n)
            x.error = 'time limit of %d s' % lim if r is None else 'engine: %s' % r[1][-1500:]
            r = x
        res.append(r)
    return res


def unit_ir(src, u):
    if u == 'duma':
        return src.ir('src/duma.c')
    if u == 'duma_so':
        return src.ir('src/duma.c', so=True)
    if u == 'pp':
        return src.ir('src/dumapp.cpp')
    if u == 'print':
        return src.ir_varargs('src/print.c')
    if u == 'sem':
        return src.ir('src/sem_inc.c')
    raise KeyError(u)


# ------------------------------------------------------------------ reports
def findings():
    out = []
    try:
        for l in open(HERE + '/known_findings.txt'):
            l = l.strip()
            if l.startswith('finding: ') and ('property=%s ' % PROP) in l:
                out.append(l.split('match=', 1)[1].strip() if 'match=' in l else l)
    except OSError:
        pass
    return out


def write_replay(kind, content):
    d = HERE + '/evidence/replay'
    os.makedirs(d, exist_ok=True)
    p = '%s/%s.json' % (d, PROP)
    with open(p, 'w') as f:
        json.dump(dict(property=PROP, kind=kind, **content), f, indent=1)
    return p


def main():
    src = Source()
    ex = Exerciser(src)
    box = {}

    def exrun():
        try:
            ex.build()
            box['fails'] = ex.go()
        except Exception:
            box['exc'] = traceback.format_exc()
    th = threading.Thread(target=exrun)
    ded_err = None
    # the solver pool forks: do that from a single-threaded helper process
    rp, wp = os.pipe()
    pid = os.fork()
    if pid == 0:
        import pickle
        os.setpgid(0, 0)
        os.close(rp)
        try:
            src.owner = -1
            r = deductive(src, None)
        except BaseException:
            r = traceback.format_exc()
        with os.fdopen(wp, 'wb') as f:
            pickle.dump(r, f)
        os._exit(0)
    os.close(wp)
    th.start()
    import pickle
    data, stop = b'', None
    while True:
        if stop is None and not th.is_alive() and any(not any(k in f['message'] for k in findings()) for f in box.get('fails', [])):
            stop = time.time() + GRACE     # a failing input decides the run: the proofs under way get this long to end
        if select.select([rp], [], [], 1.0)[0]:
            d = os.read(rp, 1 << 20)
            if not d:
                break
            data += d
        elif stop is not None and time.time() > stop:
            os.killpg(pid, signal.SIGKILL)
            break
    os.close(rp)
    try:
        res = pickle.loads(data)
    except Exception:
        res = 'the deductive part died' if stop is None else 'stopped: a failing input was found'
    os.waitpid(pid, 0)
    th.join()
    if isinstance(res, str):
        ded_err, res = res, []
    obs = [o for r in res for o in r.obs]
    discharged = [o for o in obs if o['res'] == 'unsat']
    sat = [o for o in obs if o['res'] == 'sat']
    unk = [o for o in obs if o['res'] not in ('unsat', 'sat')]
    errors = [(r.name, r.error) for r in res if r.error]
    vac = [(r.name, n) for r in res for n, ok in r.covers if not ok]
    fails = box.get('fails', [])
    known = findings()
    listed, new = [], []
    for f in fails:
        (listed if any(k in f['message'] for k in known) else new).append(f)
    replayed = 0
    if (sat or unk or errors or vac or ded_err) and not new:
        # an obligation is not discharged: look for a failing input on the real code, more deeply
        extra = replay_runs(sat + unk)
        if extra:
            replayed = len(extra)
            new += [f for f in ex.go(True, extra) if not any(k in f['message'] for k in known)]
        if not new:
            new += [f for f in ex.go(True) if not any(k in f['message'] for k in known)]
    viol = 0
    verdict = 'held'
    for l in listed[:1]:
        note('KNOWN-FINDING: property=%s %s' % (PROP, l['message']))
    failed = [dict(obligation=o['name'], function=o['fn'], line=o['line'], result=o['res'], model=o['model'], reason=o['reason']) for o in sat + unk]
    if new:
        viol = len(new)
        verdict = 'violated'
        p = write_replay('input', dict(how='python3-vt %s/replay.py <this file>  (rebuilds the exerciser from /repo and runs the listed commands)' % HERE,
                                       failures=new[:10], failed_obligations=failed[:20]))
        note('failing input: %s' % new[0]['message'])
        note('VIOLATION property=%s replay=%s' % (PROP, p))
    elif sat:
        viol = len(sat)
        verdict = 'violated'
        p = write_replay('obligation', dict(failed_obligations=failed[:20], note='the verifier refutes these obligations; no failing input was found by the bounded exerciser'))
        note('failed obligation: %s (%s:%s)' % (sat[0]['name'], sat[0]['fn'], sat[0]['line']))
        note('VIOLATION property=%s replay=%s no-failing-input-found' % (PROP, p))
    complete = bool(obs) and len(discharged) == len(obs) and not errors and not vac and not ded_err
    if not ex.exe:
        note('exerciser not available: %s' % (ex.err or box.get('exc', ''))[-800:])
        if not complete and verdict == 'held':
            verdict = 'no answer'
    for r in res:
        note('%s: %d obligations, %d discharged, %.1f s%s' % (r.name, len(r.obs), sum(o['res'] == 'unsat' for o in r.obs), r.wall, ', ' + r.error.strip().splitlines()[-1] if r.error else ''))
    for o in unk:
        note('undecided: %s (%s:%s) %s' % (o['name'], o['fn'], o['line'], o['reason']))
    if ded_err:
        note('deductive part: ' + ded_err[-1500:])
    if vac:
        note('vacuous: %r' % vac)
    if not complete and verdict == 'held':
        note('not every obligation was discharged: this run is a bounded check only (%d cases)' % ex.cases)
    solvers = {}
    for o in discharged:
        solvers[o['solver']] = solvers.get(o['solver'], 0) + 1
    fns = sorted({f for r in res for f in r.inlined})
    cov = dict(obligations=len(obs) + sum(r.inv_obs for r in res), discharged=len(discharged) + sum(r.inv_obs for r in res),
               property_obligations=len(obs), loop_invariant_obligations=sum(r.inv_obs for r in res),
               by_backend=solvers, solver_seconds=round(sum(o['time'] for o in obs) + sum(r.solver_s for r in res), 1),
               functions_verified=fns, specifications=[r.name for r in res], contracts_used=sorted({c for r in res for c in r.contracts}),
               undischarged=[(o['name'], o['res'], o['reason']) for o in sat + unk], errors=[(a, b[-300:]) for a, b in errors], vacuous=vac,
               bounded_only=not complete or not obs, not_under_contract_bounded_by_exerciser=plan.BOUNDED.get(PROP, []), checker_cmd='python3-vt /verif/check.py %s  (z3 5.3.2, cvc5 1.1.2)' % PROP,
               trusted_base=plan_trust(PROP, res), evaluations=ex.cases, distinct_nontrivial=ex.nontriv,
               rule='concrete cases on the compiled code (bounded cross-check): ' + 'see DESIGN.md, exerciser; non-trivial: at least one block or region was compared', samples=ex.samples[:6],
               exerciser_runs=ex.runs, replayed_models=replayed, verdict=verdict,
               obligation_list=[dict(name=o['name'], fn=o['fn'], line=o['line'], res=o['res'], by=o['solver'], s=o['time']) for o in obs][:400])
    lev = 'proof' if PROP in LEVEL_PROOF else 'exploration'
    os.makedirs(HERE + '/evidence', exist_ok=True)
    with open('%s/evidence/%s.json' % (HERE, PROP), 'w') as f:
        json.dump(dict(property=PROP, tier=TIER, seed=SEED, level=lev, coverage=cov, assumptions=sorted({a for r in res for a in r.assumptions}),
                       wall_s=round(time.time() - T0, 2), violations=viol), f, indent=1)
    note('%s: %s, %d/%d obligations discharged, %d concrete cases, %.1f s' % (PROP, verdict, len(discharged), len(obs), ex.cases, time.time() - T0))
    src.close()
    return 1 if verdict == 'violated' else 2 if verdict == 'no answer' else 0


LEVEL_PROOF = set()
try:
    LEVEL_PROOF = {c['property'] for c in json.load(open(HERE + '/MANIFEST.json'))['checks'] if c['level'] == 'proof'}
except Exception:
    pass


def plan_trust(prop, res):
    t = ['clang 18 front end at -O0 and opt sroa/loop-simplify/lcssa produce IR equivalent to the code that runs (LP64, static configuration)',
         'the IR-to-logic translation in /verif/vc (cross-checked by the exerciser on the compiled code)', 'z3 and cvc5']
    t += sorted({'assumed contract: ' + c for r in res for c in r.contracts if c in ASSUMED})
    return t


ASSUMED = {'mmap', 'mprotect', 'munmap', 'strlen', 'DUMA_Abort', '_duma_assert', '_exit', 'pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_mutex_trylock', 'pthread_self', 'getenv', 'atoi', 'atol'}


def replay_runs(sat):
    """exerciser runs that replay the verifier's counterexamples"""
    K = ['memcpy', 'memmove', 'strcpy', 'strncpy', 'strcat', 'strncat']
    out = []
    if PROP in ('C19', 'C20'):
        for o in sat:
            m = o['model'] or {}
            fn = (o['fn'] or '').split(' ')[0].replace('_duma_', '')
            if fn in K and (o['kind'] == 'measure' or o['res'] != 'sat' or any(isinstance(v, int) and 1 << 31 <= v < 1 << 36 for v in m.values())):
                k = K.index(fn)
                for L in (0x80000005, 0x100000005):
                    if ({}, 'bigstr', 2 * k, L) not in out:
                        out.append(({}, 'bigstr', 2 * k, L))
    return out[:8]


if __name__ == '__main__':
    sys.exit(main())
