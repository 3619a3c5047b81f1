"""Offline: which loop invariants and which hypotheses suffice for the obligations of a specification.
Writes specs/hints.json.  Hints only order the search; a check proves everything again.
usage: learn.py module 'spec name' [seconds per query]"""
import sys, os, json, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import importlib
from vc import sym, loops, unit, extract
from vc.ir import Module

PATH = os.path.join(HERE, 'specs', 'hints.json')


def main():
    import tempfile, shutil
    S = importlib.import_module('specs.' + sys.argv[1])
    secs = int(sys.argv[3]) if len(sys.argv) > 3 else 60
    passes = int(sys.argv[4]) if len(sys.argv) > 4 else 3
    mods = {}
    for sp in S.SPECS:
        if sys.argv[2] not in ('all', sp[0]):
            continue
        unitn = sp[3] if len(sp) > 3 else getattr(S, 'UNIT', 'duma')
        mod = mods.setdefault(unitn, Module(open('/tmp/w/%s.opt.ll' % unitn).read()))
        for k in range(passes):
            last = k == passes - 1
            sym.LEARN = 0 if last else secs
            unit._hints = None
            loops.DEBUG = 1
            t = time.time()
            r = unit.run_spec(mod, sp[:3], 'quick' if last else 'thorough', None)
            bad = [o for o in r.obs if o['res'] != 'unsat']
            print('== %s pass %d: %.1f s, %d obligations, %d not discharged, %s, degraded %s' % (sp[0], k, time.time() - t, len(r.obs), len(bad), r.error or '', r.degraded))
            for o in bad:
                print('   ', o['res'], o['line'], o['tags'], o['name'], o['reason'] or '', o['model'] if o['res'] == 'sat' else '')
            print('    cover', r.covers)
            sys.stdout.flush()
            if last:
                break
            h = json.load(open(PATH)) if os.path.exists(PATH) else {}
            e = h.setdefault(sp[0], {'loops': {}, 'q': {}})
            e['loops'].update(r.kept)
            e['q'].update({a: b for a, b in r.learned.items()})
            with open(PATH + '.new', 'w') as f:
                json.dump(h, f, indent=0, sort_keys=True)
            os.rename(PATH + '.new', PATH)


main()
