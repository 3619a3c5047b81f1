#!/usr/bin/env python3-vt
"""replay.py <replay file>: rebuilds the exerciser from /repo's working tree and runs the recorded failing cases"""
import sys, json, os
f = json.load(open(sys.argv[1]))
sys.argv = ['check.py', f['property']]
import check
src = check.Source()
ex = check.Exerciser(src)
ex.build()
if not ex.exe:
    print(ex.err); sys.exit(2)
bad = 0
for x in f.get('failures', []):
    print(' '.join('%s=%s' % kv for kv in x['env'].items()), *x['args'])
    rc, out, err = ex.one(x['env'], x['args'])
    print(out[-3000:]); print(err[-1000:])
    bad |= ('FAIL ' + f['property']) in out or 'options' in x['args']
for o in f.get('failed_obligations', []):
    print('failed obligation:', json.dumps(o))
sys.exit(1 if bad else 0)
