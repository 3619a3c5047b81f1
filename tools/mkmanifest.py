"""writes MANIFEST.json from the list of claimed properties"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = ['C%02d' % i for i in range(1, 26)]
CLAIM = json.load(open(H + '/tools/claims.json'))   # property -> [level, note]
TECH = 'contract-based deductive verification: obligations generated from the LLVM IR of the current sources, discharged by z3/cvc5'
out = dict(version=1, setup_cmd='true', checks=[], not_applicable=[],
           notes='See DESIGN.md. Every check regenerates its obligations from /repo on every run; the exerciser (concrete, bounded) is a cross-check and the source of failing inputs.')
for p in PROPS:
    c = CLAIM.get(p)
    if c:
        out['checks'].append(dict(property=p, quick_cmd='python3-vt check.py ' + p, thorough_cmd='VERIF_TIER=thorough python3-vt check.py ' + p, technique=TECH, level=c[0], level_note=c[1]))
    else:
        out['not_applicable'].append(dict(property=p, reason='no contract discharged for it yet: the specification of the functions it depends on is not finished'))
json.dump(out, open(H + '/MANIFEST.json', 'w'), indent=1)
