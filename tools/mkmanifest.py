#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from contracts/*.py and the reasons below."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
SYM = ('the code that implements it computes with symengine (and isl) expressions; neither library is installed here, so what its functions return rests on behaviour that '
       'could only be assumed from an invented contract of the whole library, and nothing could be compiled or replayed on the real code')
NA = {p['id']: SYM for p in props if p['id'].startswith('X')}
NA['X08'] = 'the front ends need MLIR / Python build dependencies that are not installed, so their code can be neither extracted nor compiled here'
checks, na = [], []
for p in props:
    i = p['id']
    f = os.path.join(V, 'contracts', i + '.py')
    if os.path.exists(f):
        src = open(f).read()
        def const(n, d):
            m = re.search(r'^%s = (?:\(\s*)?((?:\s*[\'"].*[\'"]\s*\n?)+)' % n, src, re.M)
            return ' '.join(eval('(' + m.group(1) + ')').split()) if m else d
        checks.append(dict(property=i, quick_cmd='bin/check %s --tier quick' % i, thorough_cmd='bin/check %s --tier thorough' % i,
                           evidence_file='evidence/%s.json' % i, level=const('LEVEL', 'proof'),
                           technique=const('TECHNIQUE', 'contract-based deductive verification: contracts on the functions of /repo, VCs from the clang AST, discharged by z3/cvc5; failures replayed on the real code'),
                           level_note=const('NOTE', 'See DESIGN.md, section %s.' % i)))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no check built yet')))
json.dump(dict(version=1, setup_cmd='bin/setup', checks=checks, not_applicable=na), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
