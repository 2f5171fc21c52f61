#!/usr/bin/env python3
"""Rewrites MANIFEST.json: every property with a harness is claimed."""
import json, os, re
here = os.path.dirname(os.path.abspath(__file__)); verif = os.path.dirname(here)
props = [json.loads(l) for l in open(os.path.join(verif, 'properties.jsonl'))]
have = set(re.match(r'[A-Z][0-9]+', f).group(0) for f in os.listdir(os.path.join(verif, 'harness')) if re.match(r'[A-Z][0-9]+.*\.cpp$', f))
NA = {'T01': 'Types and constants computed by the compiler during translation (type lists, type names, traits): there is no executed code with inputs to encode, every instance is a closed constant the compiler itself decides, and the quantifier ranges over programs, not values.',
      'T02': 'Path conversions only forward to std::filesystem::path, whose code is in the pre-compiled libstdc++ (no IR to execute) and whose result depends on the platform encoding, so no property of the code of this repository remains to decide.'}
checks, na = [], []
for p in props:
    i = p['id']
    if i in have:
        txt = open(os.path.join(verif, 'harness', i + '.cpp')).read()
        bounds = ' '.join(re.findall(r'^// BOUNDS: (.*)$', txt, re.M))
        checks.append({'property': i, 'quick_cmd': 'python3 tools/check.py %s --tier quick' % i, 'thorough_cmd': 'python3 tools/check.py %s --tier thorough' % i,
                       'technique': 'symbolic execution of the LLVM IR of the real headers, Z3 deciding every branch and assertion over all inputs within bounds; counterexamples replayed natively',
                       'level': 'model_checking',
                       'level_note': 'Exhaustive within these bounds: %s. Trusts clang 18 lowering, the symbolic executor (its paths are re-run natively and compared) and Z3; memory errors, integer overflow, leaks and unexpected aborts are violations too.' % bounds.rstrip('. ')})
    else: na.append({'property': i, 'reason': NA.get(i, 'No check has been built yet.')})
json.dump({'version': 1, 'setup_cmd': 'python3 tools/check.py --setup', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks: the checks compile the headers of /repo as they are. See DESIGN.md.'}, open(os.path.join(verif, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', [x['property'] for x in na])
