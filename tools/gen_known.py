#!/usr/bin/env python3
"""Rewrites the "fixed:" lines of known_findings.txt from the fix commits of /repo (run by hand when a fix is committed)."""
import subprocess
P = {'operator< compared': 'B05', 'BitIterator': 'B04', 'AppendBits': 'B07,B03', 'Bitset::Write': 'B07', 'Bitset built from': 'B03,B06', 'moved-from Bitset': 'B03,B08',
     'assignment lost': 'V01,V03,V04', 'insertion and resize': 'V01,V03', 'destroyed unconstructed': 'V02,V04', 'moved-from StackVector': 'V05,V06', 'StackVector insertion': 'V05',
     'CountBits': 'M01', 'IntegralLog2': 'M05', 'NumberEquals': 'M06', 'SwapBytes': 'M02', 'Align overflowed': 'M04', 'AlignPow2': 'M04', 'Approach': 'M06', 'SafeCast': 'M07', 'FNV1a': 'H02'}
import json, os
extra = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'fixes.json')
if os.path.exists(extra): P.update(json.load(open(extra)))
out = ['# Genuine defects of the code found by the checks.',
       '# "fixed: property=<id> <commit> <what failed>": repaired in /repo; suppresses nothing.',
       '# \'KNOWN-FINDING: property=<id> entry=<entry> msg="<assertion>" <what fails>\': not repaired (none at present).']
for l in reversed(subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()):
    h, s = l.split(' ', 1)
    if not s.startswith('fix: '): continue
    k = [v for p, v in sorted(P.items(), key=lambda x: -len(x[0])) if p in s]
    assert k, s
    for p in k[0].split(','): out.append('fixed: property=%s %s %s' % (p, h, s[5:]))
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'known_findings.txt'), 'w').write('\n'.join(out) + '\n')
