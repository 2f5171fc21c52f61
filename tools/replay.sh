#!/bin/bash
# replays a counterexample file written by check.py against /repo's current tree
set -e
here=$(cd "$(dirname "$0")" && pwd)
python3 - "$1" "$here" <<'PY'
import json, subprocess, sys, tempfile, os
d = json.load(open(sys.argv[1])); v = os.path.dirname(sys.argv[2])
san = 'address,shift-exponent,signed-integer-overflow,integer-divide-by-zero,float-cast-overflow,unreachable,return,bool'
with tempfile.TemporaryDirectory() as t:
    exe = t + '/replay'
    pre = ['-include', v + '/harness/' + d['include']] if d.get('include') else []
    ill = d['kind'] == 'ill-formed'
    rc = subprocess.call(['clang++', '-std=' + d['std'], '-O1', '-g', '-fsanitize=' + san, '-fno-sanitize-recover=all', '-fno-strict-aliasing', '-ftrivial-auto-var-init=pattern',
        '-I/repo/include', '-I/repo', '-I' + v + '/harness', '-w', '-DNAZARA_DEBUG'] + d['defs'] + pre + [d['harness'], v + '/harness/replay_rt.cpp', '-rdynamic', '-ldl', '-o', exe])
    if ill or rc: print('compiler exit', rc); sys.exit(rc)
    r = subprocess.run([exe, d['entry']], input='\n'.join(map(str, d['inputs'])) + '\n', text=True)
    print('exit', r.returncode)
PY
