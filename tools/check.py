#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough] [--only entry-substring]

Decides one property: compiles the harnesses /verif/harness/<PROPERTY>*.cpp together with the headers of
/repo's working tree to LLVM bitcode, executes every entry symbolically with build/nzsym (all paths, all
values within the harness bounds, SMT for every branch and assertion), replays each counterexample natively
(g++/clang++ with ASan+UBSan) and reports it only if the real code reproduces it, and writes evidence/<PROPERTY>.json.
"""
import sys, os, re, json, time, subprocess, fcntl, hashlib, random, resource, signal, shutil
from concurrent.futures import ThreadPoolExecutor, as_completed

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('NZ_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
JOBS = max(1, min(8, os.cpu_count() or 1))

SAN = 'shift-exponent,signed-integer-overflow,integer-divide-by-zero,float-cast-overflow,unreachable,return,bool'
MEM_LIMIT = 5 << 30

def sh(cmd, timeout=None, inp=None, mem=None, cwd=None):
    def pre():
        os.setpgrp()
        if mem: resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    p = subprocess.Popen(cmd, stdin=subprocess.PIPE if inp is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=pre, cwd=cwd, text=True, errors='replace')
    try:
        o, e = p.communicate(inp, timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        o, e = p.communicate()
        return 'timeout', o, e

def die(msg):
    print('ERROR: ' + msg); sys.stdout.flush(); sys.exit(2)

def engine():
    os.makedirs(BUILD, exist_ok=True)
    exe = os.path.join(BUILD, 'nzsym')
    h = hashlib.sha256()
    for f in sorted(os.listdir(os.path.join(VERIF, 'engine'))):
        h.update(open(os.path.join(VERIF, 'engine', f), 'rb').read())
    stamp = exe + '.stamp'
    with open(os.path.join(BUILD, 'lock'), 'w') as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        if not (os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == h.hexdigest()):
            rc, o, e = sh(['bash', os.path.join(VERIF, 'engine', 'build.sh'), exe], timeout=900)
            if rc != 0: die('the symbolic executor does not build: ' + e[-2000:])
            open(stamp, 'w').write(h.hexdigest())
    return exe

class Unit:  # one harness file in one variant
    def __init__(self, src, name, std, defs, pre, quick):
        self.src, self.name, self.std, self.defs, self.pre, self.quick = src, name, std, defs, pre, quick
        self.bc = self.native = self.native2 = None
        self.entries = []

def units_for(prop, tier):
    hd = os.path.join(VERIF, 'harness')
    us, bounds, assume = [], [], []
    for f in sorted(os.listdir(hd)):
        if not (re.match(re.escape(prop) + r'[a-z_]*\.cpp$', f)): continue
        txt = open(os.path.join(hd, f)).read()
        bounds += re.findall(r'^// BOUNDS: (.*)$', txt, re.M)
        assume += re.findall(r'^// ASSUMES: (.*)$', txt, re.M)
        variants = re.findall(r'^// VARIANT: (.*)$', txt, re.M) or ['main']
        for v in variants:
            w = v.split()
            std, defs, pre, quick = 'c++17', [], None, True
            for x in w[1:]:
                if x.startswith('std='): std = x[4:]
                elif x == 'consteval': pre = 'consteval.hpp'
                elif x == 'thorough': quick = False
                else: defs.append('-D' + x)
            if tier == 'quick' and not quick: continue
            if tier == 'thorough': defs.append('-DTHOROUGH')
            us.append(Unit(os.path.join(hd, f), f[:-4] + '-' + w[0], std, defs, pre, quick))
    return us, bounds, assume

def common_flags(u):
    fl = ['-std=' + u.std, '-I' + REPO + '/include', '-I' + REPO, '-I' + VERIF + '/harness', '-w', '-DNAZARA_DEBUG'] + u.defs
    if u.pre: fl += ['-include', os.path.join(VERIF, 'harness', u.pre)]
    return fl

def compile_bc(u, work):
    raw = os.path.join(work, u.name + '.raw.bc'); out = os.path.join(work, u.name + '.bc')
    rc, o, e = sh(['clang++', '-O1', '-Xclang', '-disable-llvm-passes', '-gline-tables-only', '-include', os.path.join(VERIF, 'harness', 'pre.hpp'),
                   '-fsanitize=' + SAN, '-fsanitize-trap=all', '-fno-strict-aliasing', '-fno-threadsafe-statics'] + common_flags(u) +
                  ['-emit-llvm', '-c', u.src, '-o', raw], timeout=600)
    if rc != 0: return 'clang++: %s' % e[:20000]
    rc, o, e = sh(['opt', '-passes=function(mem2reg,simplifycfg)', raw, '-o', out], timeout=300)
    if rc != 0: return 'opt: %s' % e[-1000:]
    rc, o, e = sh(['llvm-nm', out], timeout=60)
    u.entries = sorted(set(re.findall(r' T (entry_\w+)$', o, re.M)))
    u.bc = out
    return None

def compile_native(u, work, cxx='g++'):
    out = os.path.join(work, u.name + '.' + cxx)
    san = SAN if cxx == 'clang++' else SAN.replace('shift-exponent', 'shift-exponent')
    cmd = [cxx, '-O1', '-g', '-fsanitize=address,' + san, '-fno-sanitize-recover=all', '-fno-strict-aliasing',
           '-ftrivial-auto-var-init=pattern'] + common_flags(u) + [u.src, os.path.join(VERIF, 'harness', 'replay_rt.cpp'), '-rdynamic', '-ldl', '-o', out]
    rc, o, e = sh(cmd, timeout=600)
    if rc != 0: return None, '%s: %s' % (cxx, e[-3000:])
    return out, None

RC = {77: 'assertion', 79: 'leak', 80: 'abort/signal', 81: 'AddressSanitizer', 82: 'UBSan'}

def replay(exe, entry, inputs, timeout=20, fill=None):
    env_fill = ['env', 'REPLAY_FILL=%s' % fill] if fill is not None else ['env']
    rc, o, e = sh(env_fill + [exe, entry], timeout=timeout, inp='\n'.join(str(x) for x in inputs) + '\n')
    if rc == 1 and ('AddressSanitizer' in e or 'runtime error' in e): rc = 81
    notes = [int(x) for x in re.findall(r'^NOTE (\d+)$', o, re.M)]
    return rc, o, e, notes

def main():
    prop = sys.argv[1]
    if prop == '--setup': engine(); return 0
    tier = os.environ.get('VERIF_TIER', 'quick')
    only = None
    a = sys.argv[2:]
    while a:
        if a[0] == '--tier': tier = a[1]; a = a[2:]
        elif a[0] == '--only': only = a[1]; a = a[2:]
        else: die('bad argument ' + a[0])
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    rng = random.Random(seed)
    t0 = time.time()
    budget = float(os.environ.get('NZ_BUDGET', 600 if tier == 'quick' else 6 * 3600))
    exe = engine()
    units, bounds, assume = units_for(prop, tier)
    if not units: die('no harness for ' + prop)
    work = os.path.join(BUILD, '%s-%s-%d' % (prop, tier, os.getpid()))
    shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    try:
        rc = run(prop, tier, seed, rng, t0, budget, exe, units, bounds, assume, work, only)
    finally:
        if not os.environ.get('NZ_KEEP'): shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)

def run(prop, tier, seed, rng, t0, budget, exe, units, bounds, assume, work, only):
    quick = tier == 'quick'
    deadline = t0 + budget
    dumpdir = os.path.join(work, 'smt'); os.makedirs(dumpdir)
    results, errors = {}, []
    natives = {}
    broken = []  # harness units which the compiler rejects
    with ThreadPoolExecutor(JOBS) as ex:
        # bitcode first, then the symbolic runs and the native builds share the pool
        futs = {ex.submit(compile_bc, u, work): u for u in units}
        natf = {}
        jobs = []
        for f in as_completed(futs):
            u = futs[f]; err = f.result()
            if err: broken.append((u, err)); continue
            for en in u.entries:
                if en.startswith('entry_T_') and quick: continue
                if only and only not in en: continue
                jobs.append((u, en))
        # heavy entries (declared with the prefix entry_H_) first
        jobs.sort(key=lambda j: (not j[1].startswith('entry_H_'), j[0].name, j[1]))
        def one(u, en):
            left = deadline - time.time() - 40
            if left < 5: return None
            if quick: left = min(left, 300) # one entry that explodes leaves time for the others
            out = os.path.join(work, '%s.%s.json' % (u.name, en))
            cmd = [exe, u.bc, '--entry', en, '--out', out, '--time', str(int(left)), '--steps', str(20000000 if quick else 80000000),
                   '--max-viol', '4', '--full-ms', '60000' if quick else '600000', '--quick-ms', '4000', '--traces', '3' if quick else '8',
                   '--dump', os.path.join(dumpdir, u.name + '.' + en), '--dump-every', '200' if quick else '50']
            os.makedirs(os.path.join(dumpdir, u.name + '.' + en), exist_ok=True)
            rc, o, e = sh(cmd, timeout=left + 30, mem=MEM_LIMIT)
            if not os.path.exists(out): return {'status': 'error', 'why': 'executor ended with %s: %s' % (rc, (e or o)[-300:]), 'violations': [], 'paths': 0, 'asserts': 0}
            try: return json.load(open(out))
            except Exception as x: return {'status': 'error', 'why': 'bad executor output: %s' % x, 'violations': [], 'paths': 0, 'asserts': 0}
        sf = {}
        need = {}
        for u, en in jobs:
            sf[ex.submit(one, u, en)] = (u, en); need[u.name] = u
        for u in need.values(): natf[u.name] = ex.submit(compile_native, u, work, 'clang++')
        for f in as_completed(sf): results[(sf[f][0].name, sf[f][1])] = f.result()
        for n, f in natf.items():
            p, err = f.result()
            if err: die('native replay of %s does not build: %s' % (n, err))
            natives[n] = p

    known = []
    kf = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(kf):
        for l in open(kf):
            m = re.match(r'KNOWN-FINDING: property=(\S+) entry=(\S+) msg="([^"]*)"\s*(.*)$', l)
            if m and m.group(1) == prop: known.append((m.group(2), m.group(3), m.group(4)))

    byname = {u.name: u for u in units}
    # A harness only uses the public interface in the ways the property speaks of: an error inside the library's own headers
    # means that such a use has no meaning any more. Any other compilation error is no verdict.
    illformed = []
    for u, err in broken:
        m = re.search(r'(?:^|clang\+\+: )(/\S+?):(\d+):\d+: (?:fatal )?error: (.*)$', err, re.M)
        if m and m.group(1).startswith(os.path.join(VERIF, 'harness')): m = None
        if m: illformed.append((u, m, err))
        else: errors.append('harness %s does not compile against %s: %s' % (u.name, REPO, err[:3000]))
    reported, unrepro, hitknown = [], [], []
    tot = dict(paths=0, steps=0, forks=0, asserts=0, asserts_folded=0, queries=0, sat=0, unsat=0, unknown=0, external_queries=0, solver_s=0.0)
    functions, lines, entries_ev, samples = set(), set(), [], []
    validated = mismatched = 0
    incomplete = []
    for (un, en), r in sorted(results.items(), key=lambda x: x[0]):
        u = byname[un]
        if r is None: incomplete.append('%s/%s: not started within the time budget' % (un, en)); continue
        for k in tot: tot[k] += r.get(k, 0)
        functions.update('%s: %s' % (f, n) for f, ns in r.get('functions', {}).items() for n in ns); lines.update('%s:%d' % (f, n) for f, ns in r.get('lines', {}).items() for n in ns)
        entries_ev.append({'entry': en, 'unit': un, 'status': r['status'], 'paths': r.get('paths', 0), 'asserts': r.get('asserts', 0), 'assertion_sites': len(r.get('assert_sites', {})),
                           'queries': r.get('queries', 0), 'solver_s': round(r.get('solver_s', 0), 3), 'wall_s': round(r.get('wall_s', 0), 3)})
        if r['status'] not in ('complete', 'stopped'):
            incomplete.append('%s/%s: %s (%s)' % (un, en, r['status'], str(r.get('why', ''))[:300]))
        elif not r['violations'] and (r.get('paths', 0) == 0 or (r.get('asserts', 0)) == 0):
            errors.append('%s/%s is vacuous: %d paths, %d assertions' % (un, en, r.get('paths', 0), r.get('asserts', 0)))
        # counterexamples
        seen = set()
        for v in r['violations']:
            key = (v['kind'], v['msg'], v.get('loc', ''))
            if key in seen: continue
            ok = confirm(u, en, v, natives, work)
            if ok is None:
                unrepro.append('%s/%s: %s: %s at %s (inputs %s)' % (un, en, v['kind'], v['msg'], v.get('loc', ''), v.get('inputs')))
                continue
            seen.add(key)
            k = [x for x in known if x[0] == en and x[1] == v['msg']]
            if k: hitknown.append((k[0], en)); continue
            reported.append((un, en, v, ok))
        # sampled completed paths, replayed against the real code
        for t in r.get('traces', []):
            if not t.get('normal', True): continue
            rc, o, e, notes = replay(natives[un], en, t['inputs'])
            if rc == 0 and notes == [int(x) & (2**64 - 1) for x in t['notes']]: validated += 1
            elif rc in RC:
                v = {'kind': 'native', 'msg': (re.findall(r'REPLAY-(?:FAIL|CRASH): (.*)', o) or [e[:200]])[0], 'loc': '', 'inputs': t['inputs'], 'names': t.get('names', []), 'trace': ''}
                k = [x for x in known if x[0] == en and x[1] == v['msg']]
                if k: hitknown.append((k[0], en)); continue
                if any(x[0] == un and x[1] == en for x in reported): continue
                reported.append((un, en, v, (RC[rc], 'clang++', (o + e)[-1500:])))
            else:
                mismatched += 1
                unrepro.append('%s/%s: trace mismatch: native rc=%s notes=%s, symbolic notes=%s inputs=%s' % (un, en, rc, notes[:8], t['notes'][:8], t['inputs'][:40]))
            if len(samples) < 12: samples.append({'entry': en, 'inputs': t['inputs'][:24], 'observed': t['notes'][:8]})

    # second solver on sampled queries
    dumps = sorted((f, v) for r in results.values() if r for f, v in r.get('dumps', []))
    cross = crosscheck(dumps, rng, 24 if quick else 400, deadline)
    if cross['disagree']: errors.append('solvers disagree: %s' % cross['disagree'])

    # output
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    paths = []
    if reported:
        rd = os.path.join(BUILD, 'replay'); os.makedirs(rd, exist_ok=True)
        for i, (un, en, v, ok) in enumerate(reported[:20]):
            p = os.path.join(rd, '%s-%s-%d.json' % (prop, en, i))
            u = byname[un]
            json.dump({'property': prop, 'unit': un, 'harness': u.src, 'entry': en, 'std': u.std, 'defs': u.defs, 'include': u.pre, 'kind': v['kind'], 'message': v['msg'], 'where': v.get('loc', ''),
                       'inputs': v['inputs'], 'names': v.get('names', []), 'call_stack': v.get('trace', ''), 'confirmed_by': ok[0] + ' in a native ' + ok[1] + ' build', 'native_output': ok[2],
                       'replay': 'bash tools/replay.sh ' + p}, open(p, 'w'), indent=1)
            paths.append((p, en, v))
    for i, (u, m, err) in enumerate(illformed):
        rd = os.path.join(BUILD, 'replay'); os.makedirs(rd, exist_ok=True)
        p = os.path.join(rd, '%s-%s-illformed-%d.json' % (prop, u.name, i))
        v = {'kind': 'ill-formed', 'msg': 'a use covered by the property does not compile: ' + m.group(3), 'loc': '%s:%s' % (m.group(1), m.group(2)), 'inputs': []}
        json.dump({'property': prop, 'unit': u.name, 'harness': u.src, 'std': u.std, 'defs': u.defs, 'include': u.pre, 'kind': v['kind'], 'message': v['msg'], 'where': v['loc'], 'inputs': [], 'compiler_output': err}, open(p, 'w'), indent=1)
        paths.append((p, u.name, v))
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
          'coverage': {'states': tot['paths'], 'transitions': tot['steps'], 'traces_validated_against_impl': validated, 'samples': samples,
                       'exhaustive': not incomplete and not reported and not broken,
                       'explanation': 'states = symbolic paths run to their end (each covers every input value satisfying its path condition); transitions = LLVM instructions executed symbolically; traces = solver-chosen inputs of completed paths run natively with identical observations',
                       'assertions_decided': tot['asserts'], 'assertions_decided_by_rewriting': tot['asserts_folded'], 'branch_forks': tot['forks'],
                       'queries': tot['queries'], 'queries_sat': tot['sat'], 'queries_unsat': tot['unsat'], 'queries_unknown': tot['unknown'], 'queries_sent_to_z3new_or_cvc5': tot['external_queries'],
                       'solver_s': round(tot['solver_s'], 2), 'second_solver': {k: v for k, v in cross.items()},
                       'bounds': bounds, 'functions_encoded': sorted(functions), 'library_lines_executed': len(lines), 'entries': entries_ev,
                       'incomplete': incomplete, 'not_reproduced': unrepro, 'trace_mismatches': mismatched,
                       'known_findings_hit': sorted(set('%s: %s' % (k[0], k[2]) for k, _ in hitknown))},
          'assumptions': assume + ['clang 18 -O1 (no optimisation passes) lowering of the headers is faithful to the C++ the user compiles; x86-64 Linux, libstdc++ 13',
                                   'allocation always succeeds; each heap block has an arbitrary but fixed address', 'nzsym, Z3 4.8.12 (cross-checked on sampled queries with a second solver)'],
          'wall_s': round(time.time() - t0, 2), 'violations': len(paths)}
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    if os.environ.get('NZ_LINES'): json.dump(sorted(lines), open(os.environ['NZ_LINES'], 'w'))

    print('%s %s: %d entries, %d paths, %d assertions decided (%d by rewriting), %d queries (%d sat %d unsat %d unknown), solver %.1fs, %d traces validated natively, second solver %s, %.1fs' % (
        prop, tier, len(results), tot['paths'], tot['asserts'], tot['asserts_folded'], tot['queries'], tot['sat'], tot['unsat'], tot['unknown'], tot['solver_s'], validated,
        '%d/%d agree' % (cross['agree'], cross['checked']), time.time() - t0))
    for x in incomplete: print('INCOMPLETE: ' + x)
    for x in unrepro: print('NOT-REPRODUCED (not reported): ' + x[:600])
    for k in sorted(set(k for k, _ in hitknown)): print('KNOWN-FINDING: property=%s %s' % (prop, k[2]))
    for p, en, v in paths:
        print('  %s: %s: %s at %s, inputs %s' % (en, v['kind'], v['msg'], v.get('loc', ''), list(zip(v.get('names', []), v['inputs']))[:20] if v.get('names') else v['inputs'][:20]))
        print('VIOLATION property=%s replay=%s' % (prop, p))
    for x in errors: print('ERROR: ' + x)
    sys.stdout.flush()
    if paths: return 1
    if errors: return 2
    if results and all(r is None or r['status'] not in ('complete', 'stopped') for r in results.values()): return 2
    return 0

def confirm(u, en, v, natives, work):
    """replays a counterexample natively; returns (how, compiler, output) or None"""
    to = 20
    for fill in (None, '0', '255'):
        rc, o, e, _ = replay(natives[u.name], en, v['inputs'], to, fill)
        if rc in RC: return RC[rc], 'clang++', (o + e)[-3000:]
        if rc == 'timeout' and v['kind'] == 'nontermination': return 'timeout of %d s' % to, 'clang++', ''
        if isinstance(rc, int) and rc < 0: return 'signal %d' % -rc, 'clang++', (o + e)[-3000:]
    if u.native2 is None:
        u.native2, err = compile_native(u, work, 'g++')
        if err: u.native2 = False
    if u.native2:
        for fill in (None, '0', '255'):
            rc, o, e, _ = replay(u.native2, en, v['inputs'], to, fill)
            if rc in RC: return RC[rc], 'g++', (o + e)[-3000:]
            if rc == 'timeout' and v['kind'] == 'nontermination': return 'timeout of %d s' % to, 'g++', ''
    # reads of uninitialised memory, which neither sanitizer sees: valgrind
    if v['kind'] in ('uninit', 'uninitialised'):
        pass
    return None

def crosscheck(dumps, rng, n, deadline):
    """decides a sample of the queries of this run again with another solver"""
    rng.shuffle(dumps)
    res = {'solver': 'cvc5 1.1.2', 'checked': 0, 'agree': 0, 'timeout': 0, 'disagree': []}
    def one(d):
        if time.time() > deadline - 20: return None
        rc, o, e = sh(['cvc5', '--tlimit=6000', d[0]], timeout=9, mem=3 << 30)
        w = (o.split() or ['?'])[0]
        return d[0], d[1], w if w in ('sat', 'unsat') and '(error' not in o else '?'
    with ThreadPoolExecutor(JOBS) as ex:
        for r in ex.map(one, dumps[:n]):
            if r is None: continue
            if r[2] == '?': res['timeout'] += 1; continue
            res['checked'] += 1
            if r[1] == r[2]: res['agree'] += 1
            else: res['disagree'].append(os.path.basename(os.path.dirname(r[0])) + '/' + os.path.basename(r[0]))
    return res

main()
