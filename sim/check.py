#!/usr/bin/env python3
"""Decides one property by deterministic simulation:  check.py C01 [--tier quick|thorough]
Replays a reported violation:                         check.py replay FILE
Exit 0: held on everything explored. 1: violated (line VIOLATION). Anything else: no answer."""
import hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('TOK3N_REPO', '/repo')
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import pools

CORES = os.cpu_count() or 8
BASE = ['g++', '-std=c++20', '-w', '-g0', '-fno-pie', '-pthread']
INSTR = ['-O1', '-fsanitize=thread', '--param', 'tsan-instrument-func-entry-exit=0', '-fsanitize-coverage=trace-pc', '-I' + REPO + '/include']
WRAP = ['memcmp', 'memcpy', 'memmove', 'memset', 'memchr', 'strlen', 'wcslen', 'wmemcmp', 'wmemchr', 'memrchr', 'rawmemchr', 'strncmp', 'strcmp', 'strnlen', 'strchr', 'pthread_once', 'pthread_mutex_trylock', 'pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_rwlock_rdlock', 'pthread_rwlock_wrlock', 'pthread_rwlock_unlock']
ENGINE = ['engine.cpp', 'model.cpp', 'plan.cpp', 'main.cpp']

# episodes of 32 plans each
EPISODES = {'quick': 24000, 'thorough': 900000}
SCALE = {'C01': 0.55}
CAP = {'quick': 100, 'thorough': 600}

def say(*a):
    print(*a); sys.stdout.flush()

def run(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)

def compile_one(args):
    src, obj, extra, cwd = args
    try:
        r = run(BASE + extra + ['-c', src, '-o', obj], timeout=400, cwd=cwd)
    except subprocess.TimeoutExpired:
        return src, False, 'timeout'
    return src, r.returncode == 0, r.stderr.decode(errors='replace')

def build(prop, seed, tier, log):
    """Everything from /repo's working tree, in a directory of its own."""
    d = os.path.join(VERIF, 'build', '%s-%s-%d-%d' % (prop, tier, seed, os.getpid()))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for f in os.listdir(HERE):
        if f.endswith(('.h', '.cpp')): shutil.copy(os.path.join(HERE, f), d)
    grammars = pools.pool(prop, seed, tier)
    r = compile_one(('all.h', 'all.h.gch', INSTR + ['-x', 'c++-header'], d))
    if not r[1]:
        log('the library does not compile:\n' + r[2][:3000])
        return None
    names = []
    parts = pools.parts(grammars, 5)
    for i, part in enumerate(parts):
        n = 'u%03d.cpp' % i
        open(os.path.join(d, n), 'w').write(pools.unit(part))
        names.append(n)
    jobs = [(f, f + '.o', ['-O2'], d) for f in ENGINE] + [(n, n + '.o', INSTR, d) for n in names]
    ok, dropped, again = [], [], []
    with ThreadPoolExecutor(CORES) as ex:
        for src, good, err in ex.map(compile_one, jobs):
            if good: ok.append(src + '.o')
            elif src in ENGINE:
                log('%s does not compile:\n%s' % (src, err[:3000]))
                return None
            else: again += parts[int(src[1:4])]
        if again:
            # one by one, and written the other way if need be
            def single(g):
                for attempt in range(2):
                    if attempt:
                        g.style = 'pub' if 'style:raw' in g.feat else 'raw'
                        try: g.prepare(g.gi, pools.random.Random(g.gi))
                        except Exception: return g, None
                    n = 's%03d_%d.cpp' % (g.gi, attempt)
                    open(os.path.join(d, n), 'w').write(pools.unit([g]))
                    src, good, err = compile_one((n, n + '.o', INSTR, d))
                    if good: return g, n + '.o'
                return g, None
            for g, o in ex.map(single, again):
                if o: ok.append(o)
                else: dropped.append(g.name)
    if len(dropped) * 2 > len(grammars):
        log('most grammars do not compile: %s' % ' '.join(dropped[:20]))
        return None
    exe = os.path.join(d, 'sim')
    r = run(['g++', '-no-pie', '-pthread'] + sorted(ok) + ['-Wl,--wrap=' + w for w in WRAP] + ['-ldl', '-o', exe], cwd=d)
    if r.returncode:
        log('link failed:\n' + r.stderr.decode(errors='replace')[:3000])
        return None
    return d, exe, grammars, dropped

def known_findings(prop):
    path = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    out = []
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'known: property=(\S+) signature="(.*)" (.*)$', line.rstrip('\n'))
            if m and m.group(1) == prop: out.append((m.group(2), m.group(3)))
    return out

FAULTS = ['allocation failure', 'callback exception', 'comparison exception', 'value operation exception', 'nested parse']

def check(prop, tier, seed):
    t0 = time.time()
    problems = []
    def log(s): problems.append(s); print(s, file=sys.stderr); sys.stderr.flush()
    b = build(prop, seed, tier, log)
    if b is None: return 3
    d, exe, grammars, dropped = b
    t_build = time.time() - t0
    known = known_findings(prop)
    kfile = os.path.join(d, 'known.txt')
    open(kfile, 'w').write(''.join(s + '\n' for s, _ in known))
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    replay = os.path.join(VERIF, 'replays', '%s-%s-%d.txt' % (prop, tier, seed))
    if os.path.exists(replay): os.remove(replay)
    episodes = int(EPISODES[tier] * SCALE.get(prop, 1) * float(os.environ.get('SIM_SCALE', '1')))
    common = ['--prop', prop, '--seed', str(seed), '--tier', tier, '--known', kfile]
    # the same seeds again, spread over other processes, must be the same executions
    def search(n, workers, cap):
        r = run([exe, 'search'] + common + ['--episodes', str(n), '--workers', str(workers), '--cap', str(cap), '--out', d, '--replay', replay], timeout=cap + 300)
        if r.returncode not in (0, 1):
            raise RuntimeError('the search ended with %d\n%s' % (r.returncode, r.stderr.decode(errors='replace')[:2000]))
        return json.load(open(os.path.join(d, 'stats.json')))
    det = []
    try:
        for w in (3, 1):
            st = search(40, w, 60)
            det.append((st['digest'], st['episodes']))
            if st['violations']: break
        deterministic = len(det) < 2 or det[0] == det[1] or bool(st['timeouts'])
        if not st['violations']: st = search(episodes, CORES, CAP[tier])
    except subprocess.TimeoutExpired:
        log('the search did not end')
        return 4
    except RuntimeError as e:
        log(str(e))
        return 4
    show = '' if st['violations'] else run([exe, 'show', '--prop', prop, '--seed', str(seed), '--episode', '1', '--plans', '6', '--dump', '1'], timeout=200).stdout.decode(errors='replace')
    words, _, dump = show.partition('\nplan ')
    samples = [s[:900] for s in re.split(r'(?m)^(?=plan \d+$)', show) if s.strip()][:10] or [st['report']]
    used = {}
    for g in grammars:
        n = g.name.split(':')[0].split('_')[0].rstrip('0123456789')
        used[n] = used.get(n, 0) + 1
    secs = max(st['seconds'], 0.001)
    cov = {
        'evaluations': st['operations'],
        'distinct_nontrivial': st['distinct_nontrivial'],
        'rule': 'An evaluation is one call of parse or lookahead on a real parser inside the simulated world. Calls are grouped into plans (scenarios) generated from the seed; a plan is non-trivial '
                'if in it a fault fired, a nested call ran, a delivery fault (cut, loss, duplication, reordering, corruption, garbage, relocation, rewriting) was applied, or at least two calls were in flight '
                'at a task switch. Plans are distinct by the hash of everything observed while they ran (accesses to input, heap and globals, allocations, callbacks with arguments, switches, outcomes).',
        'samples': samples,
        'simulated_runs': st['plans'],
        'episodes': st['episodes'],
        'distinct_runs': st['distinct_runs'],
        'nontrivial_runs': st['nontrivial'],
        'runs_per_hour': int(st['plans'] / secs * 3600),
        'seeds_per_hour': int(st['episodes'] / secs * 3600),
        'search_seconds': st['seconds'],
        'simulated_time_ticks': st['simulated_ticks'],
        'tick': 'one memory access or basic block of library code',
        'faults': {k: {'configured': st['configured: ' + k], 'fired': st['fired: ' + k]} for k in FAULTS},
        'delivery_faults': {k[10:]: v for k, v in st.items() if k.startswith('delivery: ')},
        'concurrent_runs': st['multi'],
        'distinct_interleavings': st['distinct_interleavings'],
        'interleaving_measure': 'hash of the sequence of task switches with the code location of each',
        'task_switches': st['task_switches'],
        'library_code_locations_reached': st['locations'],
        'situations_reached': {k[7:]: v for k, v in st.items() if k.startswith('probe: ')},
        'calls': {k: st[k] for k in ('operations', 'nested_operations', 'succeeded', 'failed', 'ended_by_exception', 'results_held', 'callbacks', 'allocations', 'comparisons', 'value_operations')},
        'grammars': len(grammars),
        'grammar_groups': used,
        'grammars_not_compiled': dropped,
        'same_seed_same_execution': deterministic,
        'findings_of_other_properties': st['other'],
        'findings_not_reproduced': st['unreproduced'],
        'real_code': 'all of tok3n (headers of the working tree, compiled into the simulator), the C++ standard library it uses, user functions and value types of the harness',
        'stubs': 'operator new/delete (arena with fault points), thread scheduling (cooperative, decided by the seed), delivery of the input (generated), user functions and element/value types (instrumented, with fault points)',
        'build_seconds': round(t_build, 1),
        'capped_by_time': bool(st['capped']),
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov, 'violations': st['violations'], 'wall_s': round(time.time() - t0, 1),
          'assumptions': ['sequentially consistent memory within a simulated run; data races are found by happens-before analysis instead', 'g++ 13 at -O1; the reference interpreter states the documented meaning',
                          'sampled, not exhaustive: absence of a finding is evidence, not proof']}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    say('%s %s seed %d: %d runs, %d calls, %d distinct non-trivial runs, %.1f s build, %.1f s search' % (prop, tier, seed, st['plans'], st['operations'], st['distinct_nontrivial'], t_build, st['seconds']))
    if st['other']: say('note: %d findings that other properties cover, e.g. %s' % (st['other'], st['other_text'][:300]))
    if st['unreproduced']: say('note: %d findings did not repeat, e.g. %s' % (st['unreproduced'], st['unreproduced_text'][:300]))
    if not deterministic: say('note: repeated seeds did not give identical executions')
    for sig, what in known: say('KNOWN-FINDING: property=%s %s' % (prop, what))
    if not os.environ.get('SIM_KEEP'): shutil.rmtree(d, ignore_errors=True)
    if st['violations']:
        say(st['report'])
        say('VIOLATION property=%s replay=%s' % (prop, replay))
        return 1
    if st['episodes'] < 50 or st['timeouts'] > max(3, st['episodes'] // 20):
        say('too little explored: %d episodes, %d stuck' % (st['episodes'], st['timeouts']))
        return 4
    return 0

def replay(path):
    head = {}
    for line in open(path):
        if line.startswith('plans'): break
        k, _, v = line.rstrip('\n').partition(' ')
        head[k] = v
    b = build(head['property'], int(head['seed']), head['tier'], lambda s: print(s, file=sys.stderr))
    if b is None: return 3
    d, exe, _, _ = b
    r = run([exe, 'replay', '--prop', head['property'], '--file', os.path.abspath(path)])
    out = r.stdout.decode(errors='replace')
    say(out)
    if r.returncode == 1: say('VIOLATION property=%s replay=%s' % (head['property'], path))
    m = re.search(r'^hash (\w+)', out, re.M)
    if m: say('recorded hash %s, this run %s: %s' % (head.get('hash'), m.group(1), 'identical' if head.get('hash') == m.group(1) else 'different'))
    if not os.environ.get('SIM_KEEP'): shutil.rmtree(d, ignore_errors=True)
    return r.returncode

def main():
    a = sys.argv[1:]
    if not a: sys.exit(__doc__)
    if a[0] == 'replay': sys.exit(replay(a[1]))
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a: tier = a[a.index('--tier') + 1]
    if tier not in EPISODES: tier = 'quick'
    sys.exit(check(a[0], tier, int(os.environ.get('VERIF_SEED', '1') or 1)))

if __name__ == '__main__':
    try: main()
    except Exception:
        import traceback
        traceback.print_exc()
        sys.exit(3)     # no answer: 1 is for violations only

