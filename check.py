#!/usr/bin/env python3
"""Decides one property: compiles its harnesses against /repo's current sources, explores them symbolically, replays
counterexamples natively, writes evidence/<id>.json.  usage: check.py <property> [--tier quick|thorough] [--keep]"""
import sys, os, re, json, subprocess, tempfile, shutil, time, glob, hashlib, concurrent.futures as cf

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
B = os.path.join(V, 'build')
T0 = time.time()

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)

def tool(cmd):
    """a compiler or linker run; repeated when it was killed (memory pressure) rather than rejecting its input"""
    for i in range(4):
        r = sh(cmd)
        killed = r.returncode < 0 or (r.returncode and ('error:' not in r.stderr or re.search(r'Killed|signal|bad_alloc|out of memory|Cannot allocate', r.stderr)))
        if not killed:
            break
        time.sleep(2 + 6 * i)
    return r

def die(msg, code=2):
    print('CHECK-ERROR: ' + msg)
    sys.exit(code)

def ensure_setup():
    cur = sh('cat engine/*.cpp engine/*.h | sha256sum', shell=True, cwd=V).stdout
    try:
        if open(os.path.join(B, 'stamp')).read() == cur and all(os.path.exists(os.path.join(B, f)) for f in ('engine', 'rt.bc', 'replay.o')):
            return
    except OSError:
        pass
    r = sh(['flock', os.path.join(V, '.setup.lock'), os.path.join(V, 'setup.sh')])
    if r.returncode:
        die('setup failed:\n' + r.stdout + r.stderr)

def meta(path):
    m = {'bound': [], 'assume': [], 'opt': {}}
    for line in open(path):
        g = re.match(r'\s*//@\s*(\w+):\s*(.*)', line)
        if g:
            k, v = g.group(1), g.group(2).strip()
            if k in ('bound', 'assume'):
                m[k].append(v)
            else:
                m['opt'][k] = v
    return m

def compile_tu(src, wd, tier, defs):
    name = os.path.basename(src)[:-4]
    o = os.path.join(wd, name)
    m = meta(src)
    inc = ['-I' + os.path.join(REPO, 'src/rpp'), '-I' + os.path.join(V, 'engine'), '-I' + os.path.join(V, 'harness')]
    for x in m['opt'].get('include', '').split():
        inc.append('-I' + x.replace('$REPO', REPO).replace('$V', V))
    cmd = ['clang++', '-std=c++20', '-O1', '-gline-tables-only', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-fno-vectorize', '-fno-slp-vectorize',
           '-fsanitize=thread', '-Xclang', '-disable-llvm-passes', '-w', '-emit-llvm', '-c', src, '-o', o + '.bc'] + inc + defs
    if tier == 'thorough':
        cmd.append('-DTHOROUGH=1')
    r = tool(cmd)
    if r.returncode:
        return name, None, 'compile ' + name + ':\n' + r.stderr[:4000]
    r = sh(['llvm-nm', o + '.bc'])
    api = ','.join(sorted(l.split()[-1] for l in r.stdout.splitlines() if re.search(r' T H_\w+$', l)))
    for c in (['opt', '-passes=internalize,globaldce,function(sroa,early-cse,simplifycfg),cgscc(inline,function(sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg)),globaldce', '-internalize-public-api-list=' + api, o + '.bc', '-o', o + '.o.bc'],
              ['llvm-link', o + '.o.bc', os.path.join(B, 'rt.bc'), '-o', o + '.l.bc']):
        r = tool(c)
        if r.returncode:
            return name, None, ' '.join(c) + '\n' + r.stderr[:4000]
    return name, o, api

def native(o):
    for c in (['opt', '-passes=tsan-module,function(tsan)', '-tsan-instrument-func-entry-exit=0', o + '.o.bc', '-o', o + '.t.bc'],
              ['clang++', '-O0', '-w', '-Xclang', '-disable-llvm-passes', '-c', o + '.t.bc', '-o', o + '.t.o'],
              ['clang++', '-rdynamic', o + '.t.o', os.path.join(B, 'replay.o'), '-o', o + '.native', '-lpthread', '-ldl']):
        r = tool(c)
        if r.returncode:
            return ' '.join(c) + '\n' + r.stderr[:3000]
    return None

def run_native(o, cases, wd):
    if not cases:
        return []
    f = os.path.join(wd, 'cases.%d' % time.time_ns())
    with open(f, 'w') as h:
        for c in cases:
            h.write('%s\t%s\t%s\n' % (c['entry'], ','.join(map(str, c['dm'])), ','.join(map(str, c['sched']))))
    r = sh([o + '.native', f], env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0'))
    out = []
    for line in r.stdout.splitlines():
        p = line.split('\t')
        if len(p) >= 6 and p[1] == 'RESULT':
            out.append({'kind': p[2], 'msg': p[3], 'diverged': p[4] == '1', 'log': [int(x) for x in p[5].split(',') if x]})
    if len(out) != len(cases):
        die('native replay produced %d results for %d cases: %s' % (len(out), len(cases), r.stderr[:500]))
    return out

def basename(fn):
    fn = fn.replace('operator()', 'operator_call').replace('operator<', 'operator_lt').replace('operator>', 'operator_gt').replace('operator->', 'operator_arrow')
    out, d = [], 0
    for ch in fn:
        if ch == '<': d += 1
        elif ch == '>': d = max(0, d - 1)
        elif d == 0: out.append(ch)
    s = ''.join(out).split('(')[0]
    return s.split()[-1] if s.split() else ''

def known_findings(prop):
    res = []
    p = os.path.join(V, 'known_findings.json')
    if os.path.exists(p):
        for f in json.load(open(p)).get('findings', []):
            if f['property'] == prop:
                res.append(f)
    return res

KINDMAP = {'assert': ('assert',), 'memory': ('memory',), 'race': ('race',), 'deadlock': ('deadlock', 'bound'), 'livelock': ('livelock', 'bound', 'deadlock'),
           'bound': ('bound', 'livelock', 'memory', 'terminate'), 'terminate': ('terminate',), 'arith': ('memory', 'terminate', 'arith')}

def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    keep = '--keep' in sys.argv
    seed = int(os.environ.get('VERIF_SEED', '1'))
    ensure_setup()
    srcs = sorted(glob.glob(os.path.join(V, 'harness', prop + '.cpp')) + glob.glob(os.path.join(V, 'harness', prop + '_*.cpp')))
    if '--tu' in sys.argv:
        t = sys.argv[sys.argv.index('--tu') + 1]
        srcs = [s for s in srcs if t in s]
    if not srcs:
        die('no harness for ' + prop)
    wd = tempfile.mkdtemp(prefix='run-' + prop + '-', dir=B)
    rd = os.path.join(V, 'evidence', 'replay')
    os.makedirs(rd, exist_ok=True)
    code = 2
    try:
        code = work(prop, tier, seed, srcs, wd, rd)
    finally:
        if not keep:
            shutil.rmtree(wd, ignore_errors=True)
        else:
            print('kept ' + wd)
    sys.exit(code)

def work(prop, tier, seed, srcs, wd, rd):
    errors, notes, tot = [], [], dict(paths=0, dropped=0, branches=0, choices=0, instrs=0, asserts=0, assert_queries=0, queries=0, sat=0, unsat=0, cached=0, solver_s=0.0, mem_events=0)
    ents, viols, samples, funcs, bounds, assumes = [], [], [], set(), [], []
    validated = 0
    known = known_findings(prop)
    ex = cf.ThreadPoolExecutor(max_workers=8)
    comp = [ex.submit(compile_tu, s, wd, tier, []) for s in srcs]
    for s, fut in zip(srcs, comp):
        name, o, api = fut.result()
        if o is None:
            errors.append(api)
            continue
        m = meta(s)
        bounds += m['bound']; assumes += m['assume']
        opt = m['opt']
        def g(k, d):
            return opt.get(k + '_thorough', opt.get(k, d)) if tier == 'thorough' else opt.get(k, d)
        nat = ex.submit(native, o)
        limit = float(g('time', '400' if tier == 'quick' else '3000'))
        if tier == 'quick':
            limit = min(limit, 760 - (time.time() - T0))    # the whole check has to answer in time
            if limit < 5:
                notes.append('%s: not explored, no time left' % name)
                nat.result()
                continue
        args = [os.path.join(B, 'engine'), o + '.l.bc', '--out', o + '.json', '--jobs', os.environ.get('VERIF_JOBS', '8'),
                '--time', str(int(limit)), '--preempt', str(g('preempt', '2')),
                '--max-instr', str(g('maxinstr', '5000000'))]
        r = sh(args)
        if not os.path.exists(o + '.json') and r.returncode < 0:    # killed: once more, with a smaller footprint
            time.sleep(5)
            r = sh([('3' if args[i - 1] == '--jobs' else a) for i, a in enumerate(args)])
        nerr = nat.result()
        if not os.path.exists(o + '.json'):
            errors.append('engine crashed on %s (rc %d): %s' % (name, r.returncode, (r.stdout + r.stderr)[-1500:]))
            continue
        j = json.load(open(o + '.json'))
        if nerr:
            errors.append('native build: ' + nerr)
            continue
        if j['fatal']:
            (notes if 'solver returned unknown' in j['fatal'] else errors).append('%s: engine: %s' % (name, j['fatal'][:1500]))
        if j['timed_out']:
            notes.append('%s: exploration did not finish within its time limit' % name)
        partial = j['fatal'] or j['timed_out']
        for k in ('queries', 'sat', 'unsat', 'cached', 'solver_s'):
            tot[k] += j[k]
        for e in j['entries']:
            for k in ('paths', 'dropped', 'branches', 'choices', 'instrs', 'asserts', 'assert_queries', 'mem_events'):
                tot[k] += e[k]
            e['tu'] = name
            e['preemption_bound'] = j['preempt']
            ents.append(e)
        for f in j['funcs']:
            b = basename(f)
            if b.startswith('rpp'):
                funcs.add(b)
        # counterexamples: natively reproduced or not reported
        res = run_native(o, j['violations'], wd)
        for v, n in zip(j['violations'], res):
            v['native'] = n
            ok = n['kind'] in KINDMAP.get(v['kind'], (v['kind'],)) and (v['kind'] != 'assert' or n['msg'] == v['msg'])
            # a different failure of the same input is still a failure of the real code
            if not ok and n['kind'] not in ('ok', 'assume', 'error'):
                ok = True
            v['reproduced'] = ok
            v['tu'] = name
            viols.append(v)
        bad = set(v['entry'] for v in j['violations'])
        smp = j['samples']
        res = run_native(o, smp, wd)
        for c, n in zip(smp, res):
            differs = n['kind'] != 'ok' or n['log'] != c['log']
            if differs and n['diverged']:
                notes.append('%s: schedule of a sampled path could not be replayed natively (%s)' % (name, c['entry']))
            elif differs:
                errors.append('%s: engine and native execution disagree on %s inputs %s: native %s %s log %s vs %s' % (
                    name, c['entry'], c['dm'], n['kind'], n['msg'], n['log'][:20], c['log'][:20]))
            else:
                validated += 1
        for c in smp[:6]:
            samples.append({'entry': c['entry'], 'inputs': dict(zip(c['names'], [x - (1 << 64) if x >> 63 else x for x in c['dm']])), 'schedule_switches': len(c['sched']) // 2, 'log': c['log'][:24]})
        for e in j['entries']:
            miss = [w for w in e['want'] if w not in e['covers']]
            if e['name'] in bad:
                continue
            here = [c for c in smp if c['entry'] == e['name']]
            if miss and not partial and e['max_threads'] <= 1 and here:
                # every input within the bounds was explored: what the property promises to happen never happens
                viols.append(dict(here[0], kind='never', msg='no input within the bounds reaches: ' + ', '.join(miss), where='', stack='', tu=name, reproduced=True, native={'kind': 'ok', 'msg': 'one of the explored inputs'}))
            elif miss:
                (notes if partial or e['max_threads'] > 1 else errors).append('%s %s: vacuous, witnesses not reached: %s' % (name, e['name'], miss))
            if e['paths'] == 0:
                (notes if partial else errors).append('%s %s: no complete path' % (name, e['name']))
    # report
    nviol, ki = 0, 0
    for v in viols:
        kf = [k for k in known if k['entry'] == v['entry'] and k['kind'] == v['kind'] and k['msg'] == v['msg']]
        if not v['reproduced']:
            notes.append('counterexample not reproduced natively: %s [%s] %s native=%s' % (v['entry'], v['kind'], v['msg'], v['native']))
            continue
        if kf:
            print('KNOWN-FINDING: property=%s %s' % (prop, kf[0]['what']))
            ki += 1
            continue
        nviol += 1
        path = os.path.join(rd, '%s-%s-%s.json' % (prop, v['entry'], hashlib.sha1((v['kind'] + v['msg']).encode()).hexdigest()[:8]))
        inp = dict(zip(v['names'], [x - (1 << 64) if x >> 63 else x for x in v['dm']]))
        json.dump({'property': prop, 'tier': tier, 'harness': v['tu'], 'entry': v['entry'], 'kind': v['kind'], 'message': v['msg'], 'where': v['where'][:600], 'inputs': inp,
                   'dm': v['dm'], 'sched': v['sched'], 'native_replay': v['native'], 'stack': v['stack'][:6000],
                   'how': 'cd /verif && ./replay.sh ' + path}, open(path, 'w'), indent=1)
        print('VIOLATION property=%s replay=%s' % (prop, path))
        print('   %s: [%s] %s  inputs %s switches %d' % (v['entry'], v['kind'], v['msg'], inp, len(v['sched']) // 2))
        if nviol >= 8:
            break
    wall = time.time() - T0
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
          'coverage': {
              'states': tot['paths'], 'transitions': tot['branches'] + tot['choices'], 'traces_validated_against_impl': validated, 'samples': samples[:24] or ['none'],
              'exhaustive': not errors and not notes,
              'explanation': 'states = complete symbolic paths (path condition x schedule) explored to the end within the bounds; transitions = symbolic data decisions plus scheduling decisions; every sat/unsat verdict is Z3\'s; traces_validated = sampled paths re-executed natively with identical observations',
              'data_decisions': tot['branches'], 'schedule_decisions': tot['choices'], 'assertions_evaluated': tot['asserts'], 'assertion_queries': tot['assert_queries'],
              'solver_queries': tot['queries'], 'solver_sat': tot['sat'], 'solver_unsat': tot['unsat'], 'solver_cache_hits': tot['cached'], 'solver_s': round(tot['solver_s'], 2),
              'ir_instructions_executed': tot['instrs'], 'race_checked_events': tot['mem_events'], 'paths_cut_by_assumptions': tot['dropped'],
              'entries': [{k: e[k] for k in ('tu', 'name', 'paths', 'branches', 'choices', 'max_threads', 'max_vars', 'preemption_bound', 'covers')} for e in ents],
              'functions_encoded': sorted(funcs), 'bounds': bounds,
              'counterexamples': nviol, 'known_findings_hit': ki, 'errors': (errors + notes)[:10]},
          'assumptions': assumes + ['sequentially consistent interleaving of atomic operations plus happens-before race detection; weak-memory reorderings of relaxed atomics are outside the claim',
                                    'operator new never fails', 'environment model engine/rt.cpp stands for libstdc++/libc out-of-line code', 'clang 18 -O1 code generation'],
          'wall_s': round(wall, 2), 'violations': nviol}
    json.dump(ev, open(os.path.join(V, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s: %d paths, %d data + %d schedule decisions, %d queries (%.1fs solver), %d native traces validated, %.1fs' % (
        prop, tot['paths'], tot['branches'], tot['choices'], tot['queries'], tot['solver_s'], validated, wall))
    if nviol:
        for e in (errors + notes)[:3]:
            print('note: ' + e)
        return 1
    for e in notes[:10]:
        print('note: ' + e)
    if errors:
        for e in errors:
            print('CHECK-ERROR: ' + e)
        return 2
    return 0

if __name__ == '__main__':
    main()
