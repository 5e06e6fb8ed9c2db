#!/usr/bin/env python3
# engine self-test: C++ library features which harnesses or changed sources may use, in the engine and natively
import sys, os, json, subprocess, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check
check.ensure_setup()
wd = tempfile.mkdtemp(prefix='selftest-', dir=check.B)
try:
    n, o, api = check.compile_tu(os.path.join(check.V, 'engine/test/features.cpp'), wd, 'quick', [])
    if not o:
        sys.exit(api)
    e = check.native(o)
    if e:
        sys.exit(e)
    bad = 0
    for ent in api.split(','):
        out = os.path.join(wd, 'o.json')
        subprocess.run([os.path.join(check.B, 'engine'), o + '.l.bc', '--entry', ent, '--out', out, '--jobs', '4', '--time', '60', '--preempt', '1'])
        j = json.load(open(out))
        res = check.run_native(o, j['samples'], wd)
        ok = not j['fatal'] and not j['timed_out'] and not j['violations'] and res and all(x['kind'] == 'ok' for x in res)
        bad += not ok
        print('ok  ' if ok else 'FAIL', ent, '' if ok else j['fatal'] or j['violations'] or res)
    sys.exit(1 if bad else 0)
finally:
    shutil.rmtree(wd, ignore_errors=True)
