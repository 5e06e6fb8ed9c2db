#!/usr/bin/env python3
import sys, os, json, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check
v = json.load(open(sys.argv[1]))
check.ensure_setup()
wd = tempfile.mkdtemp(prefix='replay-', dir=check.B)
try:
    name, o, api = check.compile_tu(os.path.join(check.V, 'harness', v['harness'] + '.cpp'), wd, v.get('tier', 'quick'), [])
    if not o:
        sys.exit(api)
    e = check.native(o)
    if e:
        sys.exit(e)
    r = check.run_native(o, [v], wd)[0]
    print('inputs', v['inputs'])
    print('schedule', v['sched'])
    print('outcome: %s %s' % (r['kind'], r['msg']))
    sys.exit(0 if r['kind'] == 'ok' else 1)
finally:
    shutil.rmtree(wd, ignore_errors=True)
