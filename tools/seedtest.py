#!/usr/bin/env python3
"""seedtest.py [ids]: confirm each planted bug in a scratch copy of /repo: builds, stable tests pass, demo, and which checks catch it.
   --fast skips tests and demo.  --all runs every claimed check rather than only the seed's own."""
import json
import os
import shutil
import subprocess
import sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/seedw'
ids = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(os.listdir(VERIF + '/seeded'))
fast = '--fast' in sys.argv
env = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', CARGO_INCREMENTAL='1',
           CARGO_PROFILE_DEV_DEBUG='line-tables-only', RUSTC_WRAPPER='', RUST_TEST_THREADS='8')
if os.path.exists(W):
    shutil.rmtree(W)
subprocess.check_call(['cp', '-a', '/repo', W])
base = {t for t in json.load(open('/opt/vp/BASELINE.json')).get('stable', [])} if os.path.exists('/opt/vp/BASELINE.json') else set()


def sh(cmd, cwd=W, timeout=1200, env=env):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, shell=isinstance(cmd, str))
    return p.returncode, p.stdout.decode(errors='replace')


for i in ids:
    d = os.path.join(VERIF, 'seeded', i)
    meta = json.load(open(d + '/meta.json'))
    subprocess.check_call(['git', 'checkout', '-q', '--', '.'], cwd=W)
    res = []
    if not fast:
        rc, o = sh(['bash', d + '/demo.sh'])
        res.append('demo-clean:%s' % ('ok' if rc == 0 else 'BAD %d %s' % (rc, o[-300:])))
    rc, o = sh(['git', 'apply', d + '/patch.diff'])
    if rc:
        print(i, 'PATCH FAILS', o)
        continue
    if not fast:
        rc, o = sh('cargo test --workspace --no-fail-fast --offline')
        failed = [l for l in o.splitlines() if l.startswith('test ') and 'FAILED' in l]
        res.append('tests:%s' % ('ok' if rc == 0 else 'FAIL %s' % (failed or o[-800:])))
        rc, o = sh(['bash', d + '/demo.sh'])
        res.append('demo-bug:%s' % ('ok' if rc not in (0, 2, 3) else 'BAD %d %s' % (rc, o[-300:])))
    props = [meta['property']]
    if '--all' in sys.argv:
        props = [c['property'] for c in json.load(open(VERIF + '/MANIFEST.json'))['checks']]
    for p in props:
        if not os.path.exists(VERIF + '/analyzer/checks/%s.py' % p.lower()):
            res.append('%s:nocheck' % p)
            continue
        rc, o = sh(['python3', VERIF + '/check.py', p], cwd=VERIF, env=dict(env, HS_REPO=W, HS_EVIDENCE='/tmp/seedev'))
        v = [l for l in o.splitlines() if l.startswith('VIOLATION')]
        if rc != 0 or '--all' not in sys.argv:
            res.append('%s:%s' % (p, 'caught(%d)' % len(v) if rc == 1 and v else 'MISSED rc=%d %s' % (rc, o[-300:] if rc else '')))
    print(i, ' '.join(res), flush=True)
shutil.rmtree(W)
