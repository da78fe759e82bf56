#!/usr/bin/env python3
"""reftest.py [sets] [--checks C01,C02]: apply a set of behaviour-preserving edits to a scratch copy of /repo; the stable tests pass and every check stays quiet."""
import json
import os
import shutil
import subprocess
import sys
import time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF + '/tools')
from refdefs import R
W = '/tmp/refw'
args = sys.argv[1:]
only = None
if '--checks' in args:
    k = args.index('--checks')
    only = args[k + 1].split(',')
    del args[k:k + 2]
fast = '--fast' in args
sets = [a for a in args if not a.startswith('-')] or list(R)
env = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', CARGO_INCREMENTAL='1',
           CARGO_PROFILE_DEV_DEBUG='line-tables-only', RUSTC_WRAPPER='', RUST_TEST_THREADS='8')
for name in sets:
    if os.path.exists(W):
        shutil.rmtree(W)
    subprocess.check_call(['cp', '-a', '/repo', W])
    for e in R[name]:
        f, old, new = e[:3]
        p = os.path.join(W, f)
        s = open(p).read()
        n = s.count(old)
        assert n == 1 or (len(e) > 3 and n > e[3]), (name, f, n, old[:200])
        parts = s.split(old)
        k = e[3] if len(e) > 3 else 0
        open(p, 'w').write(old.join(parts[:k + 1]) + new + old.join(parts[k + 1:]))
    if not fast:
        p = subprocess.run('cargo test --workspace --no-fail-fast --offline', cwd=W, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, shell=True)
        o = p.stdout.decode(errors='replace')
        if p.returncode:
            err = [l for l in o.splitlines() if l.startswith('error') or 'FAILED' in l]
            i = o.find('\nerror')
            print(name, 'TESTS FAIL', err[:8], o[i:i + 1500])
            continue
    for c in json.load(open(VERIF + '/MANIFEST.json'))['checks']:
        c = c['property']
        if only and c not in only:
            continue
        t = time.time()
        p = subprocess.run(['python3', VERIF + '/check.py', c], cwd=VERIF, env=dict(env, HS_REPO=W, HS_EVIDENCE='/tmp/refev'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        o = p.stdout.decode(errors='replace')
        if p.returncode:
            print(name, c, 'ALARM rc=%d' % p.returncode, '%.0fs' % (time.time() - t))
            for l in [l for l in o.splitlines() if l.strip()][:6]:
                print('      ', l[:260])
        else:
            print(name, c, 'quiet', '%.0fs' % (time.time() - t))
        sys.stdout.flush()
for d in (W, '/tmp/refev'):
    shutil.rmtree(d, ignore_errors=True)
