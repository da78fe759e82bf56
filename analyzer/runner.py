"""Command line, build of the program dump, parallel evaluation of tasks, evidence."""
import hashlib
import importlib
import json
import multiprocessing
import os
import re
import resource
import signal
import subprocess
import sys
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
EVID = os.environ.get('HS_EVIDENCE') or os.path.join(VERIF, 'evidence')
REPO = os.environ.get('HS_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
SEED = int(os.environ.get('VERIF_SEED', '1'))


class BuildError(Exception):
    pass


def _hash(paths):
    h = hashlib.sha256()
    for base in paths:
        if os.path.isfile(base):
            h.update(open(base, 'rb').read())
            continue
        for d, ds, fs in sorted(os.walk(base)):
            ds[:] = sorted(x for x in ds if x not in ('target', '.git', '__pycache__'))
            for f in sorted(fs):
                if f.endswith(('.rs', '.toml', '.lock')):
                    p = os.path.join(d, f)
                    h.update(p.encode() + b'\0')
                    h.update(open(p, 'rb').read())
    return h.hexdigest()[:20]


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    return r.returncode, r.stdout


def nightly():
    rc, out = sh(['rustc', '+nightly', '--print', 'sysroot'])
    if rc:
        raise BuildError('nightly toolchain not available: ' + out)
    return out.strip().splitlines()[-1]


def env_():
    e = dict(os.environ)
    e['PATH'] = '/usr/local/bin:/root/.cargo/bin:' + e.get('PATH', '/usr/bin:/bin')
    e.setdefault('HOME', '/root')
    e['CARGO_NET_OFFLINE'] = 'true'
    for k in ('RUSTUP_TOOLCHAIN', 'RUSTC_WRAPPER', 'RUSTFLAGS', 'CARGO_INCREMENTAL', 'CARGO_TARGET_DIR', 'RUSTC_WORKSPACE_WRAPPER'):
        e.pop(k, None)
    return e


def driver():
    d = os.path.join(VERIF, 'driver')
    rc, out = sh(['cargo', '+nightly', 'build', '--offline', '-q'], cwd=d, env=env_())
    if rc:
        raise BuildError('driver does not build:\n' + out[-3000:])
    return os.path.join(d, 'target/debug/hsdump')


def dump():
    """type-checked program of the harness and the five library crates, as dumped by the compiler driver"""
    os.makedirs(BUILD, exist_ok=True)
    drv = driver()
    key = _hash([REPO, os.path.join(VERIF, 'harness'), os.path.join(VERIF, 'driver')])
    out = os.path.join(BUILD, 'dump-%s.json' % key)
    if os.path.exists(out) and os.environ.get('HS_NOCACHE') is None:
        return out, key, True
    for f in os.listdir(BUILD):
        if f.startswith('dump-'):
            os.unlink(os.path.join(BUILD, f))
    sysroot = nightly()
    e = env_()
    harness = os.path.join(VERIF, 'harness')
    if REPO != '/repo':
        harness = os.path.join(BUILD, 'harness-' + hashlib.sha256(REPO.encode()).hexdigest()[:8])
        os.makedirs(harness, exist_ok=True)
        sh(['cp', '-a', os.path.join(VERIF, 'harness') + '/.', harness])
        t = open(os.path.join(harness, 'Cargo.toml')).read().replace('/repo/', REPO + '/')
        open(os.path.join(harness, 'Cargo.toml'), 'w').write(t)
    e.update({
        'LD_LIBRARY_PATH': sysroot + '/lib', 'CARGO_TARGET_DIR': os.path.join(BUILD, 'hs'),
        'RUSTFLAGS': '-Zalways-encode-mir -Zmir-opt-level=0 --cap-lints=allow', 'RUSTC_WORKSPACE_WRAPPER': drv,
        'HSDUMP_CRATE': 'hsharness', 'HSDUMP_OUT': out, 'HSDUMP_RUSTC': sysroot + '/bin/rustc', 'CARGO_INCREMENTAL': '0'})
    os.utime(os.path.join(harness, 'src/lib.rs'))
    rc, log = sh(['cargo', '+nightly', 'check', '--offline'], cwd=harness, env=e)
    if rc or not os.path.exists(out):
        raise BuildError('the harness does not build against the current tree:\n' + '\n'.join(
            re.findall(r'^error[^\n]*\n(?:[^\n]+\n){0,6}', log, re.M)[:8]) + log[-800:])
    return out, key, False


# ---------------------------------------------------------------- tasks
def _worker(prog, mod, name, fn, args, tier, q, limit):
    os.setpgid(0, 0) if False else None
    resource.setrlimit(resource.RLIMIT_AS, (24 << 30, 24 << 30))
    sys.setrecursionlimit(60000)
    threading.stack_size(1 << 30)
    box = []

    def body():
        from lib import Task
        t = Task(prog, tier)
        t.name = name
        try:
            fn(t, *args)
        except BaseException as ex:
            from lib import Rec
            t.recs.append(Rec('%s/internal' % name, 'violated', 'analysis failed: %s' % ''.join(
                traceback.format_exception_only(type(ex), ex)).strip() + ' @ ' + '|'.join(
                '%s:%d' % (os.path.basename(f.filename), f.lineno) for f in traceback.extract_tb(ex.__traceback__)[-4:])))
        box.append((name, [(r.key, r.status, r.detail, r.where) for r in t.recs], sorted(t.fns), t.steps, t.branches, t.panic_obl, t.counts))
    th = threading.Thread(target=body)
    th.start()
    th.join()
    q.send(box[0])
    q.close()


EARLY, TOTAL = 200, 820


def run_tasks(prog, mod, tasks, tier, jobs, limit, known=()):
    """each task in a forked process; a task that exceeds its time limit is an undischarged obligation"""
    ctx = multiprocessing.get_context('fork')
    todo = list(tasks)
    live = {}
    out = []
    start, found = time.time(), False
    while todo or live:
        if found and time.time() - start > EARLY:      # the verdict is settled: do not spend the time limit on more violations
            for p, name, t0 in live.values():
                p.kill()
                p.join()
            print('stopped after %d s with violations; %d tasks not run to the end' % (time.time() - start, len(todo) + len(live)))
            break
        if time.time() - start > TOTAL:
            for p, name, t0 in live.values():
                p.kill()
                p.join()
                out.append((name, [(name + '/internal', 'violated', 'analysis not finished after %d s in all' % TOTAL, '')], [], 0, 0, 0, {}, time.time() - t0))
            break
        while todo and len(live) < jobs:
            name, fn, args = todo.pop(0)
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=_worker, args=(prog, mod, name, fn, args, tier, w, limit))
            p.start()
            w.close()
            live[r] = (p, name, time.time())
        from multiprocessing.connection import wait
        for r in wait(list(live), timeout=1):
            p, name, t0 = live.pop(r)
            try:
                res = r.recv()
            except EOFError:
                res = (name, [(name + '/internal', 'violated', 'analysis process ended abnormally', '')], [], 0, 0, 0, {})
            p.join()
            out.append(res + (time.time() - t0,))
            found = found or any(x[1] == 'violated' and x[0] not in known for x in res[1])
        for r in list(live):
            p, name, t0 = live[r]
            if time.time() - t0 > limit:
                p.kill()
                p.join()
                live.pop(r)
                out.append((name, [(name + '/internal', 'violated', 'analysis exceeded %d s' % limit, '')], [], 0, 0, 0, {}, time.time() - t0))
    return out


def findings():
    """known findings: lines 'finding: property=<id> key=<key> :: <what>'; 'fixed:' lines suppress nothing"""
    f = os.path.join(VERIF, 'KNOWN_FINDINGS.md')
    out = {}
    if os.path.exists(f):
        for line in open(f):
            m = re.match(r'finding: property=(\S+) key=(\S+) :: (.*)', line.strip())
            if m:
                out[(m.group(1), m.group(2))] = m.group(3)
    return out


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--jobs', type=int, default=os.cpu_count() or 4)
    ap.add_argument('--only', default='')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args(argv)
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    t0 = time.time()
    pid = a.id
    mod = importlib.import_module('checks.' + pid.lower())
    os.makedirs(EVID, exist_ok=True)
    res = []
    extra = {}
    prog = None
    fatal = None
    try:
        path, key, cached = dump()
        from mir import Prog
        prog = Prog(path)
        extra['program_dump'] = {'functions': len(prog.fns), 'with_body': sum(1 for f in prog.fns if f.get('body')), 'types': len(prog.types),
                                 'source_hash': key}
    except BuildError as ex:
        fatal = str(ex)
    recs, fns = [], set()
    steps = branches = pobl = 0
    counts = {}
    slow = []
    if fatal is None:
        if hasattr(mod, 'prepare'):
            mod.prepare(prog, tier)
        tasks = [t for t in mod.tasks(prog, tier) if a.only in t[0]]
        limit = getattr(mod, 'LIMIT', 400) if tier == 'quick' else getattr(mod, 'LIMIT_T', 3000)
        for name, rs, fs, st, br, po, cn, dt in run_tasks(prog, mod, tasks, tier, a.jobs, limit, {k for p, k in findings() if p == pid}):
            recs += rs
            fns |= set(fs)
            steps += st
            branches += br
            pobl += po
            slow.append((round(dt, 1), name))
            for k, v in cn.items():
                counts[k] = counts.get(k, 0) + v
    else:
        recs.append(('build', 'violated', fatal, ''))
    n = len(recs)
    floor = getattr(mod, 'FLOOR', 1)
    if fatal is None and n < floor and not a.only:
        recs.append(('coverage', 'violated', 'only %d obligations generated, at least %d expected' % (n, floor), ''))
    known = findings()
    bad, kn = [], []
    for k, s, d, w in recs:
        if s == 'violated':
            if (pid, k) in known:
                kn.append((k, known[(pid, k)], d))
            else:
                bad.append((k, d, w))
    byst = {}
    for r in recs:
        byst[r[1]] = byst.get(r[1], 0) + 1
    disc = n - byst.get('violated', 0)
    cov = {
        'explanation': mod.EXPLANATION,
        'rule': getattr(mod, 'RULE', ''),
        'obligations': n,
        'discharged': disc,
        'by_method': {k: v for k, v in sorted(byst.items())},
        'functions_analysed': len(fns),
        'functions': sorted(fns)[:3000],
        'abstract_steps': steps,
        'joins': branches,
        'panic_sites_decided': pobl,
        'counts': counts,
        'tasks': len(slow),
        'slowest_tasks_s': sorted(slow, reverse=True)[:5],
        'samples': [{'obligation': k, 'outcome': s, 'detail': d[:200]} for k, s, d, w in recs[:: max(1, n // 8)][:10]],
        'known_findings': [k for k, _, _ in kn],
        'program': extra.get('program_dump', {}),
    }
    ev = {'property': pid, 'tier': tier, 'seed': SEED, 'level': 'other', 'coverage': cov, 'wall_s': round(time.time() - t0, 2),
          'violations': len(bad), 'assumptions': getattr(mod, 'ASSUMPTIONS', [])}
    json.dump(ev, open(os.path.join(EVID, pid + '.json'), 'w'), indent=1)
    for k, what, d in kn:
        print('KNOWN-FINDING: property=%s %s (%s)' % (pid, what, k))
    if a.v:
        for k, s, d, w in recs:
            if s != 'canonical':
                print(s, k, d, w)
        print(sorted(slow, reverse=True)[:8])
    if bad:
        rp = os.path.join(EVID, pid + '.violation.txt')
        with open(rp, 'w') as f:
            for k, d, w in bad:
                f.write('%s\n    at %s\n    %s\n' % (k, w, d))
        for k, d, w in bad[:10]:
            print('  %s: %s%s' % (k, (w + ': ') if w else '', d[:400]))
        if len(bad) > 10:
            print('  ... and %d more' % (len(bad) - 10))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    print('%s: %d obligations, all discharged (%s) over %d functions in %.1f s' % (
        pid, n - len(kn), ', '.join('%s %d' % kv for kv in sorted(byst.items())), len(fns), time.time() - t0))
    return 0
