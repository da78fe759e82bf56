"""Compile-fail witnesses with compiling twins.

Every witness is a pair of small modules that differ in one expression or type: the negative one mixes or
exposes something the property forbids, its twin does the permitted thing.  All negatives live in one crate and
all twins in another; `cargo check` type-checks both against the current tree (nothing is linked or run).  A
negative is refused when rustc reports an error of a type-level class inside it; a twin must be free of errors,
so that a refusal cannot come from a misspelt name or a changed interface.
"""
import json
import os
import re
import subprocess
import runner

TYPE_ERRORS = {'E0308', 'E0277', 'E0369', 'E0368', 'E0599', 'E0605', 'E0606', 'E0604', 'E0600', 'E0608', 'E0614', 'E0271', 'E0107', 'E0023'}


class Set:
    def __init__(self):
        self.w = []
        self.names = set()

    def add(self, name, neg, pos):
        assert name not in self.names, name
        assert neg != pos, name
        self.names.add(name)
        self.w.append((name, neg, pos))


def _crate(which, prelude, mods):
    d = os.path.join(runner.BUILD, 'wit', which)
    os.makedirs(os.path.join(d, 'src'), exist_ok=True)
    h = os.path.join(runner.VERIF, 'harness')
    toml = open(os.path.join(h, 'Cargo.toml')).read().replace('"hsharness"', '"wit%s"' % which).replace('/repo/', runner.REPO + '/')
    lock = open(os.path.join(h, 'Cargo.lock')).read().replace('"hsharness"', '"wit%s"' % which)
    open(os.path.join(d, 'Cargo.toml'), 'w').write(toml)
    open(os.path.join(d, 'Cargo.lock'), 'w').write(lock)
    lines = ['#![allow(warnings)]']
    lines += prelude.strip().split('\n')
    at = {}
    for i, (name, body) in enumerate(mods):
        a = len(lines) + 1
        lines += ['mod w%d { use super::pre::*; // %s' % (i, name)] + body.strip().split('\n') + ['}']
        for k in range(a, len(lines) + 1):
            at[k] = name
    open(os.path.join(d, 'src/lib.rs'), 'w').write('\n'.join(lines) + '\n')
    e = runner.env_()
    e.update({'CARGO_TARGET_DIR': os.path.join(runner.BUILD, 'hs'), 'CARGO_INCREMENTAL': '0',
              'RUSTFLAGS': '-Zalways-encode-mir -Zmir-opt-level=0 --cap-lints=allow'})
    p = subprocess.run(['cargo', '+nightly', 'check', '--offline', '--message-format=json'], cwd=d, env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    errs, other = {}, []
    seen = False
    for line in p.stdout.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get('reason') == 'build-finished':
            seen = True
        if m.get('reason') != 'compiler-message':
            continue
        q = m['message']
        if q['level'] not in ('error', 'error: internal compiler error'):
            continue
        mine = 'wit' + which in m.get('package_id', '') or '/wit/' in m.get('package_id', '')
        spans = [s for s in q['spans'] if s['is_primary']]
        if not spans:
            if q['message'].startswith(('aborting', 'could not compile')) or 'previous error' in q['message']:
                continue
            other.append(q['message'])
            continue
        names = set()
        for s in spans:
            # a span inside a macro of the libraries: walk out to the witness
            while s is not None:
                if s['file_name'].endswith('src/lib.rs') and mine and not s['file_name'].startswith('/'):
                    break
                s = (s.get('expansion') or {}).get('span')
            if s is not None and s['line_start'] in at:
                names.add(at[s['line_start']])
        if not names:
            other.append(q['message'] + ' ' + str([(s['file_name'], s['line_start']) for s in spans]))
        for n in names:
            errs.setdefault(n, []).append(((q.get('code') or {}).get('code'), q['message']))
    if not seen:
        other.append('cargo: ' + p.stderr[-400:])
    return errs, other


def decide(t, ws, prelude, what):
    """one obligation per witness"""
    neg, o1 = _crate('neg', prelude, [(n, a) for n, a, b in ws.w])
    pos, o2 = _crate('pos', prelude, [(n, b) for n, a, b in ws.w])
    t.ok(what + '/crate', not o1 and not o2, 'the witness crates fail outside the witnesses: ' + '; '.join((o1 + o2)[:3])[:400])
    for n, a, b in ws.w:
        src = re.sub(r'\s+', ' ', a)[:160]
        if n in pos:
            t.ok('%s/%s' % (what, n), False, 'the permitted twin no longer compiles: ' + pos[n][0][1][:200], 'witness: ' + re.sub(r'\s+', ' ', b)[:160])
        elif n not in neg:
            t.ok('%s/%s' % (what, n), False, 'the type checker accepts the forbidden program', 'witness: ' + src)
        else:
            codes = [c for c, m in neg[n]]
            t.ok('%s/%s' % (what, n), all(c in TYPE_ERRORS for c in codes), 'refused for an unexpected reason: %s' % (neg[n][:2],), 'witness: ' + src)
    t.count('compile-fail witnesses', len(ws.w))
    t.count('compiling twins', len(ws.w))
