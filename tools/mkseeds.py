#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the table in seeddefs.py (patch made against /repo's HEAD)."""
import difflib
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from seeddefs import SEEDS
OUT = os.path.join(os.path.dirname(HERE), 'seeded')
DEMO = r'''#!/bin/bash
# Exit 0 when the demonstrated behaviour is right, non-zero otherwise. Run with cwd = the repository.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR="$d/target" PATH="/usr/local/bin:/root/.cargo/bin:$PATH"
mkdir -p "$d/src" && cp "$here/main.rs" "$d/src/main.rs" && cp "$repo/Cargo.lock" "$d/Cargo.lock" || exit 2
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
hacspec = { path = "$repo/hacspec" }
hacspec-examples = { path = "$repo/spec-examples" }
secret_integers = { path = "$repo/secret-integers" }
abstract_integers = { path = "$repo/abstract-integers" }
EOF
cd "$d" && cargo build --offline -q 2>"$d/log" || { tail -30 "$d/log"; exit 3; }
exec_out=$("$d/target/debug/demo" 2>&1); rc=$?
echo "$exec_out" | tail -5
exit $rc
'''
HEAD = DEMO.split('cd "$d" && cargo build')[0]
# a forbidden program that must be refused by the type checker, and a permitted twin that must be accepted
DEMO_FAIL = HEAD + r'''cp "$here/twin.rs" "$d/src/main.rs"
cd "$d" && cargo check --offline -q 2>"$d/log" || { tail -30 "$d/log"; exit 3; }
cp "$here/main.rs" "$d/src/main.rs"; touch "$d/src/main.rs"
if cargo check --offline -q 2>"$d/log"; then echo "the forbidden program type-checks"; exit 1; fi
grep -m1 '^error' "$d/log"
exit 0
'''
# the number of executed instructions must be the same for every secret (first argument: number of the secret)
DEMO_CT = HEAD + r'''cd "$d" && cargo build --offline -q 2>"$d/log" || { tail -30 "$d/log"; exit 3; }
first=
for i in 0 1 2 3 4 5; do
  n=$(valgrind --tool=callgrind --callgrind-out-file=/dev/null "$d/target/debug/demo" $i 2>&1 | sed -n 's/.*Collected : //p')
  [ -n "$n" ] || { echo "no instruction count"; exit 3; }
  [ -n "$first" ] || first=$n
  echo "secret $i: $n instructions"
  [ "$n" = "$first" ] || { echo "the number of instructions depends on the secret"; exit 1; }
done
exit 0
'''
PRE = '''#![allow(unused_imports, dead_code, non_snake_case, unused_variables)]
use hacspec::prelude::*;
fn panics<T, F: FnOnce() -> T + std::panic::UnwindSafe>(f: F) -> bool {
    std::panic::catch_unwind(f).is_err()
}
'''


def make(s):
    d = os.path.join(OUT, s['id'])
    os.makedirs(d, exist_ok=True)
    diff = ''
    files = {}
    for e in s['edits']:
        f, old, new = e[:3]
        src = files.setdefault(f, [open('/repo/' + f).read()] * 2)
        parts = src[1].split(old)
        k = e[3] if len(e) > 3 else 0       # which occurrence
        assert len(parts) == 2 or (len(e) > 3 and len(parts) > k + 1), (s['id'], f, len(parts) - 1, old)
        files[f] = [src[0], old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])]
    for f, (a, b) in files.items():
        diff += ''.join(difflib.unified_diff(a.splitlines(True), b.splitlines(True), 'a/' + f, 'b/' + f))
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    m = s['main']
    kind = m[0] if type(m) is tuple else 'run'
    open(os.path.join(d, 'demo.sh'), 'w').write({'run': DEMO, 'fail': DEMO_FAIL, 'ct': DEMO_CT}[kind])
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    open(os.path.join(d, 'main.rs'), 'w').write(PRE + (m if kind == 'run' else m[1]).strip() + '\n')
    if kind == 'fail':
        open(os.path.join(d, 'twin.rs'), 'w').write(PRE + m[2].strip() + '\n')
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)


for s in SEEDS:
    if len(sys.argv) == 1 or s['id'] in sys.argv[1:]:
        make(s)
