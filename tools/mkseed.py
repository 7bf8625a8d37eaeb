#!/usr/bin/env python3
"""Create a planted bug from a definition and verify it.

Usage: mkseed.py DEF.py...      (each DEF.py defines the names used below)
  id, property, needs, what
  edits     [(file, old, new)]    exact, unique replacement in /repo's source
  features  [..]                  crate features of the demo client
  main      Rust source of the demo client
  expect    'run' | 'fail:<regex>' | 'pass'
Writes /verif/seeded/<id>/ and then confirms: the patched tree builds, the
stable tests pass, the demo exits 0 on the unchanged tree and nonzero with
the patch.  Also reports which registered check catches it.
"""
import json, os, re, subprocess, sys, shutil, tempfile
REPO = '/repo'
OUT = '/verif/seeded'

DEMO = r'''#!/bin/bash
# %(title)s
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=nightly-2025-03-20 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
d=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf -- "$d"' EXIT
export CARGO_TARGET_DIR="$d/target"
mkdir -p "$d/c/src"
cp "$here/main.rs" "$d/c/src/main.rs"
cat > "$d/c/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
auto_enums = { path = "$repo", default-features = false, features = [%(feat)s] }
T
cd "$d/c" || exit 2
%(body)s
'''
RUN = 'cargo run --offline -q >"$d/log" 2>&1; rc=$?\ntail -n 30 "$d/log"\nexit $rc'
PASS = 'cargo check --offline -q >"$d/log" 2>&1; rc=$?\ntail -n 30 "$d/log"\nexit $rc'
FAIL = '''# the client must be rejected, for the expected reason
if cargo check --offline -q >"$d/log" 2>&1; then echo "accepted, but must be rejected"; exit 1; fi
grep -Eq -- %(re)s "$d/log" || { cat "$d/log"; echo "rejected for another reason"; exit 1; }
# (the same code without the offending part is accepted)
exit 0'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def main():
    ok = True
    for df in sys.argv[1:]:
        ns = {}
        exec(open(df).read(), ns)
        defs = ns['SEEDS'] if 'SEEDS' in ns else [ns]
        only = os.environ.get('ONLY')
        for s in defs:
            if only and s['id'] not in only.split(','):
                continue
            ok &= one(s)
    sys.exit(0 if ok else 1)


def one(s):
    d = os.path.join(OUT, s['id'])
    os.makedirs(d, exist_ok=True)
    assert not sh('git -C /repo status --porcelain').stdout.strip(), 'repo dirty'
    try:
        for f, old, new in s['edits']:
            p = os.path.join(REPO, f)
            t = open(p).read()
            n = t.count(old)
            if n != 1:
                print(s['id'], 'edit not unique', n, f, repr(old[:60])); return False
            open(p, 'w').write(t.replace(old, new))
        diff = sh('git -C /repo diff').stdout
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        open(os.path.join(d, 'main.rs'), 'w').write(s['main'])
        exp = s.get('expect', 'run')
        if exp == 'run':
            body = s.get('post') or RUN
        elif exp == 'pass':
            body = PASS
        else:
            import shlex
            body = FAIL % {'re': shlex.quote(exp[5:])}
        feat = ', '.join('"%s"' % x for x in s.get('features', ['std']))
        open(os.path.join(d, 'demo.sh'), 'w').write(
            s.get('demo') or DEMO % dict(title=s['what'].split('\n')[0][:100], feat=feat, body=body))
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['what']},
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        # with the patch
        r1 = sh('bash %s/demo.sh' % d, cwd=REPO)
        b = t = None
        if not os.environ.get('NOTEST'):
            b = sh('bash /opt/vp/build.sh')
            t = sh('bash /opt/vp/test.sh /tmp/seedtest.json')
        base = json.load(open('/opt/vp/BASELINE.json'))
        stable = base.get('stable') or base.get('tests') or base.get('passed') or base
        if t is not None:
            res = json.load(open('/tmp/seedtest.json'))
            passed = set(res.get('passed', []))
            st = set(stable if isinstance(stable, list) else stable.keys())
            miss = st - passed
        else:
            miss = set()
        # checks
        caught = []
        for pid in [s['property']] + s.get('also', []):
            c = sh('VERIF_TIER=quick python3 /verif/engine/check.py %s quick' % pid, cwd='/verif')
            line = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
            caught.append((pid, c.returncode, line[:1]))
    finally:
        sh('git -C /repo checkout -- .')
    r0 = sh('bash %s/demo.sh' % d, cwd=REPO)
    good = r0.returncode == 0 and r1.returncode != 0 and (b is None or b.returncode == 0) and not miss
    print('%-6s %s demo clean=%d patched=%d build=%s missing_tests=%s checks=%s' % (
        s['id'], 'OK ' if good else 'BAD', r0.returncode, r1.returncode,
        None if b is None else b.returncode, sorted(miss)[:3], caught))
    if not good:
        print('--- clean:\n', r0.stdout[-1500:], r0.stderr[-300:], '\n--- patched:\n', r1.stdout[-800:])
        if b is not None and b.returncode: print(b.stderr[-1500:])
    return good


main()
