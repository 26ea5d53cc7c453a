#!/usr/bin/env python3
"""plant.py ID... : (re)build seeded/ID from tools/bugs.py and confirm it in a scratch copy (/tmp/w): applies, builds, stable tests
pass, demo passes without and fails with the change; then run the property's check against the scratch copy."""
import json, os, shutil, subprocess, sys, re
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
W = '/tmp/w'
ENV = dict(os.environ, **{})
BUILD = r'''. /opt/vp/env.sh; cd /tmp/w
cargo test --workspace --exclude integration_tests --no-run --locked --offline -q 2>&1 | grep -E "^error" -A6
for c in core_nft index_icrc7; do CARGO_INCREMENTAL=0 cargo rustc --crate-type=cdylib --target wasm32-unknown-unknown --release --locked --offline -q -p $c 2>&1 | grep -E "^error" -A8; done
cargo test --workspace --exclude integration_tests --lib --bins --no-fail-fast --locked --offline -- --test-threads 8 2>&1 | grep -E "^test .*FAILED|^error\[" | grep -v "(line "'''


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def sync():
    sh('cd /tmp/w && git checkout -q -- . && git fetch -q /repo HEAD && git checkout -q FETCH_HEAD && git checkout -q -- . ')


def main():
    bugs = {}
    exec(open(os.path.join(HERE, 'bugs.py')).read(), bugs)
    B = bugs['B']
    ids = sys.argv[1:] or list(B)
    for i in ids:
        b = B[i]
        sync()
        for f, old, new in b['edits']:
            p = os.path.join(W, f)
            s = open(p).read()
            n = s.count(old)
            if n != 1:
                print(i, 'EDIT: %d occurrences in %s of %r' % (n, f, old[:60])); break
            open(p, 'w').write(s.replace(old, new))
        else:
            d = os.path.join(ROOT, 'seeded', i)
            os.makedirs(d, exist_ok=True)
            open(d + '/patch.diff', 'w').write(sh('git diff', cwd=W).stdout)
            shutil.copy(os.path.join(HERE, 'sim', 'sim.mjs'), d + '/sim.mjs')
            open(d + '/demo.mjs', 'w').write("import { Nft, Canister, Replica, Principal, T, CORE, INDEX, ALL, Perm, acc, admin, alice, bob, carol, dave, N, J, plain, check, rejected, encode, decode, unwrap, initArgs, upgradeArgs } from './sim.mjs';\n" + b['demo'].strip() + "\nconsole.log('ok');\n")
            open(d + '/demo.sh', 'w').write('#!/bin/bash\n# runs the canister wasm built from the current tree in a small replica (sim.mjs)\nexec node "$(dirname "$0")/demo.mjs"\n')
            os.chmod(d + '/demo.sh', 0o755)
            json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
            a = sh('bash %s/demo.sh' % d, cwd='/repo')
            r = sh(BUILD)
            c = sh('bash %s/demo.sh' % d, cwd=W)
            good = 'error' not in r.stdout and 'FAILED' not in r.stdout
            print(i, b['property'], 'build+tests', 'ok' if good else 'BAD\n' + r.stdout[-1500:], '| demo unchanged', a.returncode, (a.stdout + a.stderr)[-600:].strip() if a.returncode else '', '| demo patched', c.returncode, (c.stdout + c.stderr)[:300].strip())
            if '--nocheck' in os.environ.get('PLANT', ''):
                continue
            e = dict(os.environ, VERIF_REPO=W, VERIF_BUILD='/tmp/wb', VERIF_EVIDENCE='/tmp/we')
            os.makedirs('/tmp/we', exist_ok=True)
            k = subprocess.run(['python3', ROOT + '/an/check.py', b['property']], env=e, capture_output=True, text=True, cwd=ROOT)
            print('   check', b['property'], 'exit', k.returncode, '\n      '.join([''] + [l[:260] for l in (k.stdout + k.stderr).splitlines()[:6]]))
    sync()


main()
