#!/usr/bin/env python3
"""plant.py SPEC.py...   Confirms planted bugs in a scratch copy of /repo and keeps those that hold up.

A spec defines ID, PROP, NEEDS, BREAKS, EDITS = [(file, old, new)], and DEMO (a Rust program) or
SH (the whole demo.sh) with FILES = {name: text}.  The scratch copy is /tmp/plant.
"""
import json, os, re, subprocess, sys, time
S = '/tmp/plant'
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1',
           CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_TERM_COLOR='never', CARGO_TARGET_DIR=S + '/target')
DEMO_SH = '''#!/bin/bash
# Exit 0 if the property holds in this case, nonzero if it does not.
set -e
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu PATH=/root/.cargo/bin:$PATH
here=$(cd "$(dirname "$0")" && pwd)
out=$PWD/target/seeded-demo
mkdir -p "$out"
rustc --edition 2018 -A warnings -o "$out/%(id)s" "$here/demo.rs" --extern bellframe=target/debug/libbellframe.rlib -L dependency=target/debug/deps
timeout 60 "$out/%(id)s"
'''
def run(cmd, **k):
    return subprocess.run(cmd, shell=True, cwd=S, env=ENV, capture_output=True, text=True, **k)
def sync():
    if not os.path.isdir(S):
        subprocess.check_call(['cp', '-a', '/repo', S])
    head = subprocess.check_output(['git', '-C', '/repo', 'rev-parse', 'HEAD'], text=True).strip()
    subprocess.check_call(['git', '-C', S, 'checkout', '-q', '--', '.'])
    if subprocess.check_output(['git', '-C', S, 'rev-parse', 'HEAD'], text=True).strip() != head:
        subprocess.check_call(['git', '-C', S, 'fetch', '-q', '/repo', 'HEAD'])
        subprocess.check_call(['git', '-C', S, 'checkout', '-q', '--detach', 'FETCH_HEAD'])
def touch():
    t = time.time() + 2
    for r, _, fs in os.walk(S + '/src'):
        for f in fs:
            os.utime(os.path.join(r, f), (t, t))
def build():
    touch()
    time.sleep(0.1)
    r = run('cargo test --workspace --no-run --offline && cargo build --workspace --features serde --offline')
    return r.returncode == 0, r.stderr[-3000:]
def main(spec):
    g = dict(FILES={})
    exec(open(spec).read(), g)
    sync()
    d = f"/verif/seeded/{g['ID']}"
    os.makedirs(d, exist_ok=True)
    files = dict(g['FILES'])
    if 'DEMO' in g:
        files['demo.rs'] = g['DEMO']
        files['demo.sh'] = DEMO_SH % dict(id=g['ID'])
    else:
        files['demo.sh'] = g['SH']
    for n, t in files.items():
        os.makedirs(os.path.dirname(f'{d}/{n}'), exist_ok=True)
        open(f'{d}/{n}', 'w').write(t)
    os.chmod(d + '/demo.sh', 0o755)
    def fail(why):
        print(g['ID'], 'REJECTED:', why)
        subprocess.run(['mv', d, '/tmp/bugs/rejected-' + g['ID'] + '-%d' % time.time()])
        return False
    ok, e = build()
    if not ok:
        return fail('clean build ' + e)
    r = run(f'timeout 300 bash {d}/demo.sh')
    if r.returncode != 0:
        return fail(f'demo fails on the clean tree: {r.stdout[-800:]}{r.stderr[-1500:]}')
    for f, a, b in g['EDITS']:
        p = f'{S}/{f}'
        t = open(p).read()
        if t.count(a) != 1:
            return fail(f'{f}: {t.count(a)} matches of {a!r}')
        open(p, 'w').write(t.replace(a, b))
    ok, e = build()
    if not ok:
        return fail('build ' + e)
    r = run('timeout 300 bash %s/demo.sh' % d)
    if r.returncode == 0:
        return fail('the demo does not notice')
    note = (r.stdout + r.stderr).strip().split('\n')[-1][:160]
    r = run('cargo test --workspace --no-fail-fast --offline -- --test-threads 8')
    failed = set(re.findall(r'^test (\S+)(?: \(line \d+\))? (?:- .*)?\.\.\. FAILED|^test (.*) \.\.\. FAILED', r.stdout, re.M))
    failed = {a or b for a, b in failed}
    if failed - {'method::class::tests::classification'}:
        return fail(f'tests fail: {failed}')
    diff = subprocess.check_output(['git', '-C', S, 'diff'], text=True)
    open(d + '/patch.diff', 'w').write(diff)
    json.dump(dict(property=g['PROP'], needs=g['NEEDS'], what_it_breaks=g['BREAKS']), open(d + '/meta.json', 'w'), indent=1)
    subprocess.check_call(['git', '-C', S, 'checkout', '-q', '--', '.'])
    print(g['ID'], 'kept:', note)
    return True
sys.exit(0 if all([main(s) for s in sys.argv[1:]]) else 1)
