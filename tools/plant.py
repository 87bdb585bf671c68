#!/usr/bin/env python3
"""Confirms planted bugs (tools/plants.py) in a scratch copy of /repo and writes /verif/seeded/<id>/.
Kept only if it compiles, the stable tests pass, and the demo passes without and fails with it.
usage: plant.py [id-substring...]"""
import os, sys, subprocess, json, shutil, re
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF + '/tools'); sys.dont_write_bytecode = True
DEMO = '''#!/bin/bash
# builds and runs demo.rs against the crates in the current directory
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=line-tables-only
export PATH=/root/.cargo/bin:$PATH; unset RUSTFLAGS
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"; cp "$here/demo.rs" "$t/src/main.rs"; cp "$repo/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<E
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
%s
[workspace]
E
cd "$t" && export CARGO_TARGET_DIR="$repo/target/demo"
cargo build --offline -q || exit 4
export TMPDIR="$t"
timeout 120 "$CARGO_TARGET_DIR/debug/demo"
'''
DEPS = {'core': 'metriken-core = { path = "$repo/metriken-core" }\nmetriken = { path = "$repo/metriken" }',
        'all': 'metriken-core = { path = "$repo/metriken-core" }\nmetriken = { path = "$repo/metriken" }\nmetriken-exposition = { path = "$repo/metriken-exposition", features = ["serde", "json", "msgpack", "parquet", "parquet-conversion"] }\narrow = "54.2.1"\nparquet = "54.2.1"\nrmp-serde = "1.3.0"\nserde_json = "1.0.140"\nserde = "1"\nhistogram = "0.11.0"'}
ROOT = '/tmp/plant'
def sh(c, **k): return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
def tests(repo):
    e = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only', TERM='dumb', NO_COLOR='1')
    r = sh(['cargo', 'test', '--workspace', '--all-features', '--no-fail-fast', '--offline', '--', '--test-threads', '8'], cwd=repo, env=e)
    return r.returncode, r.stdout
def demo(d, repo):
    r = sh(['bash', d + '/demo.sh'], cwd=repo)
    return r.returncode, r.stdout
def main():
    import plants
    ps = [p for p in plants.P if len(sys.argv) < 2 or any(a in p['id'] for a in sys.argv[1:])]
    repo = ROOT + '/repo'
    if not os.path.exists(repo):
        os.makedirs(ROOT, exist_ok=True); sh(['cp', '-a', '/repo', repo])
    bad = 0
    for p in ps:
        sh(['git', '-C', repo, 'fetch', '-q', '/repo', 'HEAD']); sh(['git', '-C', repo, 'checkout', '-q', '-f', 'FETCH_HEAD'])
        d = '%s/new/%s' % (ROOT, p['id']); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        open(d + '/demo.sh', 'w').write(DEMO % DEPS[p.get('deps', 'core')]); os.chmod(d + '/demo.sh', 0o755)
        open(d + '/demo.rs', 'w').write(p['demo'])
        rc, out = demo(d, repo)
        if rc: print('BAD %s: demo fails on the unchanged tree (%d)\n%s' % (p['id'], rc, out[-1500:])); bad += 1; continue
        err = None
        for f, o, n in p['edits']:
            s = open(repo + '/' + f).read()
            if s.count(o) != 1: err = 'edit applies %d times: %r' % (s.count(o), o[:70]); break
            open(repo + '/' + f, 'w').write(s.replace(o, n))
        if err: print('BAD', p['id'], err); bad += 1; continue
        diff = subprocess.run(['git', '-C', repo, 'diff'], stdout=subprocess.PIPE, text=True).stdout
        open(d + '/patch.diff', 'w').write(diff)
        rc, out = tests(repo)
        if rc: print('BAD %s: tests\n%s' % (p['id'], out[-1800:])); bad += 1; continue
        rc, out = demo(d, repo)
        if rc in (0, 3, 4): print('BAD %s: demo exits %d with the bug\n%s' % (p['id'], rc, out[-1500:])); bad += 1; continue
        json.dump({'property': p['prop'], 'needs': p['needs'], 'what_it_breaks': p['what']}, open(d + '/meta.json', 'w'), indent=1)
        dst = '%s/seeded/%s' % (VERIF, p['id']); shutil.rmtree(dst, ignore_errors=True); shutil.copytree(d, dst)
        print('kept', p['id'], '(demo exits %d: %s)' % (rc, out.strip().splitlines()[-1][:120] if out.strip() else '')); sys.stdout.flush()
    sh(['git', '-C', repo, 'checkout', '-q', '-f', 'FETCH_HEAD'])
    print('%d bad' % bad)
main()
