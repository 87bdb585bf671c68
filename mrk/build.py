"""Turns /repo's working tree into facts (JSON) with the mrk-facts rustc driver.

Everything is written under $MRK_WORK (default /verif/.work): the driver, a
cargo target directory for the dependencies, and one fresh facts directory per
run.  Workspace crates are re-checked on every run; nothing is executed.
"""
import os, re, subprocess, fcntl, shutil, glob, tempfile, hashlib, json, atexit, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MRK_REPO', '/repo')
WORK = os.environ.get('MRK_WORK', os.path.join(VERIF, '.work'))

class BuildError(Exception): pass

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)

_sysroot = None
def sysroot():
    global _sysroot
    if _sysroot is None:
        _sysroot = subprocess.check_output(['rustc', '+nightly', '--print', 'sysroot'], text=True).strip()
    return _sysroot

def base_env():
    e = dict(os.environ)
    for k in ('RUSTFLAGS', 'RUSTC_WRAPPER', 'CARGO_ENCODED_RUSTFLAGS', 'CARGO_BUILD_RUSTFLAGS'): e.pop(k, None)
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TERM_COLOR'] = 'never'
    e['MRK_SYSROOT'] = sysroot()
    e['LD_LIBRARY_PATH'] = sysroot() + '/lib' + (':' + e['LD_LIBRARY_PATH'] if e.get('LD_LIBRARY_PATH') else '')
    return e

class Lock:
    def __enter__(self):
        os.makedirs(WORK, exist_ok=True)
        self.f = open(os.path.join(WORK, 'lock'), 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a): self.f.close()

DRIVER = os.path.join(WORK, 'driver', 'debug', 'mrk-facts')
def ensure_driver():
    """(re)build the driver when its source changed"""
    src = sorted(glob.glob(VERIF + '/driver/src/*.rs') + [VERIF + '/driver/Cargo.toml'])
    h = hashlib.sha256()
    for s in src: h.update(open(s, 'rb').read())
    h.update(sysroot().encode())
    stamp = os.path.join(WORK, 'driver', 'stamp')
    if os.path.exists(DRIVER) and os.path.exists(stamp) and open(stamp).read() == h.hexdigest(): return
    e = base_env(); e.pop('MRK_FACTS_DIR', None)
    e['CARGO_TARGET_DIR'] = os.path.join(WORK, 'driver')
    r = sh(['cargo', '+nightly', 'build', '--offline', '--quiet'], cwd=VERIF + '/driver', env=e)
    if r.returncode or not os.path.exists(DRIVER): raise BuildError('driver build failed:\n' + r.stdout[-4000:])
    open(stamp, 'w').write(h.hexdigest())

def models(out):
    e = base_env(); e['MRK_FACTS_DIR'] = out
    r = sh([DRIVER, '--crate-type', 'lib', '--crate-name', 'mrk_models', '--edition', '2021', '--emit', 'metadata', '--cap-lints', 'allow',
            '-o', os.path.join(out, 'mrk_models.rmeta'), VERIF + '/models/src/lib.rs', '--sysroot', sysroot()], env=e)
    if r.returncode: raise BuildError('models: ' + r.stdout[-3000:])

SCOPES = {
    'core': ['-p', 'metriken-core', '-p', 'metriken-derive', '-p', 'metriken', '--all-features'],
    'all': ['--workspace', '--all-features'],
    'thorough:default': ['--workspace'],
    'thorough:min': ['-p', 'metriken-exposition', '--no-default-features'],
    'thorough:json': ['-p', 'metriken-exposition', '--no-default-features', '--features', 'serde,json'],
    'thorough:msgpack': ['-p', 'metriken-exposition', '--no-default-features', '--features', 'serde,msgpack'],
    'thorough:parquet': ['-p', 'metriken-exposition', '--no-default-features', '--features', 'parquet'],
}
def libs(out, log):
    """keep the checked crates (metadata and proc macros) for fixtures and witnesses"""
    ext, dirs = {}, []
    os.makedirs(out + '/lib', exist_ok=True)
    for l in log.splitlines():
        try: d = json.loads(l)
        except ValueError: continue
        if d.get('reason') != 'compiler-artifact': continue
        n = d['target']['name'].replace('-', '_')
        for f in d['filenames']:
            if n.startswith('metriken'):
                if 'proc-macro' in d['target']['crate_types'] and not f.endswith('.so'): continue
                g = out + '/lib/' + os.path.basename(f)
                shutil.copy(f, g); ext[n] = g
            elif os.path.dirname(f) not in dirs:
                dirs.append(os.path.dirname(f))
                if n in ('histogram', 'parking_lot', 'serde', 'serde_json', 'linkme', 'phf') and f.endswith('.rmeta'): ext.setdefault(n, f)
    json.dump({'extern': ext, 'dirs': [out + '/lib'] + dirs}, open(out + '/lib/index', 'w'))

_tmp = []
def scratch(prefix):
    os.makedirs(os.path.join(WORK, 'run'), exist_ok=True)
    d = tempfile.mkdtemp(prefix=prefix, dir=os.path.join(WORK, 'run'))
    _tmp.append(d)
    return d
@atexit.register
def _clean():
    for d in _tmp: shutil.rmtree(d, ignore_errors=True)

def profile_sensitive():
    """whether the sources behave differently with and without debug assertions"""
    for d, ds, fs in os.walk(REPO):
        ds[:] = [x for x in ds if x not in ('target', '.git')]
        for f in fs:
            if f.endswith('.rs') and re.search(r'debug_assert|overflow_checks', open(os.path.join(d, f), errors='replace').read()): return True
    return False

def facts(scope):
    """check the workspace crates of /repo through the driver; returns the facts directory"""
    scope, _, profile = scope.partition('@')
    with Lock():
        ensure_driver()
        out = scratch('facts-')
        target = os.path.join(WORK, 'target')
        # cargo would silently skip the wrapper for unchanged crates: forget the workspace crates (old and new cargo layouts)
        for f in glob.glob(target + '/debug/.fingerprint/metriken*') + glob.glob(target + '/debug/build/metriken*'): shutil.rmtree(f, ignore_errors=True)
        e = base_env()
        e['MRK_FACTS_DIR'] = out
        e['RUSTC_WORKSPACE_WRAPPER'] = DRIVER
        e['CARGO_TARGET_DIR'] = target
        e['CARGO_INCREMENTAL'] = '0'
        if profile == 'release': e['CARGO_PROFILE_DEV_DEBUG_ASSERTIONS'] = e['CARGO_PROFILE_DEV_OVERFLOW_CHECKS'] = 'false'
        args = ['cargo', '+nightly', 'check', '--offline', '--locked' if os.path.exists(REPO + '/Cargo.lock') else '--offline'] + SCOPES[scope]
        r = subprocess.run(args + ['--message-format=json-render-diagnostics'], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', cwd=REPO, env=e)
        if r.returncode: raise BuildError('cargo check failed on /repo:\n' + r.stderr[-6000:])
        libs(out, r.stdout)
        want = ['metriken_core', 'metriken', 'metriken_derive'] + (['metriken_exposition'] if scope != 'core' else [])
        lost = [c for c in want if not os.path.exists('%s/%s.json' % (out, c))]
        if lost: raise BuildError('no facts for ' + ', '.join(lost))
        models(out)
        return out
