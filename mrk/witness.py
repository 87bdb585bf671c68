"""Programs that must not compile (with a twin that must), and fixture crates turned into facts."""
import os, json, subprocess
from concurrent.futures import ThreadPoolExecutor
from . import build

def _args(d):
    ix = json.load(open(d + '/lib/index'))
    a = []
    for x in ix['dirs']: a += ['-L', 'dependency=' + x]
    for n, f in sorted(ix['extern'].items()): a += ['--extern', '%s=%s' % (n, f)]
    return a

def _compile(d, name, src, driver=False):
    f = '%s/%s.rs' % (d, name)
    open(f, 'w').write(src)
    e = build.base_env(); e.pop('MRK_FACTS_DIR', None)
    if driver: e['MRK_FACTS_DIR'] = d; cmd = [build.DRIVER]
    else: cmd = ['rustc', '+nightly']
    cmd += ['--crate-type', 'lib', '--crate-name', name, '--edition', '2021', '--emit', 'metadata', '--cap-lints', 'allow', '--error-format', 'json', '-o', '%s/%s.rmeta' % (d, name), f]
    if driver: cmd += ['--sysroot', build.sysroot()]
    r = subprocess.run(cmd + _args(d), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', env=e)
    codes, msgs = [], []
    for l in r.stderr.splitlines():
        try: j = json.loads(l)
        except ValueError: continue
        if j.get('level') == 'error':
            msgs.append(j['message'])
            if j.get('code'): codes.append(j['code']['code'])
    return r.returncode, codes, msgs

def fixture(ctx, name, src):
    """compile a fixture crate through the driver and add its facts to ctx"""
    d = ctx.facts_dir()
    rc, codes, msgs = _compile(d, name, src, True)
    if rc == 0 and os.path.exists('%s/%s.json' % (d, name)):
        ctx.facts = None
        return True, msgs
    return False, msgs

def witnesses(ctx, rule, ws):
    """ws: name, prelude, ok body, bad body, why.  The twin with the ok body must build, the witness must not."""
    d = ctx.facts_dir()
    def one(w):
        name, pre, okb, badb, why = w
        base = ''.join(c if c.isalnum() else '_' for c in '%s_%s' % (rule, name))
        return w, _compile(d, 'ok_' + base, pre + okb), _compile(d, 'bad_' + base, pre + badb)
    with ThreadPoolExecutor(8) as ex:
        for (name, pre, okb, badb, why), good, bad in ex.map(one, ws):
            if good[0] != 0: ctx.undecided(rule, name, 'the twin of this witness no longer builds: %s' % '; '.join(good[2])[:300])
            else: ctx.ob(rule, name, bad[0] != 0, 'a program that %s compiles' % why)
            if good[0] == 0 and bad[0] != 0: ctx.notes.append('%s %s: rejected with %s' % (rule, name, ','.join(sorted(set(bad[1]))) or bad[2][0][:80]))

def warm(): pass
