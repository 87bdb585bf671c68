#!/usr/bin/env python3
"""Runs the checks on edited scratch copies of /repo: 'bug' variants must be reported for their
property, 'ok' variants (behaviour-preserving edits) must leave every check quiet.
usage: selftest.py [-j N] [--props C01,C02] [name-substring...]"""
import os, sys, shutil, subprocess, importlib, json, time, argparse, traceback
sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF); sys.path.insert(0, os.path.join(VERIF, 'tools'))

def one(v, worker, props):
    root = os.environ.get('MRK_SELF', '/tmp/mrk-self') + '/w%d' % worker
    repo, work = root + '/repo', root + '/work'
    os.makedirs(root, exist_ok=True)
    subprocess.run(['rsync', '-a', '--delete', '--exclude', '/target', '--exclude', '/.git', '/repo/', repo + '/'], check=True) if shutil.which('rsync') else (shutil.rmtree(repo, ignore_errors=True), shutil.copytree('/repo', repo, ignore=shutil.ignore_patterns('target', '.git')))
    if not os.path.exists(work):
        os.makedirs(work)
        subprocess.run(['cp', '-a', VERIF + '/.work/driver', work + '/driver'], check=True)
        if os.path.exists(VERIF + '/.work/target'): subprocess.run(['cp', '-a', VERIF + '/.work/target', work + '/target'], check=True)
    for f, old, new in v['edits']:
        p = os.path.join(repo, f); s = open(p).read()
        if s.count(old) < 1: return {'err': 'edit does not apply: %s: %r' % (f, old[:60])}
        s = s.replace(old, new, 1) if not v.get('all') else s.replace(old, new)
        open(p, 'w').write(s)
    if v.get('patch'):
        r = subprocess.run(['git', 'apply', '--unsafe-paths', '--directory=' + repo, v['patch']], cwd='/', capture_output=True, text=True)
        if r.returncode:
            r = subprocess.run(['patch', '-p1', '-s', '-i', v['patch']], cwd=repo, capture_output=True, text=True)
            if r.returncode: return {'err': 'patch: ' + r.stdout + r.stderr}
    env = dict(os.environ, MRK_REPO=repo, MRK_WORK=work)
    r = subprocess.run([sys.executable, __file__, '--inner', ','.join(props)], env=env, capture_output=True, text=True)
    try: return json.loads(r.stdout.strip().splitlines()[-1])
    except Exception: return {'err': (r.stdout + r.stderr)[-1500:]}

def inner(props):
    sys.setrecursionlimit(20000)
    from mrk import frame, build
    from mrk.core import Facts
    out = {}
    try:
        d = {}
        for sc in ('core', 'all'): pass
        need_all = any(importlib.import_module('mrk.rules.' + p.lower()).SCOPE == 'all' for p in props)
        sc = 'all' if need_all else 'core'
        sets = [(D, Facts([D])) for D in [build.facts(sc)] + ([build.facts(sc + '@release')] if build.profile_sensitive() else [])]
    except build.BuildError as e:
        print(json.dumps({'err': 'does not build: ' + str(e)[-1200:]})); return
    for p in props:
      for D, F in sets:
        spec = importlib.import_module('mrk.rules.' + p.lower())
        c = frame.Ctx(p, 'quick', spec.SCOPE + ('@release' if D is not sets[0][0] else '')); c.facts = F; c.dir = D
        t0 = time.time()
        try: spec.check(c); frame.nopanic(c)
        except frame.Missing as e: c.ob('anchor', str(e), False, 'missing')
        except Exception as e: c.undecided('crash', p, traceback.format_exc()[-800:])
        o = out.setdefault(p, {'viol': [], 'und': [], 'n': 0, 't': 0})
        o['viol'] += ['%s | %s: %s' % (o[0], o[1], o[3]) for o in c.obs if o[2] == 'violated']
        o['und'] += ['%s | %s: %s' % (o[0], o[1], o[3]) for o in c.obs if o[2] == 'undecided']
        o['n'] += len(c.obs); o['t'] += round(time.time() - t0, 2)
    print(json.dumps(out))

def main():
    if len(sys.argv) > 1 and sys.argv[1] == '--inner': return inner(sys.argv[2].split(','))
    ap = argparse.ArgumentParser(); ap.add_argument('-j', type=int, default=6); ap.add_argument('--props'); ap.add_argument('-v', action='store_true'); ap.add_argument('--own', action='store_true', help='bugs: only their own property'); ap.add_argument('--seeded', action='store_true'); ap.add_argument('names', nargs='*')
    a = ap.parse_args()
    import variants
    allp = sorted(f[:-3].upper() for f in os.listdir(VERIF + '/mrk/rules') if f[0] == 'c' and f[1:3].isdigit())
    props = a.props.split(',') if a.props else allp
    vs = [v for v in variants.V if not a.names or any(n in v['name'] for n in a.names)]
    if a.seeded:
        vs = []
        for d in sorted(os.listdir(VERIF + '/seeded')):
            m = json.load(open('%s/seeded/%s/meta.json' % (VERIF, d)))
            if not a.names or any(n in d for n in a.names): vs.append({'name': 'seeded/' + d, 'prop': m['property'], 'kind': 'bug', 'edits': [], 'patch': '%s/seeded/%s/patch.diff' % (VERIF, d)})
    if a.props: vs = [v for v in vs if v['kind'] == 'ok' or v['prop'] in props]
    from concurrent.futures import ThreadPoolExecutor
    import threading, queue
    q = queue.Queue(); [q.put(i) for i in range(a.j)]
    def job(v):
        w = q.get()
        try: return v, one(v, w, [v['prop']] if v['kind'] == 'bug' and (a.own or not a.props) and v['prop'] in allp else props)
        finally: q.put(w)
    bad = 0
    with ThreadPoolExecutor(a.j) as ex:
        for v, r in ex.map(job, vs):
            if 'err' in r: print('ERR  %-34s %s' % (v['name'], r['err'])); bad += 1; continue
            if v['kind'] == 'ok':
                vi = [p + ' ' + x for p in r for x in r[p]['viol']]; un = [p + ' ' + x for p in r for x in r[p]['und']]
                st = 'ok  ' if not vi else 'ALARM'
                if vi: bad += 1
                print('%s %-34s %s' % (st, v['name'], ('; '.join(vi)[:700]) + (' UNDECIDED ' + '; '.join(un)[:400] if un else '')))
            else:
                p = v['prop']
                hit = r.get(p, {}).get('viol', [])
                if not hit: bad += 1
                print('%s %-34s %s' % ('caught' if hit else 'MISSED', v['name'], (hit[0][:220] if hit else '') + (' UNDECIDED ' + '; '.join(r[p]['und'])[:400] if r.get(p, {}).get('und') else '')))
            sys.stdout.flush()
    print('%d variants, %d not as expected' % (len(vs), bad))
if __name__ == '__main__': main()
