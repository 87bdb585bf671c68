"""Obligation bookkeeping, anchors, reports and evidence."""
import json, os, sys, time, traceback, importlib, signal, threading, resource
from . import build
from .core import Facts, Interp, Limit, T, mk, show, short

EVID = os.path.join(build.VERIF, 'evidence')

class Missing(Exception):
    """a public anchor the property is about is gone"""

class Ctx:
    def __init__(self, prop, tier, scope):
        self.prop, self.tier, self.scope = prop, tier, scope
        self.obs = []            # (rule, instance, status, detail, span)
        self.facts, self.dir = None, None
        self.runs, self.points, self.evs, self.fns, self.notes = 0, 0, 0, set(), []
        self._cache = {}
    # -- facts
    @property
    def F(self):
        if self.facts is None: self.facts = Facts([self.facts_dir()])
        return self.facts
    def facts_dir(self):
        if self.dir is None: self.dir = build.facts(self.scope)
        return self.dir
    # -- anchors, found by crate and public name rather than by file or module
    def adt(self, crate, name, pub=True):
        c = [k for k, a in self.F.adts.items() if a.get('crate') == crate and 'span' in a and k.rsplit('::', 1)[-1] == name and (a.get('pub') or not pub)]
        if not c: raise Missing('%s::%s' % (crate, name))
        return sorted(c, key=len)[0]
    def method(self, adt, name, need=True):
        k = adt + '::' + name
        if k in self.F.bodies: return k
        if need: raise Missing(k)
        return None
    def timpl(self, adt, trait, name, need=True):
        """method of a trait impl; None when the trait's default is used"""
        k = '<%s as %s>::%s' % (adt, trait, name)
        if k in self.F.bodies: return k
        if need: raise Missing(k)
        return None
    def impls(self, trait, adt=None):
        return [i for c in self.F.crates.values() for i in c['impls'] if i.get('trait') == trait and (adt is None or i['self'].split('<')[0] == adt)]
    def fn(self, crate, name, kind='Fn'):
        c = [k for k, b in self.F.bodies.items() if b.get('crate') == crate and b.get('kind') == kind and k.rsplit('::', 1)[-1] == name and b.get('exported')]
        if not c: raise Missing('%s::%s' % (crate, name))
        return sorted(c, key=len)[0]
    # -- analysis
    def run(self, key, inline=('metriken_core', 'metriken', 'metriken_exposition'), cache=True, **kw):
        run_kw = {k: kw.pop(k) for k in ('closure', 'args', 'init_facts') if k in kw}
        ck = (key, tuple(inline), tuple(sorted((k, id(v)) for k, v in kw.items()))) if cache and not run_kw else None
        if ck and ck in self._cache: return self._cache[ck][0]
        it = Interp(self.F, inline, **kw).run(key, **run_kw)
        self.runs += 1; self.points += len(it.reach)
        self.evs += sum(len(it.events.get(n, ())) for n in it.reach)
        self.fns |= {f.key for f in it.frames}
        if ck: self._cache[ck] = (it, kw)
        return it
    # -- verdicts
    def ob(self, rule, inst, ok, detail='', span=''):
        self.obs.append((rule, inst, 'ok' if ok else 'violated', detail if not ok else '', span))
        return ok
    def undecided(self, rule, inst, why): self.obs.append((rule, inst, 'undecided', why, ''))
    def unsure(self, rule, inst, it, t):
        """a value that was not followed to the end: wrong when something on its way does not keep all of it"""
        from .q import lossy
        how = lossy(it, t)
        if how: self.ob(rule, inst, False, '%s passes through %s, which leaves out or changes part of it' % (show(t), how))
        else: self.undecided(rule, inst, show(t))
    def floor(self, rule, what, n, least):
        """a rule that matched fewer instances than were confirmed by hand has lost its subject"""
        self.ob(rule, 'instances: ' + what, n >= least, 'only %d instance(s) of %s found, expected at least %d' % (n, what, least))

START, RULE_S, TOTAL_S = time.time(), 240, 600
_dl = []
def limited(f):
    """runs f within the time a rule may take; what does not finish is left undecided"""
    if threading.current_thread() is not threading.main_thread(): return f()
    now = time.time()
    end = min([now + RULE_S, START + TOTAL_S] + _dl)
    def late(*_): raise Limit('time limit')
    _dl.append(end)
    signal.signal(signal.SIGALRM, late)
    signal.setitimer(signal.ITIMER_REAL, max(0.05, end - now))
    try: return f()
    finally:
        _dl.pop()
        signal.setitimer(signal.ITIMER_REAL, max(0.05, _dl[-1] - time.time()) if _dl else 0)

def rule(ctx, name, inst, f):
    """run one rule instance; a missing anchor is a violation, an analysis limit leaves it undecided"""
    try: limited(f)
    except Missing as e: ctx.ob(name, inst, False, 'anchor missing: %s' % e)
    except build.BuildError: raise
    except (Limit, RecursionError, MemoryError) as e: ctx.undecided(name, inst, 'analysis limit: %s' % e)
    except Exception as e:
        if os.environ.get('MRK_DEBUG'): raise
        ctx.undecided(name, inst, 'analysis error: %s: %s' % (type(e).__name__, e))

def nopanic(ctx):
    from . import nopanic as m
    rule(ctx, 'no-panic', 'entry points', lambda: m.check(ctx))

def known_findings(prop):
    p = os.path.join(build.VERIF, 'known-findings.txt'); out = []
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('known: property=%s ' % prop): out.append(l.split(' ', 2)[2].strip())
    return out

def main(argv):
    sys.setrecursionlimit(20000)
    resource.setrlimit(resource.RLIMIT_DATA, (20 << 30, 20 << 30))
    prop = argv[1]
    tier = 'thorough' if ('thorough' in argv[2:] or os.environ.get('VERIF_TIER') == 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    from . import rules as _r
    spec = importlib.import_module('mrk.rules.%s' % prop.lower())
    scopes = [spec.SCOPE] + (list(getattr(spec, 'THOROUGH', ())) if tier == 'thorough' else [])
    # builds without debug assertions differ only where the sources ask about them
    if tier == 'thorough' or build.profile_sensitive(): scopes.append(spec.SCOPE + '@release')
    total = Ctx(prop, tier, spec.SCOPE)
    for sc in scopes:
        c = Ctx(prop, tier, sc)
        try: c.F; globals().__setitem__('START', time.time()); spec.check(c); nopanic(c)
        except build.BuildError as e:
            if sc != spec.SCOPE:
                total.undecided('build', sc, str(e)[-500:]); continue
            print('ERROR: %s' % e); return 2
        except Missing as e: c.ob('anchor', str(e), False, 'anchor missing: %s' % e)
        # a rule that could not follow part of its subject cannot tell a lost instance from an unfollowed one
        lost = {o[0] for o in c.obs if o[2] == 'undecided'}
        c.obs = [(r, i, 'undecided', d, sp) if s == 'violated' and i.startswith('instances: ') and r in lost else (r, i, s, d, sp) for r, i, s, d, sp in c.obs]
        tag = '' if sc == spec.SCOPE else '[%s] ' % sc
        total.obs += [(r, tag + i, s, d, sp) for r, i, s, d, sp in c.obs]
        total.runs += c.runs; total.points += c.points; total.evs += c.evs; total.fns |= c.fns; total.notes += c.notes
        if c.facts is not None:
            total.notes.append('%s: crates %s, %d bodies' % (sc, ', '.join(sorted(k for k in c.F.crates if k.startswith('metriken'))), len(c.F.bodies)))
    viol = [o for o in total.obs if o[2] == 'violated']
    und = [o for o in total.obs if o[2] == 'undecided']
    known, listed = [], known_findings(prop)
    fresh = []
    for o in viol:
        key = '%s | %s' % (o[0], o[1])
        (known if key in listed else fresh).append((key, o))
    for key, o in known: print('KNOWN-FINDING: property=%s %s (%s)' % (prop, key, o[3]))
    rules = {}
    for r, i, s, d, sp in total.obs: rules.setdefault(r, []).append((i, s))
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': spec.EXPLAIN,
            'obligations': len(total.obs), 'discharged': sum(o[2] == 'ok' for o in total.obs),
            'undecided': [{'rule': o[0], 'instance': o[1], 'why': o[3]} for o in und],
            'rules': {r: {'instances': len(l), 'ok': sum(s == 'ok' for _, s in l)} for r, l in sorted(rules.items())},
            'entry_points_analysed': total.runs, 'functions_analysed': len(total.fns), 'program_points': total.points, 'events': total.evs,
            'samples': [{'rule': r, 'instance': l[0][0], 'verdict': l[0][1]} for r, l in sorted(rules.items())][:12],
            'analysed': total.notes,
        },
        'assumptions': getattr(spec, 'ASSUME', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(fresh),
    }
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    for o in und: print('UNDECIDED %s | %s: %s' % (o[0], o[1], o[3]))
    if fresh:
        rp = os.path.join(EVID, prop + '.violations.txt')
        with open(rp, 'w') as f:
            for key, o in fresh: f.write('%s\n    %s\n    at %s\n' % (key, o[3], o[4]))
        for key, o in fresh: print('  %s: %s%s' % (key, o[3], ' at ' + o[4] if o[4] else ''))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    print('%s: %d obligations over %d functions (%d program points) hold; %d undecided; %.1f s' % (prop, len(total.obs) - len(und) - len(known), len(total.fns), total.points, len(und), time.time() - t0))
    return 0
