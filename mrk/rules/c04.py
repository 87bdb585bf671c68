"""C04: lock discipline of the registry and the histograms."""
from ..frame import rule, Missing
from ..q import *
from ..registry import *
SCOPE = 'all'
TECHNIQUE = 'static analysis: interprocedural held-lock (typestate) analysis over compiler MIR'
EXPLAIN = ("For every function user code can run (exported functions, trait implementations, destructors; destructors of dropped values are followed), a held-lock automaton runs over all paths of the "
           "interprocedural graph: no registry acquisition while any lock is held (callers holding a listing count as holding the registry), no histogram lock while a histogram lock is held, "
           "no indirect, virtual or generic (hence user-supplied) call and no destructor of a user value while the registry is held for writing. Guards are never forgotten, leaked or unlocked behind their owner's back; "
           "metrics() hands over a blocking read guard of the registry inside the listing; snapshotting acquires the registry exactly once on every path.")
ASSUME = ["lock guards release on drop and on unwinding (RAII of lock_api/std)", "std collections call no user code for integer keys", "registry before histogram is the only permitted nesting"]
FORGET = ('core::mem::forget', 'core::mem::manually_drop::ManuallyDrop::new', 'alloc::boxed::Box::leak', 'alloc::boxed::Box::into_raw')
LEAKS = {'leak', 'unlocked', 'unlocked_fair', 'bump', 'bump_fair', 'bump_exclusive', 'bump_shared', 'force_unlock', 'force_unlock_read', 'force_unlock_write', 'force_unlock_fair', 'force_unlock_read_fair', 'force_unlock_write_fair', 'raw', 'data_ptr', 'make_read_guard_unchecked', 'make_write_guard_unchecked', 'force_write_unlock', 'force_read_decrement', 'unlock_exclusive', 'unlock_shared', 'into_raw', 'bypass'}

def is_param(ty):
    """a destructor of this type can run user code"""
    t = ty
    for w in ('dyn ',):
        if w in t.replace('*const dyn', '').replace('*mut dyn', '').replace('&dyn', '').replace('&mut dyn', ''): return True
    import re
    return bool(re.search(r'(?:^|[<,( ])[A-Z][A-Za-z0-9]?(?:$|[>,) ])', t))

def listing_arg(ctx, b):
    """user code calls this while it holds a listing: it takes one, or an entry of one by reference, or is what a listed metric answers with"""
    E = ctx.adt('metriken_core', 'MetricEntry')
    if any(l['ty'].lstrip('&').startswith(E) and l['ty'].startswith('&') and not l['ty'].startswith('&mut') for l in b['locals'][1:1 + b['argc']]): return True
    if ' as metriken_core::Metric>::' in b.get('key', ''): return True
    names = tuple(ctx.adt('metriken_core', n) for n in ('Metrics', 'MetricsIter', 'DynMetricsIter'))
    return any(a in l['ty'] for l in b['locals'][1:1 + b['argc']] for a in names)

def owns(it, t, g, d=0, seen=None):
    """value t, when dropped, drops guard g"""
    seen = set() if seen is None else seen
    if t is g: return True
    if d > 12 or t in seen: return False
    seen.add(t)
    o = lambda x: isinstance(x, T) and owns(it, x, g, d + 1, seen)
    if t.k == 'agg': return any(o(x) for x in t.a[3])
    if t.k == 'upd': return o(t.a[0]) or any(o(v) for _, v in t.a[1])
    if t.k == 'proj': return o(t.a[0])
    if t.k in ('mut', 'mutd'): return any(o(x) for x in t.a)
    if t.k == 'phi': return any(o(x) for x in it.phi_inputs(t))
    if t.k == 'call' and t.a[1]: return last(t.a[0]) in GUARD_THROUGH and o(t.a[1][0])
    return False
GUARD_THROUGH = {'map', 'try_map', 'filter_map', 'unwrap', 'expect', 'unwrap_or_else', 'into_inner', 'ok', 'err', 'downgrade', 'upgrade', 'ok_or', 'ok_or_else', 'into', 'from', 'new', 'into_iter'}

def analyse(ctx, k, b, regs, snap):
    it = ctx.run(k, drops_inline=True, cache=False)
    def lock_id(e):
        st = [s for s in subterms(e.v[0]) if s.k == 'static' and s.a[0] in regs]
        return 'registry' if st else 'other'
    bad = []
    acq = {}
    for e in it.all_events('call'):
        m = lock_call(e.path)
        if m and not e.path.endswith(('::upgrade', '::downgrade')): acq[e] = (lock_id(e), m[0])
    if not acq and not listing_arg(ctx, b): return 0, it, None
    def delta(P, s, kind, x, n):
        held, cnt = s
        if kind == 'ev':
            if x.kind == 'call' and x in acq:
                lid, mode = acq[x]
                for h in held:
                    if h[0] == 'registry' and lid == 'other': continue
                    if (lid, h[0]) != ('other', 'registry'):
                        bad.append(('acquires the %s lock while already holding %s' % ('registry' if lid == 'registry' else 'histogram', 'the registry lock' if h[0] == 'registry' else 'a histogram lock'), x)); return None
                return (held | {(lid, mode, x.result)}, min(cnt + (lid == 'registry'), 2))
            if x.kind == 'call' and last(x.path) == 'downgrade' and x.v: return (frozenset((a, 'r', c) if c is not None and c in set(subterms(x.v[0])) else (a, m, c) for a, m, c in held), cnt)
            if x.kind in ('drop',) and held:
                rest = frozenset(h for h in held if h[2] is None or not x.v or not owns(it, x.v[0], h[2]))
                if len(rest) == len(held) and any(h[0] == 'registry' and h[1] == 'w' for h in held) and is_param(x.path or ''):
                    bad.append(('drops a user-supplied value of type %s while the registry is locked for writing' % x.path, x)); return None
                return (rest, cnt)
            if x.kind == 'call' and any(h[0] == 'registry' and h[1] == 'w' for h in held):
                rk = (x.fn or {}).get('rk')
                user = x.path == '<indirect>' or rk in ('unresolved', 'virtual')
                if user and (x.fn or {}).get('path', '').startswith('core::any::Any'): user = False
                if user: bad.append(('runs user-supplied code (%s) while the registry is locked for writing' % x.path, x)); return None
        elif x and held:
            if x[0] == 'variant' and x[1].k == 'discr' and x[2] in ('None', 'Err'):
                return (frozenset(h for h in held if h[2] is not x[1].a[0]), cnt)
            if x[0] == 'bool' and x[1].k == 'call' and x[1].a[1] and last(x[1].a[0]) in ('is_some', 'is_none', 'is_ok', 'is_err') and x[2] == (last(x[1].a[0]) in ('is_none', 'is_err')):
                return (frozenset(h for h in held if h[2] is not x[1].a[1][0]), cnt)
        return s
    init = frozenset({('registry', 'r', None)}) if listing_arg(ctx, b) else frozenset()
    P = Prod(it, (init, 0), delta)
    seen = set()
    for why, e in bad:
        if (why, e.body) in seen: continue
        seen.add((why, e.body))
        ctx.ob('no-reentry', k, False, why + ' in %s' % e.body, e.span)
    if not bad: ctx.ob('no-reentry', k, True)
    return len(acq), it, P

def everything(ctx):
    regs = registry_statics(ctx)
    tot = n = 0
    for k, b in entry_points(ctx):
        def one():
            nonlocal tot, n
            if not may_lock(ctx, k): n += 1; ctx.ob('no-reentry', k, True); return
            a, it, P = analyse(ctx, k, b, regs, False); tot += a; n += 1
        rule(ctx, 'no-reentry', k, one)
    ctx.floor('no-reentry', 'user-callable functions', n, 60)
    ctx.floor('no-reentry', 'lock acquisitions followed', tot, 5)

def leaks(ctx):
    n = 0
    for k, b in sorted(ctx.F.bodies.items()):
        if not str(b.get('crate', '')).startswith('metriken'): continue
        for bb in b['blocks']:
            t = bb['t']
            f = t.get('f', {}).get('k', {}).get('fn') if t['t'] == 'call' else None
            if not f: continue
            p = f['path']
            ty = ' '.join(f.get('args', [])) + ' ' + ' '.join(t.get('at', []))
            if p.startswith(LOCK_OWN):
                n += 1
                ctx.ob('no-leak', '%s in %s' % (short_(p), k), last(p) not in LEAKS, 'a lock is leaked or released behind its guard by %s' % p, t.get('sp', ''))
            if p.startswith(FORGET) and ('Guard' in ty or 'metriken_core::metrics::Metrics' in ty):
                ctx.ob('no-leak', '%s in %s' % (short_(p), k), False, 'a guard or listing is forgotten: the lock is never released', t.get('sp', ''))
        for i, l in enumerate(b['locals']):
            if 'ManuallyDrop<' in l['ty'] and 'Guard' in l['ty']: ctx.ob('no-leak', 'ManuallyDrop in ' + k, False, 'a guard is kept in ManuallyDrop')
    for a, d in ctx.F.adts.items():
        if a.startswith('metriken') and 'span' in d:
            for v in d['vars']:
                for f in v['fs']:
                    if 'Guard' in f['ty'] and ('ManuallyDrop' in f['ty'] or 'MaybeUninit' in f['ty']): ctx.ob('no-leak', '%s.%s' % (a, f['n']), False, 'a guard is stored where it is never dropped')
    ctx.floor('no-leak', 'calls into the lock library', n, 3)
def short_(p): return '::'.join(p.split('::')[-2:])

def listing(ctx):
    regs = registry_statics(ctx)
    M = ctx.adt('metriken_core', 'Metrics')
    it = ctx.run(ctx.fn('metriken_core', 'metrics'))
    n = 0
    for nd, v in returns(it):
        for r in nalts(it, v):
            n += 1
            g = [s for s in subterms(r) if s.k == 'call' and lock_call(s.a[0]) and any(x.k == 'static' and x.a[0] in regs for x in subterms(s))]
            ctx.ob('listing-holds', 'metrics()', bool(g), 'the listing does not hold a guard of the registry: %s' % show(r))
            if g: ctx.ob('listing-holds', 'metrics() shared', all(lock_call(x.a[0])[0] in 'ru' for x in g) and any(lock_call(x.a[0])[0] == 'r' for x in g), 'a listing shuts other listings out, so a thread that holds one deadlocks on taking another: %s' % show(g[0]))
    ctx.floor('listing-holds', 'returns of metrics()', n, 1)
    fs = [f for f in ctx.F.adts[M]['vars'][0]['fs'] if 'Guard' in f['ty']]
    ctx.ob('listing-holds', 'Metrics', len(fs) == 1, 'Metrics does not own exactly one registry guard')
    # nothing releases the guard while the listing lives
    for k, b in entry_points(ctx):
        if b['argc'] and b['locals'][1]['ty'] == '&mut ' + M:
            ctx.undecided('listing-holds', k, 'takes the listing mutably')

def snapshot(ctx):
    regs = registry_statics(ctx)
    S = ctx.adt('metriken_exposition', 'Snapshotter')
    k = ctx.method(S, 'snapshot')
    it = ctx.run(k, drops_inline=True, cache=False)
    def delta(s, kind, x, n):
        if kind == 'ev' and x.kind == 'call' and lock_call(x.path) and any(t.k == 'static' and t.a[0] in regs for t in subterms(x.v[0])): return min(s + 1, 2)
        return s
    ends = product(it, 0, delta)
    n = 0
    for nd in exits(it):
        for s in ends.get(nd, ()):
            n += 1
            ctx.ob('one-listing', 'Snapshotter::snapshot', s == 1, 'a snapshot lists the registry %s' % ('more than once' if s else 'not at all'))
    ctx.floor('one-listing', 'returning paths of snapshot', n, 1)

def check(ctx):
    rule(ctx, 'no-reentry', 'entry points', lambda: everything(ctx))
    rule(ctx, 'no-leak', 'guards', lambda: leaks(ctx))
    rule(ctx, 'listing-holds', 'metrics()', lambda: listing(ctx))
    rule(ctx, 'one-listing', 'Snapshotter::snapshot', lambda: snapshot(ctx))
