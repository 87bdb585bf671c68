"""C01: a dropped dynamic metric can no longer be reached from the registry."""
from ..frame import rule, Missing
from ..q import *
from ..registry import *
from ..witness import witnesses
from . import c02
SCOPE = 'core'
TECHNIQUE = 'static analysis: must-release path analysis and pointer provenance over compiler MIR, plus compile-fail witnesses'
EXPLAIN = ("Every path through DynPinnedMetric's Drop impl is checked to remove the metric's own registry key (paths on which the key is known to be absent excepted), with a blocking lock; "
           "every pointer any user-callable function puts into the registry is traced to pinned storage of the caller, to a heap allocation owned by the returned owner, or to a static; "
           "owners expose no mutable access, no by-value extraction and no forgetting destructor; user-callable functions hand out owned entries only for statics. "
           "Compile-fail witnesses (each with a twin that must build) show that entries, metrics and context cannot outlive their listing, that entries cannot be copied out, and that a registered metric cannot be moved.")
ASSUME = ["Pin's contract: pinned !Unpin storage is dropped before it is reused", "the borrow checker enforces the lifetimes in public signatures", "Drop::drop runs before the fields are dropped"]

def removes(ctx):
    P = ctx.adt('metriken_core', 'DynPinnedMetric')
    regs = registry_statics(ctx)
    dk = find_drop(ctx, P)[0]
    it = ctx.run(dk)
    inst = 'DynPinnedMetric as Drop'
    O = ops(it, regs)
    def delta(s, kind, x, n):
        if kind == 'ev':
            if x.kind == 'call':
                for o in O.get(n, ()):
                    if o.ev is x and o.kind == 'remove' and (o.how == 'retain' or (o.how == 'key' and (lambda k: k[1] and all(fields(y)[0] is mk('arg', 0) for y in nalts(it, k[0])))(c02.key_of(o)))): return 'removed'
                    if o.ev is x and o.kind == 'insert': return 'live'
        elif s == 'live' and x:
            # the key is known to be absent
            if x[0] == 'bool' and x[1].k == 'call' and lock_root(it, x[1], regs) is not None and last(x[1].a[0]) in ('contains_key', 'is_empty', 'contains'):
                if x[2] == (last(x[1].a[0]) == 'is_empty'): return 'removed'
            if x[0] == 'variant' and x[1].k == 'discr':
                c = x[1].a[0]
                if c.k == 'call' and lock_root(it, c, regs) is not None and last(c.a[0]) in ('get', 'get_mut', 'entry', 'get_key_value') and x[2] in ('None', 'Vacant'): return 'removed'
        return s
    ends = product(it, 'live', delta)
    n = 0
    for nd, v in returns(it):
        n += 1
        for s in ends.get(nd, ()):
            ctx.ob('drop-removes', inst, s == 'removed', 'a path through drop returns without removing the registration', it.F.bodies[dk].get('span', ''))
    ctx.floor('drop-removes', 'returning paths of drop', n, 1)
    for e in it.all_events('call'):
        lc = lock_call(e.path)
        if lc and lc[1] and any(s.k == 'static' and s.a[0] in regs for s in subterms(e.v)):
            ctx.ob('drop-removes', inst + ' lock', False, 'the registry lock is only tried, so removal can be skipped', e.span)

def owners(ctx):
    P, B = ctx.adt('metriken_core', 'DynPinnedMetric'), ctx.adt('metriken_core', 'DynBoxedMetric')
    fs = [f['ty'] for f in ctx.F.adts[B]['vars'][0]['fs']]
    own = [t for t in fs if P.rsplit('::', 1)[-1] in t]
    bad = [t for t in own if 'ManuallyDrop' in t or 'MaybeUninit' in t or t.startswith(('&', '*')) or '<&' in t or '<*' in t or 'Rc<' in t or 'NonNull' in t]
    has_drop = ctx.timpl(B, DROP, 'drop', need=False)
    if not own and not has_drop: ctx.ob('owner', 'DynBoxedMetric', False, 'the boxed owner does not own its pinned metric: fields %s' % fs)
    elif bad: 
        if has_drop or 'Rc<' in bad[0]: ctx.undecided('owner', 'DynBoxedMetric', 'owner holds %s' % bad[0])
        else: ctx.ob('owner', 'DynBoxedMetric', False, 'dropping the boxed owner does not drop the metric it holds as %s' % bad[0])
    else: ctx.ob('owner', 'DynBoxedMetric', any('Box<' in t for t in own), 'the boxed owner stores the metric inline (%s), so moving it moves a registered metric' % own[0])
    # field storage of the pinned metric is owned inline, nothing suppresses its drop
    for adt in (P, B):
        nm = adt.rsplit('::', 1)[-1]
        for tr in ('core::ops::deref::DerefMut', 'core::convert::AsMut', 'core::borrow::BorrowMut', 'core::marker::Unpin', 'core::clone::Clone', 'core::marker::Copy'):
            im = [i for i in ctx.impls(tr, adt) if i.get('polarity', 'Positive') == 'Positive']
            im = [i for i in ctx.impls(tr, None) if i['self'].split('<')[0] == adt and i.get('polarity', 'Positive') == 'Positive']
            ctx.ob('no-move-out', '%s: %s' % (nm, tr.rsplit('::', 1)[-1]), not im, '%s implements %s: a registered metric can be changed or moved under its registration' % (nm, tr), im[0]['span'] if im else '')
        for k, b in sorted(ctx.F.bodies.items()):
            if b.get('path') != k or not b.get('exported') or b.get('kind') not in ('Fn', 'AssocFn'): continue
            ins = [l['ty'] for l in b['locals'][1:1 + b['argc']]]
            if not any(adt in t for t in ins) or k.endswith('::drop'): continue
            out = b['locals'][0]['ty']
            ctx.ob('no-move-out', k, not ('&mut' in out), 'hands out mutable access (%s) to a metric that may be registered' % out, b.get('span', ''))
    # nothing in the library forgets or duplicates an owner
    n = 0
    for k, b in sorted(ctx.F.bodies.items()):
        if not str(b.get('crate', '')).startswith('metriken'): continue
        for bb in b['blocks']:
            t = bb['t']
            f = t.get('f', {}).get('k', {}).get('fn') if t['t'] == 'call' else None
            if not f: continue
            n += 1
            if any(f['path'].startswith(p) for p in ('core::mem::forget', 'core::mem::manually_drop::ManuallyDrop::new', 'core::ptr::read', 'alloc::boxed::Box::leak', 'alloc::boxed::Box::into_raw', 'core::mem::transmute_copy', 'core::pin::Pin::get_unchecked_mut', 'core::pin::Pin::into_inner_unchecked', 'core::pin::Pin::map_unchecked_mut')):
                ty = ' '.join(f.get('args', [])) + ' '.join(t.get('at', []))
                if P in ty or B in ty: ctx.ob('no-forget', '%s in %s' % (last(f['path']), k), False, '%s applied to an owner of a registered metric' % f['path'], t.get('sp', ''))
    ctx.ob('no-forget', 'library calls', n > 100, 'no calls analysed')

def base_of(t):
    while t.k == 'cast': t = t.a[1]
    return t

def pointers(ctx):
    """every pointer put into the registry is stable"""
    regs = registry_statics(ctx)
    fm = entry_fields(ctx)[0]
    n = 0
    for k, b in entry_points(ctx, ('metriken_core', 'metriken')):
        def one():
            nonlocal n
            it = ctx.run(k, cache=False)
            for l in ops(it, regs).values():
                for o in l:
                    if o.kind != 'insert' or o.rawval is None: continue
                    n += 1
                    st = it.instate[o.ev.node]
                    raw = o.rawval
                    if raw.k == 'ref': raw = it.load(st, (raw.a[0], raw.a[1]))
                    ptr = base_of(it.project(raw, ('f', fm)))
                    stable(ctx, it, st, k, b, ptr, o)
        rule(ctx, 'stable-storage', k, one)
    ctx.floor('stable-storage', 'registrations reachable from user code', n, 3)

def stable(ctx, it, st, k, b, ptr, o):
    inst = k
    if ptr.k == 'ref':
        base = ptr.a[0]
        if base[0] == 'H':
            # owned by what the function returns
            site = base
            own = any(any(s.k == 'ref' and s.a[0] == site for s in subterms(e.raw[0])) for e in it.all_events('return'))
            ctx.ob('stable-storage', inst, own, 'the registered allocation is not owned by the returned value', o.ev.span); return
        if base[0] in ('S', 'P') or not isinstance(base[1], (int, T)): ctx.ob('stable-storage', inst, True); return
        if base[0] == 'L': ctx.ob('stable-storage', inst, False, 'the registry is given a pointer to a local variable', o.ev.span); return
        if base[0] == 'M':
            p = base[1]
            r, names = fields(p)
            if p.k == 'arg':
                ty = b['locals'][p.a[0] + 1]['ty']
                ctx.ob('stable-storage', inst, ty.startswith('core::pin::Pin<&') or ty.startswith("&'static"), 'registers storage of an argument of type %s, which the caller can move while it is registered' % ty, o.ev.span); return
            if r.k == 'arg' and names:
                a = b['locals'][r.a[0] + 1]['ty'].lstrip('&').replace('mut ', '')
                ty = c02.place_type(ctx, a.replace('core::pin::Pin<&', '').split('<')[0], names) or ''
                ctx.ob('stable-storage', inst, 'Box<' in ty or 'Rc<' in ty or ty.startswith("&'static"), 'registers storage reached through %s of type %s, not known to stay in place' % (show(p), ty), o.ev.span) if ty else ctx.undecided('stable-storage', inst, 'type of %s' % show(p)); return
    ctx.undecided('stable-storage', inst, 'pointer %s' % show(ptr))

def owned_entries(ctx):
    """owned entries handed to users point to statics"""
    E = ctx.adt('metriken_core', 'MetricEntry')
    fm = entry_fields(ctx)[0]
    n = 0
    for k, b in entry_points(ctx, ('metriken_core', 'metriken')):
        out = b['locals'][0]['ty']
        if E not in out or out.startswith('&') or '&' + E in out or 'Iter' in out or '[' + E in out: continue
        def one():
            nonlocal n
            it = ctx.run(k)
            for e in it.all_events('return'):
                for s in subterms(e.raw[0]):
                    if not (s.k == 'agg' and s.a[0] == E or s.k == 'upd' and out == E and s is e.raw[0]): continue
                    n += 1
                    p = base_of(it.project(s, ('f', fm)))
                    if p.k == 'arg':
                        ty = b['locals'][p.a[0] + 1]['ty']
                        st = b.get('arg_static', [])
                        ctx.ob('owned-entry', k, b.get('unsafe_fn') or p.a[0] < len(st) and st[p.a[0]], 'hands out an owned entry pointing to what its caller passed as %s, which can go away before the entry does' % ty, b.get('span', '')); continue
                    if s.k == 'upd' and fields(p)[0].k == 'arg' and E in b['locals'][fields(p)[0].a[0] + 1]['ty']: continue
                    ok = p.k == 'ref' and (p.a[0][0] in ('S', 'P') or (p.a[0][0] == 'L' and isinstance(p.a[0][1], tuple))) or p.k in ('static', 'zst', 'const', 'item_const')
                    ctx.ob('owned-entry', k, ok, 'hands out an owned entry pointing to %s' % show(p), b.get('span', ''))
        rule(ctx, 'owned-entry', k, one)
    ctx.floor('owned-entry', 'functions handing out owned entries', n, 2)

PRE = '''#![allow(unused, deprecated)]
use metriken_core::*; use metriken_core::dynmetrics::*; use std::pin::Pin; use std::any::Any;
pub struct N; impl Metric for N { fn as_any(&self) -> Option<&dyn Any> { Some(self) } fn value(&self) -> Option<Value<'_>> { None } }
'''
W = [
 ('entry outlives listing', PRE, 'pub fn f() { let m = metrics(); let e = m.iter().next(); drop(e); drop(m); }', 'pub fn f() { let m = metrics(); let e = m.iter().next(); drop(m); drop(e); }', 'uses a listed entry after the listing is dropped'),
 ('listed entry is not static', PRE, "pub fn f(m: &'static Metrics) -> Option<&'static MetricEntry> { m.iter().next() }", "pub fn f(m: &Metrics) -> Option<&'static MetricEntry> { m.iter().next() }", 'keeps a listed entry for ever'),
 ('dynamic entry is not static', PRE, "pub fn f(m: &'static Metrics) -> Option<&'static MetricEntry> { m.dynamic_metrics().next() }", "pub fn f(m: &Metrics) -> Option<&'static MetricEntry> { m.dynamic_metrics().next() }", 'keeps a dynamic entry for ever'),
 ('iterator outlives listing', PRE, 'pub fn f() { let m = metrics(); let i = m.iter(); drop(i); drop(m); }', 'pub fn f() { let m = metrics(); let i = m.iter(); drop(m); drop(i); }', 'iterates after the listing is dropped'),
 ('dynamic iterator outlives listing', PRE, 'pub fn f() { let m = metrics(); let i = m.dynamic_metrics(); drop(i); drop(m); }', 'pub fn f() { let m = metrics(); let i = m.dynamic_metrics(); drop(m); drop(i); }', 'iterates dynamic metrics after the listing is dropped'),
 ('for loop borrows listing', PRE, 'pub fn f() { let m = metrics(); let i = (&m).into_iter(); drop(i); drop(m); }', 'pub fn f() { let m = metrics(); let i = (&m).into_iter(); drop(m); drop(i); }', 'iterates after the listing is dropped'),
 ('metric outlives entry', PRE, "pub fn f<'a>(e: &'a MetricEntry) -> &'a dyn Metric { e.metric() }", "pub fn f<'a>(e: &'a MetricEntry) -> &'static dyn Metric { e.metric() }", 'keeps a metric beyond its entry'),
 ('deref outlives entry', PRE, "pub fn f<'a>(e: &'a MetricEntry) -> &'a dyn Metric { &**e }", "pub fn f<'a>(e: &'a MetricEntry) -> &'static dyn Metric { &**e }", 'keeps a metric beyond its entry'),
 ('context outlives entry', PRE, "pub fn f<'a>(e: &'a MetricEntry) -> Option<&'a u8> { e.request_ref::<u8>() }", "pub fn f<'a>(e: &'a MetricEntry) -> Option<&'static u8> { e.request_ref::<u8>() }", 'keeps provided context beyond its entry'),
 ('metadata outlives entry', PRE, "pub fn f<'a>(e: &'a MetricEntry) -> &'a Metadata { e.metadata() }", "pub fn f<'a>(e: &'a MetricEntry) -> &'static Metadata { e.metadata() }", 'keeps metadata beyond its entry'),
 ('name outlives entry', PRE, "pub fn f<'a>(e: &'a MetricEntry) -> (&'a str, Option<&'a str>) { (e.name(), e.description()) }", "pub fn f<'a>(e: &'a MetricEntry) -> (&'static str, Option<&'static str>) { (e.name(), e.description()) }", 'keeps a name beyond its entry'),
 ('free request outlives metric', PRE, "pub fn f<'a>(m: &'a dyn Metric) -> Option<&'a u8> { request_ref::<u8>(m) }", "pub fn f<'a>(m: &'a dyn Metric) -> Option<&'static u8> { request_ref::<u8>(m) }", 'keeps provided context beyond its metric'),
 ('entries are not Clone', PRE, 'fn n<T: Clone>() {} pub fn f() { n::<String>() }', 'fn n<T: Clone>() {} pub fn f() { n::<MetricEntry>() }', 'copies an entry out of its listing'),
 ('pinned metric is not Unpin', PRE, 'fn n<T: Unpin>() {} pub fn f() { n::<N>() }', 'fn n<T: Unpin>() {} pub fn f() { n::<DynPinnedMetric<N>>() }', 'may move a pinned, registered metric'),
 ('pinned metric cannot be swapped', PRE, 'pub fn f(a: &mut Pin<Box<DynPinnedMetric<N>>>, b: &mut Pin<Box<DynPinnedMetric<N>>>) { std::mem::swap(a, b) }', 'pub fn f(a: &mut Pin<Box<DynPinnedMetric<N>>>, b: &mut Pin<Box<DynPinnedMetric<N>>>) { std::mem::swap(&mut **a, &mut **b) }', 'swaps two registered metrics in place'),
 ('registration needs pinning', PRE, 'pub fn f(m: Pin<&DynPinnedMetric<N>>, e: MetricEntry) { m.register(e) }', 'pub fn f(m: &DynPinnedMetric<N>, e: MetricEntry) { m.register(e) }', 'registers a metric that is not pinned'),
 ('registration cannot pin a local by hand', PRE, 'pub fn f(m: DynPinnedMetric<N>, e: MetricEntry) { let m = Box::pin(m); m.as_ref().register(e) }', 'pub fn f(m: DynPinnedMetric<N>, e: MetricEntry) { Pin::new(&m).register(e) }', 'pins a movable metric'),
 ('boxed owner is not mutable', PRE, 'pub fn f(m: &mut DynBoxedMetric<N>) -> &N { &**m }', 'pub fn f(m: &mut DynBoxedMetric<N>) -> &mut N { &mut **m }', 'gets mutable access to a registered metric'),
 ('owner fields are private', PRE, 'pub fn f(m: DynBoxedMetric<N>) { drop(m) }', 'pub fn f(m: DynBoxedMetric<N>) { drop(m.metric) }', 'takes a registered metric out of its owner'),
 ('entry fields are private', PRE, 'pub fn f(e: &MetricEntry) { e.metric(); }', 'pub fn f(e: &MetricEntry) { e.metric; }', 'reads the raw metric pointer of an entry'),
 ('static entries need static metrics', PRE, "pub fn f(m: &'static N) -> MetricEntry { metriken_core::export::entry_v1(m, \"a\", None) }", "pub fn f<'a>(m: &'a N) -> MetricEntry { metriken_core::export::entry_v1(m, \"a\", None) }", 'makes an entry for a metric that can go away'),
 ('metrics must be static', PRE, "pub struct B(u8); impl Metric for B { fn as_any(&self) -> Option<&dyn Any> { None } fn value(&self) -> Option<Value<'_>> { None } }", "pub struct B<'a>(&'a u8); impl<'a> Metric for B<'a> { fn as_any(&self) -> Option<&dyn Any> { None } fn value(&self) -> Option<Value<'_>> { None } }", 'registers a metric that borrows'),
]

def check(ctx):
    rule(ctx, 'drop-removes', 'DynPinnedMetric as Drop', lambda: removes(ctx))
    rule(ctx, 'owner', 'owners', lambda: owners(ctx))
    rule(ctx, 'stable-storage', 'registrations', lambda: pointers(ctx))
    rule(ctx, 'owned-entry', 'owned entries', lambda: owned_entries(ctx))
    rule(ctx, 'witness', 'compile-fail', lambda: witnesses(ctx, 'witness', W))
