"""C03: all ways of walking the listing describe one sequence."""
from ..frame import rule
from ..q import *
from ..iterspec import Spec
SCOPE = 'core'
EXPLAIN = ("The iterators over the listing are treated as ordered segments (the static slice, then the registry's values). For each method the iterator types override "
           "(stepping, skipping, hints, counting, folding and the reverse forms) every path is checked: a segment is only touched when the ones before it are exhausted, "
           "the item taken is the item delivered, None is returned only when all segments are exhausted, skip offsets subtract the length read before consumption, "
           "hints and counts add every segment exactly once, folds thread the accumulator through every item. The listing's construction is checked to use the whole "
           "static slice and the whole registry map. Methods that are not overridden are std's defaults over next/next_back.")
ASSUME = ["std's slice and BTreeMap iterators satisfy the Iterator contracts", "default Iterator methods are defined through next/next_back"]

def registry_values(t):
    """t iterates every value of the registry map behind the listing's guard"""
    return t.k == 'src' and t.a[1] in ('values',) and not t.a[1].count('/')

def construction(ctx):
    M = ctx.adt('metriken_core', 'Metrics')
    MI, DI = ctx.adt('metriken_core', 'MetricsIter'), ctx.adt('metriken_core', 'DynMetricsIter')
    guard = [f['n'] for f in ctx.F.adts[M]['vars'][0]['fs']]
    def srcs(t):
        return [s for s in subterms(t) if s.k == 'src']
    def is_static(s): return s.k == 'src' and s.a[1] in ('iter', 'into_iter') and s.a[0].k == 'static' and s.a[0].a[0].endswith('::METRICS')
    def is_dyn(s): return s.k == 'src' and s.a[1] in ('values', 'into_values', 'iter', 'into_iter') and root(s.a[0])[0] is mk('arg', 0) and s.a[0].k == 'proj'
    seen = 0
    for key, lab in ((ctx.method(M, 'iter', need=False), 'Metrics::iter'), (ctx.timpl('&' + M, 'core::iter::traits::collect::IntoIterator', 'into_iter', need=False) or ctx.timpl(M, 'core::iter::traits::collect::IntoIterator', 'into_iter', need=False), '&Metrics::into_iter')):
        if key is None: continue
        it = ctx.run(key)
        for n, v in returns(it):
            for r in nalts(it, v):
                ss = srcs(r)
                seen += 1
                ctx.ob('listing', lab + ' static part', sum(is_static(s) for s in ss) == 1, 'the listing does not hold the whole static slice exactly once: %s' % show(r))
                ctx.ob('listing', lab + ' dynamic part', sum(is_dyn(s) for s in ss) == 1, 'the listing does not hold every registered metric exactly once: %s' % show(r))
                bad = [s for s in subterms(r) if s.k == 'agg' and s.a[0].startswith('mrk_models::') and last(s.a[0]) not in ('Chain', 'Map', 'OptIter', 'Rev', 'Inspect')]
                ctx.ob('listing', lab + ' unfiltered', not bad, 'the listing is restricted by %s' % (bad and last(bad[0].a[0])))
    ctx.floor('listing', 'constructors of the listing iterator', seen, 1)
    it = ctx.run(ctx.method(M, 'dynamic_metrics'))
    for n, v in returns(it):
        for r in nalts(it, v):
            ss = srcs(r)
            bad = [s for s in subterms(r) if s.k == 'agg' and s.a[0].startswith('mrk_models::')]
            ctx.ob('listing', 'Metrics::dynamic_metrics', len(ss) == 1 and is_dyn(ss[0]) and not bad, 'dynamic_metrics does not walk every registered metric: %s' % show(r))
    it = ctx.run(ctx.method(M, 'static_metrics'))
    for n, v in returns(it):
        for r in nalts(it, v):
            ctx.ob('listing', 'Metrics::static_metrics', r.k == 'static' and r.a[0].endswith('::METRICS'), 'static_metrics is not the whole static slice: %s' % show(r))

def walk(ctx):
    MI, DI = ctx.adt('metriken_core', 'MetricsIter'), ctx.adt('metriken_core', 'DynMetricsIter')
    n = Spec(ctx, 'sequence', MI, 'MetricsIter').all()
    ctx.floor('sequence', 'overridden methods of MetricsIter', n, 2)
    n = Spec(ctx, 'sequence', DI, 'DynMetricsIter').all()
    ctx.floor('sequence', 'overridden methods of DynMetricsIter', n, 2)

def covers(ctx):
    """the segments stepped over are all the parts the iterator is built from"""
    MI, DI = ctx.adt('metriken_core', 'MetricsIter'), ctx.adt('metriken_core', 'DynMetricsIter')
    for adt in (MI, DI):
        sp = Spec(ctx, 'sequence', adt, adt)
        it = ctx.run(sp.key('next'), cache=False)
        used = {fields(b)[1][:1] for b in sp.bases(it)}
        for f in ctx.F.adts[adt]['vars'][0]['fs']:
            if 'Iter' in f['ty'] or 'iter' in f['ty'] or 'Values' in f['ty']:
                ctx.ob('covers', '%s.%s' % (adt.rsplit('::', 1)[-1], f['n']), (f['n'],) in used, 'stepping never takes from this part')
        order = [fields(b)[1][:1] for b in sp.bases(it)]

def check(ctx):
    rule(ctx, 'listing', 'construction', lambda: construction(ctx))
    rule(ctx, 'sequence', 'walk', lambda: walk(ctx))
    rule(ctx, 'covers', 'segments', lambda: covers(ctx))
