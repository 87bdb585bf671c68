"""C14: taking a snapshot."""
from ..frame import rule, Missing
from ..q import *
from ..walk import *
from .. import shared
from ..shared import A0, A1, METRIC
SCOPE = 'all'
TECHNIQUE = 'static analysis: typestate of the snapshot loop per listed metric, with path-sensitive value flow, over compiler MIR'
EXPLAIN = ("The snapshot function is followed on every path of one round of its walk over the metric listing, with the listing's and the metrics' own operations kept opaque: on a path where the filter refuses the metric nothing may be added; where it "
           "accepts, exactly one reading of the reported kind is added, unless the metric reported no value, an unknown kind, or a histogram without data (both histogram types consulted). Each reading added is checked field by field: the simple-format name of that very metric, "
           "the value it reported (or the loaded histogram), and a map that received every metadata pair unchanged, the description when there is one and, for histograms, both configuration parameters, and nothing else. The walk must run to its end, the time must be taken before the first reading, "
           "the lists returned must be the ones added to and not be cut afterwards, and the snapshotter's metadata must be carried whole. Builder and defaults are followed likewise. What the entry accessors hand out is checked as well.")
ASSUME = ["the listing yields every metric once (C02, C03)"]
R = 'snapshotter'
X = 'metriken_exposition'
opaque = lambda v: v.k in ('unk', 'phi', 'old', 'mut', 'item')
CUT = {'truncate', 'clear', 'pop', 'retain', 'retain_mut', 'dedup', 'dedup_by', 'dedup_by_key', 'drain', 'remove', 'swap_remove', 'split_off', 'set_len', 'pop_if', 'extract_if', 'take'}
CHAIN_CUT = ('take', 'skip', 'step_by', 'take_while', 'skip_while', 'map_while', 'nth', 'last', 'find')
HTYPES = ('AtomicHistogram', 'RwLockHistogram')

def kept(b): return b.get('crate') in ('metriken', 'metriken_core')

class Snap(Walk):
    """ext: (times before the first reading, whether something was read, metadata walk state, objects filled, constant keys per object, readings added this round, lists)"""
    def __init__(self, ctx, it, filt):
        self.ctx, self.filt, self.seen, self.rounds = ctx, filt, {}, 0
        self.down = {}
        for e in it.all_events('call'):
            if last(e.path) in ('downcast_ref', 'downcast'): self.down[e.result] = e.dt or ''
        super().__init__(it, (frozenset(), False, None, frozenset(), frozenset(), (), frozenset()))
    def say(self, inst, ok, why='', span=''):
        """one obligation per distinct finding"""
        key = (inst, ok, why)
        if key not in self.seen:
            self.seen[key] = 1
            self.ctx.ob(R, inst, ok, why, span)
    def maybe(self, inst, why, t=None):
        how = lossy(self.it, t) if t is not None else None
        if how: self.ob(inst, False, '%s passes through %s, which leaves out or changes part of it' % (why, how)); return
        if (inst, None, why) not in self.seen: self.seen[(inst, None, why)] = 1; self.ctx.undecided(R, inst, why)
    def is_src(self, s): return any(t.k == 'call' and last(t.a[0]) == 'metrics' and t.a[0].startswith('metriken') and not t.a[1] for t in subterms(s)) and not self.is_md(s)
    def is_md(self, s): return any(t.k == 'call' and last(t.a[0]) == 'metadata' and t.a[0].startswith('metriken') for t in subterms(s))
    def is_item(self, t):
        t = norm(self.it, t)
        while t.k == 'call' and t.a[1] and (is_conv(t.a[0]) or t.a[0].startswith('metriken') and last(t.a[0]) in ('metric', 'deref')): t = norm(self.it, t.a[1][0])
        return t.k == 'item' and self.is_src(t.a[0])
    def on_item(self, t, name, crate='metriken'): return t.k == 'call' and last(t.a[0]) == name and t.a[0].startswith(crate) and bool(t.a[1]) and self.is_item(t.a[1][0])
    def item_start(self, ext): return (ext[0], ext[1], None, frozenset(), frozenset(), (), ext[6])
    def edge_ext(self, P, ext, x):
        if x[0] in ('next', 'next_back') and self.is_md(x[1]):
            m = ext[2]
            own = [t for t in subterms(x[1]) if t.k == 'call' and last(t.a[0]) == 'metadata']
            if not any(self.is_item(t.a[1][0]) for t in own if t.a[1]): m = 'partial'
            elif m == 'pending' : m = 'partial'
            elif m != 'partial': m = 'pending' if x[2] == 'Some' else 'done'
            ext = ext[:2] + (m,) + ext[3:]
        return ext
    def event(self, P, st, e):
        times, read, md, filled, keys, added, lists = st[2]
        if e.kind == 'call' and e.v is not None:
            l = last(e.path)
            if e.path.endswith('SystemTime::now') and not read: times = times | {norm(self.it, e.result)}
            elif e.path == METRIC + '::value': read = True
            elif l == 'insert' and 'Map' in e.path and len(e.v) == 3: md, filled, keys = self.pair(P, e, e.v[0], e.v[1], e.v[2], md, filled, keys)
            elif l == 'push' and 'Vec' in e.path or e.path == 'mrk_models::intr::coll_add':
                x = self.val(P, e.v[1])
                if x.k == 'agg' and last(x.a[0]) in ('Counter', 'Gauge', 'Histogram') and x.a[0].startswith(X):
                    o = norm(self.it, P.resolve(e.v[0]))
                    added = added + ((last(x.a[0]), x, md, filled, keys, e.span),)
                    lists = lists | {(last(x.a[0]), o)}
                elif x.k == 'agg' and x.a[0] == '()' and len(x.a[3]) == 2: md, filled, keys = self.pair(P, e, e.v[0], x.a[3][0], x.a[3][1], md, filled, keys)
                elif e.dt is not None and e.at and any(k in e.at[0] for k in ('snapshot::Counter', 'snapshot::Gauge', 'snapshot::Histogram')): self.maybe('reading', 'adds %s' % show(x))
            elif l in CUT and e.at and e.at[0].startswith('&mut ') and ('Vec<' in e.at[0] and 'snapshot::' in e.at[0]): self.say('lists are kept', False, 'readings already taken are removed again by %s' % short(e.path), e.span)
            elif e.at and e.at[0].startswith('&mut ') and 'Map<' in e.at[0] and l in ('remove', 'clear', 'retain', 'drain', 'remove_entry', 'extract_if', 'take'): self.say('metadata is kept', False, 'metadata is removed again by %s' % short(e.path), e.span)
        elif e.kind == 'take' and 'HashMap' in (e.at[0] if e.at else ''): self.say('metadata is kept', False, 'the snapshotter gives its metadata away', e.span)
        return (times, read, md, filled, keys, added[:3], lists)
    def pair(self, P, e, obj, k, v, md, filled, keys):
        it = self.it
        k, v = self.val(P, k), self.val(P, v)
        o = norm(it, P.resolve(obj))
        if k.k == 'str': return md, filled, keys | {(o, k.a[0], self.deep(P, v))}
        r, p = fields(k)
        if r.k == 'item' and self.is_md(r.a[0]):
            rv, pv = fields(v)
            ok = rv is r and p == ('0',) and pv == ('1',)
            if not ok and opaque(rv) and rv is not r: self.maybe('metadata pair', '%s: %s' % (show(k), show(v), v))
            else: self.say('metadata pair', ok, 'stores %s under %s instead of the metric\'s own pair' % (show(v), show(k)), e.span)
            return ('added' if md == 'pending' else md), filled | {o}, keys
        if self.mentions_md(k) or self.mentions_md(v):
            self.say('metadata pair', False, 'stores %s under %s instead of the metric\'s own pair' % (show(v), show(k)), e.span)
            return ('added' if md == 'pending' else md), filled | {o}, keys
        return md, filled, keys | {(o, None, v)}
    def mentions_md(self, t): return any(s.k == 'item' and self.is_md(s.a[0]) for s in subterms(t))
    def item_end(self, P, st):
        itst, known, (times, read, md, filled, keys, added, lists) = st
        self.rounds += 1
        fr = [w for t, w in known if isinstance(w, bool) and t.k == 'call' and t.a[0] in ('<indirect>',) and fields(t.a[1][0]) == (A0, (self.filt,)) and len(t.a[1]) == 2 and self.is_item(t.a[1][1])]
        accepted = fr[0] if fr else None
        vals = {t for t, w in known if self.on_item(t, 'value')} | {t.a[0].a[0] for t, w in known if t.k == 'proj' and t.a[0].k == 'proj' and self.on_item(t.a[0].a[0], 'value')}
        kinds = set()
        none = False
        for v in vals:
            w = variant_of(known, v)
            if w == frozenset(['None']): none = True; continue
            some = self.it.project(self.it.project(v, ('v', 'Some')), ('f', '0'))
            w2 = variant_of(known, some)
            kinds |= set(w2) if w2 else {'Counter', 'Gauge', 'Other'}
        if accepted is False:
            self.say('filtered out', not added, 'a metric the filter refuses is added', added[0][5] if added else ''); return
        if not added:
            if accepted is None and not vals:
                self.skip(known, 'left out without asking the filter'); return
            if not vals:
                self.skip(known, 'an accepted metric is left out without being read'); return
            if none and not kinds: self.say('without a value', True); return
            if kinds - {'Other'}: self.skip(known, 'an accepted %s is left out' % ' or '.join(sorted(kinds - {'Other'})).lower()); return
            got = {}
            for t in self.down:
                w = variant_of(known, norm(self.it, t))
                if w is None: continue
                ty = [h for h in HTYPES if h in self.down[t]]
                if not ty: continue
                got[ty[0]] = 'None' if w == frozenset(['None']) else self.loaded(known, norm(self.it, t))
            why = [h for h in HTYPES if got.get(h) == 'empty']
            ok = bool(why) or all(got.get(h) == 'None' for h in HTYPES)
            if not ok and any(isinstance(w, bool) and t.k == 'call' and last(t.a[0]) in ('is', 'eq') for t, w in known): self.maybe('histograms', 'type test not followed'); return
            self.say('without data', ok, 'a histogram the filter accepts is left out (%s)' % ', '.join('%s: %s' % (h, got.get(h, 'not consulted')) for h in HTYPES)); return
        self.say('filter consulted', accepted is True, 'a metric is added without the filter having accepted it', added[0][5])
        self.say('added once', len(added) == 1, 'a metric is added more than once', added[-1][5])
        kind, x, md0, filled0, keys0, span = added[0]
        it = self.it
        name, value, meta = (norm(it, it.project(x, ('f', n))) for n in ('name', 'value', 'metadata'))
        inst = kind.lower()
        # name
        if name.k == 'call' and last(name.a[0]) == 'formatted' and name.a[1] and self.is_item(name.a[1][0]):
            f = name.a[1][1] if len(name.a[1]) > 1 else None
            self.say(inst + ' name', f is not None and f.k == 'agg' and f.a[1] == 'Simple', 'is named by its %s format' % (show(f) if f is not None else '?'), span)
        elif opaque(name): self.maybe(inst + ' name', show(name), name)
        else: self.say(inst + ' name', False, 'is named %s instead of by the simple format of this metric' % show(name), span)
        # value
        r, p = root(value)
        want = {'Counter': 'Counter', 'Gauge': 'Gauge'}.get(kind)
        if want:
            ok = self.on_item(r, 'value') and p == (('v', 'Some'), ('f', '0'), ('v', want), ('f', '0'))
            if not ok and opaque(r): self.maybe(inst + ' value', show(value), value)
            else: self.say(inst + ' value', ok, 'holds %s instead of the value the metric reported' % show(value), span)
        else:
            ok = r.k == 'call' and last(r.a[0]) == 'load' and r.a[0].startswith('metriken') and p == (('v', 'Some'), ('f', '0')) and bool(r.a[1])
            if ok:
                d, dp = root(norm(it, r.a[1][0]))
                ok = d.k == 'call' and last(d.a[0]) == 'downcast_ref' and dp[:1] == (('v', 'Some'),) and any(self.on_item(s, 'value') or self.on_item(s, 'as_any') for s in subterms(d))
            if not ok and opaque(r): self.maybe(inst + ' value', show(value), value)
            else: self.say(inst + ' value', ok, 'holds %s instead of the data loaded from the histogram' % show(value), span)
        # metadata
        mine = {(k, v) for o, k, v in keys0 if o is meta}
        if opaque(meta) or meta.k == 'call' and not meta.a[0].startswith(('mrk_models', 'std::', 'alloc::', 'core::', 'hashbrown')): self.maybe(inst + ' metadata', show(meta), meta); return
        if md0 is None: self.say(inst + ' metadata', False, 'the metadata of the metric is left out', span)
        else: self.say(inst + ' metadata', md0 == 'done' and filled0 <= {meta}, 'not every metadata pair of the metric reaches the reading', span)
        want_keys = {}
        desc = [t for t, w in known if self.on_item(t, 'description')]
        if not desc: self.say(inst + ' description', False, 'the description is left out', span)
        for d in desc[:1]:
            if is_var(known, d, 'Some'): want_keys['description'] = lambda v, d=d: v is self.it.project(self.it.project(d, ('v', 'Some')), ('f', '0'))
        if kind == 'Histogram':
            for k in ('grouping_power', 'max_value_power'): want_keys[k] = lambda v, k=k: v.k == 'call' and last(v.a[0]) == k and any(s is root(value)[0] or s in self.down for s in subterms(v))
        for k, pred in want_keys.items():
            vs = [v for k2, v in mine if k2 == k]
            if not vs: self.say('%s metadata %s' % (inst, k), False, 'the %s is left out' % k, span); continue
            for v in vs:
                if opaque(root(v)[0]): self.maybe('%s metadata %s' % (inst, k), show(v), v)
                else: self.say('%s metadata %s' % (inst, k), pred(v), 'holds %s as %s' % (show(v), k), span)
        for k, v in mine:
            if k is None: self.maybe(inst + ' metadata', 'key not followed')
            elif k not in want_keys: self.say(inst + ' metadata', False, 'gains the key %s' % k, span)
    def loaded(self, known, d):
        """what is known about the data of the downcast histogram d"""
        for t, w in known:
            if isinstance(w, frozenset) and t.k == 'call' and last(t.a[0]) == 'load' and t.a[1] and root(norm(self.it, t.a[1][0]))[0] is d: return 'empty' if w == frozenset(['None']) else 'loaded'
        return 'Some'
    def skip(self, known, why):
        if any(t.k == 'call' and last(t.a[0]) == 'is_enabled' and w is False for t, w in known): self.maybe('left out', 'only while it is disabled'); return
        self.say('left out', False, why)

def check(ctx):
    S = ctx.adt(X, 'Snapshotter')
    def ffield():
        c = [f['n'] for v in ctx.F.adts[S]['vars'] for f in v['fs'] if 'bool' in f['ty'] and 'MetricEntry' in f['ty']]
        return c[0] if c else None
    def mfield():
        c = [f['n'] for v in ctx.F.adts[S]['vars'] for f in v['fs'] if 'HashMap<' in f['ty'] or 'BTreeMap<' in f['ty']]
        return c[0] if c else None
    fm, ff = mfield(), ffield()
    def snap():
        k = ctx.method(S, 'snapshot'); sp = ctx.F.bodies[k].get('span', '')
        if ff is None or fm is None: ctx.undecided(R, 'snapshot', 'fields of the snapshotter'); return
        it = ctx.run(k, opaque=kept, cache=False)
        listing = [e for e in it.all_events('call') if last(e.path) == 'metrics' and e.path.startswith('metriken')]
        ctx.floor(R, 'metric listings taken', len(listing), 1)
        if not listing: return
        parts = {last(e.path) for e in it.all_events('call') if e.path.startswith('metriken') and last(e.path) in ('static_metrics', 'dynamic_metrics')}
        if len(parts) == 1: ctx.ob(R, 'whole listing', False, 'only the %s are walked' % parts.pop().replace('_', ' '), sp); return
        if parts or len(listing) > 1: ctx.undecided(R, 'snapshot', 'more than one walk'); return
        for e in it.all_events('iter'):
            if any(t.k == 'call' and t is listing[0].result for t in subterms(e.v[0])) and last(e.path) in CHAIN_CUT and not any(last(s.a[0]) == 'metadata' for s in subterms(e.v[0]) if s.k == 'call'):
                ctx.ob(R, 'whole listing', False, 'the walk is cut by %s' % last(e.path), e.span)
        W = Snap(ctx, it, ff)
        srcs = {e.v[0] for e in it.all_events('next') if W.is_src(e.v[0])} | {e.v[0] for e in it.all_events('next_back') if W.is_src(e.v[0])}
        if not srcs: ctx.undecided(R, 'snapshot', 'the walk is not followed'); return
        ctx.floor(R, 'rounds of the walk', W.rounds, 5)
        nseen = 0
        for (itst, known, ext), v, nd, ns in W.results():
            nseen += 1
            x = v
            while x.k == 'agg' and not (x.a[2] and 'systemtime' in x.a[2]) and len(x.a[3]) == 1: x = norm(it, x.a[3][0])
            if itst != 'done': W.say('walk complete', False, 'returns before every metric was visited', sp)
            else: W.say('walk complete', True)
            if x.k != 'agg' or 'systemtime' not in x.a[2]: W.maybe('snapshot', show(v), v); continue
            g = lambda n: norm(it, W.P.resolve(it.project(x, ('f', n)), ns))
            ts = g('systemtime')
            if opaque(ts): W.maybe('time', show(ts), ts)
            else: W.say('time', ts in ext[0], 'carries %s as its time, which is not taken before the readings' % show(ts), sp)
            m = g('metadata')
            if opaque(m): W.maybe('own metadata', show(m), m)
            else: W.say('own metadata', fields(m) == (A0, (fm,)), 'carries %s instead of the snapshotter\'s metadata' % show(m), sp)
            for n, kind in (('counters', 'Counter'), ('gauges', 'Gauge'), ('histograms', 'Histogram')):
                c = g(n)
                tgt = {o for k2, o in ext[6] if k2 == kind}
                if opaque(c): W.maybe(n + ' list', show(c), c); continue
                W.say(n + ' list', tgt <= {c}, 'the snapshot carries %s, not the list the readings were added to' % show(c), sp)
        ctx.floor(R, 'snapshot returns', nseen, 1)
    rule(ctx, R, 'snapshot', snap)
    # builder and defaults
    B = ctx.adt(X, 'SnapshotterBuilder')
    def inner(it, v, name):
        """field of the snapshotter inside a builder or snapshotter value"""
        t = v
        for _ in range(3):
            if t.k in ('agg', 'upd') or t.k == 'arg' or t.k == 'proj':
                pass
            f = it.project(t, ('f', name))
            if t.k == 'agg' and name not in t.a[2] and len(t.a[3]) == 1: t = norm(it, t.a[3][0]); continue
            return norm(it, f)
        return norm(it, f)
    bf = [f['n'] for v in ctx.F.adts[B]['vars'] for f in v['fs'] if f['ty'].split('<')[0] == S]
    def flat(it, v):
        """snapshotter part of a returned builder"""
        return norm(it, it.project(v, ('f', bf[0]))) if bf else v
    def setter():
        k = ctx.method(B, 'filter'); it = ctx.run(k)
        for n, v in returns(it):
            for a in nalts(it, v):
                s = flat(it, a); f = norm(it, it.project(s, ('f', ff))); m = norm(it, it.project(s, ('f', fm)))
                if opaque(f): ctx.unsure(R, 'SnapshotterBuilder::filter', it, f); continue
                ctx.ob(R, 'SnapshotterBuilder::filter', f is A1, 'uses %s instead of the given filter' % show(f), ctx.F.bodies[k].get('span', ''))
                if not opaque(m): ctx.ob(R, 'SnapshotterBuilder::filter keeps the metadata', fields(m)[0] is A0 and fields(m)[1][-1:] == (fm,), 'leaves %s as metadata' % show(m), ctx.F.bodies[k].get('span', ''))
    rule(ctx, R, 'SnapshotterBuilder::filter', setter)
    def meta():
        k = ctx.method(B, 'metadata'); it = ctx.run(k); sp = ctx.F.bodies[k].get('span', '')
        A2 = mk('arg', 2)
        def delta(P, s, kind, x, n):
            if kind == 'ev' and x.kind == 'call' and x.v and fields(norm(it, x.v[0]))[0] is A0 and fm in fields(norm(it, x.v[0]))[1] and x.at and x.at[0].startswith('&mut '): return s + (x,)
            return s
        P = Prod(it, (), delta)
        for nd in exits(it):
            for s, ns in P.ends.get(nd, ()):
                if len(s) > 3: continue
                ins = [e for e in s if last(e.path) == 'insert']
                if [e for e in s if last(e.path) in ('entry', 'extend', 'coll_add')]: ctx.undecided(R, 'SnapshotterBuilder::metadata', short(s[0].path)); continue
                ok = len(ins) == 1 and norm(it, ins[0].v[1]) is A1 and norm(it, ins[0].v[2]) is A2
                ctx.ob(R, 'SnapshotterBuilder::metadata', ok, 'stores %s' % ('nothing' if not ins else '%s under %s' % (show(ins[0].v[2]), show(ins[0].v[1]))), sp)
                for e in s:
                    if last(e.path) in ('remove', 'clear', 'retain', 'drain'): ctx.ob(R, 'SnapshotterBuilder::metadata', False, 'removes pairs added before', e.span)
        for n, v in returns(it):
            for a in nalts(it, v):
                s = flat(it, a); f = norm(it, it.project(s, ('f', ff)))
                if opaque(f): continue
                ctx.ob(R, 'SnapshotterBuilder::metadata keeps the filter', fields(f)[0] is A0 and fields(f)[1][-1:] == (ff,), 'leaves %s as filter' % show(f), sp)
    rule(ctx, R, 'SnapshotterBuilder::metadata', meta)
    def build():
        k = ctx.method(B, 'build'); it = ctx.run(k)
        for n, v in returns(it):
            for a in nalts(it, v):
                for fld in (ff, fm):
                    x = norm(it, it.project(a, ('f', fld)))
                    if opaque(x): ctx.unsure(R, 'SnapshotterBuilder::build', it, x); continue
                    ctx.ob(R, 'SnapshotterBuilder::build', fields(x)[0] is A0 and fields(x)[1][-1:] == (fld,), 'builds with %s as %s' % (show(x), fld), ctx.F.bodies[k].get('span', ''))
    rule(ctx, R, 'SnapshotterBuilder::build', build)
    def default():
        for k in (ctx.method(B, 'new'), ctx.timpl(S, 'core::default::Default', 'default')):
            it = ctx.run(k); inst = shared.short2(k) if not k.startswith('<') else 'Snapshotter::default'
            for n, v in returns(it):
                for a in nalts(it, v):
                    s = flat(it, a) if k.endswith('::new') else a
                    f = norm(it, it.project(s, ('f', ff)))
                    if f.k == 'agg' and f.a[0].startswith('closure:'): key = f.a[0][8:]
                    elif f.k == 'fn': key = f.a[0] if isinstance(f.a[0], str) else None
                    else: ctx.unsure(R, inst + ' filter', it, f); continue
                    if key not in ctx.F.bodies: ctx.unsure(R, inst + ' filter', it, f); continue
                    it2 = ctx.run(key)
                    for n2, v2 in returns(it2):
                        for b in nalts(it2, v2):
                            ctx.ob(R, inst + ' filter', b.k == 'bool' and b.a[0], 'a snapshotter without a filter leaves out metrics: its filter answers %s' % show(b), ctx.F.bodies[k].get('span', ''))
    rule(ctx, R, 'defaults', default)
    rule(ctx, 'accessors', 'entries', lambda: shared.accessors(ctx))
    rule(ctx, 'formatted', 'MetricEntry::formatted', lambda: shared.formatted(ctx))
    rule(ctx, 'metadata', 'MetricEntry::metadata', lambda: shared.metadata_accessor(ctx))
    rule(ctx, 'forwards', 'wrappers', lambda: shared.forwarding(ctx))
