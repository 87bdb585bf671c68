"""Sub-rules several properties rest on."""
import re
from .frame import rule, Missing
from .q import *
from .registry import entry_fields
from .core import T, mk, show, FNS, UNIT

METRIC = 'metriken_core::Metric'
A0, A1 = mk('arg', 0), mk('arg', 1)
CELLS = ('once_cell::', 'std::sync::', 'core::cell::')

def place_type(ctx, adt, names):
    from .rules.c02 import place_type as pt
    return pt(ctx, adt, names)

def wrappers(ctx):
    """(adt, metric parameter, injects) of Metric impls for types generic over the metric they wrap"""
    out = []
    for i in ctx.impls(METRIC):
        ps = [re.search(r'<(\w+) as (?:metriken_core::)?Metric>', p) for p in i['preds']]
        ps = [m.group(1) for m in ps if m]
        if ps: out.append((i['self'].split('<')[0], ps[0], any('InjectedProvider' in p for p in i['preds'])))
    return out

def has_provider_map(ctx, adt, d=0):
    a = ctx.F.adts.get(adt)
    if not a or d > 3: return False
    for v in a['vars']:
        for f in v['fs']:
            if 'Map<core::any::TypeId' in f['ty']: return True
            if f['ty'].split('<')[0].startswith('metriken') and has_provider_map(ctx, f['ty'].split('<')[0], d + 1): return True
    return False

def is_inner(ctx, it, t, adt, param):
    """t denotes the wrapped metric: 'direct', 'lazy' or None"""
    t = norm(it, t)
    r, names = fields(t)
    if r is A0 and names and place_type(ctx, adt, names) == param: return 'direct'
    if r.k == 'call' and last(r.a[0]) in ('get', 'get_unchecked') and r.a[0].startswith(CELLS) and r.a[1] and fields(r.a[1][0])[0] is A0 and any(e[0] == 'v' and e[1] == 'Some' for e in root(t)[1]): return 'lazy'
    return None

def is_cell_get(t): return t.k == 'call' and last(t.a[0]) == 'get' and t.a[0].startswith(CELLS) and bool(t.a[1]) and fields(t.a[1][0])[0] is A0

def eqv(it, v, target, known, d=0):
    """v is target, possibly taken apart and put together again"""
    if v is target: return True
    if d > 6: return False
    if v.k == 'bool': return known.get(target) == v.a[0]
    if v.k == 'agg' and v.a[1]:
        if not v.a[3]: return known.get(target) == v.a[1]
        p = it.project(target, ('v', v.a[1]))
        return all(eqv(it, x, it.project(p, ('f', n)), known, d + 1) for n, x in zip(v.a[2], v.a[3]))
    if v.k == 'agg' and v.a[0] in ('core::option::Option',) and not v.a[3]: return known.get(target) == v.a[1]
    return False

def note_edge(known, x):
    """record what an edge label says about a value (a tuple-dict of facts)"""
    if not x: return known
    if x[0] == 'variant' and x[1].k == 'discr' and isinstance(x[2], str): return known | {(x[1].a[0], x[2])}
    if x[0] == 'bool': return known | {(x[1], x[2])}
    return known

def forwarding(ctx, R='forwards'):
    ws = wrappers(ctx)
    ctx.floor(R, 'wrapper metrics', len(ws), 3)
    for adt, param, inj in ws:
        nm = short2(adt)
        for m in ('is_enabled', 'as_any', 'value'):
            inst = '%s::%s' % (nm, m)
            def one():
                k = ctx.timpl(adt, METRIC, m, need=False)
                if k is None: ctx.ob(R, inst, False, '%s inherits the default %s instead of asking the metric it wraps' % (nm, m)); return
                it = ctx.run(k)
                P = Prod(it, frozenset(), lambda P, s, kind, x, n: note_edge(s, x) if kind == 'edge' else s)
                n = 0
                for nd in exits(it):
                    ev = [e for e in it.events[nd] if e.kind == 'return'][0]
                    for s, ns in P.ends.get(nd, ()):
                        n += 1
                        known = dict(s)
                        v = norm(it, P.resolve(ev.v[0], ns))
                        absent = any(is_cell_get(t) and x == 'None' for t, x in s)
                        if absent:
                            ok = (m == 'is_enabled' and v.k == 'bool' and not v.a[0]) or (v.k == 'agg' and v.a[1] == 'None')
                            ctx.ob(R, inst + ' before initialisation', ok, 'reports %s before it is initialised' % show(v), ctx.F.bodies[k].get('span', '')); continue
                        calls = [e.result for x in P.path(ns) for e in it.events.get(x[0], ()) if e.kind == 'call' and e.path == METRIC + '::' + m and is_inner(ctx, it, e.v[0], adt, param)]
                        ok = any(eqv(it, v, norm(it, c), known) for c in calls)
                        if not ok and v.k in ('unk', 'mut', 'old', 'phi'): ctx.undecided(R, inst, show(v)); continue
                        ctx.ob(R, inst, ok, 'reports %s instead of what the wrapped metric reports' % show(v), ctx.F.bodies[k].get('span', ''))
                ctx.floor(R, inst + ' paths', n, 1)
            rule(ctx, R, inst, one)
        rule(ctx, R, nm + '::provide', lambda: provide_forward(ctx, R, adt, param, inj))

def provide_forward(ctx, R, adt, param, inj):
    nm = short2(adt); inst = nm + '::provide'
    pm = has_provider_map(ctx, adt)
    k = ctx.timpl(adt, METRIC, 'provide', need=False)
    if k is None: ctx.ob(R, inst, False, '%s provides nothing of what its metric provides' % nm); return
    it = ctx.run(k)
    sp = ctx.F.bodies[k].get('span', '')
    def delta(P, s, kind, x, n):
        known, seq = s
        if kind == 'edge': return (note_edge(known, x), seq)
        if x.kind == 'call' and any(a is A1 or fields(a)[0] is A1 for a in x.v):
            if x.path == METRIC + '::provide': seq = seq + ((('inner' if x.v[1] is A1 and is_inner(ctx, it, x.v[0], adt, param) else 'other metric'), x.result),)
            elif last(x.path) == 'provide' and x.path.endswith('InjectedProvider::provide'): seq = seq + (('declared', x.result),)
            elif last(x.path) == 'provide': seq = seq + (('map', x.result),)
            elif last(x.path) in ('tag_id', 'would_be_satisfied_by_value_of', 'would_be_satisfied_by_ref_of', 'type_id'): pass
            elif x.path.endswith(('HashMap::get', 'BTreeMap::get', 'HashMap::get_key_value')) : pass
            else: seq = seq + (('unknown ' + short2(x.path), x.result),)
        seq = seq[:6]
        if x.kind == 'call' and last(x.path) == 'get' and 'Map' in x.path: known = known | {('lookup', x.result)}
        return (known, seq)
    P = Prod(it, (frozenset(), ()), delta)
    n = 0
    for nd in exits(it):
        for (known, seq), ns in P.ends.get(nd, ()):
            n += 1
            kinds = [a for a, _ in seq]
            if any(a.startswith('unknown') for a in kinds): ctx.undecided(R, inst, 'request handed to %s' % kinds); continue
            absent = any(isinstance(t, T) and is_cell_get(t) and x == 'None' for t, x in known)
            want_decl = []
            found = None
            if inj: want_decl = ['declared']
            if pm:
                # looked up under the request's own tag
                lk = [r for t, r in known if t == 'lookup']
                good = [r for r in lk if len(r.a[1]) == 2 and fields(r.a[1][0])[0] is A0 and r.a[1][1].k == 'call' and last(r.a[1][1].a[0]) == 'tag_id' and fields(r.a[1][1].a[1][0])[0] is A1]
                loop = any(a == 'map' and c.a[1][0].k != 'call' and mentions(it, c.a[1][0], lambda s: s.k == 'item') for a, c in seq) or any(isinstance(t, T) for t, x in known if isinstance(t, T) and t.k == 'src')
                if lk and not good: ctx.ob(R, inst, False, 'the data given to the builder is looked up under %s, not under the tag of the request' % show(lk[0].a[1][-1]), sp); continue
                if not good:
                    if kinds[-1:] == ['inner'] and any(e.kind == 'iter' for e in it.all_events()): ctx.undecided(R, inst, 'provided data is not looked up by tag'); continue
                    ctx.ob(R, inst, False, 'a path asks the wrapped metric without consulting the data given to the builder', sp); continue
                found = any((r, 'Some') in known for r in good)
                if found: want_decl = ['map']
            if absent:
                ctx.ob(R, inst, 'inner' not in kinds, 'asks the metric before it exists', sp); continue
            if pm and found and kinds == ['map']: ctx.ob(R, inst, True); continue   # the request is answered: nothing the metric provides could be accepted
            ctx.ob(R, inst, kinds == want_decl + ['inner'], 'provides %s instead of the declared context followed by what the metric provides' % (kinds or 'nothing'), sp)
            if 'map' in kinds:
                c = [c for a, c in seq if a == 'map'][0]
                ok = any(x in good for x in subterms(c.a[1][0]))
                ctx.ob(R, inst + ' element', ok, 'the provided element is not the one found under the tag of the request', sp)
    ctx.floor(R, inst + ' paths', n, 1)

def short2(p): return '::'.join(re.sub(r'<.*?>', '', p).split('::')[-2:])

def accessors(ctx, R='accessors'):
    """entries and owners hand out the very metric they were made for, and their own name and description"""
    E = ctx.adt('metriken_core', 'MetricEntry')
    fm, fn, fd = entry_fields(ctx)
    def pointer(k, inst, want):
        def one():
            it = ctx.run(k)
            n = 0
            for nd, v in returns(it):
                for a in nalts(it, v):
                    n += 1
                    if a.k in ('unk', 'phi', 'old'): ctx.undecided(R, inst, show(a)); continue
                    ctx.ob(R, inst, want(a), 'hands out %s' % show(a), ctx.F.bodies[k].get('span', ''))
            ctx.floor(R, inst, n, 1)
        rule(ctx, R, inst, one)
    pointer(ctx.method(E, 'metric'), 'MetricEntry::metric', lambda a: fields(a) == (A0, (fm,)))
    pointer(ctx.timpl(E, 'core::ops::deref::Deref', 'deref'), 'MetricEntry as Deref', lambda a: fields(a) == (A0, (fm,)))
    pointer(ctx.method(E, 'name'), 'MetricEntry::name', lambda a: fields(a) == (A0, (fn,)))
    def desc():
        k = ctx.method(E, 'description')
        it = ctx.run(k)
        P = Prod(it, frozenset(), lambda P, s, kind, x, n: note_edge(s, x) if kind == 'edge' else s)
        d = it.project(A0, ('f', fd)); n = 0
        for nd in exits(it):
            ev = [e for e in it.events[nd] if e.kind == 'return'][0]
            for s, ns in P.ends.get(nd, ()):
                v = norm(it, P.resolve(ev.v[0], ns)); n += 1
                ok = eqv(it, v, d, dict(s)) or v is d
                if not ok and v.k == 'call': ctx.undecided(R, 'MetricEntry::description', show(v)); continue
                ctx.ob(R, 'MetricEntry::description', ok, 'reports %s instead of the entry\'s description' % show(v), ctx.F.bodies[k].get('span', ''))
        ctx.floor(R, 'MetricEntry::description', n, 1)
    rule(ctx, R, 'MetricEntry::description', desc)
    for name in ('DynPinnedMetric', 'DynBoxedMetric'):
        D = ctx.adt('metriken_core', name)
        k = ctx.timpl(D, 'core::ops::deref::Deref', 'deref')
        def want(a, D=D):
            r, names = fields(a)
            if r is not A0 or not names: return False
            ty = deep_type(ctx, D, names)
            return ty is None or re.fullmatch(r'[A-Z]\w?', ty) is not None
        pointer(k, name + ' as Deref', want)
    def is_():
        k = ctx.method(E, 'is', need=False)
        if k is None: return
        it = ctx.run(k)
        P = Prod(it, frozenset(), lambda P, s, kind, x, n: note_edge(s, x) if kind == 'edge' else s)
        def ptr_eq(t):
            """the term compares the addresses of the entry's metric and the given one: +1 / -1"""
            if t.k == 'un' and t.a[0] == 'Not': return -ptr_eq(t.a[1])
            a = None
            if t.k == 'bin' and t.a[0] in ('Eq', 'Ne'): a, b, pol = t.a[1], t.a[2], 1 if t.a[0] == 'Eq' else -1
            elif t.k == 'call' and len(t.a[1]) == 2 and last(t.a[0]) in ('eq', 'addr_eq', 'ne'): a, b, pol = t.a[1][0], t.a[1][1], -1 if last(t.a[0]) == 'ne' else 1
            if a is None: return 0
            u = lambda x: u(x.a[-1]) if x.k in ('cast', 'addr') else x
            s = {fields(u(a)), fields(u(b))}
            return pol if s == {(A0, (fm,)), (A1, ())} else 0
        n = 0
        for nd in exits(it):
            ev = [e for e in it.events[nd] if e.kind == 'return'][0]
            for s, ns in P.ends.get(nd, ()):
                v = P.resolve(ev.v[0], ns); n += 1
                if v.k == 'bool':
                    cmp_ = [(ptr_eq(t) > 0) == x for t, x in s if isinstance(t, T) and ptr_eq(t)]
                    ids = [t for t, x in s if isinstance(t, T) and t.k == 'call' and last(t.a[0]) in ('eq', 'ne') and any(q.k == 'call' and last(q.a[0]) == 'type_id' for q in subterms(t)) and x == (last(t.a[0]) == 'ne')]
                    ok = (v.a[0] in cmp_) if v.a[0] else (False in cmp_ or bool(ids))
                    ctx.ob(R, 'MetricEntry::is', ok, 'answers %s without the addresses being found %s' % (str(v.a[0]).lower(), 'equal' if v.a[0] else 'different'), ctx.F.bodies[k].get('span', ''))
                elif ptr_eq(v): ctx.ob(R, 'MetricEntry::is', ptr_eq(v) > 0, 'answers the opposite of the addresses being equal', ctx.F.bodies[k].get('span', ''))
                else: ctx.undecided(R, 'MetricEntry::is', show(v))
    rule(ctx, R, 'MetricEntry::is', is_)

def deep_type(ctx, adt, names):
    """type of a field path, looking through smart pointers"""
    ty = adt
    for n in names:
        while True:
            m = re.match(r'^(?:core::pin::Pin|alloc::boxed::Box|alloc::sync::Arc|alloc::rcs::arc::Arc)<(.*)>$', ty)
            if not m: break
            ty = m.group(1)
        a = ctx.F.adts.get(ty.split('<')[0])
        if not a or a['kind'] != 'struct': return None
        fs = [f for f in a['vars'][0]['fs'] if f['n'] == n]
        if not fs: return None
        ty = fs[0]['ty']
        m = re.match(r'^(?:core::pin::Pin|alloc::boxed::Box|alloc::sync::Arc|alloc::rcs::arc::Arc)<(.*)>$', ty)
        while m: ty = m.group(1); m = re.match(r'^(?:core::pin::Pin|alloc::boxed::Box)<(.*)>$', ty)
    return ty

def slot_of(t):
    """call site of the provide that filled the slot t comes from"""
    r, _ = root(t)
    return r.a[0] if r.k == 'mut' else None

def formatted(ctx, R='formatter'):
    """the formatter provided in either form is used, the default one only when there is none"""
    E = ctx.adt('metriken_core', 'MetricEntry')
    k = ctx.method(E, 'formatted')
    fmk = ctx.fn('metriken_core', 'default_formatter')
    it = ctx.run(k, opaque=lambda b: b.get('path') == fmk, cache=False)
    sp = ctx.F.bodies[k].get('span', '')
    fm = entry_fields(ctx)[0]
    provs = {e.site: e for e in it.all_events('call') if e.path == METRIC + '::provide'}
    for s_, e in provs.items():
        ctx.ob(R, 'formatted asks the metric', fields(e.v[0]) == (A0, (fm,)), 'asks %s for a formatter' % show(e.v[0]), e.span)
    def delta(P, s, kind, x, n):
        known, calls = s
        if kind == 'edge':
            if x and x[0] == 'variant' and x[1].k == 'discr' and isinstance(x[2], str):
                site = slot_of(x[1].a[0])
                if site in provs: return (known | {(site, 'ref' if 'Option<&' in x[1].a[1] else 'value', x[2])}, calls)
            return s
        if x.kind == 'call' and (x.path == '<indirect>' or x.path == fmk): return (known, calls + (x.result,)) if len(calls) < 3 else s
        return s
    P = Prod(it, (frozenset(), ()), delta)
    n = 0
    for nd in exits(it):
        ev = [e for e in it.events[nd] if e.kind == 'return'][0]
        for (known, calls), ns in P.ends.get(nd, ()):
            n += 1
            v = P.resolve(ev.v[0], ns)
            if len(calls) != 1: ctx.ob(R, 'formatted', False, 'runs %d formatters' % len(calls), sp); continue
            c = calls[0]
            ctx.ob(R, 'formatted result', norm(it, v) is norm(it, c), 'does not return what the formatter produced: %s' % show(v), sp)
            if c.a[0] == fmk: f, args = None, c.a[1]
            else: f, args = P.resolve(c.a[1][0], ns), c.a[1][1:]
            ctx.ob(R, 'formatted arguments', tuple(args) == (A0, A1), 'formats something else than this entry in the requested format: %s' % (', '.join(map(show, args))), sp)
            isdef = f is None or (f.k == 'fn' and FNS[f.a[0]]['path'] == fmk)
            some = {(s, t) for s, t, x in known if x == 'Some'}
            if isdef:
                none = {t for s, t, x in known if x == 'None'}
                ctx.ob(R, 'formatted default', none >= {'value', 'ref'} and not some, 'uses the default formatter %s' % ('although one was provided' if some else 'without having asked for one as %s' % ' and '.join(sorted({'value', 'ref'} - none))), sp)
            else:
                site = slot_of(f)
                if site is None and f.k not in ('proj', 'mut'): ctx.undecided(R, 'formatted', 'formatter %s' % show(f)); continue
                ctx.ob(R, 'formatted provided', any(s == site for s, t in some), 'formats with %s, not with a provided formatter' % show(f), sp)
    ctx.floor(R, 'paths through formatted', n, 2)

def metadata_accessor(ctx, R='metadata'):
    E = ctx.adt('metriken_core', 'MetricEntry')
    MD = ctx.adt('metriken_core', 'Metadata')
    k = ctx.method(E, 'metadata')
    it = ctx.run(k)
    sp = ctx.F.bodies[k].get('span', '')
    P = Prod(it, frozenset(), lambda P, s, kind, x, n: note_edge(s, x) if kind == 'edge' else s)
    provs = {e.site for e in it.all_events('call') if e.path == METRIC + '::provide' and fields(e.v[0]) == (A0, (entry_fields(ctx)[0],))}
    n = 0
    for nd in exits(it):
        ev = [e for e in it.events[nd] if e.kind == 'return'][0]
        for s, ns in P.ends.get(nd, ()):
            n += 1
            v = norm(it, P.resolve(ev.v[0], ns))
            some = [x for t, x in s if isinstance(t, T) and slot_of(t) in provs]
            if slot_of(v) in provs: ctx.ob(R, 'MetricEntry::metadata', True)
            elif v.k in ('static', 'const', 'agg', 'item_const') or (v.k == 'call' and 'default' in v.a[0]): ctx.ob(R, 'MetricEntry::metadata', some == ['None'], 'reports empty metadata %s' % ('although the metric provides some' if some else 'without asking the metric'), sp)
            else: ctx.undecided(R, 'MetricEntry::metadata', show(v))
    ctx.floor(R, 'paths through metadata', n, 2)

def static_entry(ctx, R='static-entry'):
    """entry_v1 and MetricWrapper::from_ref carry exactly what they are given"""
    E = ctx.adt('metriken_core', 'MetricEntry')
    fm, fn, fd = entry_fields(ctx)
    k = ctx.fn('metriken_core', 'entry_v1')
    it = ctx.run(k)
    P = Prod(it, frozenset(), lambda P, s, kind, x, n: note_edge(s, x) if kind == 'edge' else s)
    n = 0
    sp = ctx.F.bodies[k].get('span', '')
    for nd in exits(it):
        ev = [e for e in it.events[nd] if e.kind == 'return'][0]
        for s, ns in P.ends.get(nd, ()):
            n += 1
            v = norm(it, P.resolve(ev.v[0], ns))
            if not (v.k == 'agg' and v.a[0] == E): ctx.undecided(R, 'entry_v1', show(v)); continue
            g = lambda f: norm(it, P.resolve(it.project(v, ('f', f)), ns))
            ctx.ob(R, 'entry_v1 metric', g(fm) is A0, 'the entry points to %s' % show(g(fm)), sp)
            ctx.ob(R, 'entry_v1 name', g(fn) is A1, 'the entry is named %s' % show(g(fn)), sp)
            ctx.ob(R, 'entry_v1 description', eqv(it, g(fd), mk('arg', 2), dict(s)), 'the entry is described by %s' % show(g(fd)), sp)
    ctx.floor(R, 'paths through entry_v1', n, 1)
    W = ctx.adt('metriken_core', 'MetricWrapper')
    k = ctx.method(W, 'from_ref')
    it = ctx.run(k)
    for nd, v in returns(it):
        ctx.ob(R, 'MetricWrapper::from_ref', norm(it, v) is A0, 'wraps %s instead of the given metric' % show(v), ctx.F.bodies[k].get('span', ''))

def contains_map(it, v, adt, want):
    """a value of type adt that wraps exactly the map want: True/False, None when not followed"""
    v = norm(it, v)
    if v is want: return True
    if v.k == 'agg':
        if len(v.a[3]) == 1: return contains_map(it, v.a[3][0], adt, want)
        return False if not v.a[3] else None
    r, names = fields(v)
    if v.k in ('static', 'const', 'arg') or r.k in ('static', 'arg'): return False
    return None

STEPS = ('next', 'next_back', 'nth', 'nth_back', 'advance_by', 'last', 'skip')
def advanced(it):
    """events that take items out of an iterator"""
    return [e for e in it.all_events('next', 'next_back', 'call') if (e.kind != 'call' or e.path and last(e.path) in STEPS and e.path.startswith('core::iter'))]

def same_value(ctx, it, v, target, known, d=0):
    """v is target, cloned and possibly taken apart and put together again"""
    v = norm(it, v)
    if v is target or norm(it, target) is v: return True
    if d > 6 or v.k != 'agg' or not v.a[0]: return False
    a = ctx.F.adts.get(v.a[0].split('<')[0])
    if a and a['kind'] == 'enum' or v.a[0] == 'core::option::Option':
        if not v.a[3]: return known.get(target) == v.a[1]
        p = it.project(target, ('v', v.a[1]))
    else: p = target
    return all(same_value(ctx, it, x, it.project(p, ('f', n)), known, d + 1) for n, x in zip(v.a[2], v.a[3]))

def clones(ctx, R, roots):
    """cloning a value of these types (and of the library types they are made of) yields an equal value"""
    todo, seen = list(roots), []
    while todo:
        a = todo.pop()
        if a in seen: continue
        seen.append(a)
        for v in ctx.F.adts[a]['vars']:
            for f in v['fs']: todo += [x for x in ctx.F.adts if x.startswith('metriken') and 'span' in ctx.F.adts[x] and re.search(r'(^|[<& (,])%s($|[<>,) ])' % re.escape(x), f['ty'])]
    n = 0
    for a in seen:
        k = ctx.timpl(a, 'core::clone::Clone', 'clone', need=False)
        if not k: continue
        nm = a.rsplit('::', 1)[-1]
        def one():
            nonlocal n
            it = ctx.run(k)
            P = Prod(it, frozenset(), lambda P, s, kind, x, nd: note_edge(s, x) if kind == 'edge' else s)
            adv = [e for e in advanced(it) if not any(x.path and last(x.path) == 'coll_add' for x in it.all_events('call'))]
            if adv: ctx.ob(R, nm + '::clone', False, 'cloning takes items out of the copy', adv[0].span); return
            for nd in exits(it):
                ev = [e for e in it.events[nd] if e.kind == 'return'][0]
                for s, ns in P.ends.get(nd, ()):
                    n += 1
                    v = P.resolve(ev.v[0], ns)
                    if same_value(ctx, it, v, A0, dict(s)): ctx.ob(R, nm + '::clone', True); continue
                    lost = dropped_items(it)
                    if lost: ctx.ob(R, nm + '::clone', False, 'cloning leaves out items', lost[0].span); continue
                    if any(x.k in ('call', 'phi', 'mut', 'mutd', 'old', 'unk') and not (x.k == 'call' and is_conv(x.a[0])) for x in subterms(norm(it, v))): ctx.undecided(R, nm + '::clone', show(v)); continue
                    ctx.ob(R, nm + '::clone', False, 'cloning yields %s, not an equal value' % show(v), ctx.F.bodies[k].get('span', ''))
        rule(ctx, R, nm + '::clone', one)
    return n

def dropped_items(it):
    """steps whose item is not added to a collection before the next step (or the end)"""
    adds = lambda e: e.kind == 'call' and e.path and last(e.path) in ('coll_add', 'push', 'insert', 'push_back')
    if not any(adds(e) for e in it.all_events('call')): return []
    bad = []
    def delta(s, kind, x, n):
        if kind == 'ev':
            if adds(x): return 'none'
            if x.kind in ('next', 'next_back'):
                if s != 'none': bad.append(s)
                return 'none'
            if x.kind == 'return' and s != 'none': bad.append(s)
        elif x and x[0] in ('next', 'next_back') and x[2] == 'Some':
            es = [e for e in it.events[n] if e.kind == x[0]]
            return es[-1] if es else s
        return s
    product(it, 'none', delta)
    return bad
