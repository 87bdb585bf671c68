"""C02: a registered dynamic metric is listed exactly once until it is dropped."""
from ..frame import rule, Missing
from ..q import *
from ..registry import *
SCOPE = 'core'
TECHNIQUE = 'static analysis: path-sensitive provenance of registry keys and values over compiler MIR'
EXPLAIN = ("On every path of DynPinnedMetric::register exactly one registry insertion happens, replacing any previous entry, keyed by the address of storage inside that metric "
           "(storage that is never zero-sized, so two live metrics cannot share it), with the caller's name and description and a pointer to that same metric; dropping removes exactly that key; "
           "every other function user code can run is checked to leave the registry's contents alone, or to act only through those two.")
ASSUME = ["std's BTreeMap/HashMap insert and remove affect exactly the given key", "distinct live objects of non-zero size have distinct addresses"]

NONZERO = ('alloc::', 'std::', 'hashbrown::', '*', '&', 'u', 'i', 'core::sync::atomic', 'core::option::Option<', 'lock_api', 'parking_lot')
def nonzst(ctx, ty, d=0):
    if ty.startswith(('core::marker::', '()', '[')) or d > 5: return False
    a = ctx.F.adts.get(ty.split('<')[0])
    if a and 'span' in a and a['kind'] == 'struct': return any(nonzst(ctx, f['ty'], d + 1) for f in a['vars'][0]['fs'])
    return ty.startswith(NONZERO) and ty not in ('u', 'i')

def place_type(ctx, adt, names):
    """declared type of a field path inside adt (None when not followed)"""
    ty = adt
    for n in names:
        a = ctx.F.adts.get(ty.split('<')[0])
        if not a or a['kind'] != 'struct': return None
        fs = [f for f in a['vars'][0]['fs'] if f['n'] == n]
        if not fs: return None
        ty = fs[0]['ty']
    return ty

def key_of(o):
    """(place term or value, is it an address)"""
    if o.key[0] == 'term': t = o.key[1]; return unwrap_key(t), has_addr(t)
    e, i = o.key
    return unwrap_key(e.v[i]), is_addr_key(e, i)
def has_addr(t):
    while t.k == 'agg' and len(t.a[3]) == 1: t = t.a[3][0]
    return t.k == 'addr' or (t.k == 'cast' and t.a[1].k == 'addr' and t.a[0] in ('u64', 'usize', 'u128'))

def judge_key(ctx, rule_, inst, it, o, selfroot, adt):
    """the key is the address of non-zero-sized storage of this metric"""
    k, isaddr = key_of(o)
    ks = nalts(it, k)
    if len(ks) > 1:
        rs = [judge1(ctx, rule_, inst, it, x, isaddr, o, selfroot, adt) for x in ks]
        return rs[0]
    return judge1(ctx, rule_, inst, it, ks[0] if ks else norm(it, k), isaddr, o, selfroot, adt)

def judge1(ctx, rule_, inst, it, k, isaddr, o, selfroot, adt):
    r, names = fields(k)
    sp = o.ev.span
    if isaddr and selfroot(r):
        ty = place_type(ctx, adt, names)
        if ty is None: ctx.undecided(rule_, inst, 'type of the keyed storage %s not followed' % show(k)); return k
        ctx.ob(rule_, inst, nonzst(ctx, ty), 'registry key is the address of %s, which may be zero-sized and so shared between metrics' % ty, sp); return k
    if mentions(it, k, lambda s: s.k == 'addr') or (isaddr and not selfroot(r)):
        ctx.ob(rule_, inst, False, 'registry key is not the address of the metric itself: %s' % show(k), sp); return k
    if mentions(it, k, lambda s: s is mk('arg', 1)):
        ctx.ob(rule_, inst, False, 'registry key depends on the entry given by the caller, so metrics can collide: %s' % show(k), sp); return k
    if k.k in ('int', 'str', 'bool'):
        ctx.ob(rule_, inst, False, 'registry key is a constant: %s' % show(k), sp); return k
    ctx.undecided(rule_, inst, 'registry key %s not understood' % show(k)); return k

def register(ctx):
    P = ctx.adt('metriken_core', 'DynPinnedMetric')
    regs = registry_statics(ctx)
    it = ctx.run(ctx.method(P, 'register'))
    fm, fn_, fd = entry_fields(ctx)
    O = ops(it, regs)
    inst = 'DynPinnedMetric::register'
    self_ = lambda r: r is mk('arg', 0)
    keys = []
    for n, l in O.items():
        for o in l:
            if o.kind != 'insert':
                ok_rm = o.kind == 'remove' and o.how == 'key'
                if ok_rm: judge_key(ctx, 'own-key', inst + ' (removal)', it, o, self_, P)
                elif o.kind == 'other': ctx.undecided('only-own-entry', inst, 'registering performs %s on the registry' % o.ev.path)
                else: ctx.ob('only-own-entry', inst, False, 'registering performs %s on the registry' % (o.how if o.kind == 'other' else o.ev.path), o.ev.span)
                continue
            ctx.ob('replaces', inst, o.how == 'insert', 'an earlier registration of the metric is kept instead of replaced' if o.how == 'keep' else 'entry is added without replacing the previous one', o.ev.span)
            if o.key is None: continue
            keys.append(judge_key(ctx, 'own-key', inst, it, o, self_, P))
            if o.val is None: ctx.undecided('entry', inst, 'inserted value not followed'); continue
            for v in nalts(it, o.val):
                m = it.project(v, ('f', fm)); r, names = fields(norm(it, m))
                ctx.ob('entry', inst + ' metric', r is mk('arg', 0) and metric_place(ctx, P, names), 'the entry does not point to the registered metric but to %s' % show(m), o.ev.span)
                for f, lab in ((fn_, 'name'), (fd, 'description')):
                    x = norm(it, it.project(v, ('f', f)))
                    ctx.ob('entry', inst + ' ' + lab, all(y is mk('proj', mk('arg', 1), ('f', f)) for y in nalts(it, x)), 'the %s listed is not the one given: %s' % (lab, show(x)), o.ev.span)
    def delta(s, kind, x, n):
        if kind == 'ev' and x.kind == 'call':
            for o in O.get(n, ()):
                if o.ev is x and o.kind == 'insert': return min(s + 1, 2)
                if o.ev is x and o.kind == 'remove': return 0
        return s
    ends = product(it, 0, delta)
    for n, v in returns(it):
        for s in ends.get(n, ()):
            if s == 0 and any(k[0] == 'M' and lock_root(it, k[1], regs) is not None for k in it.instate[n].env): ctx.undecided('registers', inst, 'entry replaced in place'); continue
            ctx.ob('registers', inst, s == 1, 'a path through registration makes %s insertions' % ('no' if s == 0 else 'several'))
    ctx.floor('registers', 'returning paths of register', len(list(returns(it))), 1)
    return keys

def metric_place(ctx, adt, names):
    """the storage implements Metric (the provider wrapper), not merely the inner metric"""
    ty = place_type(ctx, adt, names)
    return ty is not None and ty != 'M' and not ty.startswith('&')

def drop_prefix(it, k, pre):
    """the key seen from the dropped field"""
    r, p = root(k)
    fs = [e for e in p]
    if tuple(e[1] for e in fs[:len(pre)]) != tuple(pre): return k
    for e in fs[len(pre):]: r = it.project(r, e)
    return r

def unregister(ctx, keys):
    P = ctx.adt('metriken_core', 'DynPinnedMetric')
    regs = registry_statics(ctx)
    dk, pre, D = find_drop(ctx, P)
    it = ctx.run(dk)
    if pre: keys = [drop_prefix(it, k, pre) for k in keys]
    inst = 'DynPinnedMetric as Drop'
    n = 0
    for l in ops(it, regs).values():
        for o in l:
            if o.kind == 'remove' and o.how == 'key':
                k = judge_key(ctx, 'own-key', inst, it, o, lambda r: r is mk('arg', 0), D); n += 1
                if keys: ctx.ob('same-key', inst, k in keys, 'dropping removes %s but registration used %s' % (show(k), show(keys[0])), o.ev.span)
            elif o.kind == 'remove' and o.how == 'retain':
                n += 1; retain(ctx, it, o, inst, keys)
            elif o.kind == 'other': ctx.undecided('only-own-entry', inst, 'dropping performs %s on the registry' % o.ev.path)
            else: ctx.ob('only-own-entry', inst, False, 'dropping a metric performs %s on the registry, touching other entries' % o.ev.path, o.ev.span)
    ctx.floor('same-key', 'removals when a metric is dropped', n, 1)

def retain(ctx, it, o, inst, keys):
    """retain keeps exactly the entries of other metrics"""
    cl = [x for x in subterms(o.ev.v[1]) if x.k == 'agg' and x.a[0].startswith('closure:')]
    if not cl: ctx.undecided('same-key', inst, 'retain with an unknown predicate'); return
    it2 = ctx.run(it.closure_key(cl[0].a[0][8:]), closure=cl[0], args={2: mk('cbarg', 'retain', 0), 3: mk('cbarg', 'retain', 1)}, cache=False)
    fm = entry_fields(ctx)[0]
    for n, v in returns(it2):
        for x in nalts(it2, v):
            neg = x.k == 'bin' and x.a[0] == 'Ne' or (x.k == 'un' and x.a[0] == 'Not' and x.a[1].k in ('bin', 'call'))
            if not neg:
                ctx.ob('same-key', inst, False, 'dropping keeps entries by %s, not exactly those of other metrics' % show(x), o.ev.span); continue
            b = x if x.k == 'bin' else x.a[1]
            l, r = (unwrap_key(b.a[1]), unwrap_key(b.a[2])) if b.k == 'bin' else tuple(unwrap_key(y) for y in b.a[1][:2])
            for p, q in ((l, r), (r, l)):
                pr = root(p)[0]
                if pr is mk('cbarg', 'retain', 0) or (pr is mk('cbarg', 'retain', 1) and fields(p)[1][-1:] == (fm,)):
                    good = norm(it2, q) in keys or (fields(q)[0] is mk('arg', 0) and fields(q)[1] in [fields(k)[1] for k in keys])
                    ctx.ob('same-key', inst, good, 'dropping removes the entries of %s' % show(q), o.ev.span); break
            else: ctx.ob('same-key', inst, False, 'dropping a metric removes entries by something else than its key: %s' % show(x), o.ev.span)

def others(ctx):
    P = ctx.adt('metriken_core', 'DynPinnedMetric')
    regs = registry_statics(ctx)
    own = {P + '::register', find_drop(ctx, P)[0]}
    n = 0
    stop = lambda b: b.get('path') in own
    fm = entry_fields(ctx)[0]
    def own_insert(it, o):
        if o.kind != 'insert' or o.how != 'insert' or o.val is None or not o.key: return False
        k, isaddr = key_of(o)
        return isaddr and norm(it, it.project(o.val, ('f', fm))) is norm(it, k)
    for k, b in entry_points(ctx, ('metriken_core', 'metriken')):
        if k in own: continue
        def one():
            it = ctx.run(k, opaque=stop, drops_inline=True, cache=False)
            bad = [o for l in ops(it, regs).values() for o in l if not own_insert(it, o) and o.kind != 'other']
            ctx.ob('only-own-entry', k, not bad, 'changes the registry outside register and drop: %s' % (bad and bad[0].ev.path), bad[0].ev.span if bad else '')
        rule(ctx, 'only-own-entry', k, one); n += 1
    ctx.floor('only-own-entry', 'functions user code can run', n, 30)

def boxed(ctx):
    """the boxed forms register their metric exactly once, under the identity given"""
    B, E = ctx.adt('metriken_core', 'DynBoxedMetric'), ctx.adt('metriken_core', 'MetricEntry')
    regs = registry_statics(ctx)
    fm, fn_, fd = entry_fields(ctx)
    cnt = 0
    for k, b in entry_points(ctx, ('metriken_core',)):
        if b.get('kind') not in ('Fn', 'AssocFn') or k.startswith('<') or not b.get('exported'): continue
        out, ins_ = b['locals'][0]['ty'], [l['ty'] for l in b['locals'][1:1 + b['argc']]]
        makes = out.split('<')[0] == B
        again = any(B in t for t in ins_) and E in ins_
        if not (makes or again): continue
        def one():
            nonlocal cnt
            it = ctx.run(k)
            O = ops(it, regs)
            inst = k.rsplit('::', 2)[-2] + '::' + last(k)
            def delta(s, kind, x, n):
                if kind == 'ev' and x.kind == 'call':
                    for o in O.get(n, ()):
                        if o.ev is x and o.kind == 'insert': return min(s + 1, 2)
                        if o.ev is x and o.kind == 'remove': return 0
                return s
            ends = product(it, 0, delta)
            for n, v in returns(it):
                for s in ends.get(n, ()):
                    cnt += 1
                    if s == 0 and any(q[0] == 'M' and lock_root(it, q[1], regs) is not None for q in it.instate[n].env): ctx.undecided('registers', inst, 'entry replaced in place'); continue
                    ctx.ob('registers', inst, s == 1, 'a path makes %s registrations of the metric' % ('no' if s == 0 else 'several'), b.get('span', ''))
            ei = [i for i, t in enumerate(ins_) if t == E]
            for l in O.values():
                for o in l:
                    if o.kind != 'insert' or o.val is None or not ei: continue
                    for v in nalts(it, o.val):
                        for f, lab in ((fn_, 'name'), (fd, 'description')):
                            x = norm(it, it.project(v, ('f', f)))
                            ctx.ob('entry', inst + ' ' + lab, all(y is mk('proj', mk('arg', ei[0]), ('f', f)) for y in nalts(it, x)), 'the %s listed is not the one given: %s' % (lab, show(x)), o.ev.span)
        rule(ctx, 'registers', k, one)
    ctx.floor('registers', 'boxed metrics made', cnt, 1)

def check(ctx):
    ks = []
    rule(ctx, 'registers', 'DynPinnedMetric::register', lambda: ks.extend(register(ctx) or []))
    rule(ctx, 'same-key', 'DynPinnedMetric as Drop', lambda: unregister(ctx, ks))
    rule(ctx, 'only-own-entry', 'entry points', lambda: others(ctx))
    rule(ctx, 'registers', 'boxed metrics', lambda: boxed(ctx))
