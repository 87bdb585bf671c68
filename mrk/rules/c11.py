"""C11: counters and gauges: every update is one atomic read-modify-write of the requested amount."""
from ..frame import rule
from ..q import *
SCOPE = 'core'
EXPLAIN = ("For every update method of Counter and Gauge, all paths of the abstract program are checked to perform exactly one indivisible "
           "read-modify-write of the metric's own atomic (fetch_*/swap, fetch_update, or a compare-exchange loop whose new value is computed from the compared one) "
           "with exactly the requested operand in wrapping arithmetic, and to return the replaced value; reads load once and write nothing; "
           "the Metric impl reports that load under the right kind. Obligations are (method, clause) pairs.")
ASSUME = ["core::sync::atomic operations are indivisible and wrap", "the analysis sees every safe access to the private atomic field (checked: no other function touches it)"]
ATOM = 'core::sync::atomic::Atomic::'
RMW = {'fetch_add', 'fetch_sub', 'swap', 'fetch_update', 'try_update', 'update', 'compare_exchange', 'compare_exchange_weak', 'fetch_max', 'fetch_min', 'fetch_and', 'fetch_or', 'fetch_xor', 'fetch_nand', 'compare_and_swap'}

WRAP = {'wrapping_add': 'add', 'wrapping_sub': 'sub'}
def lin(t, old):
    """value as (coefficient of old, list of (sign, term)) in wrapping arithmetic, or None"""
    if t is old: return (1, [])
    if t.k == 'int': return (0, [(1, t)]) if t.a[0] else (0, [])
    if t.k == 'call':
        n = last(t.a[0])
        if n in ('wrapping_add', 'wrapping_sub') and len(t.a[1]) == 2:
            a, b = lin(t.a[1][0], old), lin(t.a[1][1], old)
            if a is None or b is None: return None
            sg = 1 if n == 'wrapping_add' else -1
            return (a[0] + sg * b[0], a[1] + [(s * sg, x) for s, x in b[1]])
        if n == 'wrapping_neg':
            a = lin(t.a[1][0], old)
            return None if a is None else (-a[0], [(-s, x) for s, x in a[1]])
    if t.k == 'un' and t.a[0] == 'Neg':
        a = lin(t.a[1], old)
        return None if a is None else (-a[0], [(-s, x) for s, x in a[1]])
    return (0, [(1, t)])

def ints(terms):
    """combine integer constants"""
    c, rest = 0, []
    for s, t in terms:
        if t.k == 'int':
            v = t.a[0]
            if t.a[1] in ('i64', 'isize') and v >= 2 ** 63: v -= 2 ** 64
            c += s * v
        else: rest.append((s, t))
    return c, tuple(sorted(rest, key=lambda x: (x[1].id, x[0])))

def effect(it, e):
    """(updated place, function of old as (coef, const, terms)) of a read-modify-write event"""
    op = last(e.path)
    tgt = fields(e.v[0])
    arg = e.v[1] if len(e.v) > 1 else None
    if op == 'fetch_add': l = (1, [(1, arg)])
    elif op == 'fetch_sub': l = (1, [(-1, arg)])
    elif op == 'swap': l = (0, [(1, arg)])
    elif op in ('compare_exchange', 'compare_exchange_weak'):
        l = lin(e.v[2], e.v[1])
    elif op in ('fetch_update', 'try_update', 'update'):
        l = None
    else: l = None
    if l is None: return tgt, None
    l = (l[0], [y for s, x in l[1] for y in _neg(s, x)])
    c, r = ints(l[1])
    return tgt, (l[0], c, r)
def _neg(s, t):
    x = lin(t, None)
    return [(s * a, b) for a, b in x[1]] if x and x[0] == 0 else [(s, t)]

def closure_effect(it, e, ctx):
    """fetch_update(set, fetch, f): what f maps the old value to"""
    for t in e.raw:
        pl = t
        for x in subterms(e.v[3] if len(e.v) > 3 else t):
            if x.k == 'agg' and x.a[0].startswith('closure:'):
                key = it.closure_key(x.a[0][8:])
                old = mk('cbarg', 'update', 0)
                it2 = ctx.run(key, closure=x, args={2: old}, cache=False)
                outs = []
                for n, v in returns(it2):
                    if any(ev.kind == 'assert' for ev in it2.all_events()): return None
                    if v.k == 'agg' and v.a[1] == 'Some': v = v.a[3][0]
                    elif v.k == 'agg': return None
                    l = lin(v, old)
                    if l is None: return None
                    c, r = ints(l[1]); outs.append((l[0], c, r))
                return outs[0] if outs and all(o == outs[0] for o in outs) else None
    return None

def method(ctx, adt, name, want):
    """want = (coef, const, uses_arg sign)"""
    key = ctx.method(adt, name)
    it = ctx.run(key)
    inst = '%s::%s' % (adt.rsplit('::', 1)[-1], name)
    a1 = mk('arg', 1)
    expect = (want[0], want[1], ((want[2], a1),) if want[2] else ())
    self_place = lambda f: f[0] is mk('arg', 0)
    for e in it.all_events('call'):
        if e.path.startswith(ATOM) and last(e.path) == 'store':
            ctx.ob('one-rmw', inst, False, 'plain atomic store: an update between the read and this store is lost', e.span); return
    bad = []
    CAS = ('compare_exchange', 'compare_exchange_weak')
    def is_zero(x):
        if x[0] == 'int': return x[1] is a1 and x[2] == 0
        if x[0] != 'bool': return False
        t, val = x[1], x[2]
        if t.k != 'bin' or t.a[0] not in ('Eq', 'Ne'): return False
        a, b = (t.a[1], t.a[2]) if t.a[2].k == 'int' else (t.a[2], t.a[1])
        return a is a1 and b.k == 'int' and b.a[0] == 0 and val == (t.a[0] == 'Eq')
    def delta(P, st, kind, x, n):
        zero, s = st
        if kind == 'edge' and x and is_zero(x): zero = True
        r = delta_(s, kind, x, n)
        return None if r is None else (zero, r)
    def delta_(s, kind, x, n):
        cnt, pend, ok, old = s
        if kind == 'ev':
            if x.kind == 'call' and x.path.startswith(ATOM) and last(x.path) in RMW and self_place(fields(x.v[0])):
                op = last(x.path)
                if op in CAS:
                    tgt, ef = effect(it, x)
                    return (cnt, x.result, ef == expect, old)
                if op in ('fetch_update', 'try_update', 'update'):
                    ef = closure_effect(it, x, ctx)
                    return (min(cnt + 1, 2), None, ef == expect, x.result)
                tgt, ef = effect(it, x)
                if ef != expect: bad.append((x, ef))
                return (min(cnt + 1, 2), None, ef == expect, x.result)
            if x.kind == 'assert':
                bad.append((x, 'panics'))
        elif pend is not None and x and x[0] == 'variant' and x[1].k == 'discr' and x[1].a[0] is pend:
            if x[2] == 'Ok': return (min(cnt + 1, 2), None, ok, pend)
            return (cnt, None, True, old)
        elif pend is not None and x and x[0] == 'bool' and mentions(it, x[1], lambda u: u is pend):
            return (min(cnt + 1, 2), None, ok, pend) if x[2] == ('is_ok' in show(x[1])) else (cnt, None, True, old)
        return s
    P = Prod(it, (False, (0, None, True, None)), delta)
    for e in explicit_panics(it): ctx.ob('no-panic', inst, False, 'may panic (%s) depending on the value or the amount' % short(e.path), e.span)
    n_ret = 0
    for n, v0 in returns(it):
        for ((zero, (cnt, pend, ok, old)), ns) in P.ends.get(n, ()):
            v = P.resolve(v0, ns)
            n_ret += 1
            if cnt == 0 and zero and want[0] == 1 and want[1] == 0:
                ctx.ob('one-rmw', inst, any(is_load(x) for x in nalts(it, v)), 'zero shortcut does not return the current value'); continue
            ctx.ob('one-rmw', inst, cnt == 1, '%d read-modify-write operations of the metric on a path to return' % cnt if cnt != 1 else '')
            ctx.ob('operand', inst, ok and not bad, 'the update is not "%s" of exactly the requested amount: %s' % (name, bad[0][1] if bad else 'operand of the compare-exchange or update function'), bad[0][0].span if bad else '')
            if old is not None:
                good = all(is_old(x, old, it) for x in nalts(it, v))
                # the value the successful compare-exchange expected, named by the variable that carried it
                if old.k == 'call' and last(old.a[0]).startswith('compare_exchange'): good = good or v0 is old.a[1][1] or P.resolve(old.a[1][1], ns) is v
                ctx.ob('returns-old', inst, good, 'returned value is not the value the update replaced: %s' % show(v))
    if n_ret == 0: ctx.ob('one-rmw', inst, False, 'never returns')

def is_load(x): return x.k == 'call' and x.a[0] == ATOM + 'load' and fields(x.a[1][0])[0] is mk('arg', 0)
def explicit_panics(it):
    """calls that never return, reached by a decision other than on the outcome of an atomic operation"""
    def delta(s, kind, x, n):
        if kind != 'edge' or not x: return s
        if x[0] == 'bool' or x[0] == 'int': return True
        if x[0] == 'variant' and x[1].k == 'discr':
            t = x[1].a[0]
            return s or not (t.k == 'call' and t.a[0].startswith(ATOM))
        return s
    ends = product(it, False, delta)
    for e in panics(it):
        if e.kind == 'call' and True in ends.get(e.node, ()): yield e

def is_old(x, old, it):
    if x is old: return True
    r, p = root(x)
    if r is old and p and p[0] in (('v', 'Ok'), ('v', 'Err')): return True      # payload of compare_exchange / fetch_update
    if old.k == 'call' and last(old.a[0]).startswith('compare_exchange') and x is old.a[1][1]: return True
    if x.k == 'call' and last(x.a[0]).startswith('unwrap') and x.a[1] and x.a[1][0] is old: return True
    return False

def read(ctx, adt, name):
    it = ctx.run(ctx.method(adt, name))
    inst = '%s::%s' % (adt.rsplit('::', 1)[-1], name)
    muts = [e for e in it.all_events('call') if e.path.startswith(ATOM) and last(e.path) not in ('load', 'new', 'get_mut', 'into_inner')]
    ctx.ob('read-only', inst, not muts, 'a read performs %s' % (muts[0].path if muts else ''), muts[0].span if muts else '')
    for n, v in returns(it):
        vs = nalts(it, v)
        ctx.ob('reads-current', inst, vs and all(is_load(x) for x in vs), 'returned value is not the current value: %s' % show(v))

def report(ctx, adt, kind):
    inst = '%s as Metric' % adt.rsplit('::', 1)[-1]
    it = ctx.run(ctx.timpl(adt, ctx.trait, 'value'))
    muts = [e for e in it.all_events('call') if e.path.startswith(ATOM) and last(e.path) not in ('load', 'new')]
    ctx.ob('read-only', inst + '::value', not muts, 'reporting performs %s' % (muts[0].path if muts else ''))
    for n, v in returns(it):
        for x in nalts(it, v):
            ok = x.k == 'agg' and x.a[1] == 'Some' and x.a[3][0].k == 'agg' and x.a[3][0].a[1] == kind and all(is_load(y) for y in nalts(it, x.a[3][0].a[3][0]))
            ctx.ob('reported', inst + '::value', ok, 'reports %s instead of Some(%s(current value))' % (show(x), kind))
    it = ctx.run(ctx.timpl(adt, ctx.trait, 'as_any'))
    for n, v in returns(it):
        for x in nalts(it, v):
            ctx.ob('reported', inst + '::as_any', x.k == 'agg' and x.a[1] == 'Some' and x.a[3][0] is mk('arg', 0), 'as_any reports %s instead of the metric itself' % show(x))
    k = ctx.timpl(adt, ctx.trait, 'is_enabled', need=False)
    if k:
        it = ctx.run(k)
        for n, v in returns(it):
            for x in nalts(it, v): ctx.ob('reported', inst + '::is_enabled', x is TRUE or x.k not in ('bool',), 'a counter or gauge reports itself disabled')

def init(ctx, adt):
    nm = adt.rsplit('::', 1)[-1]
    for name, want in (('new', 0), ('with_value', None)):
        it = ctx.run(ctx.method(adt, name))
        for n, v in returns(it):
            for x in nalts(it, v):
                inner = x.a[3][0] if x.k == 'agg' and x.a[3] else x
                ok = inner.k == 'call' and inner.a[0] == ATOM + 'new' and (inner.a[1][0] is mk('arg', 0) if want is None else inner.a[1][0].k == 'int' and inner.a[1][0].a[0] == want)
                ctx.ob('initial-value', '%s::%s' % (nm, name), ok, 'initial value is %s' % show(inner))
    k = ctx.timpl(adt, 'core::default::Default', 'default', need=False)
    if k:
        it = ctx.run(k)
        for n, v in returns(it):
            for x in nalts(it, v):
                inner = x.a[3][0] if x.k == 'agg' and x.a[3] else x
                if inner.k == 'call' and last(inner.a[0]) == 'default': ctx.ob('initial-value', nm + '::default', True); continue
                if not (inner.k == 'call' and inner.a[0] == ATOM + 'new'): ctx.undecided('initial-value', nm + '::default', show(inner)); continue
                ctx.ob('initial-value', nm + '::default', inner.a[1][0].k == 'int' and inner.a[1][0].a[0] == 0, 'default value is %s' % show(inner.a[1][0]))

def others(ctx, adt, table):
    """no other code writes the atomic: every function of the crate that performs a write on an atomic is one of the methods"""
    for k, b in sorted(ctx.F.bodies.items()):
        if b.get('crate') != adt.split('::')[0]: continue
        names = [l['ty'] for l in b.get('locals', ())[1:1 + b.get('argc', 0)]]
        if not any(adt in n for n in names): continue
        if last(k) in table and k.startswith(adt + '::'): continue
        for bb in b['blocks']:
            t = bb['t']
            f = t.get('f', {}).get('k', {}).get('fn') if t['t'] == 'call' else None
            if f and f['path'].startswith(ATOM) and last(f['path']) == 'store':
                ctx.ob('no-plain-store', k, False, 'plain store on the atomic outside the update methods', t.get('sp', ''))
    ctx.ob('no-plain-store', adt.rsplit('::', 1)[-1], True)

def check(ctx):
    from ..anchors import metric_trait
    ctx.trait = metric_trait(ctx)
    C, G = ctx.adt('metriken', 'Counter'), ctx.adt('metriken', 'Gauge')
    CT = {'increment': (1, 1, 0), 'add': (1, 0, 1), 'set': (0, 0, 1), 'reset': (0, 0, 0)}
    GT = dict(CT, decrement=(1, -1, 0), sub=(1, 0, -1))
    for adt, table, kind in ((C, CT, 'Counter'), (G, GT, 'Gauge')):
        for n, w in table.items(): rule(ctx, 'one-rmw', '%s::%s' % (kind, n), lambda: method(ctx, adt, n, w))
        rule(ctx, 'reads-current', kind, lambda: read(ctx, adt, 'value'))
        rule(ctx, 'reported', kind, lambda: report(ctx, adt, kind))
        rule(ctx, 'initial-value', kind, lambda: init(ctx, adt))
        rule(ctx, 'no-plain-store', kind, lambda: others(ctx, adt, table))
