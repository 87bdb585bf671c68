"""C24: an entry recognises exactly its own metric."""
import re
from ..frame import rule, Missing
from .. import shared
from ..q import *
from ..core import T, mk, show
from ..registry import entry_fields
SCOPE = 'core'
TECHNIQUE = 'static analysis: path-sensitive decision analysis of the identity test and guaranteed-layout analysis of every wrapper an entry can point to, over compiler MIR and type facts'
EXPLAIN = ("On every path the identity test answers true only after finding the entry's address and the given metric's address equal (thin addresses, not vtables) and their concrete types not different, and false only after finding one of them different; a comparison of "
           "the types of the trait objects themselves, which is always equal, is no comparison. Every wrapper an entry's pointer may lead to (found by their bounds) keeps the metric its owner hands out at its own address for every metric type: transparent, C layout with the metric first, or a single "
           "field. The pointer stored by every registration is that wrapper (C02's rule), static entries point to their static (C06's rule).")
ASSUME = ["as_any reports the metric's own type", "repr(transparent) and repr(C) as the language reference documents them"]
A0, A1 = mk('arg', 0), mk('arg', 1)
R = 'identity'

def strip(it, x):
    x = norm(it, x)
    while x.k in ('cast', 'addr'): x = norm(it, x.a[-1])
    return x

def check(ctx):
    rule(ctx, R, 'MetricEntry::is', lambda: decide(ctx))
    rule(ctx, 'address', 'wrappers', lambda: layout(ctx))
    rule(ctx, 'address', 'registration', lambda: registered(ctx))
    rule(ctx, 'accessors', 'accessors', lambda: shared.accessors(ctx))
    rule(ctx, 'static-entry', 'entry_v1', lambda: shared.static_entry(ctx))

def decide(ctx):
    E = ctx.adt('metriken_core', 'MetricEntry')
    fm = entry_fields(ctx)[0]
    k = ctx.method(E, 'is')
    it = ctx.run(k)
    sp = ctx.F.bodies[k].get('span', '')
    def side(x):
        r, f = fields(strip(it, x))
        if r is A0 and f == (fm,): return 0
        if r is A1 and f == (): return 1
        return None
    def addr(t):
        """+1 / -1: the term is true exactly when the addresses are equal / different; 'fat' when vtables take part"""
        if t.k == 'un' and t.a[0] == 'Not':
            v = addr(norm(it, t.a[1])); return -v if isinstance(v, int) else v
        a = None
        if t.k == 'bin' and t.a[0] in ('Eq', 'Ne'): a, b, pol = t.a[1], t.a[2], 1 if t.a[0] == 'Eq' else -1
        elif t.k == 'call' and len(t.a[1]) == 2 and last(t.a[0]) in ('eq', 'addr_eq', 'ne'): a, b, pol = t.a[1][0], t.a[1][1], -1 if last(t.a[0]) == 'ne' else 1
        if a is None: return 0
        return pol if {side(a), side(b)} == {0, 1} else 0
    def whose(x):
        """the argument whose as_any gave x: 0, 1 or None; 'self' for the trait object itself"""
        x = norm(it, x)
        r, p = root(x)
        if r.k == 'call' and last(r.a[0]) == 'as_any' and r.a[1]: return side(r.a[1][0])
        return None
    def types(t):
        """+1 / -1: true exactly when the concrete types are equal / different"""
        if t.k == 'un' and t.a[0] == 'Not': return -types(norm(it, t.a[1]))
        a = None
        if t.k == 'call' and len(t.a[1]) == 2 and last(t.a[0]) in ('eq', 'ne'): a, b, pol = t.a[1][0], t.a[1][1], -1 if last(t.a[0]) == 'ne' else 1
        elif t.k == 'bin' and t.a[0] in ('Eq', 'Ne'): a, b, pol = t.a[1], t.a[2], 1 if t.a[0] == 'Eq' else -1
        if a is None: return 0
        w = set()
        for x in (a, b):
            for q in subterms(norm(it, x)):
                if q.k == 'call' and last(q.a[0]) == 'type_id' and q.a[1]: w.add(whose(q.a[1][0]))
        return pol if w == {0, 1} else 0
    def absent(t, x):
        """the path knows that one side reports no concrete object"""
        t = norm(it, t)
        return t.k == 'call' and last(t.a[0]) == 'as_any' and x == 'None'
    def partly(t):
        """an (in)equality of parts of the addresses"""
        while t.k == 'un': t = norm(it, t.a[1])
        if t.k != 'bin' or t.a[0] not in ('Eq', 'Ne') or addr(t): return False
        return all(any(q.k == 'bin' and any(side(x) is not None for x in q.a[1:3]) for q in subterms(norm(it, z))) for z in t.a[1:3])
    P = Prod(it, frozenset(), lambda P, s, kind, x, n: shared.note_edge(s, x) if kind == 'edge' else s)
    n = 0
    for nd in exits(it):
        ev = [e for e in it.events[nd] if e.kind == 'return'][0]
        for s, ns in P.ends.get(nd, ()):
            v = norm(it, P.resolve(ev.v[0], ns)); n += 1
            known = [(norm(it, P.resolve(t, ns)), x) for t, x in s if isinstance(t, T)]
            ad = {(addr(t) > 0) == x for t, x in known if isinstance(x, bool) and addr(t)}
            ty = {(types(t) > 0) == x for t, x in known if isinstance(x, bool) and types(t)}
            none = any(absent(t, x) for t, x in known)
            odd = [t for t, x in known if isinstance(x, bool) and not addr(t) and not types(t) and any(q.k == 'call' and last(q.a[0]) not in ('type_id', 'as_any', 'eq', 'ne') or q.k in ('unk', 'phi') for q in subterms(t))]
            cut = [t for t in [v] + [t for t, x in known] if partly(t)]
            if cut: ctx.ob(R, 'MetricEntry::is', False, 'compares only parts of the addresses: %s' % show(cut[0]), sp); continue
            other = [q for t in [v] + odd for q in subterms(t) if q.k == 'call' and (last(q.a[0]) in ('is_enabled', 'value', 'provide') or last(q.a[0]) in ('name', 'description', 'metadata', 'formatted') and 'metriken' in q.a[0])]
            if other: ctx.ob(R, 'MetricEntry::is', False, 'the answer depends on %s' % show(other[0]), sp); continue
            outs = []
            if v.k == 'bool': outs = [(v.a[0], ad, ty)]
            elif addr(v): outs = [(r, ad | {(addr(v) > 0) == r}, ty) for r in (True, False)]
            elif types(v): outs = [(r, ad, ty | {(types(v) > 0) == r}) for r in (True, False)]
            elif v.k == 'bin' and v.a[0] == 'BitAnd' and any(addr(norm(it, q)) > 0 for q in v.a[1:3]):
                o = [q for q in map(lambda q: norm(it, q), v.a[1:3]) if not addr(q)]
                if o and types(o[0]) > 0: outs = [(True, ad | {True}, ty | {True})]
                else: ctx.undecided(R, 'MetricEntry::is', show(v)); continue
            else: ctx.undecided(R, 'MetricEntry::is', show(v)); continue
            for r, ad1, ty1 in outs:
                if odd: ctx.undecided(R, 'MetricEntry::is', 'depends on %s' % show(odd[0])); continue
                if r:
                    ctx.ob(R, 'MetricEntry::is', True in ad1, 'answers true without having found the addresses equal', sp)
                    ctx.ob(R, 'MetricEntry::is', True in ty1 or none or False in ty1, 'answers true without having compared the concrete types: a metric stored first inside another would be taken for it', sp)
                    ctx.ob(R, 'MetricEntry::is', False not in ty1, 'answers true although the concrete types differ', sp)
                else: ctx.ob(R, 'MetricEntry::is', False in ad1 or False in ty1, 'answers false for a metric at the same address and not of another type', sp)
    ctx.floor(R, 'ways out of the identity test', n, 2)

def at_start(ctx, adt, field):
    """whether the field lies at the address of the struct for every choice of its parameters"""
    a = ctx.F.adts.get(adt.split('<')[0])
    if not a or a['kind'] != 'struct': return None
    fs = [f for f in a['vars'][0]['fs'] if not f['ty'].startswith('core::marker::Phantom') and f['ty'] != '()']
    names = [f['n'] for f in fs]
    if field not in names: return None
    if a.get('transparent') or len(fs) == 1: return True
    if a.get('reprc'): return names[0] == field
    return False

def along(ctx, adt, names):
    """whether the field path starts at the address of the struct"""
    ty = adt
    for n in names:
        if re.match(r'^(core::pin::Pin|alloc::boxed::Box|alloc::sync::Arc|&)', ty): return None
        r = at_start(ctx, ty, n)
        if r is not True: return r
        fs = [f for f in ctx.F.adts[ty.split('<')[0]]['vars'][0]['fs'] if f['n'] == n]
        ty = fs[0]['ty']
    return True

def layout(ctx):
    n = 0
    for adt, param, inj in shared.wrappers(ctx):
        a = ctx.F.adts.get(adt)
        if not a or a['kind'] != 'struct': continue
        fs = [f for f in a['vars'][0]['fs'] if f['ty'] == param]
        if not fs: continue          # holds its metric in a cell of its own: the wrapper is the metric
        n += 1
        ok = at_start(ctx, adt, fs[0]['n'])
        ctx.ob('address', adt.split('::')[-1], ok is True, 'the metric inside need not lie at the address of the %s an entry points to, so the entry does not recognise the metric its owner hands out' % adt.split('::')[-1], a.get('span', ''))
    ctx.floor('address', 'wrappers holding their metric', n, 2)

def registered(ctx):
    """what a registration points to starts where the owner's metric starts"""
    D = ctx.adt('metriken_core', 'DynPinnedMetric')
    k = ctx.timpl(D, 'core::ops::deref::Deref', 'deref')
    it = ctx.run(k)
    own = {fields(strip(it, x))[1] for n, v in returns(it) for x in nalts(it, v) if fields(strip(it, x))[0] is A0}
    it = ctx.run(ctx.method(D, 'register'))
    put = set()
    fm = entry_fields(ctx)[0]
    for e in it.all_events('call'):
        if last(e.path) == 'insert' and len(e.v) == 3:
            x = norm(it, e.v[2])
            for q in subterms(it.project(x, ('f', fm)) if hasattr(it, 'project') else x):
                r, f = fields(strip(it, q))
                if r is A0 and f: put.add(f)
    if len(own) != 1 or not put: ctx.undecided('address', 'registered metric', 'owner %s, registered %s' % (own, put)); return
    own = next(iter(own))
    for f in put:
        if own[:len(f)] != f: continue
        ty = shared.deep_type(ctx, D, f)
        if not ty: ctx.undecided('address', 'registered metric', str(f)); continue
        r = along(ctx, ty, own[len(f):])
        if r is None: ctx.undecided('address', 'registered metric', '%s in %s' % (own, ty))
        else: ctx.ob('address', 'registered metric', r, 'the registered address is not that of the metric the owner hands out', '')
