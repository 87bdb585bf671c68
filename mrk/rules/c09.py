"""C09: static and dynamic metadata answer alike."""
from ..frame import rule, Missing
from ..q import *
from ..iterspec import Spec
from ..registry import map_ops
from ..core import STD
from .. import shared
from ..shared import A0, A1, note_edge, eqv
SCOPE = 'core'
TECHNIQUE = 'static analysis: per-representation value-flow analysis of every Metadata query and iterator method over compiler MIR'
EXPLAIN = ("For each representation of Metadata (found as the variants its methods distinguish) every path of every query is checked to answer from that representation's own map: size and emptiness of that map, "
           "membership and lookup of exactly the given key, the looked-up value unchanged; iteration starts at the first of all entries of that map and every overridden iterator method yields each entry once as (key, value), in that "
           "order, with hints, counts and folds over the whole of it. Constructors wrap exactly the map they are given, and entries hand out the metadata their metric provides.")
ASSUME = ["phf::Map and std::HashMap answer consistently (size, lookup and iteration of one map agree)", "default Iterator methods are defined through next"]
R = 'metadata'

def representations(ctx, key):
    """discriminants on self a function distinguishes: [(field path, variant)]"""
    it = ctx.run(key)
    out = []
    for n in it.reach:
        for m, l in it.succ[n]:
            if l and l[0] == 'variant' and l[1].k == 'discr' and root(l[1].a[0])[0] is A0 and all(e[0] == 'f' for e in root(l[1].a[0])[1]):
                for _, v in l[1].a[2]:
                    if (fields(l[1].a[0])[1], v) not in out: out.append((fields(l[1].a[0])[1], v))
    return out or [(None, None)]

def assume(path, v):
    if path is None: return None
    def f(d): return frozenset([v]) if d.k == 'discr' and fields(d.a[0]) == (A0, path) and root(d.a[0])[0] is A0 and all(e[0] == 'f' for e in root(d.a[0])[1]) else None
    return f

def paths(ctx, k, asm):
    it = ctx.run(k, cache=False, **({'assume': asm} if asm else {}))
    P = Prod(it, frozenset(), lambda P, s, kind, x, n: note_edge(s, x) if kind == 'edge' else s)
    for nd in exits(it):
        ev = [e for e in it.events[nd] if e.kind == 'return'][0]
        for s, ns in P.ends.get(nd, ()):
            yield it, dict(s), norm(it, P.resolve(ev.v[0], ns))

def is_map(t, path, v):
    r, p = root(t)
    if r is not A0: return False
    if path is None: return True
    return ('v', v) in p and tuple(e[1] for e in p if e[0] == 'f')[:len(path)] == path

FUZZY = ('eq_ignore_ascii_case', 'starts_with', 'ends_with', 'contains', 'is_empty', 'find', 'rfind', 'to_lowercase', 'to_ascii_lowercase', 'to_uppercase', 'to_ascii_uppercase', 'trim', 'is_char_boundary', 'parse')
def part_of(t):
    """'key', 'value' or None: which part of a walked pair a term is"""
    r, p = root(t)
    if r.k != 'item' or r.a[0].k != 'src': return None
    f = tuple(e[1] for e in p if e[0] == 'f')
    if r.a[0].a[1] in ('values', 'into_values'): return 'value'
    if r.a[0].a[1] in ('keys', 'into_keys'): return 'key'
    return {('0',): 'key', ('1',): 'value'}.get(f)

def by_content(ctx, it, lab, lookup, span):
    """branches on what is in the pairs: a size never depends on it, and a lookup only on whether a key equals the one asked for"""
    for n in it.reach:
        for _, l in it.succ.get(n, ()):
            if not l or l[0] not in ('bool', 'int') or not isinstance(l[1], T): continue
            c = norm(it, l[1])
            ps = {part_of(q) for q in subterms(c) if q.k in ('proj', 'item')} - {None}
            if not ps: continue
            if not lookup or 'value' in ps: ctx.ob(R, lab, False, 'the answer depends on %s' % show(c), span); return
            f = next((q for q in subterms(c) if q.k == 'call' and last(q.a[0]) in FUZZY and is_std(q.a[0]) and any(part_of(a) == 'key' for a in q.a[1])), None)
            if f is not None: ctx.ob(R, lab, False, 'a key is taken for the one asked for where %s' % show(f), span); return

def check_queries(ctx):
    M = ctx.adt('metriken_core', 'Metadata')
    reps = representations(ctx, ctx.method(M, 'len'))
    ctx.floor(R, 'representations of Metadata', len(reps), 1)
    for path, v in reps:
        asm = assume(path, v)
        mp = lambda t: is_map(t, path, v)
        lab = lambda m: 'Metadata::%s%s' % (m, ' (%s)' % v if v else '')
        def is_len(t):
            if any(s.k == 'agg' and s.a[0].startswith('mrk_models::') and last(s.a[0]) not in ('Map', 'Rev', 'Enumerate', 'Cloned', 'Copied', 'Inspect', 'Peekable', 'Fuse') for s in subterms(t)): return False
            if t.k == 'call' and last(t.a[0]) in ('len', 'count') and t.a[1]: return mp(t.a[1][0]) or (t.a[1][0].k == 'src' and mp(t.a[1][0].a[0])) or any(s.k == 'src' and mp(s.a[0]) for s in subterms(t.a[1][0]))
            if t.k == 'proj' and t.a[0].k == 'call' and last(t.a[0].a[0]) == 'size_hint': return any(s.k == 'src' and mp(s.a[0]) for s in subterms(t.a[0]))
            return False
        def opaque(t): return any(x.k in ('unk', 'phi', 'old', 'mut', 'item') or (x.k == 'call' and not x.a[0].startswith(STD)) for x in subterms(t))
        def opaque_paths(it): return any(e.kind in ('next',) for e in it.all_events())
        def m_len():
            k = ctx.method(M, 'len')
            for it, known, r in paths(ctx, k, asm):
                if not is_len(r) and opaque(r): ctx.undecided(R, lab('len'), show(r)); continue
                if r.k == 'int': ok = (r.a[0] == 0 and any(t.k == 'call' and last(t.a[0]) == 'is_empty' and mp(t.a[1][0]) and x is True for t, x in known.items()))
                else: ok = is_len(r)
                ctx.ob(R, lab('len'), ok, 'reports %s instead of the number of pairs' % show(r), ctx.F.bodies[k].get('span', ''))
        rule(ctx, R, lab('len'), m_len)
        def empt(t):
            """+1: t says the map is empty, -1: t says it is not, 0: neither"""
            if t.k == 'un' and t.a[0] == 'Not': return -empt(t.a[1])
            if t.k == 'call' and last(t.a[0]) == 'is_empty' and mp(t.a[1][0]): return 1
            if t.k == 'bin' and is_len(t.a[1]) and t.a[2].k == 'int':
                op, c = t.a[0], t.a[2].a[0]
                return {('Eq', 0): 1, ('Lt', 1): 1, ('Le', 0): 1, ('Ne', 0): -1, ('Gt', 0): -1, ('Ge', 1): -1}.get((op, c), 0)
            if t.k == 'bin' and is_len(t.a[2]) and t.a[1].k == 'int': return {('Eq', 0): 1, ('Ne', 0): -1, ('Gt', 1): 1, ('Ge', 0): 1, ('Lt', 0): -1}.get((t.a[0], t.a[1].a[0]), 0)
            return 0
        def m_empty():
            k = ctx.method(M, 'is_empty')
            for it, known, r in paths(ctx, k, asm):
                if r.k == 'bool':
                    ks = [(empt(t) > 0) == x for t, x in known.items() if isinstance(x, bool) and empt(t)] + [x == 0 for t, x in known.items() if is_len(t) and isinstance(x, int)]
                    if not ks and opaque_paths(it): ctx.undecided(R, lab('is_empty'), 'not followed'); continue
                    ok = r.a[0] in ks
                elif not empt(r) and opaque(r): ctx.undecided(R, lab('is_empty'), show(r)); continue
                else: ok = empt(r) > 0
                ctx.ob(R, lab('is_empty'), ok, 'reports %s as being empty' % show(r), ctx.F.bodies[k].get('span', ''))
        rule(ctx, R, lab('is_empty'), m_empty)
        def is_get(t, names=('get', 'get_key', 'get_entry', 'get_key_value')): return t.k == 'call' and last(t.a[0]) in names and len(t.a[1]) == 2 and mp(t.a[1][0])
        def key_ok(t): return t.a[1][1] is A1
        def member(t):
            """+1: t says the key is there, -1: not, 0: neither; also the key must be the one asked for"""
            if t.k == 'un' and t.a[0] == 'Not': return -member(t.a[1])
            if t.k == 'call' and last(t.a[0]) == 'contains_key' and mp(t.a[1][0]) and key_ok(t): return 1
            if t.k == 'bin' and t.a[0] in ('Eq', 'Ne') and t.a[1].k == 'discr' and is_get(t.a[1].a[0]) and key_ok(t.a[1].a[0]) and t.a[2].k == 'int':
                some = dict(t.a[1].a[2]).get(str(t.a[2].a[0])) == 'Some'
                return 1 if some == (t.a[0] == 'Eq') else -1
            return 0
        def known_member(known):
            out = []
            for t, x in known.items():
                if is_get(t) and key_ok(t) and x in ('Some', 'None'): out.append(x == 'Some')
                elif isinstance(x, bool) and member(t): out.append((member(t) > 0) == x)
            return out
        def m_contains():
            k = ctx.method(M, 'contains_key')
            for it, known, r in paths(ctx, k, asm):
                if r.k == 'bool':
                    km = known_member(known)
                    if not km and opaque_paths(it): ctx.undecided(R, lab('contains_key'), 'not followed'); continue
                    ok = r.a[0] in km
                elif not member(r) and opaque(r): ctx.undecided(R, lab('contains_key'), show(r)); continue
                else: ok = member(r) > 0
                ctx.ob(R, lab('contains_key'), ok, 'answers %s instead of whether the key is there' % show(r), ctx.F.bodies[k].get('span', ''))
        rule(ctx, R, lab('contains_key'), m_contains)
        def value_of(it, x):
            """x is the value a lookup of the given key found"""
            r, p = root(x)
            if not (is_get(r, ('get', 'get_entry', 'get_key_value')) and key_ok(r)): return False
            names = tuple(e[1] for e in p if e[0] == 'f')
            return names == (('0',) if last(r.a[0]) == 'get' else ('0', '1')) and ('v', 'Some') in p
        def m_get():
            k = ctx.method(M, 'get')
            for it, known, r in paths(ctx, k, asm):
                if is_get(r, ('get',)): ok = key_ok(r)
                elif r.k == 'agg' and r.a[1] == 'Some': 
                    x = norm(it, r.a[3][0])
                    ok = value_of(it, x)
                    if not ok and opaque(x): ctx.undecided(R, lab('get'), show(r)); continue
                elif r.k == 'agg' and r.a[1] == 'None':
                    km = known_member(known)
                    if not km and opaque_paths(it): ctx.undecided(R, lab('get'), 'not followed'); continue
                    ok = False in km or any(empt(t) > 0 and x is True for t, x in known.items())
                else:
                    if opaque(r): ctx.undecided(R, lab('get'), show(r)); continue
                    ok = False
                ctx.ob(R, lab('get'), ok, 'answers %s instead of the value of the given key' % show(r), ctx.F.bodies[k].get('span', ''))
        rule(ctx, R, lab('get'), m_get)
        def m_content():
            for m, lookup in (('len', False), ('is_empty', False), ('contains_key', True), ('get', True)):
                k = ctx.method(M, m)
                by_content(ctx, ctx.run(k, cache=False, **({'assume': asm} if asm else {})), lab(m), lookup, ctx.F.bodies[k].get('span', ''))
        rule(ctx, R, lab('queries'), m_content)
        def m_iter(k, name):
            for it, known, r in paths(ctx, k, asm):
                ss = [s for s in subterms(r) if s.k == 'src']
                wrap = [s for s in subterms(r) if s.k == 'agg' and s.a[0].startswith('mrk_models::') and last(s.a[0]) != 'Map']
                adv = shared.advanced(it)
                if adv: ctx.ob(R, lab(name), False, 'takes items out of the iterator before handing it over', adv[0].span); continue
                if not ss: ctx.undecided(R, lab(name), show(r)); continue
                ctx.ob(R, lab(name), len(ss) == 1 and mp(ss[0].a[0]) and ss[0].a[1] in ('iter', 'entries', 'into_iter') and not wrap, 'iterates %s instead of every pair of the map' % show(r), ctx.F.bodies[k].get('span', ''))
        rule(ctx, R, lab('iter'), lambda: m_iter(ctx.method(M, 'iter'), 'iter'))
        ii = ctx.timpl('&' + M, 'core::iter::traits::collect::IntoIterator', 'into_iter', need=False) or ctx.timpl(M, 'core::iter::traits::collect::IntoIterator', 'into_iter', need=False)
        if ii: rule(ctx, R, lab('into_iter'), lambda: m_iter(ii, 'into_iter'))

def constructors(ctx):
    M = ctx.adt('metriken_core', 'Metadata')
    ks = [k for k, b in ctx.F.bodies.items() if b.get('path') == k and b.get('crate') == 'metriken_core' and b.get('kind') in ('Fn', 'AssocFn') and b['argc'] == 1 and b['locals'][0]['ty'].split('<')[0] == M and 'Map<' in b['locals'][1]['ty']]
    for k in ks:
        def one():
            it = ctx.run(k)
            for o in [o for l in map_ops(it, lambda t: fields(t)[0] is A0).values() for o in l]:
                ctx.ob('constructors', k, False, 'changes the map it is given with %s' % short(o.ev.path), o.ev.span)
            for n, v in returns(it):
                for a in nalts(it, v):
                    ok = shared.contains_map(it, a, M, A0)
                    if ok is None: ctx.undecided('constructors', k, show(a))
                    else: ctx.ob('constructors', k, ok, 'builds metadata from %s instead of the map given' % show(a), ctx.F.bodies[k].get('span', ''))
        rule(ctx, 'constructors', k, one)
    ctx.floor('constructors', 'constructors from a map', len(ks), 2)

def iteration(ctx):
    MI = ctx.adt('metriken_core', 'MetadataIter')
    sp = Spec(ctx, 'iteration', MI, 'MetadataIter')
    k = sp.key('next')
    if k is None: raise Missing('MetadataIter::next')
    def item(it, v, w):
        p = lambda n: norm(it, it.project(w, ('f', n)))
        return v.k == 'agg' and len(v.a[3]) == 2 and norm(it, v.a[3][0]) is p('0') and norm(it, v.a[3][1]) is p('1') or v is w
    n = 0
    for path, v in representations(ctx, k):
        n += Spec(ctx, 'iteration', MI, 'MetadataIter' + (' (%s)' % v if v else ''), mapitem=item).all(assume=assume(path, v))
    ctx.floor('iteration', 'overridden iterator methods', n, 2)
    ex = [i for i in ctx.impls('core::iter::traits::exact_size::ExactSizeIterator') if i['self'].split('<')[0] == MI]
    ctx.ob('iteration', 'MetadataIter: ExactSizeIterator', bool(ex), 'the iterator no longer promises an exact length')

def check(ctx):
    rule(ctx, R, 'queries', lambda: check_queries(ctx))
    rule(ctx, 'constructors', 'constructors', lambda: constructors(ctx))
    rule(ctx, 'iteration', 'MetadataIter', lambda: iteration(ctx))
    rule(ctx, 'accessor', 'metadata', lambda: shared.metadata_accessor(ctx, 'accessor'))
    rule(ctx, 'clone', 'Metadata, MetadataIter', lambda: ctx.floor('clone', 'clones', shared.clones(ctx, 'clone', [ctx.adt('metriken_core', 'Metadata'), ctx.adt('metriken_core', 'MetadataIter')]), 1))
