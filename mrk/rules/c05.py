"""C05: typed requests."""
import re
from ..frame import rule, Missing
from ..q import *
from ..registry import entry_points, call_graph
from ..witness import witnesses
SCOPE = 'core'
TECHNIQUE = 'static analysis: path-sensitive tag-check (typestate) analysis of every downcast and slot write over compiler MIR, plus compile-fail witnesses'
EXPLAIN = ("Every pointer cast that turns an erased request into a typed slot, on every path of every user-callable function, is preceded by a successful comparison of the request's own tag with TypeId::of of exactly "
           "the tag type cast to; each slot type's tag_id returns the TypeId of its own tag parameter. On every path of each provide function the slot is written exactly when the tag matched and the slot was empty, with the "
           "given value (or the closure's result), under the same tag type as the corresponding request and would-be-satisfied query; value and reference tags of any types never coincide. Requests start from an empty slot, "
           "run the metric's provide once and return that slot. Witness programs show that lifetimes of provided references cannot be forged.")
ASSUME = ["TypeId values of distinct types differ (guaranteed by core::any)"]

def strip_ptr(t):
    t = t.strip()
    while True:
        m = re.match(r"^(\*const |\*mut |&'\w+ mut |&'\w+ |&mut |&)", t)
        if not m: break
        t = t[m.end():]
    if t.startswith('core::ptr::non_null::NonNull<'): t = t[len('core::ptr::non_null::NonNull<'):-1]
    return t

def setup(ctx):
    R = ctx.adt('metriken_core', 'Request')
    dyn = [f['ty'] for v in ctx.F.adts[R]['vars'] for f in v['fs'] if 'dyn ' in f['ty']]
    if len(dyn) != 1: raise Missing('the erased slot of Request')
    trait = dyn[0].replace('dyn ', '').split(' + ')[0].split('<')[0]
    holders = sorted({i['self'].split('<')[0] for c in ctx.F.crates.values() for i in c['impls'] if (i.get('trait') or '').split('<')[0] == trait})
    if not holders: raise Missing('slot types implementing %s' % trait)
    return R, trait, holders

def casts(b, holders):
    """(block, tag type) of every pointer cast to a slot type"""
    def hit(frm, to):
        p = strip_ptr(to)
        h = p.split('<')[0]
        if h in holders and strip_ptr(frm) != p and p != frm: return p[len(h) + 1:-1] if '<' in p else ''
    for i, bb in enumerate(b['blocks']):
        for s in bb['s']:
            if s.get('r') == 'cast' and (s['ck'].startswith(('PtrToPtr', 'Transmute', 'PointerWithExposed')) or 'Unsize' not in s['ck']):
                if s['to'][:1] in '*&' or 'NonNull' in s['to']:
                    x = hit(s['from'], s['to'])
                    if x is not None: yield i, x
        t = bb['t']
        f = t.get('f', {}).get('k', {}).get('fn') if t['t'] == 'call' else None
        if f and (last(f['path']) in ('cast', 'cast_mut', 'transmute', 'transmute_copy', 'downcast_unchecked', 'cast_const')) and t.get('at'):
            x = hit(t['at'][0], t['dt'])
            if x is not None: yield i, x

def tag_eq(it, term, trait, tys):
    """tag type a boolean term compares the request's own tag with, and polarity"""
    if term.k != 'call' or len(term.a[1]) != 2 or last(term.a[0]) not in ('eq', 'ne'): return None
    a, b = term.a[1]
    for x, y in ((a, b), (b, a)):
        if x.k == 'call' and x.a[0] == trait + '::tag_id' and y.k == 'call' and y.a[0] == 'core::any::TypeId::of':
            r, _ = root(x.a[1][0])
            return tys.get(y.a[2]), (last(term.a[0]) == 'eq'), r
    return None

def analyse(ctx, k, trait, holders):
    it = ctx.run(k)
    tys = {e.site: (e.fn['args'][0], e) for e in it.all_events('call') if e.path == 'core::any::TypeId::of'}
    at = {}
    for n in it.reach:
        fr, bb, ph, _ = it.nodes[n]
        body = it.frames[fr].body
        if ph == 0:
            l = [x for i, x in casts(body, holders) if i == bb]
            if l: at[n] = (l, body)
    return it, tys, at

def generic_arg(ctx, e, it):
    """the tag as written in the uninstantiated function containing event e"""
    b = ctx.F.bodies.get(e.body)
    g = ctx.F.bodies.get(b.get('path')) if b else None
    fr, bb, ph, _ = it.nodes[e.node]
    if g is None or bb >= len(g['blocks']): return None
    f = g['blocks'][bb]['t'].get('f', {}).get('k', {}).get('fn')
    return f['args'][0] if f and f['path'] == 'core::any::TypeId::of' else None

def downcasts(ctx):
    R, trait, holders = setup(ctx)
    g, _ = call_graph(ctx)
    has = {k for k, b in ctx.F.bodies.items() if b.get('crate') == 'metriken_core' and any(True for _ in casts(b, holders))}
    def reaches(k):
        seen, todo = set(), [k]
        while todo:
            x = todo.pop()
            if x in seen: continue
            seen.add(x)
            if x in has: return True
            todo += g.get(x, ())
        return False
    n = 0
    for k, b in entry_points(ctx, ('metriken_core',)):
        if not reaches(k): continue
        def one():
            nonlocal n
            it, tys, at = analyse(ctx, k, trait, holders)
            bad, und = [], []
            def delta(P, s, kind, x, node):
                if kind == 'edge' and x and x[0] == 'bool':
                    te = tag_eq(it, x[1], trait, tys)
                    if te and te[0] and x[2] == te[1]: return s | {te[0]}
                return s
            # events precede edges, casts sit in the statements of a node: check on entry to the node
            P = Prod(it, frozenset(), delta)
            for node, (l, body) in at.items():
                for (_, ns) in P.ends.get(node, ()):
                    s = ns[1]
                    for tag in l:
                        n += 1
                        if any(t == tag for t, _ in s): continue
                        if '{closure' in body['key'] and any(generic_arg(ctx, e, it) == tag for _, e in s): continue
                        if '{closure' in body['key'] and s: und.append(body['key']); continue
                        bad.append((tag, body))
            for tag, body in bad: ctx.ob('checked-downcast', k, False, 'reinterprets a request as a slot for %s without having compared its tag with exactly that type, in %s' % (tag, body['key']), body.get('span', ''))
            for u in set(und): ctx.undecided('checked-downcast', k, 'tag check outside closure %s' % u)
            if not bad and not und: ctx.ob('checked-downcast', k, True)
        rule(ctx, 'checked-downcast', k, one)
    ctx.floor('checked-downcast', 'downcasts on paths from user-callable functions', n, 3)
    # any body with a cast that is no entry point's callee is private dead code
    for h in holders:
        key = [x for x in ctx.F.bodies if x.startswith('<%s as %s' % (h, trait)) and last(x) == 'tag_id']
        if not key: raise Missing('tag_id of %s' % h)
        def tid():
            it = ctx.run(key[0])
            tys = {e.site: e.fn['args'][0] for e in it.all_events('call') if e.path == 'core::any::TypeId::of'}
            selfty = [i['self'] for c in ctx.F.crates.values() for i in c['impls'] if (i.get('trait') or '').split('<')[0] == trait and i['self'].split('<')[0] == h][0]
            param = selfty[len(h) + 1:-1] if '<' in selfty else ''
            for nd, v in returns(it):
                for a in nalts(it, v):
                    ok = a.k == 'call' and a.a[0] == 'core::any::TypeId::of' and tys.get(a.a[2]) == param
                    ctx.ob('own-tag', h, ok, 'tag_id of %s does not return the TypeId of its tag parameter %s' % (h, param), ctx.F.bodies[key[0]].get('span', ''))
        rule(ctx, 'own-tag', h, tid)

def leaves(t, path=()):
    """values written into a content term"""
    if t.k == 'upd':
        for e, v in t.a[1]: yield from leaves(v, path + (e,))
    elif t.k in ('mut', 'mutd'): yield path, t
    elif t.k == 'agg' and t.a[1] and t.a[0] != 'core::option::Option' and len(t.a[3]) == 1: yield from leaves(t.a[3][0], path + (('f', t.a[2][0]),))
    else:
        if t.k not in ('proj', 'deref', 'arg'): yield path, t

def provides(ctx):
    R, trait, holders = setup(ctx)
    tags = {}
    for form in ('value', 'ref'):
        for suffix in ('', '_with'):
            name = 'provide_%s%s' % (form, suffix)
            def one():
                k = ctx.method(R, name)
                it, tys, at = analyse(ctx, k, trait, holders)
                T1 = param(ctx, k)
                def delta(P, s, kind, x, node):
                    tag, slot, calls = s
                    if kind == 'edge' and x and x[0] == 'bool':
                        te = tag_eq(it, x[1], trait, tys)
                        if te and te[0]: return ((te[0][0], x[2] == te[1]), slot, calls)
                    if kind == 'edge' and x and x[0] == 'variant' and x[1].k == 'discr' and 'Option' in x[1].a[1] and root(x[1].a[0])[0] is mk('arg', 0):
                        return (tag, x[2] if isinstance(x[2], str) else slot, calls)
                    if kind == 'edge' and x and x[0] == 'bool' and x[1].k == 'call' and last(x[1].a[0]) in ('is_none', 'is_some') and root(x[1].a[1][0])[0] is mk('arg', 0):
                        return (tag, 'None' if x[2] == (last(x[1].a[0]) == 'is_none') else 'Some', calls)
                    if kind == 'ev' and x.kind == 'call' and x.path == '<indirect>' and x.v and x.v[0] is mk('arg', 1): return (tag, slot, calls + (x.result,))
                    return s
                P = Prod(it, (None, None, ()), delta)
                n = 0
                for nd in exits(it):
                    for (s, ns) in P.ends.get(nd, ()):
                        tag, slot, calls = s
                        n += 1
                        st = it.instate[nd]
                        fin = it.vnf(st, P.resolve(it.load_base(st, ('M', mk('arg', 0))), ns))
                        w = [(p, P.resolve(v, ns)) for p, v in leaves(fin)]
                        match = tag is not None and tag[1]
                        if tag is not None: tags.setdefault(form, {})[name] = subst(tag[0], T1)
                        if len(w) > 1 or any(v.k in ('mut', 'mutd', 'phi') for _, v in w): ctx.undecided('first-wins', name, 'slot content %s' % show(fin)); continue
                        if not w:
                            ok = tag is not None and (not match or slot == 'Some')
                            ctx.ob('first-wins', name, ok, 'a matching, empty request is left unanswered (%s)' % ('no tag comparison' if tag is None else 'slot state: %s' % slot), ctx.F.bodies[k].get('span', ''))
                            continue
                        v = norm(it, w[0][1])
                        ctx.ob('first-wins', name, match and slot == 'None', 'the slot is written %s' % ('although the tag was not found equal' if not match else 'although it may already hold an answer'), ctx.F.bodies[k].get('span', ''))
                        want = calls[-1:] if suffix else (mk('arg', 1),)
                        ok = v.k == 'agg' and v.a[1] == 'Some' and v.a[3][0] in want
                        ctx.ob('first-wins', name + ' value', ok, 'what is stored is not the provided value: %s' % show(v), ctx.F.bodies[k].get('span', ''))
                        if suffix and ok: ctx.ob('first-wins', name + ' closure', len(calls) == 1, 'the closure is run %d times' % len(calls))
                ctx.floor('first-wins', name + ' paths', n, 2)
            rule(ctx, 'first-wins', name, one)
        name = 'would_be_satisfied_by_%s_of' % form
        def would():
            k = ctx.method(R, name)
            it, tys, at = analyse(ctx, k, trait, holders)
            T1 = param(ctx, k)
            def delta(P, s, kind, x, node):
                tag, slot = s
                if kind == 'edge' and x and x[0] == 'bool':
                    te = tag_eq(it, x[1], trait, tys)
                    if te and te[0]: return ((te[0][0], x[2] == te[1]), slot)
                    if x[1].k == 'call' and last(x[1].a[0]) in ('is_none', 'is_some') and root(x[1].a[1][0])[0] is mk('arg', 0): return (tag, 'None' if x[2] == (last(x[1].a[0]) == 'is_none') else 'Some')
                if kind == 'edge' and x and x[0] == 'variant' and x[1].k == 'discr' and 'Option' in x[1].a[1] and root(x[1].a[0])[0] is mk('arg', 0): return (tag, x[2] if isinstance(x[2], str) else slot)
                return s
            P = Prod(it, (None, None), delta)
            n = 0
            for nd in exits(it):
                ev = [e for e in it.events[nd] if e.kind == 'return'][0]
                for (s, ns) in P.ends.get(nd, ()):
                    tag, slot = s
                    n += 1
                    v = P.resolve(ev.v[0], ns)
                    if tag is not None: tags.setdefault(form, {})[name] = subst(tag[0], T1)
                    if v.k == 'bool':
                        exp = tag is not None and tag[1] and slot == 'None'
                        known = tag is not None and (not tag[1] or slot is not None)
                        if v.a[0] and not exp: ctx.ob('would-be', name, False, 'answers true although %s' % ('the tag differs or was not compared' if not (tag and tag[1]) else 'the slot may be taken'), ctx.F.bodies[k].get('span', ''))
                        elif not v.a[0] and not (known and not exp): ctx.ob('would-be', name, False, 'answers false for a request that would accept the answer', ctx.F.bodies[k].get('span', ''))
                        else: ctx.ob('would-be', name, True)
                    else:
                        # the answer is a test of the slot on a matched path
                        neg = False
                        while v.k == 'un' and v.a[0] == 'Not': v = v.a[1]; neg = not neg
                        if v.k == 'bin' and v.a[0] in ('Eq', 'Ne') and tag is not None and tag[1]:
                            d, i = v.a[1:] if v.a[1].k == 'discr' else (v.a[2], v.a[1])
                            if d.k == 'discr' and i.k == 'int' and root(d.a[0])[0] is mk('arg', 0):
                                empty = (dict(d.a[2]).get(str(i.a[0])) == 'None') == (v.a[0] == 'Eq')
                                ctx.ob('would-be', name, empty != neg, 'answers with the opposite of the slot being empty'); continue
                        if v.k == 'call' and last(v.a[0]) in ('is_none', 'is_some') and tag is not None and tag[1]:
                            ctx.ob('would-be', name, (last(v.a[0]) == 'is_none') != neg, 'answers with the opposite of the slot being empty')
                        else: ctx.undecided('would-be', name, 'answer %s' % show(v))
            ctx.floor('would-be', name + ' paths', n, 2)
        rule(ctx, 'would-be', name, would)
    # requests
    E = ctx.adt('metriken_core', 'MetricEntry')
    for form in ('value', 'ref'):
        for owner, k in (('free', ctx.fn('metriken_core', 'request_' + form)), ('entry', ctx.method(E, 'request_' + form))):
            name = 'request_%s (%s)' % (form, owner)
            def req():
                it = ctx.run(k)
                evs = [e for e in it.all_events('call') if e.path == 'metriken_core::Metric::provide']
                T1 = param(ctx, k)
                # the tag type of the slot that is erased
                un = set()
                for n in it.reach:
                    fr, bb, ph, _ = it.nodes[n]
                    for s in it.frames[fr].body['blocks'][bb]['s']:
                        if s.get('r') == 'cast' and 'Unsize' in s['ck'] and strip_ptr(s['from']).split('<')[0] in holders and trait in s['to']:
                            p = strip_ptr(s['from']); un.add(subst(p[p.index('<') + 1:-1], T1))
                if len(un) == 1: tags.setdefault(form, {})[name] = next(iter(un))
                else: ctx.undecided('request', name, 'slot types %s' % sorted(un))
                def delta(P, s, kind, x, node):
                    return s + (x.result,) if kind == 'ev' and x.kind == 'call' and x.path == 'metriken_core::Metric::provide' and len(s) < 3 else s
                P = Prod(it, (), delta)
                for nd in exits(it):
                    for s, ns in P.ends.get(nd, ()):
                        ctx.ob('request', name, len(s) == 1, 'the metric is asked to provide %d times' % len(s), ctx.F.bodies[k].get('span', ''))
                        if len(s) != 1: continue
                        c = s[0]
                        recv, slot = c.a[1][0], c.a[1][1]
                        ok = fields(recv) in ((mk('arg', 0), ()), (mk('arg', 0), (entry_ptr(ctx),)))
                        ctx.ob('request', name + ' receiver', ok, 'asks %s instead of the given metric' % show(recv))
                        none = any(x.k == 'agg' and x.a[0] == 'core::option::Option' and x.a[1] == 'None' for x in subterms(slot)) and not any(x.k == 'agg' and x.a[1] == 'Some' for x in subterms(slot))
                        ctx.ob('request', name + ' starts empty', none, 'the request does not start from an empty slot: %s' % show(slot))
                        v = norm(it, P.resolve([e for e in it.events[nd] if e.kind == 'return'][0].v[0], ns))
                        r, _ = root(v)
                        ok = r.k == 'mut' and r.a[0] == c.a[2]
                        if ok: ctx.ob('request', name + ' result', True)
                        elif r.k in ('call', 'phi', 'unk'): ctx.undecided('request', name + ' result', show(v))
                        else: ctx.ob('request', name + ' result', False, 'does not return the answer left in the slot: %s' % show(v), ctx.F.bodies[k].get('span', ''))
            rule(ctx, 'request', name, req)
    for form in ('value', 'ref'):
        d = tags.get(form, {})
        ctx.ob('one-tag', form, len(set(d.values())) == 1, 'the %s form is asked for and provided under different tags: %s' % (form, d))
        ctx.floor('one-tag', form + ' operations', len(d), 5)
        for t in set(d.values()):
            ctx.ob('one-tag', form + ' injective', 'T' in re.findall(r'\w+', t) and ' as ' not in t, 'the tag %s does not identify the type' % t)
    a, b = [next(iter(tags.get(f, {}).values()), '') for f in ('value', 'ref')]
    ctx.ob('one-tag', 'value vs ref', not unify(parse(a), parse(b.replace('T', 'U') if False else re.sub(r'\bT\b', 'U', b))), 'a value and a reference of some types share the tag (%s, %s)' % (a, b))

def entry_ptr(ctx):
    from ..registry import entry_fields
    return entry_fields(ctx)[0]

def param(ctx, k):
    """the function's requested-type parameter: the first generic of TypeId/slot types, conventionally one upper-case name"""
    b = ctx.F.bodies[k]
    return (b.get('generics') or ['T'])[0] if b.get('generics') else 'T'
def subst(t, p): return re.sub(r'\b%s\b' % re.escape(p), 'T', t)

def parse(t):
    t = t.strip()
    m = re.match(r"^(&'?\w* ?mut |&'\w+ |&)", t)
    if m: return ('&', [parse(t[m.end():])])
    if '<' not in t: return (t, [])
    h = t[:t.index('<')]; inner = t[t.index('<') + 1:t.rindex('>')]
    args, d, cur = [], 0, ''
    for c in inner:
        if c in '<([': d += 1
        if c in '>)]': d -= 1
        if c == ',' and d == 0: args.append(cur); cur = ''
        else: cur += c
    if cur: args.append(cur)
    return (h, [parse(x) for x in args])
def unify(a, b):
    if a[0] in ('T', 'U') or b[0] in ('T', 'U'): return True
    return a[0] == b[0] and len(a[1]) == len(b[1]) and all(unify(x, y) for x, y in zip(a[1], b[1]))

PRE = '#![allow(unused)]\nuse metriken_core::*;\n'
W = [
 ('provided reference must live as long as the metric', PRE, "pub fn f<'a>(r: &mut Request<'a>, s: &'a String) { r.provide_ref::<String>(s); }", "pub fn f<'a>(r: &mut Request<'a>) { let s = String::new(); r.provide_ref::<String>(&s); }", 'provides a reference that dangles'),
 ('closure reference must live as long as the metric', PRE, "pub fn f<'a>(r: &mut Request<'a>, s: &'a String) { r.provide_ref_with::<String>(|| s); }", "pub fn f<'a>(r: &mut Request<'a>) { let s = String::new(); r.provide_ref_with::<String>(|| &s); }", 'provides a reference that dangles'),
 ('provided values are static', PRE, "pub fn f<'a>(r: &mut Request<'a>, s: &'static str) { r.provide_value::<&'static str>(s); }", "pub fn f<'a>(r: &mut Request<'a>, s: &'a str) { r.provide_value::<&'a str>(s); }", 'provides a borrowed value under a type that forgets its lifetime'),
 ('requested values are static', PRE, "pub fn f(m: &dyn Metric) -> Option<&'static str> { request_value::<&'static str>(m) }", "pub fn f<'a>(m: &'a dyn Metric) -> Option<&'a str> { request_value::<&'a str>(m) }", 'requests a value of a borrowed type'),
 ('requests are invariant in their lifetime', PRE, "pub fn f<'a>(r: &'a mut Request<'static>) -> &'a mut Request<'static> { r }", "pub fn f<'a>(r: &'a mut Request<'static>) -> &'a mut Request<'a> { r }", 'shortens the lifetime a request is answered for'),
 ('requests are invariant in their lifetime (longer)', PRE, "pub fn f<'a>(r: &'a mut Request<'a>) -> &'a mut Request<'a> { r }", "pub fn f<'a>(r: &'a mut Request<'a>) -> &'a mut Request<'static> { r }", 'extends the lifetime a request is answered for'),
 ('requests cannot be made by users', PRE, "pub fn f(r: &mut Request<'_>) { r.provide_value(1u8); }", "pub fn f<'a>(r: &mut Request<'a>) { let _ = &mut r.0; }", 'reaches the erased slot directly'),
]

def check(ctx):
    rule(ctx, 'checked-downcast', 'downcasts', lambda: downcasts(ctx))
    rule(ctx, 'first-wins', 'provide functions', lambda: provides(ctx))
    rule(ctx, 'witness', 'compile-fail', lambda: witnesses(ctx, 'witness', W))
