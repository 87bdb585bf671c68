"""C07: what the builder is given reaches the registered entry."""
import re
from ..frame import rule, Missing
from ..q import *
from ..registry import *
from .. import shared
from ..shared import A0, A1, METRIC, note_edge, eqv
SCOPE = 'core'
TECHNIQUE = 'static analysis: path-sensitive value-flow analysis of every builder method over compiler MIR'
EXPLAIN = ("On every path of every builder method the builder that comes back differs from the one given by exactly the requested change: the name or description given, one replacing insertion of the given key and value, "
           "one insertion of the provided value under the tag that requests for a reference to its type carry. The finished metric owns exactly that data with the metadata map as its Metadata, the entry exactly that name and "
           "description; build makes one registration, of the very metric it returns, and the pinned and entry forms make none. The registered entry's formatter, metadata and request accessors are the shared rules of C06.")
ASSUME = ["Into<String>/Into<Cow<str>> conversions keep the text (std)", "HashMap::insert replaces the value of exactly that key"]
A2 = mk('arg', 2)

def bfields(ctx):
    B = ctx.adt('metriken_core', 'MetricBuilder')
    out = {}
    for f in ctx.F.adts[B]['vars'][0]['fs']:
        ty = f['ty']
        if 'Map<core::any::TypeId' in ty or shared.has_provider_map(ctx, ty.split('<')[0]): out.setdefault('provider', f['n'])
        elif 'Map<' in ty and ty.count('String') >= 2: out.setdefault('metadata', f['n'])
        elif ty.startswith('core::option::Option') and ('str' in ty or 'String' in ty): out.setdefault('desc', f['n'])
        elif 'Cow<str>' in ty or ty == 'alloc::string::String': out.setdefault('name', f['n'])
    if len(out) != 4: raise Missing('fields of MetricBuilder (%s found)' % sorted(out))
    return B, out

def ref_tag(ctx):
    """tag type of a request for a reference, with its parameter"""
    k = ctx.method(ctx.adt('metriken_core', 'Request'), 'provide_ref')
    it = ctx.run(k)
    tags = {e.fn['args'][0] for e in it.all_events('call') if e.path == 'core::any::TypeId::of'}
    ty = ctx.F.bodies[k]['locals'][2]['ty']
    m = re.match(r"^&('\w+ )?(\w+)$", ty)
    if len(tags) != 1 or not m: return None
    return lambda t: re.sub(r'\b%s\b' % m.group(2), lambda _: t, tags.copy().pop())

def same_field(it, P, ns, v, f, known):
    x = norm(it, P.resolve(it.project(v, ('f', f)), ns))
    t = it.project(A0, ('f', f))
    return x is t or eqv(it, x, t, known), x

def walk(ctx, it, recv=None):
    """(known facts, map operations, returned value, path state) of every returning path"""
    O = map_ops(it, recv) if recv else {}
    def delta(P, s, kind, x, n):
        known, seq = s
        if kind == 'edge': return (note_edge(known, x), seq)
        for o in O.get(n, ()):
            if o.ev is x:
                return (known, seq + (o,)) if len(seq) < 4 else (known, seq)
        return s
    P = Prod(it, (frozenset(), ()), delta)
    for nd in exits(it):
        ev = [e for e in it.events[nd] if e.kind == 'return'][0]
        for (known, seq), ns in P.ends.get(nd, ()):
            yield dict((a, b) for a, b in known), seq, P.resolve(ev.v[0], ns), P, ns

def on_field(f, deep=True):
    def p(t):
        r, names = fields(t)
        while r.k == 'call' and r.a[1] and not names[:1] == (f,): r, names = fields(r.a[1][0])
        return (r is A0 and names[:1] == (f,))
    return p

def keyterm(o): return o.key[1] if o.key[0] == 'term' else o.key[0].v[o.key[1]]

def setters(ctx):
    R = 'builder'
    B, F = bfields(ctx)
    tag = ref_tag(ctx)
    def new():
        k = ctx.method(B, 'new'); it = ctx.run(k); n = 0
        sp = ctx.F.bodies[k].get('span', '')
        for known, seq, v, P, ns in walk(ctx, it):
            n += 1
            g = lambda f: norm(it, P.resolve(it.project(v, ('f', F[f])), ns))
            ctx.ob(R, 'new name', g('name') is A0, 'the builder is named %s' % show(g('name')), sp)
            d = g('desc'); ctx.ob(R, 'new description', d.k == 'agg' and d.a[1] == 'None', 'a new builder is described as %s' % show(d), sp)
            for f in ('metadata', 'provider'):
                x = g(f)
                while x.k == 'agg' and len(x.a[3]) == 1: x = x.a[3][0]
                ok = x.k == 'call' and last(x.a[0]) in ('new', 'default', 'with_capacity', 'with_hasher', 'with_capacity_and_hasher')
                touched = [e for e in it.all_events('call') if e.v and any(s is x for s in subterms(e.v[0])) and last(e.path) in INSERT]
                if not ok: ctx.undecided(R, 'new ' + f, show(x)); continue
                ctx.ob(R, 'new ' + f, not touched, 'a new builder already has %s' % f, sp)
        ctx.floor(R, 'new', n, 1)
    rule(ctx, R, 'new', new)
    def desc():
        k = ctx.method(B, 'description'); it = ctx.run(k); n = 0
        sp = ctx.F.bodies[k].get('span', '')
        for known, seq, v, P, ns in walk(ctx, it):
            n += 1
            x = norm(it, P.resolve(it.project(v, ('f', F['desc'])), ns))
            ctx.ob(R, 'description', x.k == 'agg' and x.a[1] == 'Some' and norm(it, x.a[3][0]) is A1, 'the description becomes %s' % show(x), sp)
            unchanged(it, P, ns, v, ('name', 'metadata', 'provider'), 'description', known, sp)
        ctx.floor(R, 'description', n, 1)
        others(it, (), 'description', sp)
    def unchanged(it, P, ns, v, fs, inst, known, sp):
        for f in fs:
            ok, x = same_field(it, P, ns, v, F[f], known)
            ctx.ob(R, '%s keeps %s' % (inst, f), ok, '%s changes the %s to %s' % (inst, f, show(x)), sp)
    def others(it, allowed, inst, sp):
        for f in ('metadata', 'provider'):
            if f in allowed: continue
            o = [o for l in map_ops(it, on_field(F[f])).values() for o in l]
            ctx.ob(R, '%s leaves %s alone' % (inst, f), not o, '%s performs %s on the %s' % (inst, o and short(o[0].ev.path), f), o[0].ev.span if o else sp)
    rule(ctx, R, 'description', desc)
    def inserts(m, fld, want):
        k = ctx.method(B, m); it = ctx.run(k); n = 0
        sp = ctx.F.bodies[k].get('span', '')
        tys = {e.site: e.fn['args'][0] for e in it.all_events('call') if e.path == 'core::any::TypeId::of'}
        for known, seq, v, P, ns in walk(ctx, it, on_field(F[fld])):
            n += 1
            if any(o.kind == 'other' for o in seq): ctx.undecided(R, m, 'uses %s' % [o.ev.path for o in seq]); continue
            ins = [o for o in seq if o.kind == 'insert']
            rest = [o for o in seq if o.kind != 'insert' and not (o.kind == 'remove' and o.how == 'key')]
            ctx.ob(R, m, len(ins) == 1 and not rest, 'a path makes %d insertions%s' % (len(ins), ' and %s' % short(rest[0].ev.path) if rest else ''), sp)
            for o in ins:
                late = it.returns[ns[0]].env.get(('M', o.ev.result))
                if late is not None and o.how == 'keep': o = Op('insert', 'insert', o.ev, o.key, late)
                if o.how == 'keep': ctx.ob(R, m + ' replaces', False, 'an earlier value for the key is kept (%s)' % short(o.ev.path), o.ev.span); continue
                if o.how == 'other' or o.val is None: ctx.undecided(R, m, 'inserts with %s' % o.ev.path); continue
                ctx.ob(R, m + ' replaces', o.how == 'insert', 'an earlier value for the key is kept', o.ev.span)
                want(it, P, ns, o, tys)
            unchanged(it, P, ns, v, ('name', 'desc', 'metadata', 'provider'), m, known, sp)
        ctx.floor(R, m, n, 1)
        others(it, (fld,), m, sp)
    def want_md(it, P, ns, o, tys):
        kk, vv = norm(it, P.resolve(keyterm(o), ns)), norm(it, P.resolve(o.val, ns))
        ctx.ob(R, 'metadata key', kk is A1, 'the key stored is %s' % show(kk), o.ev.span)
        ctx.ob(R, 'metadata value', vv is A2, 'the value stored is %s' % show(vv), o.ev.span)
    rule(ctx, R, 'metadata', lambda: inserts('metadata', 'metadata', want_md))
    def tag_ok(it, o, tys, ty, inst):
        kk = keyterm(o)
        t = tys.get(kk.a[2]) if kk.k == 'call' and kk.a[0] == 'core::any::TypeId::of' else None
        if t is None or tag is None: ctx.undecided(R, inst + ' tag', show(kk)); return
        ctx.ob(R, inst + ' tag', t == tag(ty), 'is stored under %s but a request for a reference carries %s' % (short_ty(t), short_ty(tag(ty))), o.ev.span)
    def content(it, t):
        t = norm(it, t)
        while t.k in ('ref', 'cast'): t = t.a[-1] if t.k == 'cast' else norm(it, t)
        return t
    def want_prov(it, P, ns, o, tys):
        vv = content(it, P.resolve(o.val, ns))
        ctx.ob(R, 'provide value', vv is A1, 'the value stored is %s' % show(vv), o.ev.span)
        tag_ok(it, o, tys, ctx.F.bodies[ctx.method(B, 'provide')]['locals'][2]['ty'], 'provide')
    rule(ctx, R, 'provide', lambda: inserts('provide', 'provider', want_prov))
    FF = ctx.adt('metriken_core', 'FormattingFn')
    def want_fmt(it, P, ns, o, tys):
        vv = content(it, P.resolve(o.val, ns))
        ctx.ob(R, 'formatter value', vv.k == 'agg' and vv.a[0] == FF and len(vv.a[3]) == 1 and norm(it, vv.a[3][0]) is A1, 'the formatter stored is %s' % show(vv), o.ev.span)
        tag_ok(it, o, tys, FF, 'formatter')
    rule(ctx, R, 'formatter', lambda: inserts('formatter', 'provider', want_fmt))
    def finish(m, want_ret, regs_n):
        MD = ctx.adt('metriken_core', 'Metadata')
        k = ctx.method(B, m); it = ctx.run(k); n = 0
        sp = ctx.F.bodies[k].get('span', '')
        tys = {e.site: e.fn['args'][0] for e in it.all_events('call') if e.path == 'core::any::TypeId::of'}
        regs = registry_statics(ctx)
        pf = on_field(F['provider'])
        recv = lambda t: pf(t) or lock_root(it, t, regs) is not None
        for known, seq, v, P, ns in walk(ctx, it, recv):
            n += 1
            prov = [o for o in seq if pf(o.ev.v[0])]
            reg = [o for o in seq if not pf(o.ev.v[0])]
            if any(o.kind == 'other' for o in prov): ctx.undecided(R, m, 'uses %s' % [o.ev.path for o in prov]); continue
            if m != 'into_entry' or prov:
                ins = [o for o in prov if o.kind == 'insert']
                bad = [o for o in prov if o.kind != 'insert']
                empty_md = any(x.k == 'call' and last(x.a[0]) == 'is_empty' and val is True and on_field(F['metadata'])(x.a[1][0]) for x, val in known.items() if isinstance(x, T))
                ctx.ob(R, m + ' metadata', not bad and (len(ins) == 1 or (not ins and empty_md)), 'the metadata is added %d times%s' % (len(ins), ', and data is removed' if bad else ''), sp)
                for o in ins:
                    if o.how == 'keep': ctx.ob(R, m + ' metadata replaces', False, 'metadata provided earlier is kept instead', o.ev.span); continue
                    if o.val is None: ctx.undecided(R, m, o.ev.path); continue
                    vv = content(it, P.resolve(o.val, ns))
                    own = shared.contains_map(it, vv, MD, it.project(A0, ('f', F['metadata'])))
                    if own is None: ctx.undecided(R, m + ' metadata value', show(vv))
                    else: ctx.ob(R, m + ' metadata value', own, 'the metadata stored is %s' % show(vv), o.ev.span)
                    tag_ok(it, o, tys, MD, m + ' metadata')
            if any(o.kind == 'other' for o in reg): ctx.undecided(R, m, 'registry: %s' % [o.ev.path for o in reg]); continue
            while len(reg) > 1 and reg[0].kind == 'remove' and reg[0].how == 'key' and reg[1].kind == 'insert': reg = reg[1:]     # replaces its own entry
            ins = [o for o in reg if o.kind == 'insert']
            if not reg and regs_n and any(k[0] == 'M' and lock_root(it, k[1], regs) is not None for k in it.instate[ns[0]].env): ctx.undecided(R, m + ' registrations', 'entry replaced in place'); continue
            ctx.ob(R, m + ' registrations', len(ins) == regs_n and len(reg) == len(ins), '%s makes %d registration(s)%s' % (m, len(ins), ' and %s' % short(reg[-1].ev.path) if len(reg) != len(ins) else ''), sp)
            want_ret(it, P, ns, v, known, ins, sp)
        ctx.floor(R, m, n, 1)
        o = [o for l in map_ops(it, on_field(F['metadata'])).values() for o in l]
        ctx.ob(R, m + ' keeps metadata', not o, '%s performs %s on the metadata' % (m, o and short(o[0].ev.path)), sp)
    fm, fn, fd = entry_fields(ctx)
    E = ctx.adt('metriken_core', 'MetricEntry')
    DP = ctx.adt('metriken_core', 'DynPinnedMetric')
    def entry(it, P, ns, e, known, m, sp):
        for f, src, lab in ((fn, 'name', 'name'), (fd, 'desc', 'description')):
            x = norm(it, P.resolve(it.project(e, ('f', f)), ns)); t = it.project(A0, ('f', F[src]))
            if e.k not in ('agg', 'upd', 'proj', 'arg'): ctx.undecided(R, m + ' ' + lab, show(e)); continue
            ctx.ob(R, m + ' ' + lab, x is t or eqv(it, x, t, known), 'the entry\'s %s is %s instead of the one given' % (lab, show(x)), sp)
    def owned(it, P, ns, pinned, known, m, sp):
        """the pinned metric owns the given metric and the builder's provided data"""
        leaves = []
        def go(t, d=0):
            t = norm(it, P.resolve(t, ns))
            if t.k == 'agg' and t.a[3] and d < 5:
                for x in t.a[3]: go(x, d + 1)
            else: leaves.append(t)
        go(pinned)
        if not (pinned.k == 'agg'): ctx.undecided(R, m + ' metric', show(pinned)); return
        ctx.ob(R, m + ' metric', leaves.count(A1) == 1, 'the metric built does not hold the given metric (it holds %s)' % ', '.join(map(show, leaves)), sp)
        t = it.project(A0, ('f', F['provider']))
        ctx.ob(R, m + ' data', any(x is t or fields(x)[0] is A0 and fields(x)[1][:1] == (F['provider'],) for x in leaves), 'the metric built does not hold the builder\'s provided data (it holds %s)' % ', '.join(map(show, leaves)), sp)
    def pinned_ret(it, P, ns, v, known, ins, sp):
        if not (v.k == 'agg' and len(v.a[3]) == 2): ctx.undecided(R, 'build_pinned', show(v)); return
        owned(it, P, ns, P.resolve(v.a[3][0], ns), known, 'build_pinned', sp)
        entry(it, P, ns, P.resolve(v.a[3][1], ns), known, 'build_pinned', sp)
    def entry_ret(it, P, ns, v, known, ins, sp): entry(it, P, ns, v, known, 'into_entry', sp)
    def build_ret(it, P, ns, v, known, ins, sp):
        for o in ins:
            if o.val is None: ctx.undecided(R, 'build', 'registered value not followed'); continue
            e = P.resolve(o.val, ns)
            entry(it, P, ns, e, known, 'build', sp)
            p = norm(it, P.resolve(it.project(e, ('f', fm)), ns))
            while p.k == 'ref': p = norm(it, p)
            inner = [s for s in subterms(v) if s.k == 'agg' and s.a[0] == DP]
            same = any(s is p for s in subterms(v))
            if p.k == 'agg': ctx.ob(R, 'build registers what it returns', same, 'registers %s but returns %s' % (show(p), show(v)), sp)
            else: ctx.undecided(R, 'build registers what it returns', show(p))
            for d in inner[:1]: owned(it, P, ns, d, known, 'build', sp)
    rule(ctx, R, 'build_pinned', lambda: finish('build_pinned', pinned_ret, 0))
    rule(ctx, R, 'build', lambda: finish('build', build_ret, 1))
    rule(ctx, R, 'into_entry', lambda: finish('into_entry', entry_ret, 0))

def short_ty(t): return re.sub(r'[\w:]+::', '', t)

def provided(ctx):
    """stored data provides a reference to itself"""
    R = 'provides'
    RQ = ctx.adt('metriken_core', 'Request')
    pr = ctx.method(RQ, 'provide_ref')
    traits = set()
    for a, x in ctx.F.adts.items():
        for v in x['vars'] if 'span' in x and x.get('crate') == 'metriken_core' else ():
            for f in v['fs']:
                m = re.search(r'Map<core::any::TypeId,\s*\S*?dyn ([\w:]+)', f['ty'])
                if m: traits.add(m.group(1))
    n = 0
    for k, b in ctx.F.bodies.items():
        m = re.match(r'^<(.+) as ([\w:]+)>::(\w+)$', k)
        if not m or m.group(2) not in traits or b.get('path') != k: continue
        def one():
            it = ctx.run(k, opaque=lambda b: b.get('path') == pr, cache=False)
            if not any(l['ty'].find('Request') >= 0 for l in b['locals'][1:1 + b['argc']]): return
            def delta(P, s, kind, x, nd):
                if kind == 'ev' and x.kind == 'call' and x.path == pr: return s + (x,) if len(s) < 3 else s
                return s
            P = Prod(it, (), delta)
            for nd in exits(it):
                for seq, ns in P.ends.get(nd, ()):
                    if not seq and any(e.kind == 'call' and 'tag' in e.path for e in it.all_events()): ctx.undecided(R, k, 'does not call provide_ref'); continue
                    ctx.ob(R, k, len(seq) >= 1 and all(norm(it, e.v[1]) is A0 and e.fn['args'][-1] == m.group(1) for e in seq), 'stored data of type %s does not provide a reference to itself on every path' % m.group(1), b.get('span', ''))
        rule(ctx, R, k, one); n += 1
    if traits: ctx.floor(R, 'implementations of the stored-data trait', n, 1)

def check(ctx):
    rule(ctx, 'builder', 'setters', lambda: setters(ctx))
    rule(ctx, 'provides', 'stored data', lambda: provided(ctx))
    rule(ctx, 'forwards', 'wrappers', lambda: shared.forwarding(ctx))
    rule(ctx, 'accessors', 'accessors', lambda: shared.accessors(ctx))
    rule(ctx, 'formatter', 'formatted', lambda: shared.formatted(ctx))
    rule(ctx, 'metadata', 'metadata', lambda: shared.metadata_accessor(ctx))
