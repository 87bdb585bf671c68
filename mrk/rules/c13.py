"""C13: histogram metrics."""
from ..frame import rule, Missing
from ..q import *
from ..once import *
from ..registry import lock_call
from .. import shared
from ..shared import A0, A1, note_edge, eqv, METRIC
SCOPE = 'core'
TECHNIQUE = 'static analysis: path-sensitive value-flow, lock-state and effect analysis of the histogram metrics over compiler MIR'
EXPLAIN = ("For both histogram metrics: construction keeps exactly the configuration made from the given parameters in their order and returns nothing when they are invalid; the data cell starts empty and is only ever filled by get_or_init with an "
           "empty histogram of that configuration; reading (load, config, the Metric impl) reaches no operation that initialises, resets or writes; load reports nothing exactly while the cell is empty and otherwise the whole of its content. Every path of "
           "a recording method performs exactly one recording of exactly the given value into that content and returns its outcome, or returns an error having recorded nothing. A bulk update copies the whole input over the whole bucket "
           "array under one write lock, only where the input's length was found equal to the number of buckets, and has touched nothing on every path that returns an error.")
ASSUME = ["the histogram crate's increment, load and copying operations behave as documented (bucket arithmetic is property C23, not applicable)"]
R = 'histogram'
H = 'histogram::'
READ_OPS = {'load', 'clone', 'config', 'as_slice', 'len', 'is_empty', 'grouping_power', 'max_value_power', 'total_buckets', 'iter', 'into_iter', 'deref', 'read', 'drop', 'fmt', 'get', 'into', 'from'}

def hist_types(ctx):
    out = []
    for name in ('AtomicHistogram', 'RwLockHistogram'): out.append((ctx.adt('metriken', name), name))
    return out

def cfg_field(ctx, adt): 
    c = [f['n'] for v in ctx.F.adts[adt]['vars'] for f in v['fs'] if f['ty'].split('<')[0].endswith('::Config')]
    if not c: raise Missing('configuration of ' + adt)
    return c[0]

def paths(ctx, it, delta, init):
    P = Prod(it, (frozenset(), init), delta)
    for nd in exits(it):
        ev = [e for e in it.events[nd] if e.kind == 'return'][0]
        for (known, s), ns in P.ends.get(nd, ()):
            yield dict(known), s, norm(it, P.resolve(ev.v[0], ns)), P, ns

def check_type(ctx, adt, name):
    cells = cell_field(ctx, adt)
    if not cells: ctx.undecided(R, name, 'does not keep its data in a once cell'); return
    cf, kf = cells[0][0], cfg_field(ctx, adt)
    own = lambda it, t: fields(norm(it, t)) == (A0, (cf,))
    def content(it, t, d=0):
        """t is reached through this histogram's cell: 'init', 'get' or None"""
        for s in subterms(t):
            if s.k == 'call' and cell_op(s.a[0]) and s.a[1] and own(it, s.a[1][0]):
                return 'init' if cell_op(s.a[0]) == 'init' else 'get'
        for s in subterms(t):
            if s.k == 'phi' and d < 3:
                cs = [content(it, x, d + 1) for x in it.phi_inputs(s)]
                if cs and all(cs): return 'init' if 'init' in cs else 'get'
        return None
    opaque = lambda v: v.k in ('unk', 'phi', 'old', 'mut', 'item')
    sp = lambda k: ctx.F.bodies[k].get('span', '')
    # construction
    def new():
        k = ctx.method(adt, 'new'); it = ctx.run(k); n = 0
        for known, s, v, P, ns in paths(ctx, it, lambda P, s, kind, x, nd: (note_edge(s[0], x), s[1]) if kind == 'edge' else s, None):
            n += 1
            if v.k != 'agg': ctx.unsure(R, name + '::new', it, v); continue
            c = norm(it, P.resolve(it.project(v, ('f', kf)), ns)); r, p = root(c)
            good = r.k == 'call' and r.a[0].endswith('Config::new')
            if not good and opaque(r): ctx.unsure(R, name + '::new', it, c); continue
            ctx.ob(R, name + '::new configuration', good and tuple(norm(it, x) for x in r.a[1]) == (A0, A1), 'keeps the configuration %s instead of the one given' % show(c), sp(k))
            if good: ctx.ob(R, name + '::new rejects', known.get(r) != 'Err' and (('v', 'Ok') in p or known.get(r) == 'Ok' or last(c.a[0] if c.k == 'call' else '') in ('unwrap', 'expect')), 'accepts an invalid configuration', sp(k))
            d = norm(it, P.resolve(it.project(v, ('f', cf)), ns))
            ctx.ob(R, name + '::new starts empty', d.k == 'call' and last(d.a[0]) in ('new', 'default') and not d.a[1], 'starts out holding %s' % show(d), sp(k))
        ctx.floor(R, name + '::new paths', n, 1)
    rule(ctx, R, name + '::new', new)
    def config():
        k = ctx.method(adt, 'config'); it = ctx.run(k)
        for n, v in returns(it):
            for a in nalts(it, v):
                if opaque(a): ctx.unsure(R, name + '::config', it, a); continue
                ctx.ob(R, name + '::config', fields(a) == (A0, (kf,)), 'reports %s' % show(a), sp(k))
    rule(ctx, R, name + '::config', config)
    # every initialisation of the cell, wherever it is
    ks = sorted(k for k, b in ctx.F.bodies.items() if b.get('path') == k and b.get('crate') == 'metriken' and b.get('kind') in ('Fn', 'AssocFn') and (k.startswith(adt + '::') or k.startswith('<%s as ' % adt) or k.startswith('<&%s as ' % adt)))
    reading, recording = [], []
    for k in ks:
        b = ctx.F.bodies[k]
        m = last(k)
        if m == 'new' and not k.startswith('<'): continue
        if not (b.get('exported') or k.startswith('<')): continue
        (recording if m not in ('load', 'config') and not k.startswith('<') and 'Result<' in b['locals'][0]['ty'] else reading).append(k)
    def init_ok(it, e, inst):
        if last(e.path) not in ('get_or_init', 'get_mut_or_init', 'set', 'try_insert'): ctx.ob(R, inst + ' initialisation', False, 'the data is put in place by %s' % short(e.path), e.span); return
        rs = callback_result(ctx, it, e) if last(e.path) not in ('set', 'try_insert') else [(it, e.v[1])]
        if rs is None: ctx.unsure(R, inst + ' initialisation', it, e.v[1]); return
        for it2, v in rs:
            for a in nalts(it2, v):
                h = a
                while h.k == 'call' and last(h.a[0]) == 'new' and len(h.a[1]) == 1: h = norm(it2, h.a[1][0])
                if not (h.k == 'call' and h.a[0].startswith(H)):
                    (ctx.unsure(R, inst + ' initialisation', it2, a) if opaque(h) else ctx.ob(R, inst + ' initialisation', False, 'starts from %s' % show(a), e.span)); continue
                if last(h.a[0]) == 'with_config': ok = fields(h.a[1][0]) == (A0, (kf,))
                else:
                    if last(h.a[0]) in ('new', 'unwrap', 'expect'): ctx.unsure(R, inst + ' initialisation', it2, a); continue
                    ok = False
                ctx.ob(R, inst + ' initialisation', ok, 'the data starts as %s, not as an empty histogram of the declared configuration' % show(a), e.span)
    # reading
    for k in reading:
        inst = '%s::%s' % (name, last(k))
        def one():
            it = ctx.run(k)
            for e in it.all_events('call'):
                if not e.v: continue
                if cell_op(e.path) in ('init', 'clear') and own(it, e.v[0]): ctx.ob(R, inst + ' only reads', False, '%s %s the data' % (inst, 'initialises' if cell_op(e.path) == 'init' else 'removes'), e.span)
                elif content(it, e.v[0]) and (e.path.startswith(H) and last(e.path) not in READ_OPS or (lock_call(e.path) or ('', 0))[0] == 'w' or (e.at and e.at[0].startswith('&mut ') and last(e.path) not in ('drop', 'deref_mut', 'next'))):
                    ctx.ob(R, inst + ' only reads', False, '%s calls %s on the data' % (inst, short(e.path)), e.span)
            ctx.ob(R, inst + ' only reads', True)
        rule(ctx, R, inst, one)
    def load():
        k = ctx.method(adt, 'load'); it = ctx.run(k); n = 0
        for known, s, v, P, ns in paths(ctx, it, lambda P, s, kind, x, nd: (note_edge(s[0], x), s[1]) if kind == 'edge' else s, None):
            n += 1
            gets = [t for t in known if isinstance(t, T) and t.k == 'call' and cell_op(t.a[0]) == 'read' and own(it, t.a[1][0])]
            if v.k == 'agg' and v.a[1] == 'None':
                ctx.ob(R, name + '::load empty', any(known[g] == 'None' for g in gets), 'reports no data although there is some', sp(k)); continue
            x = v.a[3][0] if v.k == 'agg' and v.a[1] == 'Some' else v
            x = norm(it, P.resolve(x, ns))
            ok = False
            r, p = root(x)
            if x.k == 'call' and x.a[0].startswith(H) and last(x.a[0]) == 'load': ok = content(it, x.a[1][0]) == 'get' and root(x.a[1][0])[0].k == 'call' and cell_op(root(x.a[1][0])[0].a[0]) == 'read'
            elif r.k == 'call' and (lock_call(r.a[0]) or ('', 1))[0] in ('r', 'u', 'w') and lock_call(r.a[0]): ok = content(it, r) == 'get'       # a clone of the guarded histogram
            if not ok and opaque(r): ctx.unsure(R, name + '::load', it, v); continue
            ctx.ob(R, name + '::load', ok, 'reports %s instead of the data recorded' % show(v), sp(k))
        ctx.floor(R, name + '::load paths', n, 2)
    rule(ctx, R, name + '::load', load)
    def reports():
        for m in ('value', 'as_any'):
            k = ctx.timpl(adt, METRIC, m, need=False)
            if k is None: ctx.ob(R, '%s::%s' % (name, m), False, 'reports nothing'); continue
            it = ctx.run(k)
            for n, v in returns(it):
                for a in nalts(it, v):
                    x = a
                    while x.k == 'agg' and len(x.a[3]) == 1 and x.a[1] in ('Some', 'Other'): x = norm(it, x.a[3][0])
                    if opaque(x): ctx.unsure(R, '%s::%s' % (name, m), it, a); continue
                    ctx.ob(R, '%s::%s' % (name, m), x is A0, 'reports %s instead of this histogram' % show(a), sp(k))
    rule(ctx, R, name + ' reports itself', reports)
    # recording
    def is_len(it, t):
        t = norm(it, t)
        if t.k == 'call' and last(t.a[0]) == 'len' and t.a[1] and norm(it, t.a[1][0]) is A1: return True
        return False
    def is_total(it, t):
        t = norm(it, t)
        if t.k == 'call' and last(t.a[0]) == 'total_buckets' and t.a[1] and (fields(t.a[1][0]) == (A0, (kf,)) or content(it, t.a[1][0])): return True
        if t.k == 'call' and last(t.a[0]) == 'len' and t.a[1] and content(it, t.a[1][0]) and norm(it, t.a[1][0]) is not A1: return True
        return False
    def same_length(it, known):
        out = []
        for t, x in known.items():
            if not isinstance(t, T) or not isinstance(x, bool): continue
            pol = x
            while t.k == 'un' and t.a[0] == 'Not': t, pol = t.a[1], not pol
            if t.k == 'bin' and t.a[0] in ('Eq', 'Ne') and ((is_len(it, t.a[1]) and is_total(it, t.a[2])) or (is_len(it, t.a[2]) and is_total(it, t.a[1]))): out.append(pol == (t.a[0] == 'Eq'))
        return out
    for k in recording:
        m = last(k); inst = '%s::%s' % (name, m)
        bulk = '[u64]' in ctx.F.bodies[k]['locals'][2]['ty'] if ctx.F.bodies[k]['argc'] >= 2 else False
        def one():
            it = ctx.run(k)
            for e in it.all_events('call'):
                if cell_op(e.path) == 'init' and e.v and own(it, e.v[0]): init_ok(it, e, inst)
                if cell_op(e.path) == 'clear' and e.v and own(it, e.v[0]): ctx.ob(R, inst, False, 'removes the data recorded so far', e.span)
            def op_of(e):
                """recording operations on the content; 'init' for the initialisation"""
                if e.kind == 'call' and e.v:
                    if cell_op(e.path) == 'init' and own(it, e.v[0]): return ('init', e)
                    if content(it, e.v[0]):
                        l = last(e.path)
                        if lock_call(e.path): return ('lock', e) if lock_call(e.path)[0] == 'w' else None
                        if e.path.startswith(H) and l in ('increment', 'add', 'record'): return ('record', e)
                        if l in ('copy_from_slice', 'clone_from_slice'): return ('copy', e)
                        if e.path.startswith(H) and l in READ_OPS or l in ('as_mut_slice', 'deref_mut', 'drop', 'iter_mut', 'next', 'zip', 'len', 'unlock_fair'): return None
                        if e.path.startswith(H) or (e.at and e.at[0].startswith('&mut ')): return ('other', e)
                return None
            def delta(P, s, kind, x, n):
                known, ops = s
                if kind == 'edge': return (note_edge(known, x), ops)
                o = op_of(x)
                if o is None: return s
                if len(ops) > 8: return s
                return (known, ops + (o,))
            def elementwise(it, known, isok, ops, stores):
                """every bucket visited must end up as the input's own element"""
                item = norm(it, stores[0].result); src = norm(it, stores[0].v[0])
                def d2(P, s, kind, x, n):
                    if kind == 'edge':
                        if x and x[0] in ('next', 'next_back') and x[2] == 'Some' and norm(it, x[1]) is src: return frozenset()
                        return s | {x} if s != 0 and x and x[0] in ('bool', 'int', 'var') and len(s) < 12 else s
                    if x.kind in ('next', 'next_back') and norm(it, x.v[0]) is src and s != 0:
                        pt = P.path()
                        if len(pt) < 2: return 0
                        pn, k = pt[-2]
                        v = norm(it, P.resolve(it.load_base(it.outs[pn][k][2], ('M', stores[0].result))))
                        r = v
                        mine = r.k == 'item' and norm(it, r.a[1] if len(r.a) > 1 else r) is not None and any(y is A1 for y in subterms(r)) and not content(it, r)
                        if opaque(r) and not r.k == 'item' and not r.k == 'old': ctx.unsure(R, inst + ' element', it, v)
                        else: ctx.ob(R, inst + ' element', mine, 'a bucket is left as %s instead of the element of the input' % show(v), stores[0].span)
                        return 0
                    return s
                Prod(it, 0, d2)
                ways = {(e.kind == 'next_back', bool(content(it, e.v[0]))) for kd in ('next', 'next_back') for e in it.all_events(kd) if content(it, e.v[0]) or any(y is A1 for y in subterms(norm(it, e.v[0])))}
                ctx.ob(R, inst + ' element', len({b for b, _ in ways}) <= 1, 'the input is copied in the opposite order', stores[0].span)
                ctx.ob(R, inst + ' checks the length', True in same_length(it, known), 'copies without having found the input to have as many elements as there are buckets', sp(k))
                ctx.ob(R, inst + ' outcome', isok, 'returns something else than success after the update took effect', sp(k))
            def replaced(it, put, isok, ops):
                """the histogram under the lock is exchanged as a whole"""
                x, locks = put[0][1], [o for o in ops if o[0] == 'lock']
                r, p = root(x)
                if r.k == 'call' and r.a[0].startswith(H) and last(r.a[0]) == 'from_buckets' and len(r.a[1]) == 3 and ('v', 'Ok') in p:
                    cfg = [norm(it, a) for a in r.a[1][:2]]
                    same = [c.k == 'call' and last(c.a[0]) == w and (fields(c.a[1][0]) == (A0, (kf,)) or content(it, c.a[1][0])) for c, w in zip(cfg, ('grouping_power', 'max_value_power'))]
                    ctx.ob(R, inst + ' covers everything', norm(it, r.a[1][2]) is A1 and all(same), 'the data becomes %s, not the whole input in the declared configuration' % show(r), sp(k))
                    ctx.ob(R, inst + ' under the lock', len(put) == 1 and len(locks) == 1, 'the buckets are not replaced under one write lock', sp(k))
                    ctx.ob(R, inst + ' outcome', isok, 'returns something else than success after the update took effect', sp(k))
                elif r.k == 'call' and r.a[0].startswith(H) and last(r.a[0]) in ('with_config', 'new', 'default'): ctx.ob(R, inst + ' covers everything', False, 'the data becomes %s' % show(x), sp(k))
                else: ctx.unsure(R, inst, it, x)
            n = 0
            for known, ops, v, P, ns in paths(ctx, it, delta, ()):
                n += 1
                did = [o for o in ops if o[0] in ('record', 'copy')]
                other = [o for o in ops if o[0] == 'other']
                if other: ctx.undecided(R, inst, 'uses %s' % short(other[0][1].path)) if not bulk else ctx.ob(R, inst, False, 'changes the data with %s' % short(other[0][1].path), other[0][1].span); continue
                isok = v.k == 'agg' and v.a[1] == 'Ok'
                iserr = v.k == 'agg' and v.a[1] == 'Err'
                if not did:
                    stores = [e for kd in ('next', 'next_back') for e in it.all_events(kd) if content(it, e.v[0])]
                    if stores and not iserr: elementwise(it, known, isok, ops, stores); continue
                    put = [(b[1], norm(it, P.resolve(x, ns))) for b, x in it.returns[ns[0]].env.items() if b[0] == 'M' and isinstance(b[1], T) and b[1].k == 'call' and lock_call(b[1].a[0]) and content(it, b[1])]
                    if put and not iserr and bulk: replaced(it, put, isok, ops); continue
                    if not iserr and bulk and (any('ounds' in (e.path or '') for e in it.all_events('assert')) or any(last(e.path) in ('get_mut', 'index_mut', 'get_unchecked_mut', 'fill_with', 'as_mut_ptr') and e.v and content(it, e.v[0]) for e in it.all_events('call'))): ctx.undecided(R, inst, 'records element by element'); continue
                    ctx.ob(R, inst + ' without recording', iserr, 'returns %s without having recorded anything' % show(v), sp(k))
                    if bulk: ctx.ob(R, inst + ' rejects', not [o for o in ops if o[0] == 'init'], 'a rejected bulk update leaves an initialised, empty histogram behind', sp(k))
                    continue
                ctx.ob(R, inst + ' records once', len(did) == 1, 'records %d times' % len(did), did[-1][1].span)
                e = did[0][1]
                if did[0][0] == 'record':
                    val = norm(it, P.resolve(e.v[1], ns))
                    if opaque(val): ctx.unsure(R, inst + ' value', it, val)
                    else: ctx.ob(R, inst + ' value', val is A1, 'records %s instead of the given value' % show(val), e.span)
                    if len(e.v) > 2: ctx.ob(R, inst + ' count', e.v[2].k == 'int' and e.v[2].a[0] == 1 or e.v[2] is mk('arg', 2), 'records it %s times' % show(e.v[2]), e.span)
                    res = norm(it, e.result)
                    ok = eqv(it, v, res, known) or (isok and known.get(e.result) == 'Ok') or (iserr and known.get(e.result) == 'Err')
                    if not ok and opaque(v): ctx.unsure(R, inst + ' outcome', it, v)
                    else: ctx.ob(R, inst + ' outcome', ok, 'returns %s whatever became of the recording' % show(v), sp(k))
                else:
                    dst, src = norm(it, P.resolve(e.v[0], ns)), norm(it, P.resolve(e.v[1], ns))
                    whole = dst.k == 'call' and last(dst.a[0]) == 'as_mut_slice'
                    ctx.ob(R, inst + ' covers everything', whole and src is A1, 'copies %s over %s, not the whole input over all buckets' % (show(src), show(dst)), e.span)
                    locks = [o for o in ops if o[0] == 'lock']
                    ctx.ob(R, inst + ' under the lock', name != 'RwLockHistogram' or len(locks) == 1 and any(s is locks[0][1].result for s in subterms(dst)), 'the buckets are not copied under one write lock', e.span)
                    ctx.ob(R, inst + ' checks the length', True in same_length(it, known), 'copies without having found the input to have as many elements as there are buckets', e.span)
                    ctx.ob(R, inst + ' outcome', isok, 'returns %s after the update took effect' % show(v), sp(k))
            ctx.floor(R, inst + ' paths', n, 1)
        rule(ctx, R, inst, one)
    ctx.floor(R, name + ' recording methods', len(recording), 1)

def check(ctx):
    for adt, name in hist_types(ctx): rule(ctx, R, name, lambda: check_type(ctx, adt, name))
