"""C12: lazy metrics."""
from ..frame import rule, Missing
from ..q import *
from ..registry import entry_points
from ..once import *
from .. import shared
from ..shared import A0, note_edge, METRIC
SCOPE = 'all'
TECHNIQUE = 'static analysis: call-graph reachability of initialisation and value flow of the initialiser over compiler MIR'
EXPLAIN = ("The initialiser stored in a Lazy is run only inside the closure given to its once-cell's get_or_init (so at most once, whoever races), is moved out of its slot before it runs, and its result is the cell's value unchanged; "
           "force and the Deref impls return the content of that very cell. Every other function a user or the library can run (the Metric impl, get, get_mut, listing, formatting, snapshotting) is checked, over the call graph with "
           "virtual Metric calls resolved to every impl, not to reach an initialising operation. The Metric impl reports disabled, no value, no object and provides nothing while the cell is empty, and what the metric reports afterwards.")
ASSUME = ["once_cell::sync::OnceCell / std::sync::OnceLock run at most one initialiser and publish its result to every thread"]
R = 'lazy'
OWNER = {'force', 'deref', 'deref_mut', 'force_mut'}
DEREF = 'core::ops::deref::'

def is_deref(k): return k.endswith(('Deref>::deref', 'DerefMut>::deref_mut'))

def init_reach(ctx, L):
    """init ops on a Lazy's cell reachable from functions other than the owner's accessors"""
    F = ctx.F
    bodies = F.bodies
    inst = {}
    for k, b in bodies.items(): inst.setdefault(b.get('path', k), []).append(k)
    mimpl = {}
    for k in bodies:
        if ' as %s>' % METRIC in k and k.startswith('<'): mimpl.setdefault(last(k), []).append(k)
    edges, inits = {}, {}
    mod = L
    def callees(k, b):
        out = set()
        def fn(f):
            if f.get('key'): out.update(inst.get(f['key'], [f['key']])); out.add(f['key'])
            elif f.get('res') or f.get('path'): out.update(inst.get(f.get('res') or f['path'], ()))
            if f.get('target'): fn(f['target'])
            if f.get('rk') in ('unresolved', 'virtual') and f['path'].startswith(METRIC + '::'): out.update(mimpl.get(last(f['path']), ()))
        def walk(o):
            if isinstance(o, dict):
                if isinstance(o.get('fn'), dict): fn(o['fn'])
                if isinstance(o.get('closure'), str): out.add(o['closure'])
                if isinstance(o.get('ty'), str) and o['ty'].startswith('closure:'): out.add(o['ty'][8:])
                if 'fx' in o: out.update(x['key'] for x in o['fx'] if x.get('key'))
                for v in o.values():
                    if isinstance(v, (dict, list)): walk(v)
            elif isinstance(o, list):
                for v in o: walk(v)
        walk(b['blocks'])
        return out
    for k, b in bodies.items():
        if not k.lstrip('<').startswith('metriken'): continue
        edges[k] = callees(k, b)
        for bb in b['blocks']:
            t = bb['t']
            f = t.get('f', {}).get('k', {}).get('fn') if t['t'] == 'call' else None
            if f and cell_op(f['path']) in ('init', 'clear') and any(L_cell(ctx, L, a) for a in t.get('at', [])): inits[k] = (f['path'], t.get('sp', ''))
    return edges, inits

def L_cell(ctx, L, ty):
    """a reference to a cell of the wrapped type parameter"""
    return any(c in ty for c in ('OnceCell<T>', 'OnceLock<T>')) or any('%s<%s>' % (c, p) in ty for c in ('OnceCell', 'OnceLock') for p in ctx.lazy_params)

def check(ctx):
    L = ctx.adt('metriken', 'Lazy')
    cells = cell_field(ctx, L)
    ctx.lazy_params = ['T', 'M']
    def shape():
        if not cells: ctx.undecided(R, 'cell', 'Lazy does not hold its value in a once cell'); return False
        return True
    if not shape(): 
        rule(ctx, 'forwards', 'wrappers', lambda: shared.forwarding(ctx)); return
    ctx.lazy_params = [t[t.index('<') + 1:-1] for _, t in cells if t.endswith('>')] + ['T']
    cf = cells[0][0]
    ctx.ob(R, 'cell is thread safe', 'sync' in cells[0][1], 'the value is kept in %s, which several threads may not share' % cells[0][1])
    ff = [f['n'] for v in ctx.F.adts[L]['vars'] for f in v['fs'] if f['n'] != cf]
    cell = lambda it: it.project(A0, ('f', cf))
    def is_cell(it, t): return fields(norm(it, t)) == (A0, (cf,))
    # accessors that initialise
    owners = [ctx.method(L, 'force'), '<%s as core::ops::deref::Deref>::deref' % L, '<%s as core::ops::deref::DerefMut>::deref_mut' % L]
    for k in owners:
        if k not in ctx.F.bodies:
            if k == owners[1]: raise Missing(k)
            continue
        inst = shared.short2(k) if not k.startswith('<') else 'Lazy::' + last(k)
        def one():
            it = ctx.run(k)
            sp = ctx.F.bodies[k].get('span', '')
            init = [e for e in it.all_events('call') if cell_op(e.path) == 'init']
            clear = [e for e in it.all_events('call') if cell_op(e.path) == 'clear' and is_cell(it, e.v[0])]
            for e in clear: ctx.ob(R, inst + ' keeps the value', False, 'the initialised value is removed again by %s' % short(e.path), e.span)
            own = [e for e in init if e.v and is_cell(it, e.v[0])]
            once = [e for e in own if last(e.path) in ('get_or_init', 'get_or_try_init', 'get_mut_or_init')]
            for e in own:
                if e not in once: ctx.ob(R, inst + ' initialises once', False, 'initialises with %s, so that the initialiser may have run for nothing' % short(e.path), e.span)
            # the initialiser
            calls = [e for e in it.all_events('call') if e.path == '<indirect>' or e.path.startswith('core::ops::function::Fn')]
            if not once and not own and not calls: ctx.ob(R, inst + ' initialises', False, 'never initialises the value', sp); return
            for e in calls:
                f = e.v[0] if e.v else None
                if f is None: continue
                rs = [r for a in alts(it, f) for r in [root(a)[0]]]
                takes = [r for r in rs if r.k == 'call' and last(r.a[0]) in ('take', 'replace', 'into_inner') and r.a[1] and fields(r.a[1][0])[0] is A0]
                mine = takes or any(fields(a)[0] is A0 for a in alts(it, f)) or any(s.k == 'arg' for a in alts(it, f) for s in subterms(a))
                if not mine: continue
                ctx.ob(R, inst + ' runs the initialiser once', in_callback(it, e.node, once), 'the initialiser runs outside the cell\'s get_or_init: two threads may both run it', e.span)
                ctx.ob(R, inst + ' takes the initialiser', bool(takes), 'the initialiser is not taken out of its slot before it runs', e.span)
            for e in once:
                rs = callback_result(ctx, it, e)
                if rs is None: ctx.undecided(R, inst + ' value', show(e.v[1])); continue
                for it2, v in rs:
                    for a in nalts(it2, v):
                        ok = a.k == 'call' and (a.a[0] == '<indirect>' or a.a[0].startswith('core::ops::function::Fn'))
                        if not ok and a.k in ('unk', 'phi', 'old', 'mut'): ctx.undecided(R, inst + ' value', show(a)); continue
                        ctx.ob(R, inst + ' value', ok, 'the value kept is %s, not what the initialiser returned' % show(a), e.span)
            for n, v in returns(it):
                for a in nalts(it, v):
                    r, p = root(a)
                    ok = r.k == 'call' and cell_op(r.a[0]) is not None and last(r.a[0]) in ('get_or_init', 'get', 'get_mut', 'get_unchecked', 'get_mut_or_init', 'wait', 'get_or_try_init') and is_cell(it, r.a[1][0])
                    if not ok and a.k in ('unk', 'phi', 'old', 'mut'): ctx.undecided(R, inst + ' result', show(a)); continue
                    ctx.ob(R, inst + ' result', ok, 'hands out %s, not the content of the cell' % show(a), sp)
        rule(ctx, R, inst, one)
    # peeking
    for m in ('get', 'get_mut'):
        def one():
            k = ctx.method(L, m, need=(m == 'get'))
            if k is None: return
            it = ctx.run(k)
            P = Prod(it, frozenset(), lambda P, s, kind, x, n: note_edge(s, x) if kind == 'edge' else s)
            for nd in exits(it):
                ev = [e for e in it.events[nd] if e.kind == 'return'][0]
                for s, ns in P.ends.get(nd, ()):
                    v = norm(it, P.resolve(ev.v[0], ns))
                    c = [e.result for e in it.all_events('call') if cell_op(e.path) == 'read' and last(e.path) in ('get', 'get_mut') and is_cell(it, e.v[0])]
                    ok = any(shared.eqv(it, v, x, dict(s)) for x in c)
                    if not ok and v.k in ('unk', 'phi', 'old', 'mut'): ctx.undecided(R, 'Lazy::' + m, show(v)); continue
                    ctx.ob(R, 'Lazy::' + m, ok, 'reports %s instead of the content of the cell' % show(v), ctx.F.bodies[k].get('span', ''))
        rule(ctx, R, 'Lazy::' + m, one)
    # construction
    def new():
        k = ctx.method(L, 'new')
        it = ctx.run(k)
        for n, v in returns(it):
            for a in nalts(it, v):
                if a.k != 'agg': ctx.undecided(R, 'Lazy::new', show(a)); continue
                c = norm(it, it.project(a, ('f', cf)))
                ctx.ob(R, 'Lazy::new starts empty', c.k == 'call' and last(c.a[0]) in ('new', 'default') and not c.a[1], 'starts out with %s' % show(c), ctx.F.bodies[k].get('span', ''))
                ctx.ob(R, 'Lazy::new keeps the initialiser', any(s is A0 for f in ff for s in subterms(it.project(a, ('f', f)))), 'does not keep the initialiser it is given', ctx.F.bodies[k].get('span', ''))
    rule(ctx, R, 'Lazy::new', new)
    # nobody else initialises
    def others():
        edges, inits = init_reach(ctx, L)
        ctx.floor(R, 'initialising operations', len(inits), 1)
        allowed = set(owners)
        n = 0
        for k, b in entry_points(ctx):
            if k in allowed: continue
            n += 1
            seen, todo, bad = {k}, [(k, (k,))], None
            while todo:
                x, path = todo.pop()
                if x in inits: bad = (path, inits[x]); break
                if x in allowed: bad = (path, ('', '')); break
                for y in edges.get(x, ()):
                    if y not in seen: seen.add(y); todo.append((y, path + (y,)))
            if bad: ctx.ob(R, 'no initialisation: ' + k, False, '%s initialises a lazy metric (through %s)' % (shared.short2(k) if not k.startswith('<') else k, ' -> '.join(short(x) for x in bad[0])), bad[1][1] or b.get('span', ''))
        ctx.ob(R, 'no initialisation elsewhere', True)
        ctx.floor(R, 'functions that must not initialise', n, 20)
    rule(ctx, R, 'no initialisation', others)
    rule(ctx, 'forwards', 'wrappers', lambda: shared.forwarding(ctx))
