"""What the code does to the dynamic-metric registry, however it is spelled."""
from .frame import Missing
from .core import T, mk, show
from .q import *

LOCKS = {  # method name -> (mode, may fail)
    'write': ('w', 0), 'read': ('r', 0), 'lock': ('w', 0), 'upgradable_read': ('u', 0), 'read_recursive': ('r', 0), 'read_arc': ('r', 0), 'write_arc': ('w', 0), 'lock_arc': ('w', 0),
    'try_write': ('w', 1), 'try_read': ('r', 1), 'try_lock': ('w', 1), 'try_write_for': ('w', 1), 'try_write_until': ('w', 1), 'try_read_for': ('r', 1), 'try_read_until': ('r', 1),
    'try_lock_for': ('w', 1), 'try_lock_until': ('w', 1), 'try_upgradable_read': ('u', 1), 'try_read_recursive': ('r', 1), 'upgrade': ('w', 0), 'downgrade': ('r', 0)}
LOCK_OWN = ('lock_api::', 'parking_lot::', 'std::sync::', 'std::sys::', 'spin::')
LOCK_TYPES = ('::RwLock::', '::Mutex::', '::ReentrantMutex::', '::FairMutex::', '::RwLockUpgradableReadGuard::', '::RwLockWriteGuard::')

def lock_call(path):
    """(mode, may fail) of a lock acquisition, None otherwise"""
    if not path.startswith(LOCK_OWN) or not any(t in path for t in LOCK_TYPES): return None
    return LOCKS.get(last(path))

def entry_fields(ctx):
    """names of MetricEntry's pointer, name and description fields, by type"""
    E = ctx.adt('metriken_core', 'MetricEntry')
    m = n = d = None
    for f in ctx.F.adts[E]['vars'][0]['fs']:
        ty = f['ty']
        if 'dyn ' in ty or ty.startswith(('*', 'core::ptr::')): m = m or f['n']
        elif ty.startswith('core::option::Option') and ('str' in ty or 'String' in ty): d = d or f['n']
        elif 'str' in ty or 'String' in ty: n = n or f['n']
    if not (m and n and d): raise Missing('fields of MetricEntry')
    return m, n, d

def registry_statics(ctx):
    """statics (behind locks) whose content holds MetricEntry"""
    out = []
    def holds(ty, depth=0):
        if 'metriken_core::MetricEntry' in ty: return True
        return depth < 4 and any(a in ty and 'span' in x and any(holds(f['ty'], depth + 1) for v in x['vars'] for f in v['fs']) for a, x in ctx.F.adts.items() if a.startswith('metriken'))
    for c in ctx.F.crates.values():
        for s in c['statics']:
            if s['path'].startswith('metriken') and 'linkme' not in s['ty'] and ('Lock' in s['ty'] or 'Mutex' in s['ty'] or 'OnceCell' in s['ty'] or 'Lazy' in s['ty']) and holds(s['ty']): out.append(s['path'])
    if not out: raise Missing('the registry static')
    return out

def lock_root(it, t, regs):
    """the acquisition term of a registry lock that t is reached through, or None"""
    for x in alts(it, t):
        r, _ = root(x)
        if r.k == 'call' and lock_call(r.a[0]):
            if any(s.k == 'static' and s.a[0] in regs for s in subterms(r)): return r
        if r.k == 'call' and r.a[1]:
            q = lock_root(it, r.a[1][0], regs)
            if q is not None: return q
        if r.k in ('src', 'item'):
            q = lock_root(it, r.a[0], regs)
            if q is not None: return q
    return None

READS = {'get', 'contains_key', 'len', 'is_empty', 'values', 'keys', 'iter', 'first_key_value', 'last_key_value', 'range', 'get_key_value', 'deref', 'deref_mut', 'clone', 'borrow', 'as_ref', 'as_mut',
         'values_mut', 'iter_mut', 'get_mut', 'entry', 'fmt', 'into_mut', 'key', 'contains', 'map', 'unwrap', 'expect', 'is_some', 'is_none', 'size_hint', 'next', 'rev', 'count', 'unlock_fair', 'downgrade', 'upgrade', 'is_ok', 'is_err', 'unwrap_or_else', 'into_inner'}
INSERT = {'insert', 'insert_entry', 'push', 'push_back', 'or_insert', 'or_insert_with', 'or_insert_with_key', 'or_default', 'insert_unique', 'try_insert', 'and_modify', 'extend', 'append', 'replace'}
REMOVE = {'remove', 'remove_entry', 'swap_remove', 'swap_remove_entry', 'shift_remove', 'retain', 'clear', 'pop', 'pop_first', 'pop_last', 'drain', 'split_off', 'extract_if', 'truncate', 'take'}

class Op:
    def __init__(s, kind, how, ev, key=None, val=None, rawval=None): s.kind, s.how, s.ev, s.key, s.val, s.rawval = kind, how, ev, key, val, rawval

def unwrap_key(t):
    while t.k == 'agg' and len(t.a[3]) == 1: t = t.a[3][0]
    if t.k == 'call' and last(t.a[0]) in ('addr', 'expose_provenance', 'expose_addr', 'get') and t.a[1]: t = mk('addr', t.a[1][0])
    while t.k == 'cast' and t.a[0] in ('usize', 'u64', 'u128', '*const ()', '*mut ()'): t = t.a[1]
    while t.k == 'cast' and t.a[0] == 'ptr': t = t.a[1]
    return t.a[0] if t.k == 'addr' else t

def is_addr_key(e, i):
    """the i-th argument is an address (an exposed or raw pointer)"""
    t = e.v[i]
    while t.k == 'agg' and len(t.a[3]) == 1: t = t.a[3][0]
    while t.k == 'cast' and t.a[0] in ('usize', 'u64', 'u128'): t = t.a[1]
    if t.k == 'addr' or (t.k == 'call' and last(t.a[0]) in ('addr', 'expose_provenance', 'expose_addr')): return True
    ty = e.at[i] if i < len(e.at) else ''
    return '*const' in ty or '*mut' in ty or 'NonNull' in ty

def ops(it, regs):
    """node -> list of Op on the registry contents"""
    return map_ops(it, lambda t: lock_root(it, t, regs) is not None)

def recv_root(it, t):
    """terms a receiver is reached through (entry(), get_mut(), unwrap() ... opened)"""
    for x in alts(it, t):
        r, _ = root(x)
        yield x
        if r.k == 'call' and r.a[1]: yield from recv_root(it, r.a[1][0])

def map_ops(it, is_recv):
    """node -> list of Op on the map picked out by is_recv"""
    out = {}
    for e in it.all_events('call'):
        if not e.v or lock_call(e.path): continue
        if not is_recv(e.v[0]): continue
        n = last(e.path)
        if n in READS or e.path in ('format!', 'vec!'): continue
        recv = e.v[0]
        ent = None
        for s in subterms(recv):
            if s.k == 'call' and last(s.a[0]) == 'entry' and len(s.a[1]) == 2: ent = s
        if n in INSERT:
            if n in ('insert', 'try_insert') and ent is None and len(e.v) == 3: o = Op('insert', n, e, (e, 1), e.v[2], e.raw[2])
            elif ent is not None and n in ('insert', 'insert_entry', 'or_insert'): o = Op('insert', 'insert' if n != 'or_insert' else 'keep', e, ('term', ent.a[1][1]), e.v[1], e.raw[1])
            elif ent is not None: o = Op('insert', 'keep', e, ('term', ent.a[1][1]), None)
            else: o = Op('insert', 'other', e)
            if n == 'try_insert': o.how = 'keep'
        elif n in REMOVE:
            if n in ('remove', 'remove_entry') and ent is not None: o = Op('remove', 'key', e, ('term', ent.a[1][1]))
            elif n in ('remove', 'remove_entry', 'swap_remove', 'take') and len(e.v) == 2: o = Op('remove', 'key', e, (e, 1))
            elif n == 'retain': o = Op('remove', 'retain', e)
            else: o = Op('remove', 'other', e)
        elif e.at and e.at[0].startswith('&mut ') and n != 'drop': o = Op('other', n, e)
        else: continue
        out.setdefault(e.node, []).append(o)
    return out

def entry_points(ctx, crates=('metriken_core', 'metriken', 'metriken_exposition')):
    """functions user code can run: exported ones, trait-impl methods and Drop impls (generic form only)"""
    for k, b in sorted(ctx.F.bodies.items()):
        if b.get('crate') in crates and b.get('kind') in ('Fn', 'AssocFn') and b.get('path') == k and (b.get('exported') or k.startswith('<')): yield k, b

def call_graph(ctx):
    """body -> bodies it may run (calls, function values, closures, destructors; unresolved trait calls reach every impl)"""
    if hasattr(ctx, '_cg'): return ctx._cg
    F = ctx.F
    byname = {}
    for k in F.bodies:
        if k.startswith('<') and ' as ' in k: byname.setdefault(k.split(' as ', 1)[1].split('<')[0].replace('>', ''), []).append(k)
    g = {}
    locks = set()
    def fnrec(f, out):
        if f.get('key'): out.add(f['key'])
        elif f.get('res') in F.bodies: out.add(f['res'])
        if f.get('target'): fnrec(f['target'], out)
        if f.get('rk') in ('unresolved', 'virtual'): out.update(byname.get(f['path'].rsplit('::', 1)[0] + '::' + last(f['path']), ()))
    def walk(o, out):
        if isinstance(o, dict):
            if 'fn' in o and isinstance(o['fn'], dict): fnrec(o['fn'], out)
            if 'closure' in o and isinstance(o['closure'], str):
                out.add(o['closure'])
            if isinstance(o.get('ty'), str) and o['ty'].startswith('closure:'): out.add(o['ty'][8:])
            if 'fx' in o: out.update(x['key'] for x in o['fx'] if x.get('key'))
            for v in o.values():
                if isinstance(v, (dict, list)): walk(v, out)
        elif isinstance(o, list):
            for v in o: walk(v, out)
    inst = {}
    for k, b in F.bodies.items(): inst.setdefault(b.get('path', k), []).append(k)
    for k, b in F.bodies.items():
        out = set()
        walk(b['blocks'], out)
        for bb in b['blocks']:
            t = bb['t']
            f = t.get('f', {}).get('k', {}).get('fn') if t['t'] == 'call' else None
            if f and lock_call(f['path']): locks.add(k)
        g[k] = {y for x in out for y in inst.get(x, [x])} | out
    ctx._cg = (g, locks)
    return ctx._cg

def may_lock(ctx, k):
    g, locks = call_graph(ctx)
    seen, todo = set(), [k]
    while todo:
        x = todo.pop()
        if x in seen: continue
        seen.add(x)
        if x in locks: return True
        todo += g.get(x, ())
    return False

DROP = 'core::ops::drop::Drop'
def find_drop(ctx, P):
    """(key of the destructor that takes P out of the registry, field path from P to its self, type of its self).
    P's own Drop impl, or that of the storage the registry points to (a field dropped with P)."""
    k = ctx.timpl(P, DROP, 'drop', need=False)
    if k: return k, (), P
    fm = entry_fields(ctx)[0]
    it = ctx.run(ctx.method(P, 'register'))
    stored = {fields(norm(it, x))[1][:1] for l in ops(it, registry_statics(ctx)).values() for o in l if o.kind == 'insert' and o.val is not None for v in nalts(it, o.val) for x in nalts(it, it.project(v, ('f', fm)))}
    for f in ctx.F.adts[P]['vars'][0]['fs']:
        ty = f['ty'].split('<')[0]
        k = ctx.timpl(ty, DROP, 'drop', need=False) if ty in ctx.F.adts else None
        if (f['n'],) in stored:
            if k: return k, (f['n'],), ty
            break          # the storage goes away without leaving the registry; later fields drop too late
    return ctx.timpl(P, DROP, 'drop'), (), P
