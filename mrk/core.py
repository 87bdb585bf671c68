"""Abstract interpretation of MIR facts.

The interpreter computes, for one entry function, a finite graph of abstract
program points.  A point is (call context, basic block, partition); callees of
the selected crates are inlined by context, everything else is an *event*.
Values are tracked as provenance terms (which argument, field, call site, list
element or constant a value comes from), joined at merge points into phi
terms; partitions keep apart states that differ in the known variant of a live
enum or in the value of a live boolean.  No value is ever concretised and no
path condition is solved: it is a worklist fixpoint over joined states.
"""
import json, os, glob

# ------------------------------------------------------------------ terms ----
class T:
    __slots__ = ('k', 'a', 'id', 'sites')
    def __repr__(self): return show(self)

_tab = {}
def _sites_of(x):
    if isinstance(x, T): return x.sites
    if isinstance(x, tuple):
        s = frozenset()
        for y in x: s |= _sites_of(y)
        return s
    return frozenset()

def mk(k, *a):
    key = (k, a)
    t = _tab.get(key)
    if t is None:
        t = T(); t.k = k; t.a = a; t.id = len(_tab)
        s = _sites_of(a)
        if k == 'call': s = s | {a[2]}
        elif k == 'item': s = s | {a[1]}
        elif k in ('mut', 'fresh', 'cbarg'): s = s | {a[0]}
        t.sites = s
        _tab[key] = t
    return t

TRUE, FALSE, UNIT = mk('bool', True), mk('bool', False), mk('agg', '()', None, (), ())
def INT(v, ty='usize'): return mk('int', v, ty)
def STR(s): return mk('str', s)
def ref(place):
    base, projs = place
    if base[0] == 'M' and not projs: return base[1]
    return mk('ref', base, projs)

def show(t, d=0):
    if not isinstance(t, T): return str(t)
    if d > 9: return '..'
    s = lambda x: show(x, d + 1)
    k, a = t.k, t.a
    if k == 'arg': return '$%s' % a[0]
    if k == 'str': return json.dumps(a[0])
    if k in ('int', 'bool'): return str(a[0])
    if k == 'ref': return '&' + show_base(a[0], d) + ''.join(show_el(e, d) for e in a[1])
    if k == 'deref': return '*' + s(a[0])
    if k == 'proj': return s(a[0]) + show_el(a[1], d)
    if k == 'agg':
        nm = (a[0] or '').split('<')[0].split('::')[-1] + ('::' + a[1] if a[1] and a[1] != (a[0] or '').split('::')[-1] else '')
        return '%s{%s}' % (nm, ', '.join('%s' % s(x) for x in a[3]))
    if k == 'call': return '%s@%s(%s)' % (short(a[0]), a[2], ', '.join(s(x) for x in a[1]))
    if k == 'item': return 'item@%s(%s)' % (a[1], s(a[0]))
    if k == 'fn': return 'fn ' + short(FNS[a[0]]['path'])
    if k == 'bin': return '(%s %s %s)' % (s(a[1]), a[0], s(a[2]))
    if k == 'src': return 'src:%s(%s)' % (a[1], s(a[0]))
    if k == 'phi': return 'phi%d' % t.id
    return '%s(%s)' % (k, ', '.join(s(x) for x in a))
def show_el(e, d): return ('.' + e[1]) if e[0] == 'f' else (' as ' + e[1] if e[0] == 'v' else '[%s]' % (show(e[1], d) if e[0] == 'i' else ','.join(map(str, e[1:]))))
def show_base(b, d): return {'L': lambda: 'f%s._%s' % (b[1], b[2]), 'M': lambda: '*' + show(b[1], d + 1)}.get(b[0], lambda: ':'.join(map(str, b)))()
def short(p): return '::'.join(p.replace('<', '').replace('>', '').split(' as ')[0].split('::')[-1:] + p.split('::')[-1:]) if ' as ' in p else '::'.join(p.split('::')[-2:])

# fn records referenced by terms
FNS, _fnidx = [], {}
def FN(rec):
    key = json.dumps(rec, sort_keys=True)
    if key not in _fnidx: _fnidx[key] = len(FNS); FNS.append(rec)
    return mk('fn', _fnidx[key])

# ------------------------------------------------------------- constants -----
ITER = 'core::iter::traits::iterator::Iterator::'
DEI = 'core::iter::traits::double_ended::DoubleEndedIterator::'
MODELS = {ITER + n: 'mrk_models::' + n for n in (
    'map filter filter_map inspect map_while take_while skip_while take skip enumerate zip chain rev flat_map flatten '
    'peekable unzip partition for_each fold any all find find_map last').split()}
MODELS.update({
    DEI + 'rfold': 'mrk_models::rfold',
    'core::iter::adapters::peekable::Peekable::peek': 'mrk_models::peek',
    'core::iter::traits::collect::Extend::extend': 'mrk_models::extend',
    'core::iter::traits::collect::FromIterator::from_iter': 'mrk_models::from_iter',
    'core::option::Option::iter': 'mrk_models::opt_iter',
    'lock_api::rwlock::RwLockUpgradableReadGuard::with_upgraded': 'mrk_models::with_upgraded',
    '*const T::as_ref': 'mrk_models::ptr_as_ref',
    '*mut T::as_ref': 'mrk_models::ptr_as_ref',
    'core::iter::sources::once::once': 'mrk_models::once',
    'core::iter::sources::empty::empty': 'mrk_models::empty',
    'core::iter::sources::from_fn::from_fn': 'mrk_models::from_fn',
})
IDENTITY_OWNERS = ('alloc::boxed::Box', 'core::ptr::unique::Unique', 'core::ptr::non_null::NonNull', 'core::pin::Pin',
                   'core::mem::manually_drop::ManuallyDrop', 'core::mem::maybe_uninit::MaybeUninit', 'core::mem::maybe_dangling::MaybeDangling')
HEAP_NEW = ('alloc::boxed::Box::new', 'alloc::boxed::Box::pin', 'alloc::rcs::arc::Arc::new', 'alloc::rcs::rc::Rc::new', 'alloc::rc::Rc::new', 'alloc::sync::Arc::new')
IDENT_CALLS = ('core::hint::must_use', 'core::pin::Pin::as_ref', 'core::pin::Pin::new', 'core::pin::Pin::new_unchecked', 'core::pin::Pin::as_mut',
               'core::pin::Pin::get_ref', 'core::pin::Pin::get_mut', 'core::pin::Pin::into_inner', 'core::pin::Pin::get_unchecked_mut', 'core::hint::black_box', 'core::convert::identity',
               'alloc::boxed::Box::into_pin', ITER + 'by_ref', ITER + 'cloned', ITER + 'copied', ITER + 'fuse',
               'core::mem::manually_drop::ManuallyDrop::new', 'core::ptr::from_ref', 'core::ptr::from_mut',
               'alloc::boxed::Box::as_ptr', 'alloc::boxed::Box::into_raw', 'alloc::boxed::Box::from_raw', 'alloc::boxed::Box::leak',
               '*const T::cast', '*mut T::cast', '*const T::cast_mut', '*mut T::cast_const', 'core::ptr::non_null::NonNull::as_ptr', 'core::ptr::non_null::NonNull::new_unchecked', 'core::ptr::non_null::NonNull::cast',
               'core::iter::traits::collect::IntoIterator::into_iter#identity')
SRC_METHODS = {'iter', 'iter_mut', 'keys', 'values', 'values_mut', 'into_keys', 'into_values', 'entries', 'drain', 'chars', 'bytes', 'chunks', 'windows', 'into_iter', 'into_iter_sorted', 'lines', 'range', 'split'}
STD = ('core::', 'alloc::', 'std::', 'phf::', '[T]::', 'str::', '[T;N]::', 'dyn ', '*const T', '*mut T', 'hashbrown::')
FN_TRAITS = ('core::ops::function::FnOnce::call_once', 'core::ops::function::FnMut::call_mut', 'core::ops::function::Fn::call')
SCALARS = {'u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize', 'bool', 'char', 'f32', 'f64'}

class Facts:
    def __init__(self, dirs):
        self.bodies, self.adts, self.crates = {}, {}, {}
        self.closures = {}
        for d in dirs:
            for f in sorted(glob.glob(d + '/*.json')):
                j = json.load(open(f))
                if j['crate'] == 'build_script_build': continue
                self.crates[j['crate']] = j
                for k, b in j['bodies'].items():
                    if k not in self.bodies: self.bodies[k] = b
                for k, b in j['adts'].items():
                    if k not in self.adts or 'span' in b: self.adts[k] = b
        for k, b in self.bodies.items(): b['key'] = k
        self._live = {}

    def liveness(self, key):
        """block -> set of locals live on entry; locals whose address is taken are always live."""
        if key in self._live: return self._live[key]
        b = self.bodies[key]
        blocks = b['blocks']
        addr = set()
        use, de, succ = [], [], []
        def pl(p, u, d, is_def=False):
            for e in p['p']:
                if isinstance(e, dict) and 'i' in e: u.add(e['i'])
            if is_def and not p['p']:
                d.add(p['l'])
            elif p['l'] not in d: u.add(p['l'])
        def op(o, u, d):
            if 'c' in o: pl(o['c'], u, d)
            elif 'm' in o: pl(o['m'], u, d)
        for bb in blocks:
            u, d = set(), set()
            for s in bb['s']:
                if 'dead' in s: d.add(s['dead']); continue
                for k in ('x', 'y'):
                    if k in s:
                        if isinstance(s[k], dict) and 'l' in s[k]:
                            pl(s[k], u, d)
                            if s['r'] in ('ref', 'raw') and '*' not in s[k]['p']: addr.add(s[k]['l'])
                        elif isinstance(s[k], dict): op(s[k], u, d)
                for x in s.get('xs', []): op(x, u, d)
                pl(s['d'], u, d, True)
            t = bb['t']; k = t['t']; sc = []
            if k in ('goto',): sc = [t['to']]
            elif k == 'switch': op(t['x'], u, d); sc = [c[1] for c in t['cases']] + [t['else']]
            elif k == 'drop': pl(t['x'], u, d); sc = [t['to']]
            elif k == 'assert': op(t['x'], u, d); sc = [t['to']]
            elif k == 'call':
                op(t['f'], u, d)
                for a in t['a']: op(a, u, d)
                pl(t['d'], u, d, True)
                if 'to' in t: sc = [t['to']]
            elif k == 'return':
                if 0 not in d: u.add(0)
            use.append(u); de.append(d); succ.append(sc)
        live = [set(u) for u in use]
        ch = True
        while ch:
            ch = False
            for i in range(len(blocks) - 1, -1, -1):
                o = set()
                for s in succ[i]: o |= live[s]
                n = use[i] | (o - de[i])
                if n - live[i]: live[i] |= n; ch = True
        r = ([frozenset(l) for l in live], frozenset(addr))
        self._live[key] = r
        return r

class Ev:
    """One opaque operation at a graph node."""
    __slots__ = ('kind', 'path', 'res', 'fn', 'raw', 'v', 'result', 'node', 'span', 'site', 'at', 'dt', 'extra', 'body')
    def __repr__(self): return '<%s %s(%s) -> %s @%s>' % (self.kind, short(self.path or ''), ', '.join(map(repr, self.v)), self.result, self.span)

class Frame:
    __slots__ = ('id', 'parent', 'bb', 'phase', 'key', 'body', 'dest', 'retbb', 'retphase', 'depth', 'stack', 'discard')

class St:
    __slots__ = ('env', 'facts')
    def __init__(self, env, facts): self.env, self.facts = env, facts
    def copy(self): return St(dict(self.env), dict(self.facts))

class Limit(Exception): pass

class Interp:
    def __init__(self, facts, inline_crates, opaque=None, assume=None, max_depth=40, max_nodes=30000, drops_inline=False, args=None, nomodel=(), part_cap=96, inline_extra=None):
        self.F = facts
        self.inline_crates = set(inline_crates)
        self.opaque = opaque or (lambda body: False)
        self.assume = assume or (lambda t: None)
        self.max_depth, self.max_nodes = max_depth, max_nodes
        self.drops_inline = drops_inline
        self.args = args
        self.nomodel = set(nomodel)
        self.part_cap = part_cap
        self.inline_extra = inline_extra
        self.frames, self._fr = [], {}
        self.site_ids, self.site_info = {}, []
        self.penv = {}
        self.nodes, self._nid = [], {}
        self.instate, self.outs, self.events, self.parts = {}, {}, {}, {}
        self.returns = {}
        self._mstack = []

    # ---- frames, sites, nodes
    def frame(self, parent, bb, phase, key, dest, retbb, retphase, discard=False):
        k = (parent, bb, phase, key, retphase)
        if k in self._fr: return self._fr[k]
        f = Frame(); f.id = len(self.frames); f.parent = parent; f.bb = bb; f.phase = phase; f.key = key; f.body = self.F.bodies[key]
        f.dest, f.retbb, f.retphase, f.discard = dest, retbb, retphase, discard
        p = self.frames[parent] if parent is not None else None
        f.depth = p.depth + 1 if p else 0
        f.stack = (p.stack if p else ()) + (key,)
        self.frames.append(f); self._fr[k] = f.id
        return f.id
    def site(self, frame, bb, tag=''):
        k = (frame, bb, tag)
        if k not in self.site_ids:
            self.site_ids[k] = len(self.site_info)
            b = self.frames[frame].body
            self.site_info.append({'frame': frame, 'bb': bb, 'body': b['key'], 'span': b['blocks'][bb]['t'].get('sp', '?') if isinstance(bb, int) else '?', 'dt': b['blocks'][bb]['t'].get('dt')})
        return self.site_ids[k]
    def outer_dt(self, site):
        """type of what a call produces, seen from the code outside the library models"""
        i = self.site_info[site]; dt, f = i['dt'], i['frame']
        while self.frames[f].key.startswith('mrk_models') or self.frames[f].key.startswith('<mrk_models'):
            fr = self.frames[f]
            if fr.parent is None or not isinstance(fr.bb, int): break
            dt, f = self.frames[fr.parent].body['blocks'][fr.bb]['t'].get('dt'), fr.parent
        return dt or ''
    def node(self, frame, bb, phase, part):
        k = (frame, bb, phase, part)
        if k not in self._nid:
            if len(self.nodes) >= self.max_nodes: raise Limit('too many points')
            self._nid[k] = len(self.nodes); self.nodes.append(k)
        return self._nid[k]

    # ---- memory
    def load_base(self, st, base):
        v = st.env.get(base)
        if v is None: v = self.penv.get(base)
        if v is None:
            if base[0] == 'M': return mk('deref', base[1])
            if base[0] == 'S': return mk('static', base[1])
            return mk('uninit', base)
        return v
    def project(self, t, e):
        if e[0] == 'f':
            if t.k == 'agg':
                if e[1] in t.a[2]: return t.a[3][t.a[2].index(e[1])]
                return mk('proj', t, e)
            if t.k == 'upd':
                for (x, v) in t.a[1]:
                    if x == e: return v
                return self.project(t.a[0], e)
        elif e[0] == 'v':
            if t.k == 'agg': return t
            if t.k == 'upd': return t
        elif e[0] == 'i':
            if t.k == 'agg' and isinstance(e[1], T) and e[1].k == 'int' and e[1].a[0] < len(t.a[3]): return t.a[3][e[1].a[0]]
        elif e[0] == 'ci':
            if t.k == 'agg' and not e[2] and e[1] < len(t.a[3]): return t.a[3][e[1]]
        return mk('proj', t, e)
    def load(self, st, place):
        base, projs = place
        t = self.load_base(st, base)
        for e in projs: t = self.project(t, e)
        return t
    def update(self, t, projs, v):
        if not projs: return v
        e = projs[0]
        if e[0] == 'v':
            return self.update(t, projs[1:], v) if len(projs) > 1 else v
        sub = self.update(self.project(t, e), projs[1:], v)
        if t.k == 'agg' and e[0] == 'f' and e[1] in t.a[2]:
            i = t.a[2].index(e[1]); fs = list(t.a[3]); fs[i] = sub
            return mk('agg', t.a[0], t.a[1], t.a[2], tuple(fs))
        if t.k == 'agg' and e[0] in ('i', 'ci'):
            return mk('mutd', t, sub)
        if t.k == 'upd':
            d = dict(t.a[1]); d[e] = sub
            return mk('upd', t.a[0], tuple(sorted(d.items(), key=lambda x: str(x[0]))))
        return mk('upd', t, ((e, sub),))
    def store(self, st, place, v):
        base, projs = place
        if projs: v = self.update(self.load_base(st, base), projs, v)
        st.env[base] = v
    def place(self, st, fr, p):
        base, projs = ('L', fr, p['l']), ()
        for e in p['p']:
            if e == '*':
                c = self.load(st, (base, projs))
                base, projs = self.pointee(st, c)
            elif isinstance(e, dict):
                if 'f' in e:
                    if e['o'] in IDENTITY_OWNERS: continue
                    projs = projs + (('f', e['n']),)
                elif 'v' in e: projs = projs + (('v', e['v']),)
                elif 'i' in e:
                    ix = self.load(st, (('L', fr, e['i']), ()))
                    projs = projs + (('i', ix),)
                elif 'ci' in e: projs = projs + (('ci', e['ci'], e['e']),)
                else: projs = projs + (('sub', str(e)),)
            # OpaqueCast / Subtype etc: ignored
        return base, projs
    def pointee(self, st, p):
        """place that pointer term p points to"""
        while p.k == 'cast' and p.a[0] == 'ptr': p = p.a[1]
        if p.k == 'ref': return (p.a[0], p.a[1])
        return (('M', p), ())
    def chase(self, st, t, n=8):
        """follow references to the first non-reference content; returns (place or None, content)"""
        pl = None
        while n and t.k == 'ref':
            pl = (t.a[0], t.a[1]); t = self.load(st, pl); n -= 1
        return pl, t

    def vnf(self, st, t, memo=None, depth=0):
        """the value a term denotes, with every level of reference erased"""
        if memo is None: memo = {}
        r = memo.get(t)
        if r is not None: return r
        if depth > 60: return mk('deep')
        k = t.k
        if k == 'ref': r = self.vnf(st, self.load(st, (t.a[0], t.a[1])), memo, depth + 1)
        elif k == 'deref': r = self.vnf(st, t.a[0], memo, depth + 1)
        elif k == 'agg': r = mk('agg', t.a[0], t.a[1], t.a[2], tuple(self.vnf(st, x, memo, depth + 1) for x in t.a[3])) if t.a[3] else t
        elif k == 'proj':
            e = t.a[1]
            if e[0] == 'i' and isinstance(e[1], T): e = ('i', self.vnf(st, e[1], memo, depth + 1))
            r = self.project(self.vnf(st, t.a[0], memo, depth + 1), e)
        elif k == 'upd': r = mk('upd', self.vnf(st, t.a[0], memo, depth + 1), tuple((e, self.vnf(st, v, memo, depth + 1)) for e, v in t.a[1]))
        elif k == 'cast': r = self.vnf(st, t.a[1], memo, depth + 1) if t.a[0] == 'ptr' else mk('cast', t.a[0], self.vnf(st, t.a[1], memo, depth + 1))
        elif k == 'bin': r = mk('bin', t.a[0], self.vnf(st, t.a[1], memo, depth + 1), self.vnf(st, t.a[2], memo, depth + 1))
        elif k in ('un',): r = mk(k, t.a[0], self.vnf(st, t.a[1], memo, depth + 1))
        elif k == 'addr': r = mk('addr', self.vnf(st, t.a[0], memo, depth + 1))
        elif k == 'discr': r = mk('discr', self.vnf(st, t.a[0], memo, depth + 1), t.a[1], t.a[2])
        else: r = t
        memo[t] = r
        return r

    # ---- operands
    def const(self, st, fr, k):
        ty = k['ty']
        if 'fn' in k: return FN(k['fn'])
        if 'promoted' in k: return self.promoted(st, fr, k)
        if 'str' in k: return STR(k['str'])
        if 'static' in k: return mk('ref', ('S', k['static']), ())
        if 'fnptr' in k: return FN({'path': k['fnptr'], 'args': [], 'key': k['fnptr'] if k['fnptr'] in self.F.bodies else None})
        if 'int' in k:
            if ty == 'bool': return mk('bool', k['int'] != '0')
            return INT(int(k['int']), ty)
        if 'item' in k:
            b = self.F.bodies.get(k['item'])
            if b is not None and len(self._mstack) < 4:
                r = self.const_body(k['item'], b)
                if r is not None: return r
            return mk('item_const', k['item'])
        if ty.startswith('closure:'): return mk('agg', ty, None, (), ())
        if ty == '()': return UNIT
        if 'bytes' in k: return mk('bytes', k['bytes'], ty)
        if 'zst' in k: return mk('zst', ty)
        return mk('const', ty, json.dumps(k, sort_keys=True)[:200])
    def const_body(self, key, body):
        base = ('P', key, -1)
        if base in self.penv: return self.penv[base]
        self._mstack.append(key)
        r = self.eval_straight(('P', key), body)
        self._mstack.pop()
        if r is not None: self.penv[base] = r
        return r
    def promoted(self, st, fr, k):
        f = self.frames[fr].body if isinstance(fr, int) else None
        ps = f.get('promoted', []) if f else []
        if k['promoted'] >= len(ps): return mk('const', k['ty'], 'promoted')
        tag = ('P', f['key'], k['promoted'])
        base = tag + ('r',)
        if base not in self.penv:
            r = self.eval_straight(tag, ps[k['promoted']])
            self.penv[base] = r if r is not None else mk('const', k['ty'], 'promoted%d' % k['promoted'])
        return self.penv[base]
    def eval_straight(self, tag, body):
        """evaluate a straight-line constant body into the persistent environment"""
        st = St({}, {})
        loc = lambda l: tag + (l,)
        class FakeFrames: pass
        bb = 0
        saveplace = self.place
        fr = ('const',) + tag
        for _ in range(40):
            blk = body['blocks'][bb]
            for s in blk['s']:
                if 'dead' in s: continue
                self.store(st, self.place(st, fr, s['d']), self.rvalue(st, fr, s))
            t = blk['t']
            if t['t'] == 'goto': bb = t['to']; continue
            if t['t'] in ('assert', 'drop'): bb = t['to']; continue
            if t['t'] == 'return':
                for k, v in st.env.items(): self.penv[k] = v
                return self.load_base(st, ('L', fr, 0))
            if t['t'] == 'call':
                args = [self.operand(st, fr, a) for a in t['a']]
                f = t['f'].get('k', {}).get('fn')
                path = f['path'] if f else '?'
                v = None
                if f and f.get('ctor'): v = self.ctor(f, args)
                if v is None: v = mk('call', path, tuple(self.vnf(st, a) for a in args), 'const:%s:%d' % (body.get('key', tag), bb))
                self.store(st, self.place(st, fr, t['d']), v)
                if 'to' not in t: return None
                bb = t['to']; continue
            return None
        return None
    def operand(self, st, fr, o):
        if 'c' in o: return self.load(st, self.place(st, fr, o['c']))
        if 'm' in o: return self.load(st, self.place(st, fr, o['m']))
        if 'k' in o: return self.const(st, fr, o['k'])
        return mk('rt', str(o.get('rt')))
    def drop_moved(self, st, fr, o):
        if 'm' in o and not o['m']['p']:
            st.env.pop(('L', fr, o['m']['l']), None)

    def rvalue(self, st, fr, s):
        r = s['r']
        if r == 'use': return self.operand(st, fr, s['x'])
        if r in ('ref', 'raw'): return ref(self.place(st, fr, s['x']))
        if r == 'cast':
            x = self.operand(st, fr, s['x']); ck = s['ck']
            if 'ReifyFnPointer' in ck or 'ClosureFnPointer' in ck or 'UnsafeFnPointer' in ck: return x
            if ck.startswith(('PointerCoercion', 'PtrToPtr', 'FnPtrToPtr', 'BoxDerefTransmute')): return x
            if ck.startswith('PointerExpose'): return mk('addr', x)
            if ck.startswith('Transmute') and ('*' in s['to'][:1] or '&' in s['to'][:1] or 'NonNull' in s['to']): return x
            if x.k == 'bool' and s['to'] in SCALARS: return INT(int(x.a[0]), s['to'])
            if x.k == 'int' and s['to'] in SCALARS and s['to'] not in ('f32', 'f64'):
                return INT(x.a[0], s['to'])
            return mk('cast', s['to'], x)
        if r == 'bin': return self.binop(st, s['op'], self.operand(st, fr, s['x']), self.operand(st, fr, s['y']))
        if r == 'un':
            x = self.operand(st, fr, s['x'])
            if s['op'] == 'Not':
                if x.k == 'bool': return mk('bool', not x.a[0])
                if x.k == 'un' and x.a[0] == 'Not': return x.a[1]
            return mk('un', s['op'], x)
        if r == 'discr':
            t = self.load(st, self.place(st, fr, s['x']))
            return self.discr(st, t, s.get('ty', ''), tuple(sorted(s.get('vs', {}).items())))
        if r == 'agg':
            xs = tuple(self.operand(st, fr, x) for x in s['xs'])
            if 'adt' in s:
                if s['adt'] in IDENTITY_OWNERS and len(xs) >= 1: return xs[0]
                return mk('agg', s['adt'], s['var'], tuple(s['fs']), xs)
            names = tuple(str(i) for i in range(len(xs)))
            if 'closure' in s: return mk('agg', 'closure:' + s['closure'], None, names, xs)
            if 'tuple' in s: return mk('agg', '()', None, names, xs)
            if 'array' in s: return mk('agg', '[]', None, names, xs)
            if 'rawptr' in s: return xs[0]
            return mk('agg', str(s.get('other')), None, names, xs)
        if r == 'repeat': return mk('repeat', self.operand(st, fr, s['x']), s['n'])
        if r == 'setdiscr': return mk('unk', 'setdiscr')
        return mk('unk', r, s.get('dbg', ''), str(s.get('sp')))
    def discr(self, st, t, ty, vs):
        v = self.vnf(st, t)
        if v.k == 'agg' and v.a[1] is not None: return mk('variant', v.a[1], vs)
        d = mk('discr', v, ty, vs)
        a = self.assume(d)
        if a is not None and len(a) == 1: return mk('variant', next(iter(a)), vs)
        f = st.facts.get(d)
        if f is not None and isinstance(f, frozenset) and len(f) == 1: return mk('variant', next(iter(f)), vs)
        return d
    def binop(self, st, op, x, y):
        for suf in ('WithOverflow',):
            if op.endswith(suf):
                o = op[:-len(suf)]
                return mk('agg', '()', None, ('0', '1'), (self.binop(st, o, x, y), mk('ovf', o, x, y)))
        if op.endswith('Unchecked'): op = op[:-9]
        if x.k == 'int' and y.k == 'int':
            a, b = x.a[0], y.a[0]
            c = {'Eq': a == b, 'Ne': a != b, 'Lt': a < b, 'Le': a <= b, 'Gt': a > b, 'Ge': a >= b}.get(op)
            if c is not None: return mk('bool', c)
            v = {'Add': a + b, 'Sub': a - b, 'Mul': a * b}.get(op)
            if v is not None and 0 <= v < 2**63: return INT(v, x.a[1])
        if x.k == 'bool' and y.k == 'bool':
            c = {'Eq': x is y, 'Ne': x is not y, 'BitAnd': x.a[0] and y.a[0], 'BitOr': x.a[0] or y.a[0], 'BitXor': x.a[0] != y.a[0]}.get(op)
            if c is not None: return mk('bool', c)
        if op in ('BitAnd', 'BitOr'):
            for p, q in ((x, y), (y, x)):
                if p.k == 'bool': return q if p.a[0] == (op == 'BitAnd') else p
        if x.k == 'variant' and y.k == 'variant' and op in ('Eq', 'Ne'): return mk('bool', (x.a[0] == y.a[0]) == (op == 'Eq'))
        for p, q in ((x, y), (y, x)):
            if p.k == 'variant' and q.k == 'int' and op in ('Eq', 'Ne') and len(p.a) > 1 and p.a[1]:
                return mk('bool', (dict(p.a[1]).get(str(q.a[0])) == p.a[0]) == (op == 'Eq'))
        if x.k == 'ptrmeta' or y.k == 'ptrmeta': pass
        if op in ('Eq', 'Ne'):
            if y.k == 'bool' and x.k != 'bool': 
                same = y.a[0] == (op == 'Eq')
                return x if same else mk('un', 'Not', x)
            if x.k == 'bool' and y.k != 'bool': return self.binop(st, op, y, x)
        return mk('bin', op, x, y)

    # ---- running
    def run(self, key, closure=None, args=None, init_facts=None):
        self.entry_key = key
        b = self.F.bodies[key]
        fr = self.frame(None, None, 0, key, None, None, None)
        env = {}
        for i in range(1, b['argc'] + 1):
            env[('L', fr, i)] = mk('arg', i - 1)
        if closure is not None:
            # a closure value captured in another run: its captures are given as value terms
            caps = closure
            if b['locals'][1]['ty'].startswith('&'):
                env[('L', fr, 'self')] = caps; env[('L', fr, 1)] = mk('ref', ('L', fr, 'self'), ())
            else: env[('L', fr, 1)] = caps
        if args:
            for i, a in args.items(): env[('L', fr, i)] = a
        st = St(env, dict(init_facts or {}))
        self.work = []
        self.entry = self.push(None, fr, 0, 0, st, None)
        n = 0
        while self.work:
            nid = self.work.pop()
            self.inwork.discard(nid)
            n += 1
            if n > 400000: raise Limit('no fixpoint')
            self.step(nid)
        self.finish()
        return self

    inwork = None
    STICKY = 24
    def push(self, src, fr, bb, phase, st, label):
        if self.inwork is None: self.inwork, self.ins, self.visits = set(), {}, {}
        f = self.frames[fr]
        live, addr = self.F.liveness(f.key)
        if phase == 0:
            keep = live[bb]
            for l in [k for k in st.env if k[0] == 'L' and k[1] == fr and isinstance(k[2], int) and k[2] not in keep and k[2] not in addr]:
                del st.env[l]
        part = self.partkey(st)
        lst = self.parts.setdefault((fr, bb, phase), {})
        if part not in lst and len(lst) >= self.part_cap: part = 'merged'
        nid = self.node(fr, bb, phase, part)
        lst[part] = nid
        k = 0 if src is None else len(self.outs[src])
        self.ins.setdefault(nid, {})[(src, k)] = st
        self.rejoin(nid)
        return nid
    def rejoin(self, nid):
        """recompute the state at nid from its incoming edges"""
        ins = list(self.ins[nid].values())
        if not ins: return
        old = self.instate.get(nid)
        n = self.visits[nid] = self.visits.get(nid, 0) + 1
        st = ins[0] if len(ins) == 1 and n < self.STICKY else self.join(nid, ins, old if n >= self.STICKY else None)
        if old is None or st.env != old.env or st.facts != old.facts:
            self.instate[nid] = st
            if nid not in self.inwork: self.work.append(nid); self.inwork.add(nid)
    def join(self, nid, ins, sticky):
        env, facts = {}, {}
        locs = set()
        for s in ins: locs.update(s.env)
        for loc in locs:
            vals = []
            for s in ins:
                v = s.env.get(loc)
                if v is None: v = self.penv.get(loc)
                if v is None and loc[0] in ('M', 'S'): v = self.load_base(s, loc)
                if v is None: break
                vals.append(v)
            if len(vals) < len(ins): continue
            if sticky is not None and loc in sticky.env: vals.append(sticky.env[loc])
            env[loc] = self.merge_terms(nid, loc, (), vals, sticky is not None)
        k0 = ins[0].facts
        for k, a in k0.items():
            if len(ins) > 1 and self.mentions_phi(k, nid): continue
            good = True
            for s in ins[1:]:
                b = s.facts.get(k)
                if b is None: good = False; break
                if a != b:
                    if isinstance(a, frozenset) and isinstance(b, frozenset): a = a | b
                    else: good = False; break
            if good: facts[k] = a
        return St(env, facts)

    def shape(self, t, d=0):
        if t.k == 'bool': return t.a[0]
        if t.k == 'agg':
            if d >= 3: return t.a[1]
            sub = tuple(self.shape(x, d + 1) for x in t.a[3][:8])
            v = t.a[1]
            ad = self.F.adts.get(t.a[0])
            if t.a[0].startswith('mrk_models') or (ad and ad['kind'] == 'enum') or t.a[0] == '()' or t.a[0].startswith('closure:') or d == 0 or True:
                if all(x is None for x in sub) and not (ad and ad['kind'] == 'enum'): return None
                return (v, sub)
        return None
    def partkey(self, st):
        out = []
        for k, t in st.env.items():
            if k[0] == 'M' and len(out) > 40: continue
            s = self.shape(t)
            if s is not None: out.append((repr_key(k), s))
        out.sort(key=lambda x: (str(x[0]), str(x[1])))
        return tuple(out)

    # ---- joins
    def merge_terms(self, nid, loc, path, vals, sticky=False):
        me = mk('phi', nid, (loc, path))
        if not sticky: vals = [v for v in vals if v is not me] or [me]
        elif me in vals: return me
        a = vals[0]
        if all(v is a for v in vals): return a
        if a.k == 'agg' and all(v.k == 'agg' and v.a[:3] == a.a[:3] for v in vals):
            return mk('agg', a.a[0], a.a[1], a.a[2], tuple(self.merge_terms(nid, loc, path + (n,), [v.a[3][i] for v in vals], sticky) for i, n in enumerate(a.a[2])))
        return me
    def mentions_phi(self, t, nid, depth=0):
        if isinstance(t, tuple): return any(self.mentions_phi(x, nid, depth) for x in t)
        if not isinstance(t, T): return False
        if t.k == 'phi': return t.a[0] == nid
        if depth > 12: return False
        return any(self.mentions_phi(x, nid, depth + 1) for x in t.a if isinstance(x, (T, tuple)))

    # ---- transfer
    def step(self, nid):
        fr, bb, phase, part = self.nodes[nid]
        st = self.instate[nid].copy()
        f = self.frames[fr]
        blk = f.body['blocks'][bb]
        stale = [m for (m, _, _) in self.outs.get(nid, ())]
        self.outs[nid] = []
        self.events[nid] = []
        self.cur = nid
        self.step1(nid, fr, bb, phase, st, f, blk)
        n = len(self.outs[nid])
        now = {(m, i) for i, (m, _, _) in enumerate(self.outs[nid])}
        for i, m in enumerate(stale):
            if (m, i) not in now and self.ins[m].pop((nid, i), None) is not None: self.rejoin(m)
    def step1(self, nid, fr, bb, phase, st, f, blk):
        if phase == 0:
            for s in blk['s']:
                if 'dead' in s:
                    st.env.pop(('L', fr, s['dead']), None); continue
                v = self.rvalue(st, fr, s)
                self.store(st, self.place(st, fr, s['d']), v)
                if 'x' in s and isinstance(s['x'], dict) and 'm' in s['x'] and s['d'] != s['x']['m']: self.drop_moved(st, fr, s['x'])
                for x in s.get('xs', []):
                    self.drop_moved(st, fr, x)
        t = blk['t']; k = t['t']
        if k == 'goto': self.go(nid, fr, t['to'], 0, st)
        elif k == 'return': self.do_return(nid, fr, st)
        elif k == 'switch': self.do_switch(nid, fr, t, st)
        elif k == 'drop': self.do_drop(nid, fr, bb, t, st, phase)
        elif k == 'assert':
            c = self.operand(st, fr, t['x'])
            self.event(nid, 'assert', t['msg'], None, None, [c], [self.vnf(st, c)], None, t, fr, bb)
            self.go(nid, fr, t['to'], 0, st)
        elif k == 'call': self.do_call(nid, fr, bb, t, st, phase)
        elif k in ('unreachable', 'resume', 'terminate'):
            self.event(nid, k, None, None, None, [], [], None, t, fr, bb)
        else:
            self.event(nid, 'other', t.get('dbg'), None, None, [], [], None, t, fr, bb)

    def event(self, nid, kind, path, res, fn, raw, v, result, t, fr, bb, site=None, extra=None):
        e = Ev(); e.kind, e.path, e.res, e.fn, e.raw, e.v, e.result, e.node = kind, path, res, fn, tuple(raw), tuple(v), result, nid
        e.span = t.get('sp', '?'); e.site = site; e.at = t.get('at', []); e.dt = t.get('dt'); e.extra = extra; e.body = self.frames[fr].key
        self.events[nid].append(e)
        return e

    def go(self, nid, fr, bb, phase, st, label=None):
        self.outs[nid].append((self.push(nid, fr, bb, phase, st, label), label, st))

    def do_return(self, nid, fr, st):
        f = self.frames[fr]
        v = st.env.get(('L', fr, 0), UNIT)
        if f.parent is None:
            self.returns[nid] = st
            self.event(nid, 'return', None, None, None, [v], [self.vnf(st, v)], v, {'sp': f.body.get('span')}, fr, 0)
            return
        st2 = st.copy()
        p = self.frames[f.parent]
        for k in [k for k in st2.env if k[0] == 'L' and k[1] == fr]: del st2.env[k]
        if not f.discard and f.dest is not None:
            self.store(st2, self.place(st2, f.parent, f.dest), v)
        self.go(nid, f.parent, f.retbb, f.retphase, st2)

    def do_switch(self, nid, fr, t, st):
        x = self.operand(st, fr, t['x'])
        cases = t['cases']
        if x.k == 'bool':
            val = '1' if x.a[0] else '0'
            to = next((c[1] for c in cases if c[0] == val), t['else'])
            self.go(nid, fr, to, 0, st); return
        if x.k == 'int':
            to = next((c[1] for c in cases if int(c[0]) == x.a[0]), t['else'])
            self.go(nid, fr, to, 0, st); return
        if x.k == 'variant':
            names = self.variant_names(fr, t)
            for c in cases:
                if names.get(c[0]) == x.a[0]: self.go(nid, fr, c[1], 0, st); return
            self.go(nid, fr, t['else'], 0, st); return
        if x.k == 'discr':
            vs = dict(x.a[2])
            known = st.facts.get(x)
            a = self.assume(x)
            if a is not None: known = a if known is None else (known & a)
            rest = set(vs.values())
            for c in cases:
                n = vs.get(c[0], c[0]); rest.discard(n)
                if known is not None and n not in known: continue
                s2 = st.copy(); s2.facts[x] = frozenset([n])
                self.go(nid, fr, c[1], 0, s2, ('variant', x, n))
            if not vs or (rest and (known is None or known & rest)):
                if self.F_unreachable(fr, t['else']): return
                s2 = st.copy()
                if vs: s2.facts[x] = frozenset(rest if known is None else rest & known)
                self.go(nid, fr, t['else'], 0, s2, ('variant', x, next(iter(rest)) if len(rest) == 1 else frozenset(rest)))
            return
        v = self.vnf(st, x)
        if t.get('ty') == 'bool':
            neg = False
            while v.k == 'un' and v.a[0] == 'Not': v = v.a[1]; neg = not neg
            if v.k == 'bin' and v.a[0] in ('Eq', 'Ne'):
                d, i = v.a[1:] if v.a[1].k == 'discr' else (v.a[2], v.a[1])
                vs = dict(d.a[2]) if d.k == 'discr' and i.k in ('int', 'variant') else {}
                name = i.a[0] if i.k == 'variant' else vs.get(str(i.a[0] if i.k == 'int' else ''))
                if name in vs.values():
                    rest = frozenset(set(vs.values()) - {name})
                    known = st.facts.get(d); a = self.assume(d)
                    if a is not None: known = a if known is None else (known & a)
                    for val, to in self.bool_targets(cases, t['else']):
                        now = frozenset([name]) if (val != neg) == (v.a[0] == 'Eq') else rest
                        if known is not None: now = now & known
                        if not now: continue
                        s2 = st.copy(); s2.facts[d] = now
                        self.go(nid, fr, to, 0, s2, ('variant', d, next(iter(now)) if len(now) == 1 else now))
                    return
            known = st.facts.get(v)
            for val, to in self.bool_targets(cases, t['else']):
                vv = val != neg
                if known is not None and known != vv: continue
                s2 = st.copy(); s2.facts[v] = vv
                if v.k == 'bin' and v.a[0] in ('BitAnd', 'BitOr') and vv == (v.a[0] == 'BitAnd'):
                    for w in v.a[1:]: s2.facts[w] = vv
                self.go(nid, fr, to, 0, s2, ('bool', v, vv))
            return
        known = st.facts.get(v)
        for c in cases:
            s2 = st.copy(); s2.facts[v] = ('eq', int(c[0]))
            if known is not None and known[0] == 'eq' and known[1] != int(c[0]): continue
            self.go(nid, fr, c[1], 0, s2, ('int', v, int(c[0])))
        s2 = st.copy()
        if not self.F_unreachable(fr, t['else']): self.go(nid, fr, t['else'], 0, s2, ('int', v, None, tuple(int(c[0]) for c in cases)))
    def F_unreachable(self, fr, bb):
        b = self.frames[fr].body['blocks'][bb]
        return b['t']['t'] == 'unreachable' and not b['s']
    def bool_targets(self, cases, els):
        d = {c[0]: c[1] for c in cases}
        return [(False, d.get('0', els)), (True, d.get('1', els))]
    def variant_names(self, fr, t):
        # the discriminant was read in some block of this body: use its table
        body = self.frames[fr].body
        l = t['x'].get('c', t['x'].get('m', {})).get('l')
        for bb in body['blocks']:
            for s in bb['s']:
                if 'dead' not in s and s.get('r') == 'discr' and s['d']['l'] == l and s.get('vs'): return s['vs']
        return {}

    def do_drop(self, nid, fr, bb, t, st, phase):
        pl = self.place(st, fr, t['x'])
        c = self.load(st, pl)
        v = self.vnf(st, c)
        if phase == 0:
            self.event(nid, 'drop', t['ty'], None, None, [c], [v], None, t, fr, bb, extra=t.get('fx'))
        fx = [x for x in t.get('fx', []) if x.get('key')] if self.drops_inline else []
        if phase < len(fx) and fx[phase]['key'] in self.F.bodies and self.can_inline(fr, fx[phase]['key'], force=True):
            nf = self.frame(fr, bb, phase, fx[phase]['key'], None, bb, phase + 1, True)
            s2 = st.copy()
            direct = self.F.bodies[fx[phase]['key']]['locals'][1]['ty'] == '&mut ' + t['ty']
            s2.env[('L', nf, 1)] = ref(pl) if direct else mk('fresh', self.site(fr, bb, 'drop%d' % phase), fx[phase]['adt'])
            self.go(nid, nf, 0, 0, s2)
            return
        st.env.pop(('L', fr, t['x']['l']), None) if not t['x']['p'] else None
        self.go(nid, fr, t['to'], 0, st)

    # ---- calls
    def can_inline(self, fr, key, force=False):
        b = self.F.bodies.get(key)
        if b is None: return False
        f = self.frames[fr]
        if f.depth >= self.max_depth or f.stack.count(key) >= 1 and not key.startswith(('core::', '<core::', 'mrk_models', '<mrk_models')) or f.stack.count(key) > 3: return False
        if key.startswith('mrk_models::intr::') or key.startswith('mrk_models::once_'): return False
        if self.opaque(b): return False
        if force: return True
        cr = b['crate']
        return cr in self.inline_crates or cr == 'mrk_models' or cr in ('core', 'alloc', 'std') or bool(self.inline_extra and self.inline_extra(b))

    def enter(self, nid, fr, bb, phase, t, key, args, st, dest, retbb, retphase, discard=False):
        nf = self.frame(fr, bb, phase, key, dest, retbb, retphase, discard)
        s2 = st.copy()
        for k in [k for k in s2.env if k[0] == 'L' and k[1] == nf]: del s2.env[k]
        body = self.F.bodies[key]
        for i, a in enumerate(args): s2.env[('L', nf, i + 1)] = a
        # prune caller locals that are dead after the call
        if retbb is not None and retphase == 0:
            live, addr = self.F.liveness(self.frames[fr].key)
            for k in [k for k in s2.env if k[0] == 'L' and k[1] == fr and isinstance(k[2], int) and k[2] not in live[retbb] and k[2] not in addr]:
                if dest is not None and k[2] == dest['l']: continue
                del s2.env[k]
        self.go(nid, nf, 0, 0, s2)

    def ctor(self, f, args):
        p = f['path']
        parent = p.rsplit('::', 1)[0]
        ad = self.F.adts.get(parent)
        names = tuple(str(i) for i in range(len(args)))
        if ad and ad['kind'] == 'enum': return mk('agg', parent, p.rsplit('::', 1)[1], names, tuple(args))
        if p in self.F.adts:
            return mk('agg', p, p.rsplit('::', 1)[1], names, tuple(args))
        if parent in ('core::option::Option', 'core::result::Result', 'core::ops::control_flow::ControlFlow', 'alloc::borrow::Cow') or parent.rsplit('::', 1)[-1][:1].isupper():
            return mk('agg', parent, p.rsplit('::', 1)[1], names, tuple(args))
        return mk('agg', p, p.rsplit('::', 1)[1], names, tuple(args))

    def do_call(self, nid, fr, bb, t, st, phase):
        args = [self.operand(st, fr, a) for a in t['a']]
        callee = t['f']
        if 'k' in callee and 'fn' in callee['k']: rec, cterm = callee['k']['fn'], None
        else:
            cterm = self.operand(st, fr, callee); rec = None
            if cterm.k == 'fn': rec = FNS[cterm.a[0]]; cterm = None
        self.call(nid, fr, bb, t, st, phase, rec, cterm, args)

    def moved(self, st, fr, t):
        for a in t['a']: self.drop_moved(st, fr, a)

    def ret(self, nid, fr, t, st, v, label=None, facts=None):
        """deliver result v of the call terminator t"""
        if 'to' not in t: return
        s2 = st.copy()
        self.moved(s2, fr, t)
        if facts:
            for k, x in facts.items(): s2.facts[k] = x
        self.store(s2, self.place(s2, fr, t['d']), v)
        self.go(nid, fr, t['to'], 0, s2, label)

    def call_value(self, nid, fr, bb, t, st, phase, cv, args):
        """call a function value with already separated arguments; True if handled"""
        pl, c = self.chase(st, cv)
        if c.k == 'fn':
            self.call(nid, fr, bb, t, st, phase, FNS[c.a[0]], None, args); return True
        if c.k == 'agg' and c.a[0].startswith('closure:'):
            key = self.closure_key(c.a[0][8:])
            if key is None or not self.can_inline(fr, key, True): return False
            body = self.F.bodies[key]
            if phase != 0: return False
            nf = self.frame(fr, bb, phase, key, t['d'], t.get('to'), 0)
            s2 = st.copy()
            self.moved(s2, fr, t)
            if body['locals'][1]['ty'].startswith('&'):
                if pl is None:
                    pl = (('L', nf, 'self'), ())
                    s2.env[pl[0]] = c
                selfarg = ref(pl)
            else: selfarg = c
            if 'to' not in t: return True
            s3 = s2
            for k in [k for k in s3.env if k[0] == 'L' and k[1] == nf and k[2] != 'self']: del s3.env[k]
            for i, a in enumerate([selfarg] + list(args)): s3.env[('L', nf, i + 1)] = a
            self.go(nid, nf, 0, 0, s3)
            return True
        return False
    def closure_key(self, path):
        if path in self.F.bodies: return path
        for k in self.F.bodies:
            if k.startswith(path + '<'): return k
        return None

    def call(self, nid, fr, bb, t, st, phase, rec, cterm, args):
        F = self.F
        if rec is None:
            if self.call_value(nid, fr, bb, t, st, phase, cterm, args): return
            return self.opaque_call(nid, fr, bb, t, st, phase, '<indirect>', None, None, [cterm] + args)
        path, res = rec['path'], rec.get('res')
        if rec.get('ctor'): return self.ret(nid, fr, t, st, self.ctor(rec, args))
        if path in FN_TRAITS:
            pl, tup = self.chase(st, args[1])
            if tup.k == 'agg': sub = list(tup.a[3])
            else: sub = [self.project(tup, ('f', str(i))) for i in range(0)]
            if self.call_value(nid, fr, bb, t, st, phase, args[0], sub): return
            tgt = rec.get('target')
            if tgt: return self.call(nid, fr, bb, t, st, phase, tgt, None, sub)
            key = rec.get('key')
            if not (key and self.can_inline(fr, key)):
                return self.opaque_call(nid, fr, bb, t, st, phase, '<indirect>', None, rec, [args[0]] + sub)
        m = self.pymodel(nid, fr, bb, t, st, phase, rec, path, res, args)
        if m: return
        model = self.model_for(st, rec, path, res, args, t)
        if model is not None and not (rec.get('key') and self.can_inline(fr, rec['key']) and rec['key'] in F.bodies and F.bodies[rec['key']]['crate'] not in ('core', 'alloc', 'std')):
            s2 = st.copy(); self.moved(s2, fr, t)
            if 'to' not in t: return
            return self.enter(nid, fr, bb, phase, t, model, args, s2, t['d'], t['to'], 0)
        key = rec.get('key')
        if key and self.can_inline(fr, key):
            if 'to' not in t:
                s2 = st.copy()
                return self.enter(nid, fr, bb, phase, t, key, args, s2, None, None, 0)
            s2 = st.copy(); self.moved(s2, fr, t)
            return self.enter(nid, fr, bb, phase, t, key, args, s2, t['d'], t['to'], 0)
        # trait method on a receiver whose type is known from its term
        if rec.get('trait') and args:
            pl, c = self.chase(st, args[0])
            if c.k == 'agg' and c.a[0]:
                tr, meth = path.rsplit('::', 1)
                k2 = '<%s as %s>::%s' % (c.a[0], tr, meth)
                if k2 in F.bodies and self.can_inline(fr, k2):
                    s2 = st.copy(); self.moved(s2, fr, t)
                    want_ref = F.bodies[k2]['locals'][1]['ty'].startswith('&')
                    a0 = (ref(pl) if pl else args[0]) if want_ref else c
                    if 'to' in t: return self.enter(nid, fr, bb, phase, t, k2, [a0] + args[1:], s2, t['d'], t['to'], 0)
        return self.opaque_call(nid, fr, bb, t, st, phase, path, res, rec, args)

    def model_for(self, st, rec, path, res, args, t):
        if path in self.nomodel: return None
        if path == ITER + 'collect':
            dt = t.get('dt', '')
            if dt.startswith('core::result::Result'): return 'mrk_models::collect_result'
            if dt.startswith('core::option::Option'): return 'mrk_models::collect_option'
            return 'mrk_models::collect'
        if path in (ITER + 'try_for_each', ITER + 'try_fold'):
            n = path.rsplit('::', 1)[1]; dt = t.get('dt', '')
            if dt.startswith('core::result::Result'): return 'mrk_models::%s_result' % n
            if dt.startswith('core::option::Option'): return 'mrk_models::%s_option' % n
            if n == 'try_for_each' and 'ControlFlow' in dt: return 'mrk_models::try_for_each_cf'
            return None
        if path == 'core::iter::traits::collect::IntoIterator::into_iter' and res and res.startswith('<core::option::Option as'):
            return 'mrk_models::opt_into_iter'
        if path == 'core::iter::traits::collect::FromIterator::from_iter':
            dt = t.get('dt', '')
            if dt.startswith(('core::result::Result', 'core::option::Option')): return None
        m = MODELS.get(path)
        if m == 'mrk_models::extend' and res and 'metriken' in res: return None
        return m if m in self.F.bodies else None

    # ---- small python models of library functions
    def pymodel(self, nid, fr, bb, t, st, phase, rec, path, res, args):
        site = self.site(fr, bb)
        if path in (ITER + 'next', DEI + 'next_back'):
            if rec.get('key') and self.can_inline(fr, rec['key']): return False
            pl, c = self.chase(st, args[0])
            if c.k == 'agg' and '<%s as %s>::%s' % (c.a[0], path.rsplit('::', 1)[0], path.rsplit('::', 1)[1]) in self.F.bodies: return False
            base = self.vnf(st, c)
            if base.k == 'agg' and base.a[0] in ('core::ops::range::Range',): base = mk('rangeit', base.a[3][0], base.a[3][1]) if len(base.a[3]) == 2 else base
            self.rename(st, site)
            kind = 'next' if path.endswith('::next') else 'next_back'
            item = mk('item', base, site)
            self.event(nid, kind, path, res, rec, args, [base], item, t, fr, bb, site)
            if 'to' not in t: return True
            if st.facts.get(('exhausted', base)) is not True:
                self.ret(nid, fr, t, st, mk('agg', 'core::option::Option', 'Some', ('0',), (item,)), (kind, base, 'Some'))
            self.ret(nid, fr, t, st, mk('agg', 'core::option::Option', 'None', (), ()), (kind, base, 'None'), {('exhausted', base): True} )
            return True
        if path == 'core::iter::traits::collect::IntoIterator::into_iter':
            if rec.get('key') and self.can_inline(fr, rec['key']): return False
            pl, c = self.chase(st, args[0])
            if res and res.startswith('<I as '):
                self.ret(nid, fr, t, st, args[0]); return True
            if c.k == 'agg' and c.a[0].startswith('mrk_models::'):
                self.ret(nid, fr, t, st, args[0]); return True
            if res and res.startswith('<core::option::Option as'): return False
            if c.k in ('src', 'item_iter'): self.ret(nid, fr, t, st, args[0]); return True
            if c.k == 'agg' and c.a[0] == 'core::option::Option': return self.enter_model(nid, fr, bb, phase, t, st, 'mrk_models::opt_into_iter', args)
            self.event(nid, 'iter', path, res, rec, args, [self.vnf(st, a) for a in args], None, t, fr, bb, site)
            self.ret(nid, fr, t, st, mk('src', self.vnf(st, args[0]), 'into_iter', site)); return True
        last = path.rsplit('::', 1)[-1]
        if last in SRC_METHODS and path.startswith(STD) and not path.startswith('core::option') and not rec.get('trait') and len(args) >= 1:
            self.event(nid, 'iter', path, res, rec, args, [self.vnf(st, a) for a in args], None, t, fr, bb, site)
            self.ret(nid, fr, t, st, mk('src', self.vnf(st, args[0]), last if len(args) == 1 else last + '/' + ','.join(str(self.vnf(st, a)) for a in args[1:]), site)); return True
        if path in ('core::pin::Pin::as_ref', 'core::pin::Pin::as_mut'):
            a = args[0]
            self.ret(nid, fr, t, st, self.load(st, (a.a[0], a.a[1])) if a.k == 'ref' else mk('deref', a)); return True
        if path == 'mrk_models::intr::content': self.ret(nid, fr, t, st, self.smart(st, args[0])); return True
        if path in IDENT_CALLS: self.ret(nid, fr, t, st, args[0]); return True
        if path in ('core::ops::deref::Deref::deref', 'core::ops::deref::DerefMut::deref_mut') and not (rec.get('key') and self.can_inline(fr, rec['key'])):
            if rec.get('rk') != 'unresolved' and not (res or '').startswith('<metriken'):
                pl, c = self.chase(st, args[0], 1)
                v = c if pl is not None else mk('deref', c) if c.k != 'deref' else c
                # the pointer obtained from a smart pointer is identified with its content
                self.event(nid, 'deref', path, res, rec, args, [self.vnf(st, args[0])], None, t, fr, bb, site)
                self.ret(nid, fr, t, st, self.smart(st, args[0])); return True
        if path in ('core::convert::AsRef::as_ref', 'core::borrow::Borrow::borrow', 'core::convert::AsMut::as_mut') and rec.get('rk') != 'unresolved' and not (res or '').startswith('<metriken') and not (res or '').startswith('metriken'):
            self.ret(nid, fr, t, st, self.smart(st, args[0])); return True
        if path in ('alloc::string::String::as_str', 'alloc::vec::Vec::as_slice', 'alloc::vec::Vec::as_mut_slice', 'alloc::string::String::as_mut_str', '[T]::as_slice', '[T;N]::as_slice', 'core::array::as_slice', 'str::as_str', 'alloc::boxed::Box::as_ref', 'core::ops::index::Index::index#full'):
            self.ret(nid, fr, t, st, self.smart(st, args[0])); return True
        if path in HEAP_NEW:
            h = ('H', site)
            self.rename(st, site)
            st.env[h] = args[0]
            self.ret(nid, fr, t, st, mk('ref', h, ())); return True
        if path == 'alloc::boxed::Box::new_uninit':
            h = ('H', site); st.env[h] = mk('uninit', h)
            self.ret(nid, fr, t, st, mk('ref', h, ())); return True
        if path == 'alloc::boxed::box_assume_init_into_vec_unsafe':
            v = self.vnf(st, args[0])
            self.rename(st, site)
            r = mk('call', 'vec!', (v,), site)
            self.event(nid, 'call', 'vec!', 'vec!', rec, args, [v], r, t, fr, bb, site)
            self.ret(nid, fr, t, st, r); return True
        if path in ('alloc::vec::Vec::split_off', 'alloc::string::String::split_off') and len(args) == 2 and args[1].k == 'int' and args[1].a[0] == 0: path = 'core::mem::take'
        if path in ('core::mem::take', 'core::mem::replace', 'core::cell::Cell::take', 'core::cell::Cell::replace') and path.startswith('core::mem'):
            pl = self.pointee(st, args[0])
            old = self.load(st, pl)
            self.rename(st, site)
            new = args[1] if path.endswith('replace') else mk('call', 'core::default::Default::default', (), site)
            self.event(nid, 'take', path, res, rec, args, [self.vnf(st, old)], old, t, fr, bb, site)
            self.store(st, pl, new)
            self.ret(nid, fr, t, st, old); return True
        if path == 'core::mem::swap':
            p1, p2 = self.pointee(st, args[0]), self.pointee(st, args[1])
            a, b = self.load(st, p1), self.load(st, p2)
            self.store(st, p1, b); self.store(st, p2, a)
            self.ret(nid, fr, t, st, UNIT); return True
        if path in ('core::ptr::read', '*const T::read', '*mut T::read'):
            self.ret(nid, fr, t, st, self.load(st, self.pointee(st, args[0]))); return True
        if path in ('core::ptr::write', '*mut T::write'):
            self.store(st, self.pointee(st, args[0]), args[1]); self.ret(nid, fr, t, st, UNIT); return True
        if path == 'core::intrinsics::discriminant_value' or path == 'core::mem::discriminant':
            pl, c = self.chase(st, args[0])
            ty = (rec.get('args') or [''])[0]
            ad = self.F.adts.get(ty.split('<')[0])
            vs = tuple((str(i), v['n']) for i, v in enumerate(ad['vars'])) if ad else ()
            self.ret(nid, fr, t, st, self.discr(st, c, ty, vs)); return True
        if path == 'core::ops::try_trait::Try::branch' and rec.get('rk') == 'unresolved': return False
        if path == 'core::fmt::Arguments::new':
            self.ret(nid, fr, t, st, mk('fmtargs', self.fmt_pieces(st, args))); return True
        if path == 'core::fmt::Arguments::from_str':
            self.ret(nid, fr, t, st, mk('fmtargs', (self.vnf(st, args[0]),))); return True
        if path.startswith('core::fmt::rt::Argument::new_'):
            self.ret(nid, fr, t, st, mk('fmtarg', path.rsplit('new_', 1)[1], self.vnf(st, args[0]))); return True
        if path == 'alloc::fmt::format':
            a = self.vnf(st, args[0])
            self.rename(st, site)
            r = mk('call', 'format!', a.a[0] if a.k == 'fmtargs' else (a,), site)
            self.event(nid, 'call', 'format!', 'format!', rec, args, [a], r, t, fr, bb, site)
            self.ret(nid, fr, t, st, r); return True
        if path == 'core::ops::arith::Add::add' and res and res.startswith('<alloc::string::String as'):
            pl, obj = self.chase(st, args[0])
            self.event(nid, 'append', path, res, rec, args, [self.vnf(st, a) for a in args], obj, t, fr, bb, site)
            self.ret(nid, fr, t, st, args[0]); return True
        if path == 'core::option::Option::insert' or path == 'core::option::Option::get_or_insert_with': return False
        return False
    def enter_model(self, nid, fr, bb, phase, t, st, model, args):
        if 'to' not in t: return True
        s2 = st.copy(); self.moved(s2, fr, t)
        self.enter(nid, fr, bb, phase, t, model, args, s2, t['d'], t['to'], 0); return True
    def smart(self, st, a):
        """&SmartPtr -> &Target: the target is identified with the smart pointer's own content"""
        if a.k == 'ref':
            c = self.load(st, (a.a[0], a.a[1]))
            if c.k == 'ref': return c          # Box/Arc made here: its heap content
            if c.k == 'agg': return a
            return a if a.a[0][0] in ('L', 'H', 'P') and c.k in ('agg', 'upd', 'mutd') else (c if a.a[0][0] == 'L' and not a.a[1] and c.k in ('call', 'arg', 'old', 'phi', 'item', 'static') else a)
        return a
    def fmt_pieces(self, st, args):
        tpl = self.vnf(st, args[0])
        arr = self.vnf(st, args[1])
        vals = [x.a[1] if x.k == 'fmtarg' and x.a[0] == 'display' else x for x in (arr.a[3] if arr.k == 'agg' else ())]
        if tpl.k not in ('bytes', 'agg') : return (tpl, arr)
        try: data = bytes.fromhex(tpl.a[0]) if tpl.k == 'bytes' else bytes(x.a[0] for x in tpl.a[3])
        except Exception: return (tpl, arr)
        out, i, nx = [], 0, 0
        while i < len(data):
            c = data[i]
            if c == 0: break
            if c < 0x80: out.append(STR(data[i + 1:i + 1 + c].decode('utf8', 'replace'))); i += 1 + c
            elif c == 0x80: n = data[i + 1] | data[i + 2] << 8; out.append(STR(data[i + 3:i + 3 + n].decode('utf8', 'replace'))); i += 3 + n
            elif c == 0xc0: out.append(vals[nx] if nx < len(vals) else mk('unk', 'fmt')); nx += 1; i += 1
            else:
                # placeholder with options or an explicit index
                i += 1
                opts = []
                if c & 1: opts.append(('flags', data[i:i + 4].hex())); i += 4
                if c & 2: opts.append(('width', data[i:i + 2].hex())); i += 2
                if c & 4: opts.append(('prec', data[i:i + 2].hex())); i += 2
                if c & 8: nx = data[i] | data[i + 1] << 8; i += 2
                v = vals[nx] if nx < len(vals) else mk('unk', 'fmt')
                nx += 1
                out.append(v if not opts else mk('fmtopt', v, str(opts)))
        return tuple(out)

    def rename(self, st, site):
        """a call site is executed again: values of its previous execution become 'old'"""
        hit = [k for k, v in st.env.items() if site in v.sites]
        if hit:
            memo = {}
            for k in hit: st.env[k] = self.age(st.env[k], site, memo)
        h = ('H', site)
        for k in [k for k in st.facts if site in _sites_of(k)]: del st.facts[k]
    def age(self, t, site, memo):
        if not isinstance(t, T):
            return tuple(self.age(x, site, memo) for x in t) if isinstance(t, tuple) else t
        if site not in t.sites: return t
        r = memo.get(t)
        if r is None:
            if (t.k == 'call' and t.a[2] == site) or (t.k == 'item' and t.a[1] == site) or (t.k in ('mut', 'fresh', 'cbarg') and t.a[0] == site):
                r = mk('old', t.a[0] if t.k == 'call' else t.k, site)
            else: r = mk(t.k, *[self.age(x, site, memo) for x in t.a])
            memo[t] = r
        return r

    def opaque_call(self, nid, fr, bb, t, st, phase, path, res, rec, args):
        # closures handed to unknown code may run, any number of times
        cls = []
        for a in args:
            pl, c = self.chase(st, a)
            if c.k == 'agg' and c.a[0].startswith('closure:'):
                k = self.closure_key(c.a[0][8:])
                if k and self.can_inline(fr, k, True): cls.append((k, pl, c))
        if phase < len(cls):
            k, pl, c = cls[phase]
            nf = self.frame(fr, bb, phase, k, None, bb, phase + 1, True)
            s2 = st.copy()
            body = self.F.bodies[k]
            if body['locals'][1]['ty'].startswith('&'):
                if pl is None: pl = (('L', nf, 'self'), ()); s2.env[pl[0]] = c
                sa = ref(pl)
            else: sa = c
            s2.env[('L', nf, 1)] = sa
            for i in range(2, body['argc'] + 1): s2.env[('L', nf, i)] = mk('cbarg', self.site(fr, bb), i - 2)
            self.go(nid, nf, 0, 0, s2, ('callback', k))
            self.go(nid, fr, bb, phase + 1, st.copy(), ('nocallback', k))
            return
        site = self.site(fr, bb)
        vargs = tuple(self.vnf(st, a) for a in args)
        self.rename(st, site)
        r = mk('call', path if not (rec and rec.get('trait') and res) else path, vargs, site)
        self.event(nid, 'call', path, res, rec, args, vargs, r, t, fr, bb, site)
        # effects through &mut on values without identity
        for a, ty in zip(args, t.get('at', []) if path != '<indirect>' else [''] * len(args)):
            if ty.startswith('&mut ') and a.k == 'ref':
                c = self.load(st, (a.a[0], a.a[1]))
                inner = ty[5:]
                if c.k in ('int', 'bool', 'str', 'bin', 'variant') or inner in SCALARS or (c.k == 'agg' and not c.a[0].startswith(('mrk_models', 'closure')) and c.a[0] not in ('()', '[]')):
                    self.store(st, (a.a[0], a.a[1]), mk('mut', site, c))
        self.ret(nid, fr, t, st, r)

    # ---- result graph
    def finish(self):
        """keep what is reachable over the final out-edges; compute phi inputs and predecessors"""
        self.succ, self.pred, self.edges = {}, {}, {}
        seen, todo = {self.entry}, [self.entry]
        while todo:
            n = todo.pop()
            self.succ[n] = []
            for (m, label, st) in self.outs.get(n, []):
                self.succ[n].append((m, label)); self.pred.setdefault(m, []).append((n, label))
                self.edges.setdefault((n, m), []).append(st)
                if m not in seen: seen.add(m); todo.append(m)
        self.reach = seen
        self._phi_in = {}
    def phi_inputs(self, phi):
        """value terms that flow into a phi"""
        if phi in self._phi_in: return self._phi_in[phi]
        nid, (loc, path) = phi.a
        out = []
        self._phi_in[phi] = out
        for (p, label) in self.pred.get(nid, []):
            for st in self.edges.get((p, nid), []):
                if loc in st.env or loc[0] in ('M', 'S'):
                    v = self.load_base(st, loc)
                    for n in path: v = self.project(v, ('f', n))
                    v = self.vnf(st, v)
                    if v is not phi and v not in out: out.append(v)
        return out
    def all_events(self, *kinds):
        for n in sorted(self.reach):
            for e in self.events.get(n, []):
                if not kinds or e.kind in kinds: yield e
    def fn_of(self, nid): return self.frames[self.nodes[nid][0]].key
    def dump(self):
        for n in sorted(self.reach):
            fr, bb, ph, part = self.nodes[n]
            for e in self.events.get(n, []):
                print('n%d %s bb%s: %s' % (n, short(self.frames[fr].key), bb, e))
            for m, l in self.succ[n]:
                if l: print('   n%d -> n%d  %s' % (n, m, l))

def repr_key(k):
    return tuple(x.id if isinstance(x, T) else x for x in k)
