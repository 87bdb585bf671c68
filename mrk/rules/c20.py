"""C20: no undefined behaviour and no data race from safe code."""
import re
from ..frame import rule, Missing
from ..q import *
from ..core import T, mk, show, short
from ..witness import witnesses
from ..registry import entry_points
from . import c01, c05
SCOPE = 'core'
THOROUGH = ('all',)
TECHNIQUE = 'static analysis: classification of every unchecked operation, pointer provenance and layout checks over compiler MIR, compiler-computed auto-trait bounds of every unsafe impl, plus compile-fail witnesses'
EXPLAIN = ("Every raw-pointer dereference, transmute and call of an unsafe function in the crates is enumerated from MIR and judged by where its pointer comes from: a reference may be reinterpreted only as a layout-transparent wrapper of the same type (and only shared as shared), an erased slot only after its tag check (C05's rule), an entry's metric pointer only "
           "because registrations and removals keep it valid (C01's rules); a reference that is only detached from its lifetime, a pointer argument of a safe public function, or any other unchecked call is a violation. For every unsafe Send or Sync impl the compiler is asked, under the impl's own bounds, which fields lack the trait: those may only be pointers to thread-safe metrics, or cells holding Send data that are touched solely by the "
           "once-only initialiser or through exclusive access. Compile-fail witnesses (each with a twin that must build) show that non-thread-safe metrics, initialisers and provided data cannot reach places other threads read.")
ASSUME = ["once_cell runs an initialiser at most once at a time and publishes its effects", "linkme and parking_lot are sound"]
CR = ('metriken_core', 'metriken', 'metriken_exposition')
PTRFN = ('cast', 'cast_mut', 'cast_const', 'as_ptr', 'as_mut_ptr', 'from_ref', 'from_mut', 'from', 'new_unchecked', 'into', 'byte_add', 'add', 'wrapping_add')

def operand(x): return x.get('c') or x.get('m') if isinstance(x, dict) else None

def defs(b):
    """local -> [(kind, info, block)] of what is assigned to it as a whole"""
    d = {}
    for i, bb in enumerate(b['blocks']):
        for s in bb['s']:
            if 'd' in s and not s['d']['p']: d.setdefault(s['d']['l'], []).append(s)
        t = bb['t']
        if t['t'] == 'call' and t.get('d') and not t['d']['p']: d.setdefault(t['d']['l'], []).append(t)
    return d

def pointee(t):
    m = re.match(r"^(\*const |\*mut |&'\w+ mut |&'\w+ |&mut |&)", t)
    if m: return t[m.end():]
    for p in ('core::ptr::non_null::NonNull<', 'alloc::boxed::Box<'):
        if t.startswith(p): return t[len(p):-1]
    return None

class Origins:
    def __init__(self, ctx): self.ctx = ctx
    def of(self, b, l, conv=(), seen=()):
        """(origin, pointee conversions on the way) of what local l may point to"""
        if (id(b), l) in seen or len(seen) > 60: return
        seen = seen + ((id(b), l),)
        ty = b['locals'][l]['ty']
        ds = self.cache(b).get(l, [])
        if not ds and 0 < l <= b['argc']:
            yield ('arg', ty, l), conv; return
        for s in ds:
            if s.get('t') == 'call':
                f = s.get('f', {}).get('k', {}).get('fn') or {}
                p = f.get('path', '')
                if p and last(p) in PTRFN and p.startswith(('core::', 'std::', 'alloc::', '*const T::', '*mut T::')) and s['a'] and operand(s['a'][0]):
                    o = operand(s['a'][0]); frm, to = pointee(s['at'][0]), pointee(s['dt'])
                    if last(p) in ('byte_add', 'add', 'wrapping_add'): yield ('offset', p, s.get('sp')), conv; continue
                    c = conv + (((frm, to),) if frm and to and frm != to else ())
                    yield from self.place(b, o, c, seen)
                elif f.get('key') in self.ctx.F.bodies: yield from self.of(self.ctx.F.bodies[f['key']], 0, conv, seen)
                else: yield ('call', p, s.get('sp')), conv
                continue
            r = s.get('r')
            if r == 'use':
                o = operand(s['x'])
                if o is None: yield ('const', str(s['x'])[:80], s.get('sp')), conv
                else: yield from self.place(b, o, conv, seen)
            elif r in ('raw', 'ref'):
                pl = s['x']
                if '*' in pl['p']:
                    i = pl['p'].index('*')
                    bt = b['locals'][pl['l']]['ty']
                    if i == 0 and len(pl['p']) == 1:
                        if bt.startswith('&'): yield ('ref', bt, pl['l']), conv
                        else: yield from self.of(b, pl['l'], conv, seen)
                    else: yield ('ref', ('&mut ' if s.get('mut') else '&') + 'place', pl['l']), conv + ((None, None),)
                else: yield ('local', b['locals'][pl['l']]['ty'], pl['l']), conv
            elif r == 'cast':
                if 'ExposeProvenance' in s['ck'] or s['from'] in ('usize', 'u64', 'isize'): yield ('int', s['from'], s.get('sp')), conv; continue
                frm, to = pointee(s['from']), pointee(s['to'])
                c = conv
                if 'Unsize' not in s['ck'] and frm and to and frm != to: c = conv + ((frm, to),)
                o = operand(s['x'])
                if o is None: yield ('const', str(s['x'])[:80], s.get('sp')), c
                elif s['from'].startswith('&') and not o['p'] and not self.cache(b).get(o['l']): yield ('ref', s['from'], o['l']), c
                else: yield from self.place(b, o, c, seen)
            else: yield ('other', r, s.get('sp')), conv
    def place(self, b, o, conv, seen):
        if not o['p']: yield from self.of(b, o['l'], conv, seen); return
        fs = [e for e in o['p'] if isinstance(e, dict) and 'n' in e]
        if o['p'] == ['*']: yield ('pointee', b['locals'][o['l']]['ty'], o['l']), conv
        elif fs: yield ('field', '%s::%s' % (fs[-1].get('o', ''), fs[-1]['n']), b['locals'][o['l']]['ty']), conv
        else: yield ('other', str(o['p'])[:60], None), conv
    def cache(self, b):
        c = b.get('_defs')
        if c is None: c = b['_defs'] = defs(b)
        return c

def bodies(ctx):
    """one body per source item of the crates"""
    seen = set()
    for k, b in sorted(ctx.F.bodies.items()):
        if b.get('crate') not in CR: continue
        s = (b.get('path'), b.get('span'))
        if '@' in k and s in seen: continue
        seen.add(s)
        yield k, b

def places(s):
    """(place, how) read or written by a statement or terminator"""
    if 'd' in s and isinstance(s['d'], dict): yield s['d'], 'write'
    r = s.get('r')
    if r in ('ref', 'raw'): yield s['x'], ('mut' if s.get('mut') else 'shared')
    for key in ('x', 'y'):
        o = operand(s.get(key)) if r not in ('ref', 'raw') else None
        if o: yield o, 'read'
    if r == 'discr' and isinstance(s.get('x'), dict) and 'l' in s['x']: yield s['x'], 'read'
    for a in s.get('a', []) if isinstance(s.get('a'), list) else []:
        o = operand(a)
        if o: yield o, 'read'

def is_box(b, l, D):
    """compiler-made dereference of a box"""
    return any(s.get('r') == 'cast' and s['ck'].startswith('Transmute') and s['from'].startswith(('core::ptr::non_null::NonNull', 'core::ptr::unique::Unique', 'alloc::boxed::Box')) for s in D.get(l, []))

def derefs(ctx):
    """(body key, body, pointer local, how, span) of every raw-pointer dereference"""
    for k, b in bodies(ctx):
        if b.get('from_expansion'): continue
        D = defs(b)
        out = {}
        for bb in b['blocks']:
            for s in bb['s'] + [bb['t']]:
                for pl, how in places(s):
                    if pl['p'][:1] == ['*'] and b['locals'][pl['l']]['ty'].startswith('*') and not is_box(b, pl['l'], D): out.setdefault((pl['l'], how), s.get('sp', ''))
        for (l, how), sp in out.items(): yield k, b, l, how, sp

def transparent(ctx, frm, to, holders, trait):
    """whether a place of type frm may be viewed as type to: None when not, else the reason"""
    if frm == to: return 'same type'
    for w, x in ((to, frm), (frm, to)):
        a = ctx.F.adts.get(w.split('<')[0])
        if not a or not a.get('transparent'): continue
        fs = [f['ty'] for v in a['vars'] for f in v['fs'] if not f['ty'].startswith('core::marker::Phantom')]
        if len(fs) == 1 and (fs[0] == x or '::' not in fs[0] and not fs[0].startswith(('&', '*', '[', '(', 'dyn '))): return 'transparent wrapper'
    if to.split('<')[0] in holders and trait in frm: return 'checked slot'
    if to in ('()', 'core::ffi::c_void'): return 'address only'
    return None

def pointers(ctx):
    E = ctx.adt('metriken_core', 'MetricEntry')
    R, trait, holders = c05.setup(ctx)
    O = Origins(ctx)
    n = 0
    for k, b, l, how, sp in derefs(ctx):
        n += 1
        inst = b['path']
        for o, conv in O.of(b, l):
            bad = None
            for frm, to in conv:
                if frm is None: continue
                if transparent(ctx, frm, to, holders, trait) is None: bad = 'a %s is used as a %s, which need not have the same layout' % (frm, to)
            if bad: ctx.ob('pointer', inst, False, bad, sp); continue
            if o[0] == 'ref':
                mut = o[1].startswith('&mut') or re.match(r"&'\w+ mut", o[1])
                if not [c for c in conv if c[0] is None or c[0] != c[1]]: ctx.ob('pointer', inst, False, 'a reference is detached from what it borrows', sp)
                elif how in ('mut', 'write') and not mut: ctx.ob('pointer', inst, False, 'shared data is written through a pointer', sp)
                else: ctx.ob('pointer', inst, True)
            elif o[0] == 'field' and o[1].startswith(('alloc::boxed::Box::', 'core::ptr::unique::Unique::')): ctx.ob('pointer', inst, True)
            elif o[0] == 'field':
                owner, f = o[1].rsplit('::', 1)
                fty = next((x['ty'] for v in ctx.F.adts.get(owner, {}).get('vars', []) for x in v['fs'] if x['n'] == f), '')
                if how in ('mut', 'write'): ctx.ob('pointer', inst, False, 'registered data is written through a shared pointer', sp)
                elif owner == E or fty == '*const dyn metriken_core::Metric': ctx.ob('pointer', inst, True)
                else: ctx.ob('pointer', inst, False, 'the pointer kept in %s is not known to be valid' % o[1], sp)
            elif o[0] == 'arg':
                if b.get('unsafe_fn'): ctx.ob('pointer', inst, True)
                elif b.get('exported'): ctx.ob('pointer', inst, False, 'safe callers choose the pointer that is dereferenced', sp)
                else: ctx.undecided('pointer', inst, 'dereferences its argument')
            elif o[0] == 'int': ctx.ob('pointer', inst, False, 'a number is used as a pointer', sp)
            elif o[0] == 'offset': ctx.ob('pointer', inst, False, 'a pointer is moved by %s' % short(o[1]), sp)
            elif o[0] in ('local', 'pointee') and not conv: ctx.undecided('pointer', inst, str(o))
            else: ctx.undecided('pointer', inst, str(o))
    ctx.floor('pointer', 'dereferences of raw pointers', n, 5)

SAFE_EXT = ('core::fmt::', 'linkme::', 'std::fmt::')
UNSAFE_OK = {'core::ptr::non_null::NonNull::as_ref', 'core::ptr::non_null::NonNull::as_mut', 'core::ptr::const_ptr::as_ref', 'core::ptr::mut_ptr::as_mut', 'core::ptr::mut_ptr::as_ref'}

def calls(ctx):
    R, trait, holders = c05.setup(ctx)
    O = Origins(ctx)
    n = 0
    for k, b in bodies(ctx):
        D = None
        for bb in b['blocks']:
            for s in bb['s']:
                # transmutes of references
                if s.get('r') == 'cast' and s['ck'].startswith('Transmute') and s['from'][:1] in '&*' and pointee(s['to']):
                    frm, to = pointee(s['from']), pointee(s['to'])
                    inst = b['path'] + ' transmute'
                    if frm == to and s['from'][:1] == '&' and s['to'][:1] == '&': ctx.ob('unchecked', inst, False, 'a reference is given another lifetime', s.get('sp', ''))
                    elif transparent(ctx, frm, to, holders, trait) is None: ctx.ob('unchecked', inst, False, 'a %s is used as a %s, which need not have the same layout' % (frm, to), s.get('sp', ''))
                    elif re.match(r"&('\w+ )?mut", s['to']) and not re.match(r"&('\w+ )?mut", s['from']): ctx.ob('unchecked', inst, False, 'shared data is made mutable', s.get('sp', ''))
                    n += 1
            t = bb['t']
            f = t.get('f', {}).get('k', {}).get('fn') if t['t'] == 'call' else None
            if not f or not f.get('unsafe'): continue
            p = f['path']
            if p.startswith(SAFE_EXT) or b.get('from_expansion'): continue
            n += 1
            inst, sp = '%s calls %s' % (b['path'], short(p)), t.get('sp', '')
            if re.match(r'(dyn |<)?(%s)::' % '|'.join(CR), p):
                # the callee's own unchecked operations are judged where they are
                ctx.ob('unchecked', inst, True); continue
            if last(p) in ('transmute', 'transmute_copy'):
                at = t['at'][0] if t['at'] else ''
                frm, to = pointee(at) if last(p) == 'transmute' else at, pointee(t['dt']) if last(p) == 'transmute' else t['dt']
                if not frm or not to or transparent(ctx, frm, to, holders, trait) is None: ctx.ob('unchecked', inst, False, 'a %s is used as a %s' % (at, t['dt']), sp)
                elif frm == to: ctx.ob('unchecked', inst, False, 'a reference is given another lifetime', sp)
                else: ctx.ob('unchecked', inst, True)
                continue
            if last(p) in ('as_ref', 'as_mut') and ('ptr' in p or p.startswith(('*const T::', '*mut T::'))):
                o = operand(t['a'][0])
                for og, conv in (O.of(b, o['l']) if o and not o['p'] else [(('other', '', None), ())]):
                    if og[0] == 'ref' and not [c for c in conv if c[0] != c[1]]: ctx.ob('unchecked', inst, False, 'a reference is detached from what it borrows', sp)
                    elif og[0] == 'ref': ctx.ob('unchecked', inst, all(transparent(ctx, x, y, holders, trait) for x, y in conv if x), 'a pointer is reinterpreted', sp)
                    elif og[0] == 'field' and og[1].endswith('MetricEntry::metric') and last(p) == 'as_ref': ctx.ob('unchecked', inst, True)
                    else: ctx.undecided('unchecked', inst, str(og))
                continue
            if last(p) == 'new_unchecked' and 'Pin' in p:
                at = t['at'][0]
                if at.startswith('alloc::boxed::Box<'): ctx.ob('unchecked', inst, True)
                else: ctx.ob('unchecked', inst, False, 'a %s is promised never to move' % at, sp)
                continue
            if last(p) in ('map_unchecked', 'map_unchecked_mut', 'get_unchecked_mut', 'into_inner_unchecked') and 'Pin' in p: ctx.undecided('unchecked', inst, 'pin projection'); continue
            if last(p) in ('get_unchecked', 'unwrap_unchecked') and initialised(ctx, k, b, t): ctx.ob('unchecked', inst, True); continue
            ctx.ob('unchecked', inst, False, 'relies on a precondition nothing establishes for every caller', sp)
    ctx.ob('unchecked', 'calls of unsafe functions', True)

def initialised(ctx, k, b, t):
    """the value fetched without checks was initialised earlier on every path"""
    it = ctx.run(k)
    ok = False
    for e in it.all_events('call'):
        if e.path != t['f']['k']['fn']['path']: continue
        def delta(s, kind, x, n):
            if kind == 'ev' and x.kind == 'call' and last(x.path) in ('get_or_init', 'get_or_try_init', 'force', 'call_once'): return True
            return s
        # state before the call, as the call ends its block
        st = product(it, False, delta).get(e.node, set())
        ok = st == {True}
        if not ok: return False
    return ok

def impls(ctx):
    n = 0
    for c in ctx.F.crates.values():
        if c.get('crate') not in CR: continue
        for i in c['impls']:
            if not i.get('unsafe') or i.get('from_expansion') or i.get('polarity') != 'Positive': continue
            tr, ty = i.get('trait', ''), i['self']
            inst = '%s for %s' % (last(tr), ty)
            if tr not in ('core::marker::Send', 'core::marker::Sync'):
                if tr.startswith(CR): ctx.notes.append('unsafe impl %s: judged by the rules of its trait' % inst)
                else: ctx.undecided('thread-claim', inst, 'unsafe trait %s' % tr)
                continue
            n += 1
            for f in i.get('lacking', []):
                what = '%s, field %s' % (inst, f.get('n', '?'))
                fty = f['ty']; inner = f.get('inner', [])
                if fty.startswith('*const ') and inner:
                    ctx.ob('thread-claim', what, inner[0]['sync'] and inner[0]['send'], 'points to %s, which other threads may not use' % inner[0]['ty'], i['span'])
                elif fty.startswith(('core::cell::Cell<', 'core::cell::UnsafeCell<', 'core::cell::RefCell<', 'core::cell::once::OnceCell<')) and last(tr) == 'Sync':
                    if not inner or not inner[0]['send']: ctx.ob('thread-claim', what, False, '%s may be moved to another thread although its bounds do not allow that' % (inner[0]['ty'] if inner else fty), i['span'])
                    else: exclusive(ctx, ty.split('<')[0], f['n'], what)
                else: ctx.ob('thread-claim', what, False, 'of type %s is not %s under these bounds' % (fty, last(tr)), i['span'])
            if not i.get('lacking'): ctx.ob('thread-claim', inst, True)
    ctx.notes.append('%d unsafe Send/Sync impls' % n)

ONCE = ('get_or_init', 'get_or_try_init', 'call_once', 'call_once_force')
def exclusive(ctx, adt, field, what):
    """the cell is touched only by the once-only initialiser or through exclusive access"""
    once = set()
    for k, b in bodies(ctx):
        for bb in b['blocks']:
            t = bb['t']
            f = t.get('f', {}).get('k', {}).get('fn') if t['t'] == 'call' else None
            if not f or last(f['path']) not in ONCE: continue
            for at in t.get('at', []):
                for m in re.findall(r'closure:([^<>,]+)|\{closure[^}]*\}', at): pass
            once |= {x for x in closures_in(b, t)}
    n = 0
    for k, b in bodies(ctx):
        hit = None
        for bb in b['blocks']:
            for s in bb['s'] + [bb['t']]:
                for pl, how in places(s):
                    for j, e in enumerate(pl['p']):
                        if isinstance(e, dict) and e.get('n') == field and e.get('o') == adt: hit = (pl, j, s.get('sp', ''), how)
                if hit: break
            if hit: break
        if not hit: continue
        n += 1
        pl, j, sp, how = hit
        base = b['locals'][pl['l']]['ty']
        excl = base.startswith(adt) or re.match(r"&('\w+ )?mut ", base) is not None
        inside = within(ctx, b, once)
        if inside is None: ctx.undecided('exclusive-cell', '%s in %s' % (field, b['path']), 'its callers are not all known'); continue
        ctx.ob('exclusive-cell', '%s in %s' % (field, b['path']), excl or inside, 'is used through a shared reference outside the once-only initialiser, so two threads can race on it', sp)
    ctx.floor('exclusive-cell', 'uses of ' + what, n, 1)

def within(ctx, b, once, seen=()):
    """whether a body runs only inside a once-only initialiser (None: not known)"""
    p = b['path']
    if p in once or any(p.startswith(o) for o in once): return True
    if p in seen: return True
    if b.get('exported') or '{closure' in p: return False
    cs = 0
    for k, c in bodies(ctx):
        for bb in c['blocks']:
            t = bb['t']
            f = t.get('f', {}).get('k', {}).get('fn') if t['t'] == 'call' else None
            if f and f['path'] == p:
                cs += 1
                if c['path'] == p: continue
                w = within(ctx, c, once, seen + (p,))
                if not w: return w
            elif t['t'] == 'call' and any(p in str(a) for a in t['a']):
                if f and last(f['path']) in ONCE: cs += 1
                else: return None
            if any(p in str(s.get('x', '')) or p in str(s.get('xs', '')) for s in bb['s']): return None
    return True if cs else None

def closures_in(b, t):
    """paths of the closures among the arguments of a call"""
    D = defs(b)
    for a in t['a']:
        o = operand(a)
        if not o or o['p']: continue
        todo, seen = [o['l']], set()
        while todo:
            l = todo.pop()
            if l in seen: continue
            seen.add(l)
            for s in D.get(l, []):
                if s.get('r') == 'agg':
                    for key in ('closure', 'key', 'def', 'ty', 'k', 'path'):
                        v = s.get(key)
                        if isinstance(v, str) and '{closure' in v: yield v.split('<')[0] if v.startswith('<') is False else v
                        if isinstance(v, dict):
                            for w in v.values():
                                if isinstance(w, str) and '{closure' in w: yield w
                elif s.get('r') == 'use' and operand(s['x']) and not operand(s['x'])['p']: todo.append(operand(s['x'])['l'])

def statics(ctx):
    for c in ctx.F.crates.values():
        if c.get('crate') not in CR: continue
        for s in c['statics']:
            if s['mut']: ctx.ob('static', s['path'], 'LINKME' in s['path'], 'is a mutable static any thread may use', s['span'])
    for k, a in ctx.F.adts.items():
        if a.get('crate') in CR and a.get('kind') == 'union': ctx.ob('static', k, False, 'is a union, whose fields are read unchecked', a.get('span', ''))
    ctx.ob('static', 'mutable statics', True)

PRE = '''#![allow(unused, deprecated)]
use metriken::*; use metriken_core::*; use metriken_core::dynmetrics::*; use std::any::Any; use std::cell::{Cell, RefCell}; use std::rc::Rc;
fn send<T: Send>() {} fn sync<T: Sync>() {} fn metric<T: metriken_core::Metric>() {} fn sends<T: Send>(t: T) {} fn syncs<T: Sync>(t: &T) {}
pub struct N; impl metriken_core::Metric for N { fn as_any(&self) -> Option<&dyn Any> { Some(self) } fn value(&self) -> Option<metriken_core::Value<'_>> { None } }
pub struct SyncOnly(*const u8); unsafe impl Sync for SyncOnly {}
pub struct SendOnly(*const u8); unsafe impl Send for SendOnly {}
pub struct Both(*const u8); unsafe impl Send for Both {} unsafe impl Sync for Both {}
'''
IMPL = "impl metriken_core::Metric for X { fn as_any(&self) -> Option<&dyn Any> { None } fn value(&self) -> Option<metriken_core::Value<'_>> { None } }"
fn = lambda s: 'pub fn f() { %s }' % s
W = [
 ('metrics are Sync', PRE, 'pub struct X(Both); ' + IMPL, 'pub struct X(SendOnly); ' + IMPL, 'makes a metric of data other threads may not share'),
 ('metrics are Send', PRE, 'pub struct X(Both); ' + IMPL, 'pub struct X(SyncOnly); ' + IMPL, 'makes a metric of data bound to its thread'),
 ('metric trait objects are thread-safe', PRE, 'fn b<T: ?Sized + Send + Sync>() {} ' + fn('b::<dyn metriken_core::Metric>()'), 'fn b<T: ?Sized + Send + Sync>() {} ' + fn('b::<dyn Any>()'), 'treats any trait object as thread-safe'),
 ('entries are thread-safe', PRE, fn('send::<MetricEntry>(); sync::<MetricEntry>()'), fn('send::<MetricEntry>(); sync::<*const u8>()'), 'shares a raw pointer'),
 ('lazy values are Sync', PRE, fn('sync::<Lazy<Both>>()'), fn('sync::<Lazy<SendOnly>>()'), 'shares a lazy value that is not Sync'),
 ('lazy values are Send to be shared', PRE, fn('sync::<Lazy<Both>>()'), fn('sync::<Lazy<SyncOnly>>()'), 'shares a lazy whose value would be made by another thread than drops it'),
 ('lazy cells are not shared', PRE, fn('sync::<Lazy<u8>>()'), fn('sync::<Lazy<Cell<u8>>>()'), 'shares a lazy cell'),
 ('lazy counters of references are not shared', PRE, fn('sync::<Lazy<std::sync::Arc<u8>>>()'), fn('sync::<Lazy<Rc<u8>>>()'), 'shares a lazy Rc'),
 ('lazy initialisers are Send', PRE, 'pub fn g<F: FnOnce() -> u8 + Send>() { sync::<Lazy<u8, F>>() }', 'pub fn g<F: FnOnce() -> u8>() { sync::<Lazy<u8, F>>() }', 'shares a lazy whose initialiser is bound to its thread'),
 ('lazy initialisers captured data', PRE, fn('let r = std::sync::Arc::new(1u8); let l: Lazy<u8, _> = Lazy::new(move || *r); syncs(&l)'), fn('let r = Rc::new(1u8); let l: Lazy<u8, _> = Lazy::new(move || *r); syncs(&l)'), 'runs a thread-bound initialiser on any thread'),
 ('lazy sync-only initialisers', PRE, fn('let r = Both(std::ptr::null()); let l: Lazy<bool, _> = Lazy::new(move || { let r = r; r.0.is_null() }); syncs(&l)'), fn('let r = SyncOnly(std::ptr::null()); let l: Lazy<bool, _> = Lazy::new(move || { let r = r; r.0.is_null() }); syncs(&l)'), 'moves a thread-bound initialiser'),
 ('lazy values are sent with their value', PRE, fn('send::<Lazy<SendOnly>>()'), fn('send::<Lazy<Rc<u8>>>()'), 'sends a lazy of thread-bound data'),
 ('lazy values are sent with their initialiser', PRE, 'pub fn g<F: FnOnce() -> u8 + Send>() { send::<Lazy<u8, F>>() }', 'pub fn g<F: FnOnce() -> u8>() { send::<Lazy<u8, F>>() }', 'sends a lazy whose initialiser is bound to its thread'),
 ('lazy metrics need Send initialisers', PRE, "pub fn g<F: FnOnce() -> N + Send + 'static>() { metric::<Lazy<N, F>>() }", "pub fn g<F: FnOnce() -> N + 'static>() { metric::<Lazy<N, F>>() }", 'registers a lazy metric with a thread-bound initialiser'),
 ('lazy metrics hold metrics', PRE, fn('metric::<Lazy<N>>()'), fn('metric::<Lazy<u8>>()'), 'registers a lazy that is no metric'),
 ('dynamic metrics are thread-safe', PRE, fn('MetricBuilder::new("a").build(N);'), 'pub struct X(Rc<u8>); ' + fn('MetricBuilder::new("a").build(X(Rc::new(1)));'), 'registers thread-bound data'),
 ('dynamic lazy metrics are thread-safe', PRE, fn('let r = std::sync::Arc::new(1u8); let l: Lazy<N, _> = Lazy::new(move || { drop(r); N }); MetricBuilder::new("a").build(l);'), fn('let r = Rc::new(1u8); let l: Lazy<N, _> = Lazy::new(move || { drop(r); N }); MetricBuilder::new("a").build(l);'), 'registers a lazy metric with a thread-bound initialiser'),
 ('provided data is Sync', PRE, fn('MetricBuilder::new("a").provide(Both(std::ptr::null()));'), fn('MetricBuilder::new("a").provide(SendOnly(std::ptr::null()));'), 'provides data that other threads may not share'),
 ('provided data is Send', PRE, fn('MetricBuilder::new("a").provide(Both(std::ptr::null()));'), fn('MetricBuilder::new("a").provide(SyncOnly(std::ptr::null()));'), 'provides data bound to its thread'),
 ('provided cells are rejected', PRE, fn('MetricBuilder::new("a").provide(1u8);'), fn('MetricBuilder::new("a").provide(Cell::new(1u8));'), 'provides a cell'),
 ('provided data is static', PRE, "pub fn f(s: &'static str) { MetricBuilder::new(\"a\").provide(s); }", "pub fn f<'a>(s: &'a str) { MetricBuilder::new(\"a\").provide(s); }", 'provides borrowed data'),
 ('names are static', PRE, "pub fn f(s: &'static str) { MetricBuilder::new(s).into_entry(); }", "pub fn f<'a>(s: &'a str) { MetricBuilder::new(s).into_entry(); }", 'keeps a borrowed name'),
 ('descriptions are static', PRE, "pub fn f(s: &'static str) { MetricBuilder::new(\"a\").description(s); }", "pub fn f<'a>(s: &'a str) { MetricBuilder::new(\"a\").description(s); }", 'keeps a borrowed description'),
 ('formatters are plain functions', PRE, fn('MetricBuilder::new("a").formatter(|_, _| String::new());'), fn('let r = Rc::new(1u8); MetricBuilder::new("a").formatter(move |_, _| r.to_string());'), 'calls a thread-bound formatter from any thread'),
 ('listings stay on their thread', PRE, fn('let m = metrics(); drop(m)'), fn('let m = metrics(); sends(m)'), 'releases a lock on another thread than took it'),
 ('requests are not shared', PRE, "pub fn f<'a>(r: &mut Request<'a>) { r.provide_value(1u8); }", "pub fn f<'a>(r: &mut Request<'a>) { sends(r); }", 'answers a request from another thread'),
 ('static wrapper keeps its lifetime', PRE, "pub fn f<'a>(m: &'a N) -> &'a metriken_core::export::MetricWrapper<N, ()> { metriken_core::export::MetricWrapper::from_ref(m) }", "pub fn f<'a>(m: &'a N) -> &'static metriken_core::export::MetricWrapper<N, ()> { metriken_core::export::MetricWrapper::from_ref(m) }", 'keeps a wrapped metric beyond its lifetime'),
 ('wrappers of thread-bound data are not metrics', PRE, 'pub struct P; impl metriken_core::export::InjectedProvider for P { fn provide(_: &mut Request<\'_>) {} } ' + fn('metric::<metriken_core::export::MetricWrapper<N, P>>()'), 'pub struct P; impl metriken_core::export::InjectedProvider for P { fn provide(_: &mut Request<\'_>) {} } ' + fn('metric::<metriken_core::export::MetricWrapper<Rc<u8>, P>>()'), 'wraps thread-bound data as a metric'),
 ('wrapper fields are private', PRE, 'pub fn f(m: metriken_core::export::MetricWrapper<N, ()>) { drop(m) }', 'pub fn f(m: metriken_core::export::MetricWrapper<N, ()>) { drop(m.metric) }', 'reaches into a wrapper'),
 ('lazy fields are private', PRE, 'pub fn f(l: &Lazy<u8>) { Lazy::get(l); }', 'pub fn f(l: &Lazy<u8>) { l.func.take(); }', 'takes the initialiser of a shared lazy'),
 ('lazy references end with the lazy', PRE, "pub fn f<'a>(l: &'a Lazy<u8>) -> &'a u8 { Lazy::force(l) }", "pub fn f<'a>(l: &'a Lazy<u8>) -> &'static u8 { Lazy::force(l) }", 'keeps a lazy value beyond its lazy'),
 ('lazy get ends with the lazy', PRE, "pub fn f<'a>(l: &'a Lazy<u8>) -> Option<&'a u8> { Lazy::get(l) }", "pub fn f<'a>(l: &'a Lazy<u8>) -> Option<&'static u8> { Lazy::get(l) }", 'keeps a lazy value beyond its lazy'),
 ('lazy get_mut is exclusive', PRE, "pub fn f(l: &mut Lazy<u8>) -> Option<&mut u8> { Lazy::get_mut(l) }", "pub fn f(l: &Lazy<u8>) -> Option<&mut u8> { Lazy::get_mut(l) }", 'changes a shared lazy value'),
 ('histograms are thread-safe', PRE, fn('sync::<AtomicHistogram>(); sync::<RwLockHistogram>(); sync::<Counter>(); sync::<Gauge>()'), fn('sync::<Rc<AtomicHistogram>>()'), 'shares an Rc'),
 ('dynamic owners are thread-safe', PRE, fn('send::<DynBoxedMetric<N>>(); sync::<DynBoxedMetric<N>>()'), fn('send::<Rc<DynBoxedMetric<N>>>()'), 'sends an Rc'),
 ('registering needs a pinned owner', PRE, 'pub fn f(e: MetricEntry) { let m = std::pin::pin!(MetricBuilder::new("a").build_pinned(N).0); m.as_ref().register(e) }', 'pub fn f(e: MetricEntry) { metriken_core::dynmetrics::register(e) }', 'registers an entry without its owner'),
]

def check(ctx):
    rule(ctx, 'pointer', 'dereferences', lambda: pointers(ctx))
    rule(ctx, 'unchecked', 'unsafe calls', lambda: calls(ctx))
    rule(ctx, 'thread-claim', 'unsafe impls', lambda: impls(ctx))
    rule(ctx, 'static', 'statics', lambda: statics(ctx))
    rule(ctx, 'checked-downcast', 'downcasts', lambda: c05.downcasts(ctx))
    rule(ctx, 'drop-removes', 'DynPinnedMetric as Drop', lambda: c01.removes(ctx))
    rule(ctx, 'owner', 'owners', lambda: c01.owners(ctx))
    rule(ctx, 'stable-storage', 'registrations', lambda: c01.pointers(ctx))
    rule(ctx, 'owned-entry', 'owned entries', lambda: c01.owned_entries(ctx))
    rule(ctx, 'witness', 'compile-fail', lambda: witnesses(ctx, 'witness', W))
    rule(ctx, 'lifetime-witness', 'compile-fail', lambda: witnesses(ctx, 'lifetime', c01.W + c05.W))
