"""Queries over an interpreted function."""
from .core import T, mk, show, short, INT, STR, TRUE, FALSE, FNS, Limit

CONV = {'clone', 'to_owned', 'to_string', 'into', 'from', 'as_str', 'as_ref', 'borrow', 'deref', 'deref_mut', 'into_owned', 'into_boxed_str', 'into_string',
        'cloned', 'copied', 'as_slice', 'to_vec', 'into_vec', 'into_boxed_slice', 'as_deref', 'must_use', 'as_mut', 'as_mut_slice', 'as_mut_str'}
CONV_OWN = ('core::', 'alloc::', 'std::', 'str::', '[T]::', 'metriken_core::metadata::Metadata::')

def is_conv(path):
    return path.rsplit('::', 1)[-1] in CONV and path.startswith(('core::', 'alloc::', 'std::', 'str::', '[T]'))

PRIMS = tuple(p + '::' for p in ('u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize', 'f32', 'f64', 'bool', 'char', 'str', '[T]'))
def is_std(path):
    """a function of the standard library"""
    return path.startswith(('core::', 'alloc::', 'std::') + PRIMS)

def norm(it, t, d=0):
    """strip value-preserving conversions (clone, to_string, Into, Cow, single-piece format!)"""
    if not isinstance(t, T) or d > 40: return t
    k = t.k
    if k == 'call':
        if is_conv(t.a[0]) and len(t.a[1]) >= 1: return norm(it, t.a[1][0], d + 1)
        if t.a[0] == 'format!' and len(t.a[1]) == 1: return norm(it, t.a[1][0], d + 1)
        return mk('call', t.a[0], tuple(norm(it, x, d + 1) for x in t.a[1]), t.a[2])
    if k == 'agg':
        if t.a[0] in ('alloc::borrow::Cow', 'alloc::string::String') and len(t.a[3]) == 1: return norm(it, t.a[3][0], d + 1)
        return mk('agg', t.a[0], t.a[1], t.a[2], tuple(norm(it, x, d + 1) for x in t.a[3])) if t.a[3] else t
    if k == 'proj':
        b = norm(it, t.a[0], d + 1)
        return it.project(b, t.a[1]) if b is not t.a[0] else t
    if k == 'cast' : return mk('cast', t.a[0], norm(it, t.a[1], d + 1))
    if k in ('item', 'src'): return mk(k, norm(it, t.a[0], d + 1), *t.a[1:])
    if k == 'bin': return mk('bin', t.a[0], norm(it, t.a[1], d + 1), norm(it, t.a[2], d + 1))
    if k == 'un': return mk('un', t.a[0], norm(it, t.a[1], d + 1))
    if k == 'discr': return mk('discr', norm(it, t.a[0], d + 1), *t.a[1:])
    if k == 'addr': return mk('addr', norm(it, t.a[0], d + 1))
    return t

def alts(it, t, seen=None):
    """the alternatives a value may be, with phis opened"""
    if seen is None: seen = set()
    if t in seen: return []
    if t.k == 'phi':
        seen.add(t)
        out = []
        for x in it.phi_inputs(t):
            for y in alts(it, x, seen):
                if y not in out: out.append(y)
        return out
    if t.k == 'proj' and has_phi(t.a[0]):
        out = []
        for b in alts(it, t.a[0], seen):
            y = it.project(b, t.a[1])
            for z in (alts(it, y, seen) if y.k == 'phi' or (y.k == 'proj' and has_phi(y.a[0]) and b is not t.a[0]) else [y]):
                if z not in out: out.append(z)
        return out
    return [t]

def has_phi(t):
    while t.k == 'proj': t = t.a[0]
    return t.k == 'phi'

def nalts(it, t): 
    out = []
    for a in alts(it, t):
        n = norm(it, a)
        for b in (alts(it, n) if n.k in ('phi', 'proj') else [n]):
            if b not in out: out.append(b)
    return out

def root(t):
    """(root term, projection path)"""
    p = []
    while t.k == 'proj': p.append(t.a[1]); t = t.a[0]
    return t, tuple(reversed(p))

def fields(t):
    r, p = root(t)
    return r, tuple(e[1] for e in p if e[0] == 'f')

def subterms(t, seen=None):
    if seen is None: seen = set()
    if isinstance(t, tuple):
        for x in t: yield from subterms(x, seen)
        return
    if not isinstance(t, T) or t in seen: return
    seen.add(t)
    yield t
    for x in t.a:
        if isinstance(x, (T, tuple)): yield from subterms(x, seen)

def deep_subterms(it, t):
    """subterms with phis opened"""
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        for s in subterms(x, seen):
            yield s
            if s.k == 'phi': todo.extend(y for y in it.phi_inputs(s) if y not in seen)

def mentions(it, t, pred): return any(pred(s) for s in deep_subterms(it, t))

def callname(t): return t.a[0] if t.k == 'call' else ''
def last(p): return (p or '').rsplit('::', 1)[-1]

def returns(it):
    """(node, value) of every return of the entry function"""
    for n in it.reach:
        for e in it.events.get(n, ()):
            if e.kind == 'return': yield n, e.v[0]

class Prod:
    """Product of the program graph with an automaton; keeps one representative path per state."""
    def __init__(self, it, init, delta, entry=None):
        self.it = it
        entry = it.entry if entry is None else entry
        start = (entry, init)
        self.parent = {start: None}
        self.ends = {}          # node -> set of (state at node end, state at node start)
        todo = [start]
        while todo:
            ns = todo.pop()
            n, s = ns
            self.cur = ns
            for e in it.events.get(n, ()):
                s = delta(self, s, 'ev', e, n)
                if s is None: break
            if s is None: continue
            self.ends.setdefault(n, set()).add((s, ns))
            for k, (m, l) in enumerate(it.succ.get(n, ())):
                s2 = delta(self, s, 'edge', l, n)
                if s2 is None: continue
                if (m, s2) not in self.parent:
                    self.parent[(m, s2)] = (ns, k); todo.append((m, s2))
            if len(self.parent) > 400000: raise Limit('too many states')
    def path(self, ns=None):
        """[(node, out-edge index taken)] from entry to ns (the state being processed by default)"""
        ns = self.cur if ns is None else ns
        out = [(ns[0], None)]
        while self.parent[ns] is not None:
            ns, k = self.parent[ns]; out.append((ns[0], k))
        out.reverse()
        return out
    def resolve(self, t, ns=None, full=True):
        """t with the phis of the representative path replaced by what flowed in on that path"""
        return resolve(self.it, t, self.path(ns))

def resolve(it, t, path):
    memo = {}
    idx = {}
    def go(t, upto, d=0):
        if not isinstance(t, T) or d > 60: return t
        key = (t, upto)
        if key in memo: return memo[key]
        memo[key] = t
        r = t
        if t.k == 'phi':
            nid, (loc, pth) = t.a
            i = upto
            while i > 0 and path[i][0] != nid: i -= 1
            if path[i][0] == nid and i > 0:
                pn, k = path[i - 1]
                st = it.outs[pn][k][2] if k is not None and k < len(it.outs[pn]) else None
                if st is not None and (loc in st.env or loc[0] in ('M', 'S')):
                    v = it.load_base(st, loc)
                    for n in pth: v = it.project(v, ('f', n))
                    v = it.vnf(st, v)
                    if v is not t: r = go(v, i - 1, d + 1)
                    elif i - 1 > 0: r = go(v, i - 1, d + 1)
        elif t.k == 'proj':
            b = go(t.a[0], upto, d + 1)
            r = it.project(b, t.a[1]) if b is not t.a[0] else t
        elif t.k == 'agg' and t.a[3]: r = mk('agg', t.a[0], t.a[1], t.a[2], tuple(go(x, upto, d + 1) for x in t.a[3]))
        elif t.k == 'upd': r = mk('upd', go(t.a[0], upto, d + 1), tuple((e, go(v, upto, d + 1)) for e, v in t.a[1]))
        elif t.k == 'bin': r = mk('bin', t.a[0], go(t.a[1], upto, d + 1), go(t.a[2], upto, d + 1))
        elif t.k == 'cast': r = mk('cast', t.a[0], go(t.a[1], upto, d + 1))
        elif t.k == 'call' and (is_conv(t.a[0]) or t.a[0] == 'vec!') and t.a[1]:
            r = mk('call', t.a[0], tuple(go(x, upto, d + 1) for x in t.a[1]), t.a[2])
        memo[key] = r
        return r
    return go(t, len(path) - 1)

def product(it, init, delta, entry=None):
    """Runs an automaton over all paths.  delta(state, kind, x, node) -> state or None; kind is 'ev' (x an
    event) or 'edge' (x a label, possibly None).  Returns node -> set of states at node end."""
    p = Prod(it, init, lambda pr, s, k, x, n: delta(s, k, x, n), entry)
    return {n: {s for s, _ in v} for n, v in p.ends.items()}

def exits(it):
    """nodes that return from the entry function"""
    return [n for n in it.reach if any(e.kind == 'return' for e in it.events.get(n, ()))]

def reach_from(it, n, stop=()):
    seen, todo = set(), [m for m, _ in it.succ.get(n, ())]
    while todo:
        m = todo.pop()
        if m in seen or m in stop: continue
        seen.add(m)
        todo += [x for x, _ in it.succ.get(m, ())]
    return seen

def panics(it):
    """nodes ending in a call that does not return, an assert, or an unwrap-like call"""
    for e in it.all_events(): 
        if e.kind == 'assert': yield e
        elif e.kind == 'call' and not it.succ.get(e.node) and not any(x.kind == 'return' for x in it.events[e.node]): yield e

def updates(t, pre=()):
    """(field path, new value) of what an updated value differs in from its base"""
    if t.k == 'upd':
        yield from updates(t.a[0], pre)
        for (e, v) in t.a[1]:
            if v.k == 'upd': yield from updates(v, pre + (e[1],))
            else: yield pre + (e[1],), v

def after(it, P, nd, ns, base):
    """the value of memory location base when node nd returns, on the representative path of ns"""
    return P.resolve(it.load_base(it.returns[nd], base), ns)

LOSSY = {'truncate', 'downsample', 'trim', 'trim_start', 'trim_end', 'trim_matches', 'trim_start_matches', 'trim_end_matches', 'strip_prefix', 'strip_suffix', 'to_lowercase', 'to_uppercase', 'to_ascii_lowercase', 'to_ascii_uppercase',
         'make_ascii_lowercase', 'escape_default', 'escape_debug', 'escape_unicode', 'dedup', 'dedup_by', 'dedup_by_key', 'retain', 'split_off', 'split_at', 'split_first', 'split_last', 'chunks', 'windows', 'step_by', 'from_utf8_lossy',
         'wrapping_add', 'saturating_add', 'wrapping_sub', 'saturating_sub', 'rotate_left', 'rotate_right', 'reverse', 'swap_bytes', 'clamp', 'replacen', 'first_chunk', 'split_whitespace', 'split_ascii_whitespace', 'lines', 'split_once', 'rsplit_once'}
NARROW = {'u8': 8, 'i8': 7, 'u16': 16, 'i16': 15, 'u32': 32, 'i32': 31, 'f32': 24, 'f64': 53, 'u64': 64, 'i64': 63, 'usize': 64, 'isize': 63}
def is_range(t): return t.k == 'agg' and last(t.a[0]) in ('Range', 'RangeTo', 'RangeFrom', 'RangeInclusive', 'RangeToInclusive')

def lossy(it, t, limit=64):
    """describes an operation on the way to t that does not keep all of its operand, or None; phis are opened"""
    seen, todo = set(), [t]
    while todo and len(seen) < 400:
        x = norm(it, todo.pop())
        if not isinstance(x, T) or x in seen: continue
        seen.add(x)
        if x.k == 'call':
            l = last(x.a[0])
            if l in LOSSY and is_std(x.a[0]) or l in ('downsample', 'slice') and not x.a[0].startswith('metriken'): return short(x.a[0])
            if len(x.a[1]) == 2 and l in ('index', 'index_mut', 'get', 'drain', 'get_mut', 'get_unchecked') and is_range(norm(it, x.a[1][1])): return short(x.a[0]) + ' of a range'
            if l in ('with_capacity', 'reserve'): continue
            todo.extend(x.a[1])
        elif x.k == 'cast':
            if x.a[0] in NARROW and NARROW[x.a[0]] < limit: return 'cast to ' + x.a[0]
            todo.append(x.a[1])
        elif x.k == 'bin':
            if x.a[0] in ('BitAnd', 'BitOr', 'BitXor', 'Shl', 'Shr', 'Rem', 'Div'): return x.a[0]
            todo.extend(x.a[1:3])
        elif x.k == 'un': todo.append(x.a[1])
        elif x.k == 'proj': todo.append(x.a[0])
        elif x.k == 'agg': todo.extend(x.a[3])
        elif x.k == 'upd': todo.append(x.a[0]); todo.extend(v for _, v in x.a[1])
        elif x.k == 'phi': todo.extend(it.phi_inputs(x))
        elif x.k in ('item', 'src', 'mut', 'old'):
            if x.k == 'src' and isinstance(x.a[1], str) and last(x.a[1]) in ('lines', 'split_whitespace', 'split_ascii_whitespace', 'chunks', 'windows'): return short(x.a[1])
            todo.extend(y for y in x.a if isinstance(y, T))
    return None
