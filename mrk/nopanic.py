"""Explicit panics (panic!, assert!, unwrap, expect) that an entry point reaches depending on the contents of the registry,
of a metric or of its arguments.  Sanity checks on values the rule cannot relate to any of these are left undecided."""
import re
from . import build
from .frame import rule
from .q import *
from .core import T, mk, show

DYN = r'metriken_core::dynmetrics::'
REG = [DYN + r'(DynPinnedMetric|DynBoxedMetric)::', r'<' + DYN + r'DynPinnedMetric as core::ops::drop']
DROP = [r'<' + DYN + r'DynPinnedMetric as core::ops::drop']
ITER = [r'metriken_core::metrics', '<metriken_core::metrics::']
PROVIDE = [r'metriken_core::(provide|request)', r'<metriken_core::(provide|wrapper|dynmetrics::ProviderMetric)', r'metriken_core::MetricEntry::request']
ENTRY = [r'metriken_core::MetricEntry::', r'<metriken_core::MetricEntry as core::(ops|fmt)', r'metriken_core::export::(entry|metadata)', r'metriken_core::wrapper', r'<metriken_core::wrapper::MetricWrapper']
META = [r'metriken_core::metadata', r'<metriken_core::metadata']
LAZY = [r'metriken::lazy::Lazy::(new|get|get_mut)$', r'<metriken::lazy::Lazy as metriken_core']
HIST = [r'metriken::histogram::\w+::(?!new$)', r'<metriken::histogram']
NUM = [r'metriken::(counter|gauge)::', r'<metriken::(counter|gauge)']
SNAP = [r'metriken_exposition::snapshotter', r'<metriken_exposition::snapshotter']
ACC = [r'metriken_exposition::snapshot::', r'<metriken_exposition::snapshot::(?!.*serde)']
COLS = [r'metriken_exposition::parquet::', r'<metriken_exposition::parquet::(?!ParquetCompression as core::default|ParquetOptions as core::default)']
ENTRIES = {'C01': DROP, 'C02': REG, 'C03': ITER, 'C04': DROP, 'C05': PROVIDE, 'C06': ENTRY + PROVIDE, 'C07': [DYN + 'MetricBuilder::'], 'C09': META, 'C10': [r'metriken_core::formatter', r'metriken_core::MetricEntry::formatted'] + META, 'C11': NUM,
           'C12': LAZY, 'C13': HIST, 'C14': SNAP, 'C15': ACC, 'C16': ACC, 'C17': COLS, 'C18': COLS, 'C24': [r'metriken_core::MetricEntry::is$']}

# what may be absent (or an error) depending on the contents at run time
LOOKUP = {'get', 'get_mut', 'get_key_value', 'get_full', 'remove', 'remove_entry', 'insert', 'insert_full', 'swap_remove', 'shift_remove', 'nth', 'nth_back', 'next', 'next_back', 'last', 'first', 'last_mut', 'first_mut', 'pop', 'pop_front', 'pop_back', 'peek',
          'checked_add', 'checked_sub', 'checked_mul', 'checked_neg', 'downcast_ref', 'downcast_mut', 'strip_prefix', 'strip_suffix', 'find', 'rfind', 'position', 'rposition', 'split_once', 'rsplit_once', 'from_utf8', 'value', 'as_any', 'as_str',
          'request_ref', 'request_value', 'increment', 'update_from', 'from_buckets', 'get_index', 'reduce', 'max', 'min', 'max_by', 'min_by', 'max_by_key', 'min_by_key', 'parse', 'name', 'description', 'take', 'find_map', 'metadata', 'duration', 'load', 'try_write', 'try_read', 'try_lock', 'get_unchecked', 'get_or_try_init', 'set'}
TEST = {'is_empty', 'contains', 'contains_key', 'starts_with', 'ends_with', 'is_none', 'is_some', 'is_ok', 'is_err', 'is_enabled', 'any', 'all', 'is_ascii', 'is_alphabetic', 'is_alphanumeric', 'is_ascii_alphanumeric', 'eq_ignore_ascii_case', 'is_char_boundary', 'is'}

def explicit(e): return e.kind == 'call' and (e.path.startswith('core::panicking::') or e.path.startswith(('core::option::', 'core::result::')) and ('unwrap_failed' in e.path or 'expect_failed' in e.path) or e.path.startswith(('std::panicking', 'std::rt::')) or last(e.path) in ('abort', 'exit', 'resume_unwind', 'panic_any'))

def from_argument(it, t, d=0):
    """t is (a field or the length of) an argument other than memory the function made itself"""
    t = norm(it, t)
    if d > 6 or not isinstance(t, T): return False
    r = root(t)[0]
    if r.k in ('arg', 'old'): return True
    if r.k == 'call' and last(r.a[0]) in ('len', 'as_str', 'as_ref', 'deref', 'as_slice', 'borrow', 'count', 'name', 'as_bytes', 'into', 'from', 'clone', 'to_string', 'value', 'read', 'lock', 'write') and r.a[1]: return from_argument(it, r.a[1][0], d + 1)
    if t.k in ('cast', 'un', 'len', 'ref', 'deref'): return any(from_argument(it, q, d + 1) for q in t.a if isinstance(q, T))
    return False

def judge(it, P, ns, lab, e, seen):
    """'bad', 'maybe' or 'fine' with what the panic depends on"""
    msg = ' '.join(show(a) for a in e.v if isinstance(a, T))
    if lab is None: return 'maybe', 'no decision'
    if not isinstance(lab[1], T): return 'maybe', lab[0]
    t = norm(it, P.resolve(lab[1], ns))
    if any(last(callname(q)) == 'duration_since' for q in subterms(t)): return 'fine', ''       # the clock is before 1970 (audited)
    if 'unreachable' in msg or 'unreachable' in e.path: return 'maybe', 'marked unreachable'
    if t.k == 'discr' or lab[0] in ('variant', 'next', 'next_back'):
        s = norm(it, t.a[0]) if t.k == 'discr' else t
        r, p = root(s)
        if r.k == 'call' and last(r.a[0]) == 'try_new' and 'ZstdLevel' in r.a[0] and r.a[1] and norm(it, r.a[1][0]).k == 'int' and 1 <= norm(it, r.a[1][0]).a[0] <= 22: return 'fine', ''      # a level in zstd's range (audited)
        if lab[0] in ('next', 'next_back'): return 'bad', 'the sequence running out'
        if r.k == 'call' and last(r.a[0]) in LOOKUP:
            if last(r.a[0]) in ('get', 'get_mut', 'remove', 'remove_entry') and ('contains_key' in seen or 'insert' in seen): return 'maybe', show(s)
            if 'Once' in r.a[0] and seen & {'set', 'try_insert', 'get_or_init'}: return 'maybe', show(s)
            return 'bad', show(s)
        if r.k in ('arg', 'old'): return 'bad', show(s)
        return 'maybe', show(s)
    if lab[0] == 'bool' or lab[0] == 'int':
        while t.k == 'un': t = norm(it, t.a[1])
        if t.k == 'discr': t = norm(it, t.a[0])
        if t.k == 'call':
            l = last(t.a[0])
            if l == 'contains_key' and 'insert' in seen: return 'maybe', show(t)
            if l in TEST: return 'bad', show(t)
            if l in ('eq', 'ne', 'lt', 'le', 'gt', 'ge') and len(t.a[1]) == 2 and any(from_argument(it, q) for q in t.a[1]) and not any('TypeId' in show(q) for q in t.a[1]): return 'bad', show(t)
            if l in ('eq', 'ne') and len(t.a[1]) == 2 and any(root(norm(it, q))[0].k == 'call' and last(root(norm(it, q))[0].a[0]) in ('or_insert', 'or_insert_with', 'or_default', 'get', 'insert') for q in t.a[1]): return 'bad', show(t)
            return 'maybe', show(t)
        if t.k == 'bin' and any(from_argument(it, q) for q in t.a[1:3]): return 'bad', show(t)
        if t.k in ('arg', 'old') or t.k == 'proj' and from_argument(it, t): return 'bad', show(t)
    return 'maybe', show(t)

def name(k): return '::'.join(k.split('::')[-2:]) if not k.startswith('<') else k.split(' as ')[0].split('::')[-1] + '::' + last(k)

def check(ctx):
    pats = ENTRIES.get(ctx.prop)
    if not pats or build.profile_sensitive() and not ctx.scope.endswith('@release'): return
    R, n = 'no-panic', 0
    for k, b in sorted(ctx.F.bodies.items()):
        if '{' in k or '@' in k or b.get('kind') not in ('Fn', 'AssocFn') or not any(re.match(p, k) for p in pats): continue
        if not (b.get('pub') or k.startswith('<')) or b.get('from_expansion'): continue
        if not k.startswith('<') and re.search(r'<[^>]*>$', k): continue
        n += 1
        rule(ctx, R, name(k), lambda: one(ctx, R, k))
    if not n: ctx.undecided(R, 'entry points', 'none found')

def one(ctx, R, k):
    it = ctx.run(k)
    inst = name(k)
    evs = [e for e in panics(it) if explicit(e)]
    if not evs: ctx.ob(R, inst, True); return
    def delta(P, s, kind, x, n):
        lab, seen = s
        if kind == 'ev':
            if x.kind == 'call' and last(x.path) in ('insert', 'contains_key', 'is_some', 'entry', 'set', 'try_insert', 'get_or_init') : return (lab, seen | {last(x.path)})
            return s
        if x and x[0] in ('bool', 'int', 'variant', 'next', 'next_back'): return (x, seen)
        return s
    P = Prod(it, (None, frozenset()), delta)
    ok = True
    for e in evs:
        for (lab, seen), ns in P.ends.get(e.node, ()):
            how, what = judge(it, P, ns, lab, e, seen)
            if how == 'bad': ctx.ob(R, inst, False, 'panics (%s) depending on %s' % (short(e.path), what[:160]), e.span); ok = False
            elif how == 'maybe': ctx.undecided(R, inst, 'possible panic depending on %s' % what[:160]); ok = False
    if ok: ctx.ob(R, inst, True)
