"""Operations on once-initialised cells."""
from .q import *
from .core import mk
OWN = ('once_cell::', 'std::sync::', 'core::cell::')
TYPES = ('OnceCell::', 'OnceLock::', 'LazyLock::', 'once_cell::sync::Lazy::', 'OnceBox::', 'LazyCell::')
INIT = {'get_or_init', 'get_or_try_init', 'get_mut_or_init', 'set', 'try_insert', 'force', 'insert', 'call_once', 'call_once_force'}
CLEAR = {'take', 'into_inner', 'replace', 'swap'}
READ = {'get', 'get_mut', 'get_unchecked', 'is_initialized', 'is_completed', 'new', 'with_value', 'wait', 'fmt', 'clone', 'drop'}

def cell_op(path):
    """'init', 'clear', 'read' for a call on a once cell, None otherwise"""
    if not path.startswith(OWN) or not (any(t in path for t in TYPES) or '::Once::' in path): return None
    n = last(path)
    return 'init' if n in INIT else 'clear' if n in CLEAR else 'read'

def cell_field(ctx, adt):
    """fields of adt holding a once cell: [(name, type)]"""
    return [(f['n'], f['ty']) for v in ctx.F.adts[adt]['vars'] for f in v['fs'] if any(t[:-2] in f['ty'] for t in ('OnceCell::', 'OnceLock::'))]

def callback_result(ctx, it, e, i=1):
    """[(interpreter, value)] the closure (or function) handed to e as argument i returns"""
    out = []
    cs = [x for x in alts(it, e.v[i]) ]
    for x in cs:
        if x.k == 'agg' and x.a[0].startswith('closure:'):
            k = it.closure_key(x.a[0][8:])
            if k is None: return None
            it2 = ctx.run(k, closure=x, cache=False)
            out += [(it2, v) for _, v in returns(it2)]
        else: return None
    return out

def in_callback(it, node, owner_events):
    """node runs inside the closure of one of the given events: its frame chain goes through that call's block"""
    fr = it.nodes[node][0]
    f = it.frames[fr]
    sites = {(it.nodes[e.node][0], it.nodes[e.node][1]) for e in owner_events}
    while f is not None:
        if f.parent is not None and (f.parent, f.bb) in sites and f.discard: return True
        f = it.frames[f.parent] if f.parent is not None else None
    return False
