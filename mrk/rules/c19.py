"""C19: conversion of a recording to parquet."""
from ..frame import rule, Missing
from ..q import *
from ..core import T, mk, show, short
from ..walk import narrow, truth, forget, variant_of, is_var
from ..seq import Seq, lit_obj
from ..shared import A0, A1
from .. import columns
from . import c15
SCOPE = 'all'
TECHNIQUE = 'static analysis: typestate of the conversion (passes, decoded snapshots, fallible results) and of the file metadata over all paths of compiler MIR'
EXPLAIN = ("Conversion is followed on every path with the reading, decoding, schema and writer operations left opaque. A typestate requires that a pass over the input ends only where the reader reported an empty buffer, that every decoded snapshot is handed to the schema (first pass) or the writer (second pass) before the next one is decoded, that the schema is finished only after a "
           "complete first pass, that the second pass starts from the position taken before the first, and that the file is finished only after a complete second pass; success returns the finished file's row count. Every fallible result is tracked: no path may return success with a result not known to be Ok, and no path may panic after a failure; success must not be refused where nothing failed. "
           "The same tracking covers convert_file_path, the schema's finalize and the writer's push and finalize. File metadata: on every path the recording's metadata is kept where it was empty so far, the caller's pairs are merged over it, and exactly the merged pairs reach the writer's properties together with the given options.")
ASSUME = ["BufRead::fill_buf returns an empty buffer only at the end of the input", "rmp_serde::from_read consumes exactly one value"]
X = 'metriken_exposition'
A2, A3 = mk('arg', 2), mk('arg', 3)
opaque = lambda t: t.k in ('unk', 'phi', 'old', 'mut', 'uninit')
cid = lambda t: (t.a[0], t.a[2]) if t.k == 'call' else None
CONSUME = ('consume', 'read', 'read_exact', 'read_to_end', 'read_until', 'skip_until', 'read_line', 'read_vectored', 'read_to_string', 'read_buf', 'lines', 'split', 'bytes', 'take', 'discard_buffer')

class Flow:
    """fallible results on every path: known facts, results not yet looked at, the first failure, and a client state"""
    def __init__(self, ctx, it, say, what, init=()):
        self.ctx, self.it, self.say, self.what = ctx, it, say, what
        self.P = Prod(it, (frozenset(), frozenset(), None, init), self.delta)
    def fallible(self, e):
        return e.kind == 'call' and e.result is not None and e.result.k == 'call' and (e.dt or '').startswith('core::result::Result<') and 'SystemTimeError' not in e.dt and not is_conv(e.path)
    def on_ev(self, P, st, e): return st[3]
    def on_edge(self, P, st, x): return st[3]
    def on_fail(self, P, st, r): return st[3]
    def delta(self, P, st, kind, x, n):
        known, open_, failed, cl = st
        if kind == 'ev':
            if x.kind == 'call' and x.result is not None:
                known = forget(known, x.result)
                if self.fallible(x):
                    i = cid(x.result)
                    if i in open_: failed = failed or ('ignored', short(x.path))
                    open_ = open_ | {i}
            st = (known, open_, failed, cl)
            cl = self.on_ev(P, st, x)
            return None if cl is None else (known, open_, failed, cl)
        if not x: return st
        if x[0] == 'variant' and x[1].k == 'discr':
            t = norm(self.it, P.resolve(x[1].a[0]))
            names = x[2] if isinstance(x[2], frozenset) else frozenset([x[2]])
            k2 = narrow(known, t, names)
            if k2 is None: return None
            known = k2
            i = cid(t)
            if i in open_:
                if names == {'Ok'}: open_ = open_ - {i}
                elif names == {'Err'}:
                    open_ = open_ - {i}; failed = failed or ('failed', short(t.a[0]))
                    cl = self.on_fail(P, (known, open_, failed, cl), t)
        elif x[0] == 'bool':
            known = truth(known, norm(self.it, P.resolve(x[1])), x[2])
            if known is None: return None
        st = (known, open_, failed, cl)
        cl = self.on_edge(P, st, x)
        return None if cl is None else (known, open_, failed, cl)
    def outcome(self, success=None, spurious=True):
        """judge every way out; success(st, value) is called for those that report success"""
        it, say, n = self.it, self.say, 0
        sp = self.ctx.F.bodies[it.key].get('span', '') if hasattr(it, 'key') and it.key in self.ctx.F.bodies else ''
        for nd in exits(it):
            ev = [e for e in it.events[nd] if e.kind == 'return'][0]
            for st, ns in self.P.ends.get(nd, ()):
                n += 1
                known, open_, failed, cl = st
                self.P.cur = ns
                v = norm(it, self.P.resolve(ev.v[0], ns))
                if v.k == 'agg' and v.a[1] == 'Err':
                    if spurious: say.ob(self.what + ' reports failures only', bool(failed or open_), 'reports a failure although nothing failed', ev.span)
                    continue
                if cid(v) in open_:
                    # hands the outcome of the last operation on
                    open_ = open_ - {cid(v)}
                    if failed: say.ob(self.what + ' reports failures', False, 'returns %s although %s' % (show(v), self.why(failed)), ev.span)
                elif v.k == 'agg' and v.a[1] == 'Ok': say.ob(self.what + ' reports failures', not failed, 'reports success although %s' % self.why(failed), ev.span)
                elif opaque(v): say.maybe(self.what + ' result', show(v)); continue
                for i in open_: say.ob(self.what + ' reports failures', False, 'reports success whether or not %s failed' % short(i[0]), ev.span)
                if not open_ and not failed and success: success(st, v, ns)
        for e in panics(it):
            for st, ns in self.P.ends.get(e.node, ()):
                if st[2] and st[2][0] == 'failed': say.ob(self.what + ' never panics', False, 'panics when %s fails' % st[2][1], e.span)
                elif e.kind == 'call' and e.path.startswith('core::option::') and ('unwrap_failed' in e.path or 'expect_failed' in e.path): say.ob(self.what + ' never panics', False, 'panics when a value is missing', e.span)
                elif e.kind == 'call' and e.path.startswith('core::panicking::') and not any('unreachable' in show(a) for a in e.v):
                    pt, cond = self.P.path(ns), None
                    for pn, k in reversed(pt[:-1]):
                        l = it.succ[pn][k][1] if k is not None else None
                        if l and l[0] in ('bool', 'int', 'variant', 'next', 'next_back'): cond = l; break
                    t = norm(it, self.P.resolve(cond[1], ns)) if cond and isinstance(cond[1], T) else None
                    inner = t is not None and any('chema' in show(q) or last(callname(q)) in ('num_rows', 'num_columns') or q.k == 'unk' for q in subterms(t))
                    def bare(q):
                        q = norm(it, q)
                        while q.k in ('cast', 'un'): q = norm(it, q.a[1])
                        return q.k in ('phi', 'unk', 'old')
                    raw = norm(it, cond[1]) if t is not None else None
                    if raw is not None and (bare(raw) or raw.k == 'bin' and any(bare(q) for q in raw.a[1:3])): inner = True
                    if t is not None and any(last(callname(q)) == 'duration_since' for q in subterms(t)): continue      # the clock is before 1970 (audited)
                    if cond is None or inner: say.maybe(self.what + ' never panics', 'sanity check on %s' % (show(t) if t is not None else 'nothing'))
                    else: say.ob(self.what + ' never panics', False, 'panics depending on %s' % (show(t) if t is not None else cond[0]), e.span)
        say.ob(self.what + ' never panics', True)
        return n
    def why(self, f): return '%s %s' % (f[1], 'failed' if f[0] == 'failed' else 'may have failed') if f else ''

class Conv(Flow):
    """client state: (position taken, schema done, moved back, at the end, pending snapshot, finished file)"""
    def __init__(self, ctx, it, say, names):
        self.names, self.n = names, 0
        super().__init__(ctx, it, say, 'conversion', (None, False, False, False, None, None))
    def is_reader(self, P, t):
        t = norm(self.it, P.resolve(t))
        return (t.k == 'call' and 'BufReader' in t.a[0] and last(t.a[0]) in ('new', 'with_capacity') and bool(t.a[1]) and norm(self.it, t.a[1][-1]) is A1) or t is A1
    def end_of(self, t):
        """whether t tests the reader's buffer for emptiness"""
        if t.k == 'call' and last(t.a[0]) == 'is_empty' and t.a[1]:
            r, p = root(norm(self.it, t.a[1][0]))
            return r.k == 'call' and last(r.a[0]) == 'fill_buf' and p == (('v', 'Ok'), ('f', '0'))
        return False
    def on_ev(self, P, st, e):
        pos, sch, back, eos, pend, fin = cl = st[3]
        it, say = self.it, self.say
        if e.kind != 'call' or not e.v: return cl
        l, path = last(e.path), e.path
        if l == 'stream_position' and self.is_reader(P, e.v[0]):
            return (cid(e.result), sch, back, eos, pend, fin) if pos is None else cl
        if path in ('rmp_serde::decode::from_read', 'rmp_serde::from_read') or l == 'from_read':
            self.n += 1
            if not self.is_reader(P, e.v[0]): say.maybe('decoding', 'reads from %s' % show(norm(it, P.resolve(e.v[0]))))
            if pend: say.ob('every snapshot', False, 'a decoded snapshot is dropped before the next one is read', e.span)
            return (pos or 'late', sch, back, False, cid(e.result), fin)
        if l in ('seek', 'rewind') and 'Seek' in path or l == 'seek_relative':
            r = norm(it, P.resolve(e.v[0]))
            if not self.is_reader(P, e.v[0]):
                if r.k == 'call' and last(r.a[0]) in ('get_mut', 'get_ref'): say.ob('second pass', False, 'the input is moved back underneath the reader, which still holds buffered data', e.span)
                else: say.maybe('second pass', 'seeks %s' % show(r))
                return (pos, sch, True, False, pend, fin)
            if not eos: say.ob('first pass', False, 'the input is moved back before it was read to its end', e.span)
            if l == 'rewind': say.ob('second pass', False, 'starts at the beginning of the input instead of where the first pass started', e.span)
            elif l == 'seek':
                a = norm(it, P.resolve(e.v[1]))
                if a.k == 'agg' and a.a[1] == 'Start':
                    r, p = root(norm(it, a.a[3][0]))
                    ok = cid(r) is not None and cid(r) == pos and p == (('v', 'Ok'), ('f', '0'))
                    if not ok and opaque(r): say.maybe('second pass', show(a))
                    else: say.ob('second pass', ok, 'starts at %s instead of where the first pass started' % show(a.a[3][0]), e.span)
                elif a.k == 'agg' and a.a[1] == 'Current' and a.a[3] and self.negated(norm(it, a.a[3][0]), pos): say.ob('second pass', False, 'moves back by the position the first pass started at, not to it', e.span)
                else: say.maybe('second pass', show(a))
            else: say.maybe('second pass', path)
            return (pos, sch, True, False, pend, fin)
        if path == self.names['spush']:
            if sch: say.maybe('first pass', 'snapshots are scanned after the schema was finished')
            return (pos, sch, back, eos, self.given(P, st, e, 'schema'), fin)
        if path == self.names['sfin']:
            say.ob('first pass', eos or back, 'the schema is finished before the input was read to its end', e.span)
            say.ob('every snapshot', not pend, 'a decoded snapshot is left out of the schema', e.span)
            self.opts(P, e, st[0])
            return (pos, True, back, eos, None, fin)
        if path == self.names['wpush']:
            say.ob('second pass', back, 'snapshots are written before the input was moved back', e.span)
            return (pos, sch, back, eos, self.given(P, st, e, 'file'), fin)
        if path == self.names['wfin']:
            say.ob('second pass', back and eos, 'the file is finished before every snapshot was written', e.span)
            say.ob('every snapshot', not pend, 'a decoded snapshot is left out of the file', e.span)
            return (pos, sch, back, eos, None, cid(e.result))
        if l in CONSUME and self.is_reader(P, e.v[0]): say.ob('every snapshot', False, 'input is consumed by %s without being decoded' % short(path), e.span)
        return cl
    def negated(self, t, pos):
        """the start position, negated"""
        if t.k == 'un' and t.a[0] == 'Neg': t = norm(self.it, t.a[1])
        else: return False
        while t.k == 'cast': t = norm(self.it, next(x for x in t.a if isinstance(x, T)))
        r, p = root(t)
        return cid(r) is not None and cid(r) == pos
    def given(self, P, st, e, what):
        pend = st[3][4]
        x = norm(self.it, P.resolve(e.v[1])) if len(e.v) > 1 else mk('unk')
        r, p = root(x)
        if pend and cid(r) == pend and p == (('v', 'Ok'), ('f', '0')): self.say.ob('every snapshot', True); return None
        if opaque(r) or r.k == 'item': self.say.maybe('every snapshot', 'the %s is given %s' % (what, show(x)))
        else: self.say.ob('every snapshot', False, 'the %s is given %s instead of the snapshot just decoded' % (what, show(x)), e.span)
        return None
    def opts(self, P, e, known):
        it, say = self.it, self.say
        if len(e.v) != 4: return
        w, o, m = (norm(it, P.resolve(v)) for v in e.v[1:])
        for t, want, what in ((w, A2, 'sink'), (o, it.project(A0, ('f', self.names['fopts'])), 'options')):
            if opaque(root(t)[0]): say.maybe(what, show(t))
            else: say.ob(what, t is want, 'the file is written with %s instead of the given %s' % (show(t), what), e.span)
        own = it.project(A0, ('f', self.names['fmeta']))
        if m.k == 'agg' and m.a[1] == 'Some':
            x = norm(it, m.a[3][0])
            if opaque(root(x)[0]): say.maybe('metadata passed on', show(x))
            else: say.ob('metadata passed on', x is own, 'the file metadata is %s instead of the given metadata' % show(x), e.span)
        elif m.k == 'agg' and m.a[1] == 'None':
            say.ob('metadata passed on', any(w is True and t.k == 'call' and last(t.a[0]) == 'is_empty' and norm(it, t.a[1][0]) is own for t, w in known), 'the given metadata is left out of the file', e.span)
        else: say.maybe('metadata passed on', show(m))
    def on_edge(self, P, st, x):
        cl = st[3]
        if x[0] == 'bool':
            t, val = norm(self.it, P.resolve(x[1])), x[2]
            while t.k == 'un' and t.a[0] == 'Not': t, val = t.a[1], not val
            e = self.end_of(t)
            if not e and t.k == 'bin' and t.a[2].k == 'int' and t.a[2].a[0] == 0 and t.a[0] in ('Eq', 'Ne', 'Gt') and t.a[1].k == 'call' and last(t.a[1].a[0]) == 'len':
                e = self.end_of(mk('call', 'is_empty', t.a[1].a[1], 0)); val = val == (t.a[0] == 'Eq')
            if e: return cl[:3] + (bool(val),) + cl[4:]
        return cl
    def on_fail(self, P, st, r):
        cl = st[3]
        return cl[:4] + (None,) + cl[5:] if cid(r) == cl[4] else cl

def convert(ctx, say):
    C, PS, PW = ctx.adt(X, 'MsgpackToParquet'), ctx.adt(X, 'ParquetSchema'), ctx.adt(X, 'ParquetWriter')
    keys = {'spush': ctx.method(PS, 'push'), 'sfin': ctx.method(PS, 'finalize'), 'wpush': ctx.method(PW, 'push'), 'wfin': ctx.method(PW, 'finalize')}
    names = {n: ctx.F.bodies[k]['path'] for n, k in keys.items()}
    names['fopts'], names['fmeta'] = cfields(ctx, C)
    k = ctx.method(C, 'convert_file_handle')
    paths = set(names[n] for n in keys)
    it = ctx.run(k, opaque=lambda b: b['path'] in paths, cache=False)
    W = Conv(ctx, it, say, names)
    def success(st, v, ns):
        pos, sch, back, eos, pend, fin = st[3]
        say.ob('finished', fin is not None, 'success is reported without finishing the file')
        if fin is None: return
        x = norm(it, v.a[3][0]) if v.k == 'agg' and v.a[1] == 'Ok' else v
        r, p = root(x)
        ok = cid(r) == fin and p == (('v', 'Ok'), ('f', '0'), ('f', 'num_rows'))
        if not ok and opaque(r): say.maybe('row count', show(x))
        else: say.ob('row count', ok, 'reports %s instead of the rows of the finished file' % show(x))
    for e in W.it.all_events('call'):
        if last(e.path) == 'with_capacity' and 'BufReader' in e.path and e.v and norm(W.it, e.v[0]).k == 'int' and norm(W.it, e.v[0]).a[0] == 0: say.ob('every snapshot', False, 'a reader without room for data finds the end of the input at once', e.span)
    W.outcome(success)
    ctx.floor('conversion', 'decoding steps followed', W.n, 2)

def cfields(ctx, C):
    fo = [f['n'] for f in ctx.F.adts[C]['vars'][0]['fs'] if f['ty'].split('<')[0] == ctx.adt(X, 'ParquetOptions')]
    fm = [f['n'] for f in ctx.F.adts[C]['vars'][0]['fs'] if 'HashMap<alloc::string::String,alloc::string::String' in f['ty']]
    if len(fo) != 1 or len(fm) != 1: raise Missing('options and metadata of MsgpackToParquet')
    return fo[0], fm[0]

def opened(it, t):
    """the flags of a chain of OpenOptions calls, None when not followed"""
    o, t = {}, t.a[1][0]
    for _ in range(12):
        while t.k in ('mut', 'ref') and isinstance(t.a[0], T): t = t.a[0]
        t = norm(it, t)
        if t.k != 'call': return None
        l = last(t.a[0])
        if l in ('new', 'options') and not t.a[1]: return o
        if l not in ('read', 'write', 'append', 'truncate', 'create', 'create_new') or len(t.a[1]) != 2: return None
        v = norm(it, t.a[1][1])
        if v.k not in ('bool', 'int'): return None
        o.setdefault(l, bool(v.a[0]))
        t = t.a[1][0]
    return None

def by_path(ctx, say):
    C = ctx.adt(X, 'MsgpackToParquet')
    h = ctx.F.bodies[ctx.method(C, 'convert_file_handle')]['path']
    k = ctx.method(C, 'convert_file_path'); sp = ctx.F.bodies[k].get('span', '')
    it = ctx.run(k, opaque=lambda b: b['path'] == h, cache=False)
    W = Flow(ctx, it, say, 'convert_file_path')
    calls = [e for e in it.all_events('call') if e.path == h]
    ctx.floor('conversion', 'conversions by path', len(calls), 1)
    W.outcome(lambda st, v, ns: None)
    for e in calls:
        for a in nalts(it, e.v[0]):
            if not opaque(a): say.ob('convert_file_path options', a is A0, 'converts with %s' % show(a), e.span)
        for i, arg, how, what in ((1, A1, 'open', 'input'), (2, A2, 'create', 'output')):
            for a in nalts(it, e.v[i]):
                fs = [t for t in subterms(a) if t.k == 'call' and 'fs::File' in t.a[0] and last(t.a[0]) in ('open', 'create', 'create_new', 'open_buffered', 'create_buffered')]
                if not fs:
                    op = [t for t in subterms(a) if t.k == 'call' and 'fs::OpenOptions' in t.a[0] and last(t.a[0]) == 'open']
                    o = opened(it, op[0]) if op else None
                    if o is None: say.maybe('convert_file_path ' + what, show(a)); continue
                    q = norm(it, op[0].a[1][1])
                    if what == 'input': say.ob('convert_file_path input', q is arg and o.get('read') and not o.get('truncate'), 'the input is %s' % show(op[0]), e.span)
                    else: say.ob('convert_file_path output', q is arg and o.get('write') and o.get('create') and o.get('truncate') and not o.get('append'), 'the output is %s: an older, longer file there leaves its tail behind' % show(op[0]), e.span)
                    continue
                for f in fs:
                    q = norm(it, f.a[1][0])
                    say.ob('convert_file_path ' + what, q is arg and last(f.a[0]).startswith(how), 'the %s is %s' % (what, show(f)), e.span)

def empty_calls(known):
    """(call, what is tested, whether it is empty) for every emptiness test known"""
    for t, w in known:
        if w is not True and w is not False: continue
        if t.k == 'call' and last(t.a[0]) == 'is_empty' and t.a[1]: yield t, t.a[1][0], w
        elif t.k == 'bin' and t.a[2].k == 'int' and t.a[2].a[0] == 0 and t.a[0] in ('Eq', 'Ne', 'Gt') and t.a[1].k == 'call' and last(t.a[1].a[0]) == 'len' and t.a[1].a[1]: yield t.a[1], t.a[1].a[1][0], w == (t.a[0] == 'Eq')
def empties(known):
    for _, x, w in empty_calls(known): yield x, w

class Kv(Seq):
    """aux: ('merged', map, source) all pairs of source were entered into map; ('etest', result id, merged before) ; ('props', kv, chain)"""
    def __init__(self, ctx, it, say, fmeta):
        self.ctx, self.say, self.n = ctx, say, 0
        self.own = it.project(A0, ('f', fmeta)); self.caller = it.project(it.project(A3, ('v', 'Some')), ('f', '0'))
        self.feeds, self.lists = set(), set()
        super().__init__(it, lambda o, dt: 'KeyValue' in dt)
    def base(self, P, s):
        while s.k == 'src': s = norm(self.it, P.resolve(s.a[0]))
        return s
    def note(self, P, st, e):
        aux = st[4]
        if e.kind != 'call' or not e.v: return aux
        l = last(e.path)
        if l in ('insert', 'coll_add') and len(e.v) in (2, 3):
            o = self.val(P, e.v[0])
            k, v = (self.val(P, e.v[1]), self.val(P, e.v[2])) if len(e.v) == 3 else (lambda x: (norm(self.it, self.it.project(x, ('f', '0'))), norm(self.it, self.it.project(x, ('f', '1')))))(self.val(P, e.v[1]))
            rk, pk = fields(k); rv, pv = fields(v)
            if rk is rv and rk.k == 'item' and pk == ('0',) and pv == ('1',):
                s = norm(self.it, rk.a[0]); self.feeds.add((s, o))
                return aux | {('fed', s, o)}
        if l in ('is_empty', 'len') and self.val(P, e.v[0]) is self.own: return aux | {('etest', cid(e.result), any(f[0] == 'merged' and f[1] is self.own for f in aux))}
        if l in ('remove', 'clear', 'retain', 'drain') and self.val(P, e.v[0]) in (self.own, self.caller) and e.at and e.at[0].startswith('&mut '): self.say.ob('file metadata', False, 'pairs are removed by %s' % short(e.path), e.span)
        if l == 'try_new' and 'ArrowWriter' in e.path and len(e.v) == 3:
            self.n += 1
            if self.last: self.props(P, st, e)
        return aux
    def on_edge(self, P, st, x):
        aux = st[4]
        if x[0] == 'next':
            s = norm(self.it, P.resolve(x[1]))
            if x[2] == 'None':
                for q, o in self.feeds:
                    if q is s and ('gap', s) not in aux: aux = aux | {('merged', o, self.base(P, x[1]))}
            elif any(q is s for q, _ in self.feeds): aux = aux - {('fed', s, o) for q, o in self.feeds if q is s}
        return aux
    def round_end(self, P, src, rounds, known, aux):
        for q, o in self.feeds:
            if q is src and ('fed', src, o) not in aux: self.say.ob('file metadata', False, 'some pairs of %s are left out' % show(src))
    def props(self, P, st, e):
        it, say, known, aux = self.it, self.say, st[1], st[4]
        x = norm(it, self.deep(P, e.v[2]))
        if x.k == 'agg' and x.a[1] == 'None': say.ob('file metadata', False, 'the file is written without its properties', e.span); return
        if x.k == 'agg' and x.a[1] == 'Some': x = norm(it, x.a[3][0])
        chain = {}
        while x.k == 'call' and 'WriterProperties' in x.a[0]:
            if len(x.a[1]) == 2: chain.setdefault(last(x.a[0]), x.a[1][1])
            if not x.a[1]: break
            x = norm(it, self.deep(P, x.a[1][0]))
        if not (x.k == 'call' and 'WriterProperties' in x.a[0]): say.maybe('file metadata', show(x)); return
        for m, f in (('set_compression', 'compression'), ('set_max_row_group_size', 'max_batch_size')):
            a = chain.get(m)
            if a is None: say.ob('options', False, 'the %s option is not used' % f, e.span); continue
            a = norm(it, self.deep(P, a))
            if opaque(root(a)[0]): say.maybe('options', show(a)); continue
            r, p = fields(a)
            say.ob('options', r is A2 and p[:1] == (f,), 'the file is written with %s instead of the %s option' % (show(a), f), e.span)
        kv = chain.get('set_key_value_metadata')
        kv = P.resolve(kv) if kv is not None else mk('agg', 'core::option::Option', 'None', (), ())
        n = norm(it, kv)
        obj = None
        merged = lambda m, s: ('merged', m, s) in aux
        gone = is_var(known, A3, 'None') or any(w and norm(it, y) is self.caller for y, w in empties(known))
        if n.k == 'agg' and n.a[1] == 'None':
            empt = [y for y, w in empties(known) if w]
            es = [f for f in aux if f[0] == 'etest' and any(cid(c) == f[1] for c, _, w in empty_calls(known) if w)]
            obj = next((self.obj(P, y) for y in empt if self.obj(P, y) is not None), None)
            if obj is None or es:
                say.ob('file metadata', any(f[2] or gone for f in es), 'metadata is left out of the file' + (' because it was empty before the given metadata was added' if es else ''), e.span)
                return
        if obj is None: obj = kv.a[3][0] if kv.k == 'agg' and kv.a[1] == 'Some' else kv
        o = self.obj(P, obj)
        if o is None: say.maybe('file metadata', show(n)); return
        segs = self.seq_of(st, o)
        if len(segs) != 1 or segs[0][0] != 'loop':
            if not segs: say.ob('file metadata', False, 'nothing is entered', e.span) if not self.fed else say.maybe('file metadata', 'list not followed')
            else: say.maybe('file metadata', 'list not followed')
            return
        b = self.base(P, segs[0][1])
        if b is self.own: say.ob('file metadata', gone or merged(self.own, self.caller), 'the given metadata is not merged over that of the recording', e.span)
        elif b is self.caller: say.ob('file metadata', False, 'the metadata of the recording takes the place of the given metadata' if merged(self.caller, self.own) else 'the metadata of the recording is left out', e.span)
        else:
            ms = [f[2] for f in aux if f[0] == 'merged' and f[1] is b]
            if self.own in ms and (self.caller in ms or gone): say.maybe('file metadata', 'a merged copy, order not known')
            elif opaque(root(b)[0]) or b.k == 'call' and not ms: say.maybe('file metadata', show(b))
            else: say.ob('file metadata', False, 'the file carries %s' % show(b), e.span)
        self.lists.add((segs[0][1], o, e.span))
    def pairs(self):
        it, say = self.it, self.say
        for s, o, span in self.lists: self.pairs_of(s, o, span)
    def pairs_of(self, s, o, span):
        it, say = self.it, self.say
        items = [norm(it, q.result) for q in it.all_events('next') if norm(it, q.v[0]) is s and q.result is not None]
        for q, rr in self.rounds:
            if q is not s: continue
            els = dict(rr).get(o, ())
            say.ob('file metadata pair', len(els) == 1, 'a pair is entered %d times' % len(els), span)
            for el in els:
                y = norm(it, el[1])
                if y.k == 'call' and y.a[0].endswith('KeyValue::new') and len(y.a[1]) == 2:
                    w = norm(it, y.a[1][1])
                    y = mk('agg', 'KeyValue', None, ('key', 'value'), (norm(it, y.a[1][0]), w if w.k == 'agg' else mk('agg', 'core::option::Option', 'Some', ('0',), (w,))))
                if y.k != 'agg' or last(y.a[0]) != 'KeyValue': say.maybe('file metadata pair', show(y)); continue
                f = dict(zip(y.a[2], y.a[3]))
                key, val = f.get('key'), f.get('value')
                good = items and key is norm(it, it.project(items[0], ('f', '0'))) and val is not None and val.k == 'agg' and val.a[1] == 'Some' and norm(it, val.a[3][0]) is norm(it, it.project(items[0], ('f', '1')))
                say.ob('file metadata pair', bool(good), 'is entered as %s' % show(y), span)
    def deep(self, P, t):
        t = P.resolve(t)
        return t

def file_meta(ctx, say):
    PS = ctx.adt(X, 'ParquetSchema')
    fm = smeta(ctx, PS)
    k = ctx.method(PS, 'finalize')
    it = ctx.run(k, cache=False)
    W = Kv(ctx, it, say, fm)
    W.pairs()
    ctx.floor('conversion', 'files opened', W.n, 1)

def smeta(ctx, PS):
    fm = [f['n'] for f in ctx.F.adts[PS]['vars'][0]['fs'] if f['ty'].startswith('std::collections::hash::map::HashMap<alloc::string::String,alloc::string::String')]
    if len(fm) != 1: raise Missing('metadata of ParquetSchema')
    return fm[0]

def recorded(ctx, say):
    """ParquetSchema::push keeps the metadata of the recording"""
    PS, S = ctx.adt(X, 'ParquetSchema'), ctx.adt(X, 'Snapshot')
    fm = smeta(ctx, PS)
    k = ctx.method(PS, 'push'); sp = ctx.F.bodies[k].get('span', '')
    _, _, op = columns.setup(ctx)
    it = ctx.run(k, opaque=op, cache=False)
    own = it.project(A0, ('f', fm))
    def is_snap(t): return t.k == 'call' and last(t.a[0]) == 'metadata' and t.a[0].startswith(S) or fields(t)[0] is A1 and fields(t)[1][-1:] == ('metadata',)
    W = None
    def delta(P, st, kind, x, n):
        known, fed = st
        if kind == 'ev':
            if x.kind == 'call' and x.result is not None: known = forget(known, x.result)
            if x.kind == 'call' and x.v and last(x.path) in ('insert', 'coll_add', 'extend', 'entry', 'or_insert', 'clear', 'remove', 'retain', 'drain') and fields(norm(it, P.resolve(x.v[0])))[0] is A0 and fields(norm(it, P.resolve(x.v[0])))[1][:1] == (fm,):
                if last(x.path) in ('clear', 'remove', 'retain', 'drain'): say.ob('recorded metadata', False, 'metadata recorded earlier is removed by %s' % short(x.path), x.span)
                else: fed = True
            return (known, fed)
        if not x: return st
        if x[0] == 'variant' and x[1].k == 'discr': return (known, fed)
        if x[0] == 'bool':
            known = truth(known, norm(it, P.resolve(x[1])), x[2])
            return None if known is None else (known, fed)
        if x[0] in ('next', 'next_back'): known = frozenset((t, w) for t, w in known if not any(q.k == 'item' for q in subterms(t)))
        return (known, fed)
    P = Prod(it, (frozenset(), False), delta)
    loop = any(is_snap(t) for e in it.all_events('next') for t in subterms(norm(it, e.v[0])))
    for nd in exits(it):
        for (known, fed), ns in P.ends.get(nd, ()):
            P.cur = ns
            def empt(pred):
                for t, w in known:
                    e = t.a[1][0] if t.k == 'call' and last(t.a[0]) == 'is_empty' and t.a[1] else None
                    if e is None and t.k == 'bin' and t.a[2].k == 'int' and t.a[2].a[0] == 0 and t.a[1].k == 'call' and last(t.a[1].a[0]) == 'len' and t.a[0] in ('Eq', 'Ne', 'Gt'): e, w = t.a[1].a[1][0], w == (t.a[0] == 'Eq')
                    if e is not None and pred(norm(it, e)): return w
                return None
            oe, se = empt(lambda t: t is own), empt(is_snap)
            ups = [v for names, v in updates(after(it, P, nd, ns, ('M', A0))) if names == (fm,)]
            v = norm(it, P.resolve(ups[-1], ns)) if ups else None
            if fed or loop: say.maybe('recorded metadata', 'merged pair by pair'); continue
            if v is None or v is own: say.ob('recorded metadata', oe is False or se is True, 'the metadata of a snapshot is dropped although none was recorded before', sp)
            elif is_snap(v): say.ob('recorded metadata', oe is True, 'metadata recorded earlier is replaced', sp)
            elif opaque(root(v)[0]): say.maybe('recorded metadata', show(v))
            else: say.ob('recorded metadata', False, 'becomes %s' % show(v), sp)

def builders(ctx, say):
    C, O = ctx.adt(X, 'MsgpackToParquet'), ctx.adt(X, 'ParquetOptions')
    fo, fm = cfields(ctx, C)
    span = lambda k: ctx.F.bodies[k].get('span', '')
    def keeps(it, a, f, inst, k):
        x = norm(it, it.project(a, ('f', f)))
        if opaque(root(x)[0]): say.maybe(inst, show(x))
        else: say.ob(inst, x is it.project(A0, ('f', f)), 'changes %s' % f, span(k))
    k = ctx.method(C, 'with_options'); it = ctx.run(k)
    for n, v in returns(it):
        for a in nalts(it, v):
            x = norm(it, it.project(a, ('f', fo)))
            if opaque(root(x)[0]): say.maybe('with_options', show(x))
            else: say.ob('with_options', x is A0, 'keeps %s instead of the given options' % show(x), span(k))
    k = ctx.method(C, 'metadata'); it = ctx.run(k)
    own = it.project(A0, ('f', fm))
    def delta(P, s, kind, x, n):
        if kind == 'ev' and x.kind == 'call' and x.v and x.at and x.at[0].startswith('&mut ') and norm(it, P.resolve(x.v[0])) is own and len(s) < 4: return s + (x,)
        return s
    P = Prod(it, (), delta)
    for nd in exits(it):
        for s, ns in P.ends.get(nd, ()):
            ins = [e for e in s if last(e.path) == 'insert' and len(e.v) == 3]
            if [e for e in s if last(e.path) in ('entry', 'extend', 'coll_add')]: say.maybe('metadata', short(s[0].path)); continue
            say.ob('metadata', len(ins) == 1 and norm(it, ins[0].v[1]) is A1 and norm(it, ins[0].v[2]) is A2, 'stores %s' % ('nothing' if not ins else '%s under %s' % (show(ins[0].v[2]), show(ins[0].v[1]))), span(k))
            for e in s:
                if last(e.path) in ('remove', 'clear', 'retain', 'drain'): say.ob('metadata', False, 'removes pairs added before', e.span)
    for n, v in returns(it):
        for a in nalts(it, v): keeps(it, a, fo, 'metadata keeps the options', k)
    fs = [f['n'] for f in ctx.F.adts[O]['vars'][0]['fs']]
    for m in ('compression', 'max_batch_size', 'histogram_type'):
        k = ctx.method(O, m); it = ctx.run(k)
        for n, v in returns(it):
            for a in nalts(it, v):
                for f in fs:
                    if f != m: keeps(it, a, f, 'ParquetOptions::%s' % m, k); continue
                    x = norm(it, it.project(a, ('f', f)))
                    if opaque(root(x)[0]): say.maybe('ParquetOptions::' + m, show(x))
                    else: say.ob('ParquetOptions::' + m, x is A1, 'sets %s' % show(x), span(k))

def failures(ctx, say):
    PS, PW = ctx.adt(X, 'ParquetSchema'), ctx.adt(X, 'ParquetWriter')
    _, _, op = columns.setup(ctx)
    for a, m, what in ((PS, 'finalize', 'ParquetSchema::finalize'), (PW, 'push', 'ParquetWriter::push'), (PW, 'finalize', 'ParquetWriter::finalize')):
        def one():
            k = ctx.method(a, m)
            it = ctx.run(k, opaque=op, cache=False)
            W = Flow(ctx, it, say, what)
            n = W.outcome(None)
            ctx.floor('conversion', 'ways out of ' + what, n, 1)
            if what == 'ParquetWriter::finalize':
                cl = [e for e in it.all_events('call') if last(e.path) in ('close', 'finish', 'into_inner') and 'ArrowWriter' in e.path]
                ctx.floor('conversion', 'files closed', len(cl), 1)
                for nd in exits(it):
                    ev = [e for e in it.events[nd] if e.kind == 'return'][0]
                    for st, ns in W.P.ends.get(nd, ()):
                        v = norm(it, W.P.resolve(ev.v[0], ns))
                        if v.k == 'agg' and v.a[1] == 'Err': continue
                        x = v.a[3][0] if v.k == 'agg' and v.a[1] == 'Ok' else v
                        r, p = root(norm(it, x))
                        if opaque(r): say.maybe('closed file', show(x))
                        else: say.ob('closed file', any(cid(r) == cid(e.result) for e in cl if e.result is not None), 'reports %s instead of the closed file' % show(x), ev.span)
        rule(ctx, 'conversion', what, one)

def check(ctx):
    say = columns.Say(ctx, 'conversion')
    for inst, f in (('convert_file_handle', convert), ('convert_file_path', by_path), ('recorded metadata', recorded), ('file metadata', file_meta), ('builders', builders), ('failures', failures)):
        rule(ctx, 'conversion', inst, lambda: f(ctx, say))
    rule(ctx, 'rows', 'ParquetWriter::push', lambda: columns.rows(ctx))
    rule(ctx, 'schema-names', 'ParquetSchema::push', lambda: columns.naming(ctx))
