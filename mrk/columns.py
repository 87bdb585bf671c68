"""The parquet schema and the rows written against it."""
from .frame import Missing
from .q import *
from .core import T, mk, show, short
from .walk import variant_of, is_var
from .seq import Seq, lit_obj
from .shared import A0, A1
from . import canon
X = 'metriken_exposition'
A2, A3 = mk('arg', 2), mk('arg', 3)
KINDS = ('counters', 'gauges', 'histograms')
ONE = {'counters': 'counter', 'gauges': 'gauge', 'histograms': 'histogram'}
unsure = lambda v: v.k in ('unk', 'phi', 'old', 'mut', 'item', 'uninit') or v.k == 'call' and not is_std(v.a[0]) and not v.a[0].startswith(('arrow', 'format!', 'vec!'))

class Say:
    def __init__(self, ctx, R): self.ctx, self.R, self.seen = ctx, R, set()
    def ob(self, inst, ok, why='', span=''):
        k = (inst, bool(ok), why)
        if k not in self.seen: self.seen.add(k); self.ctx.ob(self.R, inst, bool(ok), why, span)
    def maybe(self, inst, why, it=None, t=None):
        how = lossy(it, t) if it is not None else None
        if how: return self.ob(inst, False, 'holds %s, part of which %s leaves out or changes' % (why, how))
        k = (inst, None, why)
        if k not in self.seen: self.seen.add(k); self.ctx.undecided(self.R, inst, why)

def setup(ctx):
    """what stays opaque: the snapshot's accessors (C15) and the canonical name (C16)"""
    S = ctx.adt(X, 'Snapshot')
    cs = canon.find(ctx)
    ck = {k: (nm, md) for k, nm, md in cs}
    def op(b): return b['path'].startswith(S + '::') or b.get('key', b['path']) in ck or b['path'] in ck
    return S, ck, op

def snap_kind(it, s):
    """which list of the snapshot a walk visits"""
    s = norm(it, s)
    for t in subterms(s):
        if t.k == 'call' and last(t.a[0]) in KINDS and t.a[0].startswith(X) and t.a[1] and fields(norm(it, t.a[1][0]))[0] is A1: return last(t.a[0])
    while s.k == 'src': s = norm(it, s.a[0])
    r, p = fields(s)
    if r is A1 and p and p[-1] in KINDS: return p[-1]
    return None

def canon_of(it, ck, t, item):
    """whether t is the canonical name of item; None when not known"""
    t = norm(it, t)
    if t.k == 'call' and t.a[0] in ck:
        nm, md = ck[t.a[0]]
        a = [norm(it, x) for x in t.a[1]]
        return a[nm] is norm(it, it.project(item, ('f', 'name'))) and a[md] is norm(it, it.project(item, ('f', 'metadata')))
    if not ck or unsure(root(t)[0]) and root(t)[0] is not item: return None
    return False

class Reg(Seq):
    """aux: ('reg', field, key, value, span) | ('ent', result, field, key) | ('done', kind)"""
    def __init__(self, ctx, it, ck, say):
        self.ctx, self.ck, self.say, self.field, self.n, self.seen_in = ctx, ck, say, {}, 0, {}
        super().__init__(it, lambda o, dt: False)
    def kind(self, s): return snap_kind(self.it, s)
    def place(self, P, t):
        r, p = fields(self.val(P, t))
        return p if r is A0 and p else None
    def note(self, P, st, e):
        aux = st[4]
        if e.kind != 'call' or not e.v: return aux
        l = last(e.path)
        if l == 'entry' and len(e.v) == 2:
            f = self.place(P, e.v[0])
            if f: return aux | {('ent', norm(self.it, e.result), f, self.val(P, e.v[1]))}
        elif l in ('or_insert', 'or_insert_with', 'or_default', 'insert_entry', 'or_insert_with_key', 'insert') and len(e.v) <= 2:
            o = self.val(P, e.v[0])
            for f in list(aux):
                if f[0] == 'ent' and f[1] in set(subterms(o)): return aux | {('reg', f[2], f[3], self.val(P, e.v[1]) if len(e.v) == 2 else mk('unk', l), e.span)}
        elif l in ('insert', 'coll_add'):
            f = self.place(P, e.v[0])
            if f:
                k, v = (e.v[1], e.v[2]) if len(e.v) == 3 else (lambda x: (self.it.project(x, ('f', '0')), self.it.project(x, ('f', '1'))))(self.val(P, e.v[1]))
                return aux | {('reg', f, self.val(P, k), self.val(P, v), e.span)}
        elif l in ('remove', 'clear', 'retain', 'pop_first', 'pop_last', 'split_off', 'drain', 'append') and e.at and e.at[0].startswith('&mut '):
            f = self.place(P, e.v[0])
            if f and l != 'append': self.say.ob('kept', False, 'metrics already recorded in %s are removed by %s' % ('.'.join(f), short(e.path)), e.span)
        return aux
    def on_edge(self, P, st, x):
        if x[0] in ('next', 'next_back') and x[2] == 'None':
            k = self.kind(x[1])
            if k: return st[4] | {('done', k)}
        return st[4]
    def round_end(self, P, src, rounds, known, aux):
        it, kind = self.it, self.kind(src)
        if kind is None: return
        self.n += 1
        one = ONE[kind]
        items = [norm(it, e.result) for k in ('next', 'next_back') for e in it.all_events(k) if norm(it, e.v[0]) is src and e.result is not None]
        item = items[0] if items else None
        if item is None: return
        mine = lambda t: item in set(subterms(t))
        regs = [f for f in aux if f[0] == 'reg' and (mine(f[2]) or mine(f[3]))]
        if not regs:
            for t, w in known:
                if mine(t) and (w is True and t.k == 'call' and last(t.a[0]) in ('contains_key', 'is_some') or isinstance(w, frozenset) and w <= {'Some', 'Occupied'}):
                    self.seen_in.setdefault(kind, set()).update(f for y in subterms(t) for f in [fields(y)[1]] if fields(y)[0] is A0 and f)
                    return
            if any(w is not None and mine(t) for t, w in known): self.say.ob(one + ' recorded', False, 'a %s is left out of the schema under a condition on it' % one)
            else: self.say.ob(one + ' recorded', False, 'a %s of the snapshot is left out of the schema' % one)
            return
        self.say.ob(one + ' recorded', True)
        for _, f, k, v, span in regs:
            self.field.setdefault(kind, set()).add(f)
            c = canon_of(it, self.ck, k, item)
            if c is None: self.say.maybe(one + ' name', show(k), it, k)
            else: self.say.ob(one + ' name', c, 'is recorded as %s instead of under its canonical name' % show(k), span)
            want = norm(it, it.project(item, ('f', 'metadata')))
            if v is want: self.say.ob(one + ' label', True)
            elif v.k in ('unk', 'phi', 'fn') or v.k == 'agg' and v.a[0].startswith('closure:'): self.say.maybe(one + ' label', show(v), it, v)
            else: self.say.ob(one + ' label', False, 'is recorded with %s instead of its own metadata' % show(v), span)

def naming(ctx, R='schema-names', report=True):
    """every metric of every pushed snapshot is recorded under its canonical name: kind -> schema field"""
    S, ck, op = setup(ctx)
    PS = ctx.adt(X, 'ParquetSchema')
    k = ctx.method(PS, 'push'); sp = ctx.F.bodies[k].get('span', '')
    it = ctx.run(k, opaque=op, cache=False)
    say = Say(ctx, R) if report else Say(Silent(), R)
    W = Reg(ctx, it, ck, say)
    if report: ctx.floor(R, 'metrics recorded', W.n, 3)
    for st, v, nd, ns in W.results():
        for kind in KINDS: say.ob('every ' + ONE[kind], ('done', kind) in st[4], 'the schema is left before every %s was recorded' % ONE[kind], sp)
    out = {}
    for kind, fs in W.field.items():
        say.ob(ONE[kind] + ' field', len(fs) == 1, '%s are recorded in several places' % kind, sp)
        out[kind] = sorted(fs)[0]
    for kind, fs in W.seen_in.items():
        if kind in out: say.ob(ONE[kind] + ' recorded', all(f[:len(out[kind])] == out[kind] or out[kind][:len(f)] == f for f in fs), 'a %s is left out because of what is recorded elsewhere' % ONE[kind], sp)
    if len(out) == 3: say.ob('kinds apart', len(set(out.values())) == 3, 'metrics of different kinds are recorded in the same place', sp)
    return out

class Silent:
    def ob(self, *a, **k): pass
    def undecided(self, *a, **k): pass
    def floor(self, *a, **k): pass

# ---------------------------------------------------------------- schema

def dtype(it, t):
    t = norm(it, t)
    if t.k == 'agg' and last(t.a[0]) == 'DataType' and not t.a[3]: return t.a[1]
    if t.k == 'call' and last(t.a[0]) == 'new_list' and len(t.a[1]) == 2:
        n = norm(it, t.a[1][1])
        return ('list', dtype(it, t.a[1][0]), n.a[0] if n.k == 'bool' else None)
    return None

def truth(it, n):
    """a flag that has to be set: set (True), not always set (False) or unknown (None)"""
    vs = [x.a[0] if x.k == 'bool' else False if x.k == 'bin' and x.a[0] in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne') or x.k == 'un' or x.k == 'call' and is_std(x.a[0]) else None for x in alts(it, n)]
    return False if False in vs else None if None in vs else True

def field_of(it, t):
    """(name, type, nullable, metadata) of a field"""
    t = norm(it, t)
    md = None
    while t.k == 'call' and last(t.a[0]) == 'with_metadata' and len(t.a[1]) == 2: md = md or norm(it, t.a[1][1]); t = norm(it, t.a[1][0])
    if t.k == 'call' and last(t.a[0]) == 'new' and 'Field' in t.a[0] and len(t.a[1]) == 3:
        n = norm(it, t.a[1][2])
        return norm(it, t.a[1][0]), dtype(it, t.a[1][1]), truth(it, n), md
    if t.k == 'call' and last(t.a[0]) == 'new_list' and 'Field' in t.a[0]: return None
    return None

def base_fields(it, s):
    """(root, field path) of what a walk visits"""
    s = norm(it, s)
    while s.k == 'src': s = norm(it, s.a[0])
    return fields(s)

class Fin(Seq):
    """aux: ('ins', object, key, value)"""
    def __init__(self, ctx, it, say, kinds):
        self.ctx, self.say, self.back, self.n = ctx, say, set(), 0
        self.kinds = {f: k for k, f in kinds.items()}
        self.target = set()
        for e in it.all_events('call'):
            if last(e.path) == 'new' and 'Schema' in e.path and e.v:
                for a in alts(it, e.v[0]):
                    while a.k == 'call' and is_conv(a.a[0]) and a.a[1]: a = a.a[1][0]
                    self.target.add(lit_obj(a))
        super().__init__(it, lambda o, dt: 'Field' in dt or 'Vec<alloc::string::String' in dt)
    def note(self, P, st, e):
        if e.kind == 'call' and e.v and last(e.path) == 'insert' and 'Map' in e.path and len(e.v) == 3:
            k, v = self.val(P, e.v[1]), self.val(P, e.v[2])
            return st[4] | {('ins', self.val(P, e.v[0]), k, v)}
        if e.kind == 'call' and e.v and last(e.path) in ('remove', 'clear', 'retain', 'drain') and 'Map' in e.path and e.at and e.at[0].startswith('&mut '):
            o = self.val(P, e.v[0])
            if root(o)[0].k == 'item': self.say.ob('labels', False, 'metadata of a metric is removed by %s' % short(e.path), e.span)
        return st[4]
    def kind(self, s):
        r, p = base_fields(self.it, s)
        return self.kinds.get(p) if r is A0 else None
    def htype(self, known):
        for t, w in known:
            r, p = fields(t)
            if isinstance(w, frozenset) and w <= {'Standard', 'Sparse'} and len(w) == 1: return list(w)[0], t
        return None, None
    def round_end(self, P, src, rounds, known, aux):
        it, kind = self.it, self.kind(src)
        if kind is None: return
        self.n += 1
        one = ONE[kind]
        els = [e for o in self.target for e in rounds.get(o, ())]
        items = [norm(it, e.result) for k in ('next', 'next_back') for e in it.all_events(k) if norm(it, e.v[0]) is src and e.result is not None]
        if not items: return
        item = items[0]
        own = lambda t: t is norm(it, it.project(item, ('f', '0'))) or t is item
        # the list of names
        for o, r in list(rounds.items()) + [(o, ()) for (q, o) in self.fed if q is src and o not in rounds]:
            if o in self.target: continue
            if 'Vec<alloc::string::String' not in self.types[o]: continue
            good = len(r) == 1 and r[0][0] == 'el' and own(norm(it, r[0][1]))
            if len(r) == 1 and r[0][0] == 'el' and not good and norm(it, r[0][1]).k in ('unk', 'phi', 'old'): self.say.maybe(one + ' names', show(r[0][1]), it, r[0][1])
            else: self.say.ob(one + ' names', good, 'the names kept for the rows are %s per %s' % (', '.join(show(norm(it, x[1])) for x in r) or 'none', one))
        if not any((src, o) in self.fed for o in self.target): return
        if kind == 'histograms':
            ht, _ = self.htype(known)
            want = {'Standard': [':buckets'], 'Sparse': [':bucket_indices', ':bucket_counts']}.get(ht)
            if want is None: self.say.maybe('histogram columns', 'representation not known'); return
            label = {'Standard': 'histogram', 'Sparse': 'sparse_histogram'}[ht]; ty = ('list', 'UInt64', True)
        else: want, label, ty = [''], one, {'counters': 'UInt64', 'gauges': 'Int64'}[kind]
        inst = one + ' columns' + (' (%s)' % ht.lower() if kind == 'histograms' else '')
        if any(e[0] != 'el' or e[1].k == 'unk' for e in els): self.say.maybe(inst, 'columns not followed'); return
        self.say.ob(inst, len(els) == len(want), '%d column(s) are declared per %s instead of %d' % (len(els), one, len(want)))
        if len(els) != len(want): return
        for e, suf in zip(els, want):
            f = field_of(it, e[1])
            if f is None: self.say.maybe(inst, show(e[1]), it, e[1]); continue
            name, d, nul, md = f
            if suf:
                tail = [norm(it, x) for x in name.a[1][1:]] if name.k == 'call' else []
                ok = name.k == 'call' and name.a[0] == 'format!' and len(name.a[1]) >= 2 and own(norm(it, name.a[1][0])) and all(x.k == 'str' for x in tail) and ''.join(x.a[0] for x in tail) == suf
                if not ok and not (name.k == 'call' and name.a[0] == 'format!' or name.k in ('str', 'proj', 'item')): self.say.maybe(inst + ' name', show(name), it, name)
                else: self.say.ob(inst + ' name', ok, 'the column is called %s instead of the name of the %s and %s' % (show(name), one, suf))
            else:
                if not own(name) and name.k in ('unk', 'phi', 'old'): self.say.maybe(inst + ' name', show(name), it, name)
                else: self.say.ob(inst + ' name', own(name), 'the column is called %s instead of by the name of the %s' % (show(name), one))
            if d is None: self.say.maybe(inst + ' type', show(e[1]), it, e[1])
            else: self.say.ob(inst + ' type', d == ty, 'the column is declared as %s instead of %s' % (d, ty))
            if nul is None: self.say.maybe(inst + ' nulls', show(e[1]), it, e[1])
            else: self.say.ob(inst + ' nulls', nul, 'the column does not accept nulls')
            wantmd = norm(it, it.project(item, ('f', '1')))
            if md is None: self.say.ob(inst + ' label', False, 'the column does not carry the metadata of its metric'); continue
            if md is not wantmd:
                if md.k in ('unk', 'phi', 'old', 'mut') or md.k == 'call' and (md.a[0].startswith('mrk_models') or last(md.a[0]) in ('new', 'with_capacity', 'get', 'remove', 'default')) and not self.fresh(md, item, aux, rounds): self.say.maybe(inst + ' label', show(md), it, md)
                else: self.say.ob(inst + ' label', False, 'the column carries %s instead of the metadata of its metric' % show(md))
                continue
            self.say.ob(inst + ' label', True)
            kindlab = [f[3] for f in aux if f[0] == 'ins' and f[1] is md and f[2].k == 'str' and f[2].a[0] == 'metric_type']
            self.say.ob(inst + ' kind', bool(kindlab), 'the column is not labelled with its kind')
            for v in kindlab:
                if v.k == 'str': self.say.ob(inst + ' kind', v.a[0] == label, 'the column is labelled %s instead of %s' % (v.a[0], label))
                else: self.say.maybe(inst + ' kind', show(v), it, v)
            for f in aux:
                if f[0] == 'ins' and f[1] is md and f[2].k == 'str' and f[2].a[0] != 'metric_type': self.say.ob(inst + ' label', False, 'the metadata of the metric is overwritten at %s' % f[2].a[0])
    def fresh(self, md, item, aux, rounds):
        """whether md is a map into which nothing of the metric is ever entered"""
        it = self.it
        if last(md.a[0]) in ('get', 'remove'): return False
        want = it.project(item, ('f', '1'))
        for e in it.all_events('call'):
            if len(e.v) > 1 and any(norm(it, a) is md for a in e.v[:1]) and any(mentions(it, a, lambda s: s is item or s is want or s.k in ('unk', 'mut')) for a in e.v[1:]): return False
        return not mentions(it, md, lambda s: s is item)
    def on_edge(self, P, st, x):
        if x[0] == 'next_back': self.back.add(norm(self.it, P.resolve(x[1])))
        return st[4]

def schema(ctx, R='schema'):
    """returns (order of the kinds, writer field -> kind, field path -> kind of names, options path, schema field)"""
    kinds = naming(ctx, report=False)
    S, ck, op = setup(ctx)
    PS, PW = ctx.adt(X, 'ParquetSchema'), ctx.adt(X, 'ParquetWriter')
    k = ctx.method(PS, 'finalize'); sp = ctx.F.bodies[k].get('span', '')
    say = Say(ctx, R)
    if len(kinds) != 3: say.maybe('schema', 'where metrics are recorded'); return None
    it = ctx.run(k, opaque=op, cache=False)
    W = Fin(ctx, it, say, kinds)
    ctx.floor(R, 'column declarations followed', W.n, 4)
    if not W.target or not W.target <= set(W.types): say.maybe('schema', 'list of columns not followed'); return None
    for (o, how), span in W.cut.items(): say.ob('order', False, 'a list of columns or names is changed by %s' % how, span)
    order, lists, opts, names = None, {}, None, {}
    nok = 0
    for st, v, nd, ns in W.results():
        if v.k == 'agg' and v.a[1] == 'Err': continue
        w = v
        if w.k == 'agg' and w.a[1] == 'Ok': w = norm(it, w.a[3][0])
        if w.k != 'agg' or w.a[0].split('<')[0] != PW: say.maybe('writer', show(v), it, v); continue
        nok += 1
        seq = [s for o in W.target for s in W.seq_of(st, o)]
        head, loops = [s for s in seq if s[0] == 'el'], [W.kind(s[1]) for s in seq if s[0] == 'loop']
        if len(head) != 2 or [s[0] for s in seq[:2]] != ['el', 'el']: say.ob('leading columns', False, '%d leading column(s) instead of timestamp and duration' % len(head), sp)
        else:
            for s, nm, nul in zip(head, ('timestamp', 'duration'), (None, True)):
                f = field_of(it, s[1])
                if f is None: say.maybe('leading columns', show(s[1]), it, s[1]); continue
                say.ob(nm + ' column', f[0].k == 'str' and f[0].a[0] == nm, 'column is called %s instead of %s' % (show(f[0]), nm), sp)
                if f[1] is not None: say.ob(nm + ' column', f[1] == 'UInt64', 'the %s column is declared as %s' % (nm, f[1]), sp)
                if nul and f[2] is not None: say.ob(nm + ' column', f[2], 'the %s column does not accept nulls' % nm, sp)
        say.ob('columns', sorted(map(str, loops)) == sorted(KINDS), 'columns are declared for %s' % ', '.join(map(str, loops)), sp)
        if order is None: order = loops
        say.ob('columns', order == loops, 'the order of the columns differs between paths', sp)
        for s in seq:
            if s[0] == 'loop' and s[1] in W.back: say.maybe('order', 'columns are declared from the back')
        # what the writer keeps
        for n in w.a[2]:
            x = P = W.P.resolve(it.project(v.a[3][0] if v.k == 'agg' and v.a[1] == 'Ok' else v, ('f', n)), ns)
            while lit_obj(x) not in W.types and x.k == 'call' and is_conv(x.a[0]) and x.a[1]: x = x.a[1][0]
            x = lit_obj(x)
            if x in W.types:
                ks = {W.kind(s[1]) for s in W.seq_of(st, x) if s[0] == 'loop'}
                if x in W.target: continue
                say.ob('names kept', len(ks) == 1 and None not in ks and len(W.seq_of(st, x)) == 1, 'the writer keeps the names of %s' % (', '.join(map(str, ks)) or 'nothing'), sp)
                if len(ks) == 1: lists[n] = list(ks)[0]
                if any(s[1] in W.back for s in W.seq_of(st, x)): say.ob('names kept', False, 'the names are kept in reverse', sp)
            else: names[n] = norm(it, x)
    ctx.floor(R, 'writers built', nok, 1)
    if order is None: return None
    say.ob('names kept', sorted(map(str, lists.values())) == sorted(KINDS), 'the writer keeps the names of %s' % ', '.join(sorted(map(str, lists.values()))), sp)
    # one schema for the file and the rows
    for e in it.all_events('call'):
        if last(e.path) == 'try_new' and 'ArrowWriter' in e.path and len(e.v) == 3:
            for a in nalts(it, e.v[1]):
                same = [n for n, x in names.items() if x is a]
                if a.k in ('unk', 'phi'): say.maybe('schema', show(a), it, a)
                else: say.ob('schema', bool(same), 'the file is opened with another schema than the rows are checked against', e.span)
            for a in nalts(it, e.v[0]):
                if a.k not in ('unk', 'phi'): say.ob('sink', a is A1, 'the file is written to %s' % show(a), e.span)
    hts = set()
    for n in it.reach:
        for m, l in it.succ.get(n, ()):
            if l and l[0] == 'variant' and l[2] in ('Standard', 'Sparse'): hts.add(norm(it, l[1].a[0]))
    return {'order': order, 'lists': lists, 'kept': names, 'htypes': hts, 'it': it}

# ---------------------------------------------------------------- rows

class Rows(Seq):
    """aux: ('batch', result, columns, schema) | ('wrote', count, result)"""
    def __init__(self, ctx, it, say, sch, ck):
        self.ctx, self.say, self.sch, self.ck, self.n = ctx, say, sch, ck, 0
        self.target, self.back, self.pend = set(), set(), []
        for e in it.all_events('call'):
            if last(e.path) in ('try_new', 'try_new_with_options', 'new') and 'RecordBatch' in e.path and len(e.v) >= 2:
                for a in alts(it, e.v[1]):
                    while a.k == 'call' and is_conv(a.a[0]) and a.a[1]: a = a.a[1][0]
                    self.target.add(lit_obj(a))
        super().__init__(it, lambda o, dt: 'dyn arrow_array' in dt or 'Option<u64>' in dt or 'Vec<u64' in dt or 'Map<alloc::string::String' in dt)
        for a in self.pend: self.check(*a)
    def note(self, P, st, e):
        aux = st[4]
        if e.kind == 'call' and e.v:
            if e.at and e.at[0].startswith(('&mut alloc::', '&mut str')) and any(w in e.at[0] for w in ('String', 'Vec', 'str')):
                o = self.val(P, e.v[0])
                r, p = fields(o)
                if r.k == 'item' and self.kind(r.a[0]) or r is A0 and p and p[0] in self.sch['lists']:
                    if not is_conv(e.path) and last(e.path) not in ('iter_mut', 'iter', 'into_iter', 'shrink_to_fit', 'reserve', 'as_mut_slice', 'len', 'push', 'pop'): self.say.ob('names kept', False, 'the names of the columns are changed by %s while a row is written' % short(e.path), e.span)
            if last(e.path) == 'write' and 'ArrowWriter' in e.path:
                n = [f for f in aux if f[0] == 'wrote']
                c = n[0][1] + 1 if n else 1
                return (aux - set(n)) | {('wrote', min(c, 2), norm(self.it, e.result), self.val(P, e.v[1]), self.val(P, e.v[0]), e.span)}
        return aux
    def on_edge(self, P, st, x):
        if x[0] == 'next_back': self.back.add(norm(self.it, P.resolve(x[1])))
        return st[4]
    def kind(self, s):
        r, p = base_fields(self.it, s)
        return self.sch['lists'].get(p[0]) if r is A0 and len(p) == 1 else None
    def round_end(self, P, src, rounds, known, aux):
        if self.kind(src): self.pend.append((src, rounds, known))
        elif snap_kind(self.it, src): self.pend.append((src, rounds, known))
    def item(self, src):
        for k in ('next', 'next_back'):
            for e in self.it.all_events(k):
                if norm(self.it, e.v[0]) is src and e.result is not None: return norm(self.it, e.result)
    def maps(self):
        """map object -> (kind, whether it stores the metric or its value)"""
        out = {}
        for s, r in self.rounds:
            k = snap_kind(self.it, s)
            if k is None: continue
            item = self.item(s)
            for o, els in r:
                if 'Map<' not in self.types[o]: continue
                for e in els:
                    x = norm(self.it, e[1])
                    if x.k == 'agg' and len(x.a[3]) == 2:
                        v = x.a[3][1]
                        out.setdefault(o, set()).add((k, 'item' if v is item else 'value' if v is norm(self.it, self.it.project(item, ('f', 'value'))) else 'other'))
                    else: out.setdefault(o, set()).add((k, 'other'))
        return out
    def lookup(self, t):
        """(object, key) of a map lookup"""
        if t.k == 'call' and last(t.a[0]) in ('remove', 'get', 'get_mut') and 'Map' in t.a[0] and len(t.a[1]) == 2:
            o = t.a[1][0]
            return (o if o in self.types else None), norm(self.it, t.a[1][1])
        return None
    def column(self, raw):
        """(array type, elements) of a column"""
        it, t = self.it, raw
        while t.k == 'call' and is_conv(t.a[0]) and t.a[1] and (last(t.a[0]) == 'clone' or 'PrimitiveArray<' not in self.dt(t) and 'GenericListArray<' not in self.dt(t)): t = t.a[1][0]
        dt = self.dt(t)
        if t.k != 'call': return None
        if 'PrimitiveArray<' in dt:
            ty = dt.split('PrimitiveArray<')[1].split('>')[0].rsplit('::', 1)[-1].replace('Type', '')
            if last(t.a[0]) in ('from', 'from_iter', 'into', 'from_iter_values') and t.a[1]:
                e = self.elements(t.a[1][0])
                return (ty, e) if e is not None else None
            if last(t.a[0]) == 'new_null' and len(t.a[1]) == 1 and t.a[1][0].k == 'int': return ty, [mk('agg', 'core::option::Option', 'None', (), ())] * t.a[1][0].a[0]
            if last(t.a[0]) == 'from_value' and len(t.a[1]) == 2 and t.a[1][1].k == 'int': return ty, [t.a[1][0]] * t.a[1][1].a[0]
        if 'GenericListArray<' in dt and last(t.a[0]) == 'from_iter_primitive' and t.a[1]:
            e = self.elements(t.a[1][0])
            return ('List', e) if e is not None else None
        return None
    def elements(self, t):
        n = norm(self.it, t)
        if n.k == 'call' and n.a[0] == 'vec!' and n.a[1]: n = n.a[1][0]
        if n.k == 'agg' and n.a[0] == '[]': return list(n.a[3])
        return None
    def histogram_type(self, known):
        for t, w in known:
            if isinstance(w, frozenset) and w <= {'Standard', 'Sparse'} and len(w) == 1: return list(w)[0], t
        return None, None
    def check(self, src, rounds, known):
        it, say = self.it, self.say
        sk = snap_kind(it, src)
        if sk:
            item = self.item(src)
            for o, els in rounds.items():
                if 'Map<' not in self.types[o]: continue
                one = ONE[sk]
                say.ob(one + ' lookup', len(els) == 1, 'a %s of the snapshot is entered %d times for the row' % (one, len(els)))
                for e in els:
                    x = norm(it, e[1])
                    if x.k != 'agg' or len(x.a[3]) != 2: say.maybe(one + ' lookup', show(x), it, x); continue
                    c = canon_of(it, self.ck, x.a[3][0], item)
                    if c is None: say.maybe(one + ' lookup', show(x.a[3][0]), it, x.a[3][0])
                    else: say.ob(one + ' lookup', c, 'is entered for the row as %s instead of under its canonical name' % show(x.a[3][0]))
                    if x.a[3][1] is not item and x.a[3][1] is not norm(it, it.project(item, ('f', 'value'))):
                        if unsure(root(x.a[3][1])[0]) and root(x.a[3][1])[0] is not item: say.maybe(one + ' lookup', show(x.a[3][1]), it, x.a[3][1])
                        else: say.ob(one + ' lookup', False, 'is entered for the row as %s instead of itself' % show(x.a[3][1]))
            if not any('Map<' in self.types[o] for o in rounds) and any(s is src and 'Map<' in self.types[q] for s, q in self.fed): say.ob(ONE[sk] + ' lookup', False, 'a %s of the snapshot is left out of the row' % ONE[sk])
            return
        kind = self.kind(src)
        if not any((src, o) in self.fed for o in self.target): return
        self.n += 1
        one = ONE[kind]; item = self.item(src)
        els = [e for o in self.target for e in rounds.get(o, ())]
        ht, hterm = self.histogram_type(known)
        inst = one + ' column'
        if any(e[0] != 'el' or e[1].k == 'unk' for e in els): say.maybe(inst, 'columns not followed'); return
        if kind == 'histograms':
            if ht is None: say.maybe(inst, 'representation not known'); return
            inst += ' (%s)' % ht.lower()
            # the representation asked is the one the schema was declared with
            r, p = fields(hterm)
            if r is A0:
                x = None
                if p and p[0] in self.sch['kept']:
                    x = self.sch['kept'][p[0]]
                    for n in p[1:]: x = norm(self.sch['it'], self.sch['it'].project(x, ('f', n)))
                say.ob('representation', x is None or x.k in ('unk', 'phi') or x in self.sch['htypes'], 'rows follow %s, which is not what the schema was declared with' % show(hterm))
        want = 2 if ht == 'Sparse' and kind == 'histograms' else 1
        say.ob(inst, len(els) == want, '%d column(s) are written per %s instead of %d' % (len(els), one, want))
        if len(els) != want: return
        ty = {'counters': 'UInt64', 'gauges': 'Int64', 'histograms': 'List'}[kind]
        maps = self.maps()
        for i, e in enumerate(els):
            c = self.column(e[1])
            if c is None: say.maybe(inst, show(norm(it, e[1])), it, norm(it, e[1])); continue
            t, vals = c
            say.ob(inst + ' type', t == ty, 'is written as %s instead of %s' % (t, ty))
            say.ob(inst + ' rows', len(vals) == 1, '%d values are written for one snapshot' % len(vals))
            if len(vals) != 1 or t != ty: continue
            x = norm(it, vals[0])
            none = x.k == 'agg' and x.a[1] == 'None'
            some = x.a[3][0] if x.k == 'agg' and x.a[1] == 'Some' else None
            if none:
                ks = [u for u, w in known if w == frozenset(['None']) and self.lookup(u) and self.lookup(u)[1] is item]
                if not ks:
                    cs = [u for u, w in known if w is False and u.k == 'call' and last(u.a[0]) == 'contains_key' and len(u.a[1]) == 2 and norm(it, u.a[1][1]) is item]
                    if cs: say.maybe(inst + ' gap', 'lookup by contains_key'); continue
                    say.ob(inst + ' gap', False, 'null is written for a %s the snapshot may have reported' % one); continue
                say.ob(inst + ' gap', all(self.right_map(maps, u, kind) is not False for u in ks), 'null is written by looking among another kind of metric')
                continue
            if some is None and kind != 'histograms' and self.lookup(x): some, whole = x, True
            else: whole = False
            if some is None:
                lk = root(x)[0]
                say.ob(inst + ' value', False, 'holds %s, which is never null' % show(x)) if not unsure(lk) else say.maybe(inst + ' value', show(x), it, x)
                continue
            if kind == 'histograms': self.buckets(inst, some, ht, i, rounds, item, maps, kind); continue
            u, p = root(some)
            lk = self.lookup(u)
            if lk is None or lk[0] is None:
                if unsure(u): say.maybe(inst + ' value', show(some), it, some)
                else: say.ob(inst + ' value', False, 'holds %s instead of what the snapshot reported' % show(some))
                continue
            how = {h for _, h in maps.get(lk[0], ())}
            good = lk[1] is item and self.right_map(maps, u, kind) is not False
            pf = tuple(q[1] for q in p if q[0] == 'f')
            good = good and (whole and how == {'value'} or pf == ('0', 'value') and how <= {'item', 'other'} or pf == ('0',) and how == {'value'})
            say.ob(inst + ' value', good, 'holds %s instead of the value of the %s of that name' % (show(some), one))
    def right_map(self, maps, u, kind):
        o = self.lookup(u)[0]
        if o is None or o not in maps: return None
        return {k for k, _ in maps[o]} == {kind}
    def buckets(self, inst, some, ht, i, rounds, item, maps, kind):
        it, say = self.it, self.say
        o = lit_obj(some) if lit_obj(some) in self.types else None
        want = {'Standard': [None], 'Sparse': ['index', 'count']}[ht][i]
        def src_ok(b):
            """whether the walk over b visits the wanted data of the histogram of this round"""
            while b.k == 'src': b = norm(it, b.a[0])
            r, p = root(b)
            pf = [q[1] for q in p if q[0] == 'f']
            if ht == 'Standard':
                if r.k == 'call' and last(r.a[0]) == 'as_slice' and 'istogram' in r.a[0] and not pf: r, p = root(norm(it, r.a[1][0])); pf = [q[1] for q in p if q[0] == 'f']
                else: return None if unsure(r) and self.lookup(r) is None else False
                tail = []
            else: tail = [want]
            lk = self.lookup(r)
            if lk is None: return None
            how = {h for _, h in maps.get(lk[0], ())}
            return lk[1] is item and self.right_map(maps, r, kind) is not False and pf in (['0', 'value'] + tail, ['0'] + tail if how == {'value'} else ['0', 'value'] + tail)
        if o is None:
            ss = [s for s in subterms(some) if s.k == 'src']
            say.maybe(inst + ' data', show(some), it, some); return
        seqs = rounds.get(o, ())
        loops = [s for s in seqs if s[0] == 'loop']
        if len(seqs) != 1 or len(loops) != 1:
            early = [s for s, q in self.fed if q is o and s in self.left]
            if early and not seqs: say.ob(inst + ' data', False, 'the walk over %s can stop before its end' % show(early[0]))
            elif len(seqs): say.ob(inst + ' data', False, 'the list written is not one walk over the data of the histogram')
            else: say.maybe(inst + ' data', 'list not followed')
            return
        s = loops[0][1]
        r = src_ok(s)
        what = {None: 'bucket counts', 'index': 'bucket indices', 'count': 'counts of the listed buckets'}[want]
        if r is None: say.maybe(inst + ' data', show(s), it, s)
        else: say.ob(inst + ' data', r, 'holds %s instead of the %s' % (show(s), what))
        if s in self.back: say.ob(inst + ' data', False, 'is written in reverse')
        sit = self.item(s)
        for q, rr in self.rounds:
            if q is not s: continue
            d = dict(rr)
            els = d.get(o, ())
            if len(els) != 1: say.ob(inst + ' data', False, 'an element of the data is entered %d times' % len(els)); continue
            x = norm(it, els[0][1])
            if x.k == 'agg' and x.a[1] == 'Some': x = norm(it, x.a[3][0])
            y = x
            while y.k == 'cast' and y.a[0] in ('u64',): y = norm(it, y.a[1])
            if y is sit: say.ob(inst + ' element', True)
            elif y.k in ('unk', 'phi'): say.maybe(inst + ' element', show(x), it, x)
            else: say.ob(inst + ' element', False, 'holds %s instead of the element itself' % show(x))

def is_nanos(it, t, of):
    """whether t is of(..)'s duration as nanoseconds in a u64; None when not known"""
    t = norm(it, t)
    while t.k == 'cast' and t.a[0] in ('u64', 'u128'): t = norm(it, t.a[1])
    if t.k == 'call' and last(t.a[0]) == 'as_nanos' and t.a[1]: return of(norm(it, t.a[1][0]))
    if t.k == 'call' and last(t.a[0]) in ('as_secs', 'as_millis', 'as_micros', 'subsec_nanos', 'as_secs_f64', 'subsec_micros', 'subsec_millis'): return False
    return None if unsure(root(t)[0]) or t.k not in ('int', 'call', 'bin') and not (t.k == 'cast' and NARROW.get(t.a[0], 64) < 63) else False

def rows(ctx, R='rows'):
    sch = schema(ctx, 'schema')
    say = Say(ctx, R)
    if sch is None: say.maybe('rows', 'schema not followed'); return
    S, ck, op = setup(ctx)
    PW = ctx.adt(X, 'ParquetWriter')
    k = ctx.method(PW, 'push'); sp = ctx.F.bodies[k].get('span', '')
    it = ctx.run(k, opaque=op, cache=False)
    W = Rows(ctx, it, say, sch, ck)
    ctx.floor(R, 'columns followed', W.n, 6)
    if not W.target or not W.target <= set(W.types): say.maybe('rows', 'list of columns not followed'); return
    for (o, how), span in W.cut.items():
        if o in W.target or 'Option<u64>' in W.types[o]: say.ob('order', False, 'what is written is changed by %s' % how, span)
    schf = [n for n, x in sch['kept'].items() if x.k == 'call' and 'Schema' in x.a[0]]
    for st, v, nd, ns in W.results():
        known, aux = st[1], st[4]
        wrote = [f for f in aux if f[0] == 'wrote']
        if v.k == 'agg' and v.a[1] == 'Err': say.ob('failure', True); continue
        if not wrote: say.ob('one row', False, 'success is reported without a row having been written', sp); continue
        _, n, res, batch, sink, span = wrote[0]
        say.ob('one row', n == 1, 'a snapshot is written more than once', span)
        if v is not res:
            if v.k == 'agg' and v.a[1] == 'Ok': say.ob('failure', is_var(known, res, 'Ok'), 'success is reported whether or not writing failed', sp)
            elif unsure(v): say.maybe('failure', show(v), it, v)
            else: say.ob('failure', False, 'returns %s instead of the outcome of writing' % show(v), sp)
        b, p = root(batch)
        if not (b.k == 'call' and last(b.a[0]) != 'slice' and 'RecordBatch' in b.a[0] and p == (('v', 'Ok'), ('f', '0'))): say.maybe('batch', show(batch), it, batch); continue
        if b.a[1][0].k not in ('unk', 'phi') and schf: say.ob('batch schema', fields(b.a[1][0])[0] is A0 and fields(b.a[1][0])[1] in [(n,) for n in schf], 'the row is checked against %s' % show(b.a[1][0]), sp)
        for s in st[0]:
            sk = snap_kind(it, s)
            if sk and any(q is s and 'Map<' in W.types[o] for q, o in W.fed): say.ob(ONE[sk] + ' lookup', False, 'not every %s of the snapshot is entered for the row' % ONE[sk], sp)
        seq = [s for o in W.target for s in W.seq_of(st, o)]
        head, loops = [s for s in seq if s[0] == 'el'], [W.kind(s[1]) for s in seq if s[0] == 'loop']
        say.ob('order', loops == sch['order'], 'columns are written for %s, but declared for %s' % (', '.join(map(str, loops)), ', '.join(map(str, sch['order']))), sp)
        if any(s[0] == 'loop' and s[1] in W.back for s in seq): say.ob('order', False, 'columns are written from the back', sp)
        if len(head) != 2 or [s[0] for s in seq[:2]] != ['el', 'el']: say.ob('leading columns', False, '%d leading column(s) instead of timestamp and duration' % len(head), sp); continue
        ts, du = W.column(head[0][1]), W.column(head[1][1])
        if ts is None: say.maybe('timestamp', show(head[0][1]), it, head[0][1])
        else:
            say.ob('timestamp', ts[0] == 'UInt64' and len(ts[1]) == 1, 'is written as %d value(s) of %s' % (len(ts[1]), ts[0]), sp)
            if len(ts[1]) == 1:
                x = norm(it, ts[1][0])
                if x.k == 'agg' and x.a[1] == 'Some': x = norm(it, x.a[3][0])
                def of(d):
                    r, p = root(d)
                    if r.k == 'call' and last(r.a[0]) == 'duration_since' and len(r.a[1]) == 2:
                        a, b = norm(it, r.a[1][0]), norm(it, r.a[1][1])
                        return a.k == 'call' and last(a.a[0]) == 'systemtime' and fields(norm(it, a.a[1][0]))[0] is A1 and 'UNIX_EPOCH' in show(b) or (None if unsure(a) and last(callname(a)) != 'systemtime' else False)
                    return None if unsure(r) or r.k == 'call' and 'Duration' in r.a[0] else False
                ok = is_nanos(it, x, of)
                if ok is None: say.maybe('timestamp', show(x), it, x)
                else: say.ob('timestamp', ok, 'holds %s instead of the time of the snapshot in nanoseconds' % show(x), sp)
        if du is None: say.maybe('duration', show(head[1][1]), it, head[1][1])
        else:
            say.ob('duration', du[0] == 'UInt64' and len(du[1]) == 1, 'is written as %d value(s) of %s' % (len(du[1]), du[0]), sp)
            if len(du[1]) == 1:
                x = norm(it, W.P.resolve(du[1][0], ns))
                dur = [t for t, w in known if t.k == 'call' and last(t.a[0]) == 'duration' and t.a[0].startswith(X)]
                if x.k == 'agg' and x.a[1] == 'None': say.ob('duration', any(is_var(known, d, 'None') for d in dur), 'null is written for a snapshot that has a duration', sp)
                elif x.k == 'agg' and x.a[1] == 'Some':
                    def of(d):
                        r, p = root(d)
                        if r.k == 'call' and last(r.a[0]) == 'duration' and r.a[0].startswith(X): return fields(norm(it, r.a[1][0]))[0] is A1 and p == (('v', 'Some'), ('f', '0'))
                        return None if unsure(r) else False
                    ok = is_nanos(it, x.a[3][0], of)
                    if ok is None: say.maybe('duration', show(x), it, x)
                    else: say.ob('duration', ok, 'holds %s instead of the duration of the snapshot in nanoseconds' % show(x), sp)
                elif unsure(root(x)[0]): say.maybe('duration', show(x), it, x)
                else: say.ob('duration', False, 'holds %s, which is never null' % show(x), sp)
