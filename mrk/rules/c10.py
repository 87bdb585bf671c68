"""C10: default formatting."""
from ..frame import rule, Missing
from ..q import *
from ..registry import entry_fields
from ..core import STD
from ..strings import Grammar, Build, BAD, CharMap
from .. import shared
from ..shared import A0, A1
from . import c09
SCOPE = 'core'
TECHNIQUE = 'static analysis: the text built on every path is abstracted to the transition monoid of a label-list grammar over compiler MIR'
EXPLAIN = ("Every path of the default formatter is followed and the text it returns is summarised by how it drives a small automaton for the grammar name [ '{' key=\"escaped value\" { ', ' key=\"escaped value\" } '}' ]. On the simple format the text has to be "
           "the entry's name; on the Prometheus format the name alone is accepted only where the metadata is known to have no pair, and otherwise every pair the metadata iterator yields must contribute exactly one label of its own key and value. "
           "The escaping applied to a value is evaluated on the three special characters by constant folding of the replacement chain. The entry's formatter selection, its metadata accessor and the metadata iterator are covered by the shared rules.")
ASSUME = ["str::replace, join and format! behave as documented", "metadata keys are label names (no escaping is defined for them)"]
R = 'text'

def fold_escape(it, t):
    """(value escaped, {char: its escape}) when t is a chain of replacements"""
    chain = []
    while t.k == 'call' and last(t.a[0]) == 'replace' and len(t.a[1]) == 3:
        pat, rep = t.a[1][1], norm(it, t.a[1][2])
        pat = norm(it, pat)
        p = chr(pat.a[0]) if pat.k == 'int' else pat.a[0] if pat.k == 'str' else None
        if p is None or rep.k != 'str': return t, None
        chain.append((p, rep.a[0])); t = norm(it, t.a[1][0])
    def f(c):
        for p, r in reversed(chain): c = c.replace(p, r)
        return c
    some = list('\\"\n\r\t a,}{=') + [p for p, _ in chain]
    return t, {c: f(c) for c in some + [a + b for a in some for b in some]}

WANT = {'\\': '\\\\', '"': '\\"', '\n': '\\n'}
def escaped(s): return ''.join(WANT.get(c, c) for c in s)

def text(ctx):
    E = ctx.adt('metriken_core', 'MetricEntry')
    fm, fn, fd = entry_fields(ctx)
    k = ctx.fn('metriken_core', 'default_formatter')
    sp = ctx.F.bodies[k].get('span', '')
    def leaf_for(it, notes):
        nm = it.project(A0, ('f', fn))
        def leaf(it_, t):
            if t is nm: return [('NAME',)]
            r, p = root(t)
            if r.k == 'item':
                f = tuple(e[1] for e in p if e[0] == 'f')
                if f == ('0',): return [('KEY', r)]
                if f == ('1',): notes.append((t, {})); return [('RAW', r)]
            if t.k == 'call' and last(t.a[0]) == 'replace':
                b, m = fold_escape(it, t)
                r, p = root(b)
                if r.k == 'item' and tuple(e[1] for e in p if e[0] == 'f') == ('1',) and m is not None:
                    good = all(m[c] == escaped(c) for c in m)
                    notes.append((t, {c: m[c] for c in m if m[c] != escaped(c)}))
                    return [('VAL', r)] if good else [('RAW', r)]
            # other parts of the entry, and parts or rewritings of what is to be shown
            if r is A0 and p: return [('OTHER',)]
            if r.k == 'call' and r.a[0].startswith(STD) and not is_conv(r.a[0]) and r.a[0] not in ('format!', 'vec!') and last(r.a[0]) not in ('join', 'concat', 'replace') and r.a[1] and \
                    (last(r.a[0]) not in ('collect', 'default', 'new', 'with_capacity', 'iter')) and not r.a[0].startswith(('core::fmt', 'core::iter')) and leaf(it_, norm(it, r.a[1][0])) is not None: return [('CHANGED',)]
            return None
        return leaf
    # the automaton is kept finite by not naming the item: key and value of different items never meet because
    # only the current item's terms are recognised
    S = ['start', 'name', 'open', 'key', 'eq', 'q', 'val', 'lab', 'sep', 'next', 'end']
    def step(s, t):
        k = t[0] if isinstance(t, tuple) else t
        tr = {('start', 'NAME'): 'name', ('name', '{'): 'open', ('open', 'KEY'): 'key', ('key', '='): 'eq', ('eq', '"'): 'q', ('q', 'VAL'): 'val', ('val', '"'): 'lab',
              ('lab', ','): 'sep', ('sep', ' '): 'sep', ('sep', 'KEY'): 'key', ('lab', '}'): 'end'}
        return tr.get((s, k), BAD)
    def run(fmt):
        def asm(d): return frozenset([fmt]) if d.k == 'discr' and d.a[0] is A1 else None
        it = ctx.run(k, assume=asm, cache=False)
        notes = []
        srcs = {e.v[0] for e in it.all_events('next', 'next_back')}
        class B(Build):
            def is_src_base(self, t):
                return any(root(x)[0].k in ('mut', 'static') for x in nalts(self.it, t)) or any(x in srcs_bases for x in (t, norm(self.it, t)))
            def char_loop(self, x):
                return next((c for c in maps if c.src is x), None)
            def delta(self, P, st, kind, x, n):
                if kind == 'ev' and any(x in c.events for c in maps): return st
                if kind == 'edge' and x and x[0] == 'next' and self.char_loop(x[1]) is not None and x[2] == 'None':
                    self.cur = P
                    c = self.char_loop(x[1])
                    objs = {y for e in c.events for y in alts(it, e.v[0])}
                    if len(objs) != 1: self.unknown.append((c.events[0], 'text built character by character')); return st
                    obj = objs.pop()
                    was = self.content(obj, st)
                    if self.is_coll(was): was = self.lits([], st) if was[1] == 'e' else None       # collected into a String
                    return self.put(st, obj, self.cat(was, self.lits([(c.tok, c.item)], st)) if was is not None else None)
                return Build.delta(self, P, st, kind, x, n)
        maps = []
        for x in srcs:
            al = {norm(it, y.a[0]) if y.k == 'src' and y.a[1] == 'chars' else None for y in nalts(it, x)}
            base = al.pop() if len(al) == 1 else None
            if base is None or root(base)[0].k != 'item' or fields(base)[1] != ('1',): continue
            c = CharMap(it, x, list('\\"\n\ta,}{=é'))
            if not c.ok or not c.events: continue
            c.item = root(base)[0]
            good = all(c.out[ch] == {WANT.get(ch, ch)} for ch in c.out)
            notes.append((base if not good else x, {ch: sorted(map(str, c.out[ch]))[0] for ch in c.out if c.out[ch] and c.out[ch] != {WANT.get(ch, ch)}}))
            c.tok = 'VAL' if good else 'RAW'
            maps.append(c)
        srcs_bases = {s for x in srcs for s in subterms(x)}
        meta = {x for x in srcs if mentions(it, x, lambda s: s.k == 'mut') and not mentions(it, x, lambda s: s.k == 'item')}
        b = B(it, Grammar(S, step, 'start'), leaf_for(it, notes), lambda x: x in meta, lambda t: isinstance(t, tuple) and t[0] in ('VAL', 'RAW'))
        return it, b, notes, meta
    variants = [v['n'] for v in ctx.F.adts[ctx.adt('metriken_core', 'Format')]['vars']]
    for fmt in variants:
        def one():
            it, b, notes, meta = run(fmt)
            n = 0
            lab = 'format %s' % fmt
            for c, itst, known, ns, v in b.results():
                n += 1
                if c is None or b.unknown:
                    how = next((h for t in [v] + [x for e, _ in b.unknown for x in (e.v or ())] for h in [lossy(it, t)] if h), None)
                    if how: ctx.ob(R, lab, False, 'the text passes through %s, which leaves out or changes part of it' % how, sp)
                    else: ctx.undecided(R, lab, 'text not followed: %s' % (show(v) if not b.unknown else b.unknown[0][1]))
                    continue
                for f, e, cv, cu in c:
                    s = b.G.apply(f)
                    if fmt != 'Prometheus':
                        ctx.ob(R, lab, s == 'name', 'the text is not exactly the name of the metric: %s' % show(v), sp); continue
                    if s == 'name':
                        ctx.ob(R, lab + ' without labels', itst == 'done0' or 'empty' in known, 'returns the bare name %s' % ('although the metadata has pairs' if itst in ('some', 'done') else 'without the metadata being known to be empty'), sp)
                    else:
                        why = 'the text %s is not the name followed by one key="value" label per pair' % show(v)
                        raw = [m for t, m in notes if m or t.k != 'call']
                        if raw: why += ' (value not escaped: %s)' % ', '.join('%r becomes %r' % x for x in list(raw[0].items())[:3]) if raw[0] else ' (value not escaped)'
                        ctx.ob(R, lab + ' labels', s == 'end', why, sp)
                        if s == 'end':
                            ctx.ob(R, lab + ' every pair', itst in ('done',) and cv and cu == 1, 'not every metadata pair contributes exactly one label', sp)
            for e, t in b.bad: ctx.ob(R, lab, False, t, e.span)
            ctx.floor(R, lab + ' paths', n, 1)
        rule(ctx, R, 'format %s' % fmt, one)
    ctx.floor(R, 'formats', len(variants), 2)

def check(ctx):
    rule(ctx, R, 'default_formatter', lambda: text(ctx))
    rule(ctx, 'formatter', 'formatted', lambda: shared.formatted(ctx))
    rule(ctx, 'metadata', 'metadata', lambda: shared.metadata_accessor(ctx))
    rule(ctx, 'iteration', 'MetadataIter', lambda: c09.iteration(ctx))
    rule(ctx, 'metadata', 'queries', lambda: c09.check_queries(ctx))
    rule(ctx, 'accessors', 'accessors', lambda: shared.accessors(ctx))
