"""C15: snapshot versions: accessors, serialisation, decoding."""
from ..frame import rule, Missing
from ..q import *
from .. import shared
from ..shared import A0, A1, note_edge, eqv
SCOPE = 'all'
TECHNIQUE = 'static analysis: path-sensitive value flow of the accessors and of the (macro-generated) encoding and decoding functions over compiler MIR'
EXPLAIN = ("Each accessor is followed on every path: knowing which version the snapshot is, it must return that version's own field, the container accessors by moving it out (leaving an empty container), and a duration exactly for the versions that have the field. "
           "Every version's and every reading's Serialize must, on every path that ends in success, emit each field once, unconditionally, under its own name, in declaration order, with its own value; its decoder must recognise the same names in the same order. "
           "For the version enum, the order in which versions are tried is read off the decoder; for every ordered pair, data written by one version must be impossible to decode as the other, because the right one is tried first or because the wrong "
           "one requires a field (by name, and by position for array encodings) that the data lacks or rejects one it has. to_json and to_msgpack must encode exactly the given value and return the encoder's error.")
ASSUME = ["serde, serde_json and rmp_serde implement their documented traits; the untagged-enum buffer rejects sequences with elements left over"]
R = 'snapshot'
X = 'metriken_exposition'
SER, DE = 'serde::ser::Serialize', 'serde::de::Deserialize'
opaque = lambda v: v.k in ('unk', 'phi', 'old', 'mut', 'item')

EDITS = {'truncate', 'pop', 'retain', 'retain_mut', 'dedup', 'dedup_by', 'dedup_by_key', 'swap_remove', 'split_off', 'swap', 'reverse', 'sort', 'sort_by', 'sort_by_key', 'sort_unstable', 'sort_unstable_by', 'sort_unstable_by_key', 'rotate_left', 'rotate_right', 'pop_if', 'set_len', 'resize', 'insert', 'remove', 'push', 'extend', 'sort_by_cached_key'}

def rooted(it, P, v, ns): return norm(it, P.resolve(v, ns))

def raw_calls(b):
    for bb in b['blocks']:
        t = bb['t']
        if t['t'] == 'call':
            f = t['f'].get('k', {}).get('fn') if isinstance(t.get('f'), dict) and isinstance(t['f'].get('k'), dict) else None
            if f: yield f, t

def cstr(op): return op.get('k', {}).get('str') if isinstance(op.get('k'), dict) else None

def variants(ctx, S):
    """variant -> payload type"""
    return {v['n']: (v['fs'][0]['ty'] if len(v['fs']) == 1 else None) for v in ctx.F.adts[S]['vars']}

def accessors(ctx, S, vs):
    sp = lambda k: ctx.F.bodies[k].get('span', '')
    for m, moved in (('systemtime', False), ('duration', False), ('metadata', True), ('counters', True), ('gauges', True), ('histograms', True)):
        inst = 'Snapshot::' + m
        def one():
            k = ctx.method(S, m); it = ctx.run(k)
            def delta(P, s, kind, x, n):
                known, takes = s
                if kind == 'edge': return (note_edge(known, x), takes)
                if x.kind == 'call' and x.v and last(x.path) == 'clear' and x.at and x.at[0].startswith('&mut '):
                    t = norm(it, P.resolve(x.v[0]))
                    if fields(t)[0] is A0: takes = takes + ((t, x),)
                if x.kind in ('take', 'replace'):
                    t = norm(it, P.resolve(x.v[0]))
                    if fields(t)[0] is A0: takes = takes + ((t, x),)
                return (known, takes[:4])
            P = Prod(it, (frozenset(), ()), delta)
            seen = set()
            for nd in exits(it):
                ev = [e for e in it.events[nd] if e.kind == 'return'][0]
                for (known, takes), ns in P.ends.get(nd, ()):
                    v = rooted(it, P, ev.v[0], ns)
                    ver = [x for t, x in known if t is A0]
                    for names, x in updates(after(it, P, nd, ns, ('M', A0))):
                        ctx.ob(R, inst + ' leaves the rest', moved and names == ('0', m), 'changes %s of the snapshot' % '.'.join(names), sp(k))
                    for e in list(it.all_events('call')) + list(it.all_events('iter')):
                        t = norm(it, e.v[0]) if e.v and e.at and e.at[0].startswith('&mut ') else None
                        if t is not None and fields(t)[0] is A0 and fields(t)[1]: ctx.ob(R, inst + ' leaves the rest', moved and fields(t)[1] == ('0', m), 'changes %s of the snapshot' % '.'.join(fields(t)[1]), e.span)
                        if t is not None and fields(t)[0] is A0 and moved and fields(t)[1] == ('0', m) and (last(e.path) in EDITS or last(e.path) == 'drain' and len(e.v) > 1 and is_range(norm(it, e.v[1]))): ctx.ob(R, inst + ' hands over', False, 'what is handed over is changed by %s' % short(e.path), e.span)
                    for V in (ver or list(vs)):
                        seen.add(V)
                        if vs.get(V) is None: ctx.undecided(R, inst, 'version %s' % V); continue
                        fs = [f['n'] for w in ctx.F.adts[vs[V].split('<')[0]]['vars'] for f in w['fs']]
                        place = it.project(it.project(it.project(A0, ('v', V)), ('f', '0')), ('f', m))
                        i = '%s of %s' % (inst, V)
                        if m == 'duration' and m not in fs:
                            if opaque(v): ctx.unsure(R, i, it, v); continue
                            ctx.ob(R, i, v.k == 'agg' and v.a[1] == 'None', 'reports %s for a version without a duration' % show(v), sp(k)); continue
                        if m not in fs: ctx.ob(R, i, False, 'the version has no %s' % m, sp(k)); continue
                        want = (A0, ('0', m))
                        got = v
                        if m == 'duration':
                            if v.k == 'agg' and v.a[1] == 'Some': got = v.a[3][0]
                            elif opaque(v): ctx.unsure(R, i, it, v); continue
                            else: ctx.ob(R, i, False, 'reports %s although the snapshot has a duration' % show(v), sp(k)); continue
                        got = norm(it, got)
                        if got.k == 'call' and last(got.a[0]) in ('new', 'with_capacity', 'default', 'coll_new') and any(norm(it, e.v[0]) is got and any(fields(norm(it, a)) == want for a in e.v[1:]) for e in it.all_events('call') if len(e.v) > 1): ctx.unsure(R, i, it, v); continue
                        if opaque(got) or (got.k == 'call' and 'coll_new' in got.a[0]): ctx.unsure(R, i, it, v); continue
                        ctx.ob(R, i, fields(got) == want and root(got)[1][:1] == (('v', V),), 'returns %s instead of the snapshot\'s own %s' % (show(v), m), sp(k))
                        if moved:
                            mine = [e for t, e in takes if fields(t) == want]
                            ctx.ob(R, i + ' hands over', len(mine) == 1, 'the %s stay in the snapshot and can be handed out again' % m, sp(k))
                        for t, e in takes:
                            ctx.ob(R, i + ' leaves the rest', moved and fields(t) == want, 'empties %s' % show(t), e.span)
            ctx.floor(R, inst + ' versions', len(seen), len(vs))
        rule(ctx, R, inst, one)

def encoded(ctx, adt):
    """names a struct is encoded under, in order; reports obligations"""
    k = ctx.timpl(adt, SER, 'serialize'); nm = last(adt)
    it = ctx.run(k)
    decl = [f['n'] for f in ctx.F.adts[adt]['vars'][0]['fs']]
    sp = ctx.F.bodies[k].get('span', '')
    ends = [e for e in it.all_events('call') if last(e.path) == 'end' and 'Serialize' in e.path]
    if not ends or not any(last(e.path) == 'serialize_struct' for e in it.all_events('call')): ctx.undecided(R, nm + ' encoding', 'not written as a struct'); return None
    def delta(P, s, kind, x, n):
        if kind != 'ev' or x.kind != 'call': return s
        if last(x.path) == 'serialize_field' and len(x.v) == 3: return s + (x,)
        if last(x.path) == 'skip_field': return s + (x,)
        return s
    P = Prod(it, (), delta)
    names = None; n = 0
    for nd in exits(it):
        ev = [e for e in it.events[nd] if e.kind == 'return'][0]
        for seq, ns in P.ends.get(nd, ()):
            v = rooted(it, P, ev.v[0], ns)
            done = v.k == 'call' and last(v.a[0]) == 'end' or v.k == 'agg' and v.a[1] == 'Ok'
            if not done: continue
            n += 1
            got = []
            for e in seq:
                if last(e.path) == 'skip_field': got.append((None, None)); ctx.ob(R, nm + ' encoding', False, 'leaves out a field', e.span); continue
                name = norm(it, e.v[1]); val = norm(it, e.v[2])
                r, fs = fields(val)
                if name.k != 'str': ctx.undecided(R, nm + ' encoding', 'under the name %s' % show(name)); return None
                got.append((name.a[0], fs[0] if r is A0 and len(fs) == 1 else None))
                if r is not A0 or len(fs) != 1:
                    (ctx.unsure(R, '%s encoding of %s' % (nm, name.a[0]), it, val) if opaque(val) else ctx.ob(R, '%s encoding of %s' % (nm, name.a[0]), False, 'writes %s, not the field itself' % show(val), e.span))
            written = [f for _, f in got]
            for f in decl: ctx.ob(R, '%s encoding of %s' % (nm, f), written.count(f) == 1, 'the field %s is written %d times on a path that succeeds' % (f, written.count(f)), sp)
            names = got if names is None else names
            ctx.ob(R, nm + ' encoding is fixed', names == got, 'what is written depends on the content', sp)
    ctx.floor(R, nm + ' encoding paths', n, 1)
    return names

def decoded(ctx, adt):
    """{'names': [[accepted names] per position], 'required': positions required by name, 'rseq': positions required in a sequence, 'strict': rejects unknown names}"""
    base = '<%s as %s>::deserialize' % (adt, DE)
    vm, vq, vstr = ('<%s::__Visitor as serde::de::Visitor>::visit_map' % base, '<%s::__Visitor as serde::de::Visitor>::visit_seq' % base, '<%s::__FieldVisitor as serde::de::Visitor>::visit_str' % base)
    if not all(k in ctx.F.bodies for k in (vm, vstr, vq)): return None
    it = ctx.run(vstr)
    byfield, strict = {}, True
    P = Prod(it, frozenset(), lambda P, s, kind, x, n: note_edge(s, x) if kind == 'edge' else s)
    for nd in exits(it):
        ev = [e for e in it.events[nd] if e.kind == 'return'][0]
        for known, ns in P.ends.get(nd, ()):
            v = rooted(it, P, ev.v[0], ns)
            if v.k == 'agg' and v.a[1] == 'Ok' and v.a[3] and v.a[3][0].k == 'agg':
                var = v.a[3][0].a[1]
                if var == '__ignore': strict = False; continue
                for t, x in known:
                    if x is True and t.k == 'call' and last(t.a[0]) == 'eq':
                        for a in t.a[1]:
                            if norm(it, a).k == 'str': byfield.setdefault(var, []).append(norm(it, a).a[0])
    order = sorted(byfield, key=lambda v: int(v.replace('__field', '') or -1))
    names = [byfield[v] for v in order]
    req = set()
    for f, t in raw_calls(ctx.F.bodies[vm]):
        if last(f['path']) == 'missing_field' and t['a'] and cstr(t['a'][0]) is not None:
            if (f.get('args') or [''])[0].startswith('core::option::Option<'): continue
            req.add(cstr(t['a'][0]))
    rseq = set()
    for f, t in raw_calls(ctx.F.bodies[vq]):
        if last(f['path']) == 'invalid_length' and isinstance(t['a'][0].get('k'), dict) and 'int' in t['a'][0]['k']: rseq.add(int(t['a'][0]['k']['int']))
    return {'names': names, 'required': [i for i, ns in enumerate(names) if set(ns) & req], 'rseq': sorted(rseq), 'strict': strict}

def check(ctx):
    S = ctx.adt(X, 'Snapshot')
    vs = variants(ctx, S)
    ctx.floor(R, 'snapshot versions', len(vs), 2)
    accessors(ctx, S, vs)
    payload = {v: t.split('<')[0] for v, t in vs.items() if t}
    enc, dec = {}, {}
    def structs():
        for adt in [ctx.adt(X, n) for n in ('Counter', 'Gauge', 'Histogram')] + sorted(payload.values()):
            def one():
                enc[adt] = encoded(ctx, adt)
                dec[adt] = decoded(ctx, adt)
                nm = last(adt)
                if enc[adt] is None: return
                if dec[adt] is None: ctx.undecided(R, nm + ' decoding', 'the decoder is not the derived one'); return
                order = [n for n, _ in enc[adt]]
                ok = len(order) == len(dec[adt]['names']) and all(n in acc for n, acc in zip(order, dec[adt]['names']))
                ctx.ob(R, nm + ' decoding', ok, 'is written as %s but read as %s' % (order, dec[adt]['names']), ctx.F.adts[adt].get('span', ''))
            rule(ctx, R, last(adt), one)
    structs()
    def ser_enum():
        k = ctx.timpl(S, SER, 'serialize')
        it = ctx.run(k, opaque=lambda b: b['path'] != k and b['path'].endswith(' as %s>::serialize' % SER), cache=False)
        P = Prod(it, frozenset(), lambda P, s, kind, x, n: note_edge(s, x) if kind == 'edge' else s)
        seen = set()
        for nd in exits(it):
            ev = [e for e in it.events[nd] if e.kind == 'return'][0]
            for known, ns in P.ends.get(nd, ()):
                v = rooted(it, P, ev.v[0], ns)
                for V in [x for t, x in known if t is A0] or list(vs):
                    seen.add(V)
                    if v.k == 'call' and last(v.a[0]) == 'serialize' and len(v.a[1]) == 2:
                        ctx.ob(R, 'Snapshot encoding of %s' % V, fields(norm(it, v.a[1][0])) == (A0, ('0',)) and norm(it, v.a[1][1]) is A1, 'writes %s' % show(v), ev.span)
                    else: ctx.unsure(R, 'Snapshot encoding of %s' % V, it, v)
        ctx.floor(R, 'Snapshot encoding versions', len(seen), len(vs))
    rule(ctx, R, 'Snapshot encoding', ser_enum)
    def de_enum():
        k = ctx.timpl(S, DE, 'deserialize')
        it = ctx.run(k, opaque=lambda b: b['path'] != k and b['path'].endswith(' as %s>::deserialize' % DE), cache=False)
        paths = []
        def attempt(e):
            if e.kind != 'call' or last(e.path) != 'deserialize': return None
            c = [v for v, a in payload.items() if '<%s as ' % a in e.path or a + ',' in (e.dt or '') or a + '>' in (e.dt or '')]
            return c[0] if len(c) == 1 else None
        def delta(P, s, kind, x, n):
            known, seq = s
            if kind == 'edge': return (note_edge(known, x), seq)
            a = attempt(x)
            return (known, seq + ((a, x.result),)) if a else s
        P = Prod(it, (frozenset(), ()), delta)
        before = {}      # version -> versions certainly tried (and failed) before it succeeds
        for nd in exits(it):
            ev = [e for e in it.events[nd] if e.kind == 'return'][0]
            for (known, seq), ns in P.ends.get(nd, ()):
                v = rooted(it, P, ev.v[0], ns)
                if not (v.k == 'agg' and v.a[1] == 'Ok' and v.a[3]):
                    if v.k == 'agg' and v.a[1] == 'Err': continue
                    ctx.unsure(R, 'Snapshot decoding', it, v); return
                x = v.a[3][0]
                if x.k != 'agg' or x.a[1] not in vs: ctx.unsure(R, 'Snapshot decoding', it, v); return
                V = x.a[1]
                src = root(norm(it, x.a[3][0]))[0]
                mine = [r for a, r in seq if a == V]
                if not mine: ctx.unsure(R, 'Snapshot decoding', it, v); return
                ctx.ob(R, 'Snapshot decoding of %s' % V, any(norm(it, r) is src for r in mine), 'yields %s' % show(v), ev.span)
                failed = {a for a, r in seq if (r, 'Err') in known}
                before[V] = failed if V not in before else before[V] & failed
        if not before: ctx.undecided(R, 'Snapshot decoding', 'no version is tried'); return
        for V in vs: ctx.ob(R, 'Snapshot decoding of %s exists' % V, V in before, 'no data is ever read as version %s' % V)
        for E in before:
            for L in vs:
                if L == E or payload.get(L) is None or payload.get(E) is None: continue
                inst = '%s data is never read as %s' % (L, E)
                if L in before[E]: ctx.ob(R, inst, True); continue
                el, de = enc.get(payload[L]), dec.get(payload[E])
                if el is None or de is None: ctx.undecided(R, inst, 'encoding or decoding not followed'); continue
                names = [n for n, _ in el]
                bymap = any(not set(de['names'][i]) & set(names) for i in de['required']) or (de['strict'] and any(not any(n in acc for acc in de['names']) for n in names))
                byseq = any(i >= len(names) for i in de['rseq']) or len(names) > len(de['names'])
                ctx.ob(R, inst + ' (maps)', bymap, '%s is tried first and accepts a map written from %s: everything it requires is there' % (E, L), ctx.F.adts[payload[E]].get('span', ''))
                ctx.ob(R, inst + ' (sequences)', byseq, '%s is tried first and accepts a sequence written from %s' % (E, L), ctx.F.adts[payload[E]].get('span', ''))
    rule(ctx, R, 'Snapshot decoding', de_enum)
    for m, crate in (('to_json', 'serde_json'), ('to_msgpack', 'rmp_serde')):
        inst = 'Snapshot::' + m
        def one():
            k = ctx.method(S, m); it = ctx.run(k); sp = ctx.F.bodies[k].get('span', ''); n = 0
            def is_enc(t): return t.k == 'call' and t.a[0].startswith(crate)
            P = Prod(it, (frozenset(), ()), lambda P, s, kind, x, nd: (note_edge(s[0], x), s[1]) if kind == 'edge' else ((s[0], s[1] + (x,)) if x.kind == 'call' and x.path.startswith('alloc::vec::Vec::') and x.v and not is_conv(x.path) else s))
            for nd in exits(it):
                ev = [e for e in it.events[nd] if e.kind == 'return'][0]
                for (known, ops), ns in P.ends.get(nd, ()):
                    n += 1
                    v = rooted(it, P, ev.v[0], ns)
                    known = dict(known)
                    r = root(v)[0]
                    if is_enc(v): enc_t = v; whole = True
                    elif v.k == 'agg' and v.a[3]:
                        x = norm(it, P.resolve(v.a[3][0], ns)); enc_t = root(x)[0]; whole = False
                        if v.a[1] == 'Err':
                            if opaque(enc_t): ctx.unsure(R, inst, it, v)
                            else: ctx.ob(R, inst + ' error', is_enc(enc_t) or known.get(enc_t) == 'Err' or any(is_enc(t) and w == 'Err' for t, w in known.items() if isinstance(t, T)), 'fails with %s' % show(v), sp)
                            continue
                        while not is_enc(enc_t) and enc_t.k == 'call' and enc_t.a[1] and last(enc_t.a[0]) in ('into_bytes', 'to_vec', 'into_vec'): enc_t = root(norm(it, enc_t.a[1][0]))[0]
                        if is_enc(enc_t): ctx.ob(R, inst + ' error', known.get(enc_t) != 'Err', 'reports success although encoding failed', sp)
                        failed = [t for t, w in known.items() if isinstance(t, T) and is_enc(t) and w == 'Err']
                        if failed: ctx.ob(R, inst + ' error', False, 'reports success although encoding failed', sp); continue
                    else: enc_t = r
                    if not is_enc(enc_t) and v.k == 'agg' and v.a[1] == 'Ok' and any(is_enc(t) and w == 'Ok' for t, w in known.items() if isinstance(t, T)) and enc_t.k == 'call' and enc_t.a[0].startswith('alloc::vec::Vec') and last(enc_t.a[0]) in ('new', 'with_capacity') and not any(enc_t in set(subterms(norm(it, a))) for e in it.all_events('call') for a in e.v):
                        ctx.ob(R, inst, False, 'returns an empty %s instead of the encoding' % show(v), sp); continue
                    if not is_enc(enc_t):
                        (ctx.unsure(R, inst, it, v) if opaque(enc_t) or enc_t.k == 'call' and (enc_t.a[0].startswith('alloc::vec::Vec') or not enc_t.a[0].startswith(('core::', 'alloc::', 'std::'))) else ctx.ob(R, inst, False, 'returns %s' % show(v), sp)); continue
                    arg = norm(it, enc_t.a[1][0])
                    ctx.ob(R, inst, arg is A0, 'encodes %s instead of the given value' % show(arg), sp)
                    for e in ops:
                        if root(norm(it, e.v[0]))[0] is enc_t:
                            ok = last(e.path) in ('reserve', 'len', 'is_empty', 'as_slice', 'shrink_to_fit') or last(e.path) == 'push' and m == 'to_json' and e.v[1].k == 'int' and e.v[1].a[0] in (10, 32, 9, 13)
                            if not ok and last(e.path) in ('extend_from_slice', 'extend', 'insert') and m == 'to_json': ctx.unsure(R, inst + ' text', it, e.v[1]); continue
                            ctx.ob(R, inst + ' text', ok, 'the encoded text is changed by %s' % short(e.path), e.span)
            ctx.floor(R, inst + ' paths', n, 1)
        rule(ctx, R, inst, one)
